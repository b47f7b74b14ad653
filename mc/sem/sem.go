// Package sem is the meaning oracle: a small neutral syntax tree that can be obtained from the independent
// reference parser (go.starlark.net/syntax) or, for syntax that parser does not know, from the parser under test,
// and a canonical form modulo exactly the documented normalisations of the formatter.
package sem

import (
	"fmt"
	"sort"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"go.starlark.net/syntax"
)

// N is a neutral syntax node.
type N struct {
	K string // kind
	V string // value (operator, name, literal)
	C []*N
}

func n(k, v string, c ...*N) *N { return &N{k, v, c} }

// String renders the tree.
func (x *N) String() string {
	var b strings.Builder
	x.write(&b)
	return b.String()
}

func (x *N) write(b *strings.Builder) {
	if x == nil {
		b.WriteString("nil")
		return
	}
	b.WriteByte('(')
	b.WriteString(x.K)
	if x.V != "" || x.K == "str" {
		fmt.Fprintf(b, " %q", x.V)
	}
	for _, c := range x.C {
		b.WriteByte(' ')
		c.write(b)
	}
	b.WriteByte(')')
}

// Indented renders statements on separate lines (for messages).
func (x *N) Indented() string {
	var b strings.Builder
	for _, c := range x.C {
		b.WriteString(c.String())
		b.WriteByte('\n')
	}
	return b.String()
}

// FromStarlark parses text with the reference parser.
func FromStarlark(text string) (t *N, err error) {
	f, err := syntax.Parse("ref", text, 0)
	if err != nil {
		return nil, err
	}
	return n("file", "", sStmts(f.Stmts)...), nil
}

func sStmts(l []syntax.Stmt) []*N {
	var r []*N
	for _, s := range l {
		r = append(r, sStmt(s))
	}
	return r
}

func sExprs(l []syntax.Expr) []*N {
	var r []*N
	for _, s := range l {
		r = append(r, sExpr(s))
	}
	return r
}

func sStmt(s syntax.Stmt) *N {
	switch s := s.(type) {
	case *syntax.ExprStmt:
		return sExpr(s.X)
	case *syntax.BranchStmt:
		return n("branch", s.Token.String())
	case *syntax.LoadStmt:
		r := n("load", s.Module.Value.(string))
		for i := range s.From {
			r.C = append(r.C, n("sym", s.To[i].Name+"="+s.From[i].Name))
		}
		return r
	case *syntax.AssignStmt:
		return n("assign", s.Op.String(), sExpr(s.LHS), sExpr(s.RHS))
	case *syntax.IfStmt:
		return n("if", "", sExpr(s.Cond), n("block", "", sStmts(s.True)...), n("block", "", sStmts(s.False)...))
	case *syntax.ForStmt:
		return n("for", "", sExpr(s.Vars), sExpr(s.X), n("block", "", sStmts(s.Body)...))
	case *syntax.DefStmt:
		return n("def", s.Name.Name, n("params", "", sExprs(s.Params)...), n("block", "", sStmts(s.Body)...))
	case *syntax.ReturnStmt:
		if s.Result == nil {
			return n("return", "")
		}
		return n("return", "", sExpr(s.Result))
	}
	return n("?stmt", fmt.Sprintf("%T", s))
}

func sOpt(e syntax.Expr) *N {
	if e == nil {
		return n("none", "")
	}
	return sExpr(e)
}

func sExpr(e syntax.Expr) *N {
	switch e := e.(type) {
	case nil:
		return n("none", "")
	case *syntax.Literal:
		switch e.Token {
		case syntax.STRING:
			return n("str", e.Value.(string))
		default:
			return n("num", fmt.Sprintf("%T:%v", e.Value, e.Value))
		}
	case *syntax.Ident:
		return n("id", e.Name)
	case *syntax.BinaryExpr:
		if e.Op == syntax.EQ {
			return n("assign", "=", sExpr(e.X), sExpr(e.Y))
		}
		return n("bin", e.Op.String(), sExpr(e.X), sExpr(e.Y))
	case *syntax.UnaryExpr:
		if e.X == nil {
			return n("un", e.Op.String())
		}
		return n("un", e.Op.String(), sExpr(e.X))
	case *syntax.SliceExpr:
		return n("slice", "", sExpr(e.X), sOpt(e.Lo), sOpt(e.Hi), sOpt(e.Step))
	case *syntax.IndexExpr:
		return n("index", "", sExpr(e.X), sExpr(e.Y))
	case *syntax.DotExpr:
		return n("dot", e.Name.Name, sExpr(e.X))
	case *syntax.CallExpr:
		return n("call", "", append([]*N{sExpr(e.Fn)}, sExprs(e.Args)...)...)
	case *syntax.ListExpr:
		return n("list", "", sExprs(e.List)...)
	case *syntax.DictExpr:
		r := n("dict", "")
		for _, x := range e.List {
			d := x.(*syntax.DictEntry)
			r.C = append(r.C, n("kv", "", sExpr(d.Key), sExpr(d.Value)))
		}
		return r
	case *syntax.DictEntry:
		return n("kv", "", sExpr(e.Key), sExpr(e.Value))
	case *syntax.CondExpr:
		return n("cond", "", sExpr(e.True), sExpr(e.Cond), sExpr(e.False))
	case *syntax.Comprehension:
		r := n("comp", fmt.Sprint(e.Curly), sExpr(e.Body))
		for _, c := range e.Clauses {
			switch c := c.(type) {
			case *syntax.ForClause:
				r.C = append(r.C, n("cfor", "", sExpr(c.Vars), sExpr(c.X)))
			case *syntax.IfClause:
				r.C = append(r.C, n("cif", "", sExpr(c.Cond)))
			}
		}
		return r
	case *syntax.ParenExpr:
		return sExpr(e.X)
	case *syntax.TupleExpr:
		return n("tuple", "", sExprs(e.List)...)
	case *syntax.LambdaExpr:
		return n("lambda", "", n("params", "", sExprs(e.Params)...), sExpr(e.Body))
	}
	return n("?expr", fmt.Sprintf("%T", e))
}

// FromBuild converts a tree of the code under test. keepParens keeps parentheses as nodes.
func FromBuild(f *build.File, keepParens bool) *N {
	return n("file", "", bStmts(f.Stmt, keepParens)...)
}

// FromBuildExpr converts one expression.
func FromBuildExpr(e build.Expr, keepParens bool) *N { return bExpr(e, keepParens) }

func bStmts(l []build.Expr, kp bool) []*N {
	var r []*N
	for _, s := range l {
		if s == nil {
			continue
		}
		if _, ok := s.(*build.CommentBlock); ok {
			continue
		}
		r = append(r, bExpr(s, kp))
	}
	return r
}

func bExprs(l []build.Expr, kp bool) []*N {
	var r []*N
	for _, s := range l {
		r = append(r, bExpr(s, kp))
	}
	return r
}

func bExpr(e build.Expr, kp bool) *N {
	switch e := e.(type) {
	case nil:
		return n("none", "")
	case *build.Ident:
		return n("id", e.Name)
	case *build.TypedIdent:
		return n("typed", e.Ident.Name, bExpr(e.Type, kp))
	case *build.BranchStmt:
		return n("branch", e.Token)
	case *build.LiteralExpr:
		return n("num", normNum(e.Token))
	case *build.StringExpr:
		return n("str", e.Value)
	case *build.CallExpr:
		return n("call", "", append([]*N{bExpr(e.X, kp)}, bExprs(e.List, kp)...)...)
	case *build.DotExpr:
		return n("dot", e.Name, bExpr(e.X, kp))
	case *build.Comprehension:
		r := n("comp", fmt.Sprint(e.Curly), bExpr(e.Body, kp))
		for _, c := range e.Clauses {
			r.C = append(r.C, bExpr(c, kp))
		}
		return r
	case *build.ForClause:
		return n("cfor", "", bExpr(e.Vars, kp), bExpr(e.X, kp))
	case *build.IfClause:
		return n("cif", "", bExpr(e.Cond, kp))
	case *build.KeyValueExpr:
		return n("kv", "", bExpr(e.Key, kp), bExpr(e.Value, kp))
	case *build.DictExpr:
		r := n("dict", "")
		for _, kv := range e.List {
			r.C = append(r.C, bExpr(kv, kp))
		}
		return r
	case *build.ListExpr:
		return n("list", "", bExprs(e.List, kp)...)
	case *build.SetExpr:
		return n("set", "", bExprs(e.List, kp)...)
	case *build.TupleExpr:
		return n("tuple", "", bExprs(e.List, kp)...)
	case *build.UnaryExpr:
		if e.X == nil {
			return n("un", e.Op)
		}
		return n("un", e.Op, bExpr(e.X, kp))
	case *build.BinaryExpr:
		return n("bin", e.Op, bExpr(e.X, kp), bExpr(e.Y, kp))
	case *build.AssignExpr:
		return n("assign", e.Op, bExpr(e.LHS, kp), bExpr(e.RHS, kp))
	case *build.ParenExpr:
		if kp {
			return n("paren", "", bExpr(e.X, kp))
		}
		return bExpr(e.X, kp)
	case *build.SliceExpr:
		return n("slice", "", bExpr(e.X, kp), bExpr(e.From, kp), bExpr(e.To, kp), bExpr(e.Step, kp))
	case *build.IndexExpr:
		return n("index", "", bExpr(e.X, kp), bExpr(e.Y, kp))
	case *build.LambdaExpr:
		r := n("lambda", "", n("params", "", bExprs(e.Params, kp)...))
		r.C = append(r.C, bExprs(e.Body, kp)...)
		return r
	case *build.ConditionalExpr:
		return n("cond", "", bExpr(e.Then, kp), bExpr(e.Test, kp), bExpr(e.Else, kp))
	case *build.LoadStmt:
		r := n("load", e.Module.Value)
		for i := range e.From {
			r.C = append(r.C, n("sym", e.To[i].Name+"="+e.From[i].Name))
		}
		return r
	case *build.DefStmt:
		r := n("def", e.Name, n("params", "", bExprs(e.Params, kp)...), n("block", "", bStmts(e.Body, kp)...))
		if e.Type != nil {
			r.C = append(r.C, n("type", "", bExpr(e.Type, kp)))
		}
		return r
	case *build.ReturnStmt:
		if e.Result == nil {
			return n("return", "")
		}
		return n("return", "", bExpr(e.Result, kp))
	case *build.ForStmt:
		return n("for", "", bExpr(e.Vars, kp), bExpr(e.X, kp), n("block", "", bStmts(e.Body, kp)...))
	case *build.IfStmt:
		return n("if", "", bExpr(e.Cond, kp), n("block", "", bStmts(e.True, kp)...), n("block", "", bStmts(e.False, kp)...))
	case *build.CommentBlock:
		return n("comment", "")
	}
	return n("?", fmt.Sprintf("%T", e))
}

// normNum gives the value of a numeric token (independently of the formatter's own normalisation).
func normNum(t string) string {
	l := strings.ToLower(t)
	if !strings.HasPrefix(l, "0x") && strings.ContainsAny(l, ".e") {
		var f float64
		if _, err := fmt.Sscanf(l, "%g", &f); err == nil {
			return fmt.Sprintf("float64:%v", f)
		}
		return "float?" + l
	}
	var v uint64
	base := 10
	d := l
	switch {
	case strings.HasPrefix(l, "0x"):
		base, d = 16, l[2:]
	case strings.HasPrefix(l, "0o"):
		base, d = 8, l[2:]
	case strings.HasPrefix(l, "0b"):
		base, d = 2, l[2:]
	case len(l) > 1 && l[0] == '0':
		base, d = 8, l[1:]
	}
	if d == "" || len(d) > 15 {
		return "raw:" + l
	}
	for _, c := range d {
		x := strings.IndexRune("0123456789abcdef", c)
		if x < 0 || x >= base {
			return "raw:" + l
		}
		v = v*uint64(base) + uint64(x)
	}
	return fmt.Sprintf("int64:%d", v)
}

// Spec says which documented normalisations apply to a file of some type.
type Spec struct {
	BuildLike  bool // BUILD, WORKSPACE, MODULE: callsort, labels, list sorting
	Module     bool // MODULE.bazel: use_repo positional sorting
	LabelArg   map[string]bool
	LabelDeny  map[string]bool
	SortArg    map[string]bool
	SortDeny   map[string]bool
	SortAllow  map[string]bool
	SkipLoads  map[string]bool
	ListsAsSet bool // every list is compared as a set (files with "keep sorted")

	Only map[string]bool // the names of the rewrites that may have been applied, nil: all of them
}

func (sp *Spec) may(rewrite string) bool { return sp.Only == nil || sp.Only[rewrite] }

func loadName(v string) string {
	to, _, _ := strings.Cut(v, "=")
	return to
}

// AmbiguousLoads returns the names that the loads of a file bind more than once to different things: such a file is
// rejected by Bazel, its meaning is not compared.
func AmbiguousLoads(f *N) map[string]bool {
	first, r := map[string]string{}, map[string]bool{}
	for _, s := range f.C {
		if s.K == "load" {
			for _, y := range s.C {
				name, full := loadName(y.V), s.V+"%"+y.V
				if old, ok := first[name]; ok && old != full {
					r[name] = true
				}
				first[name] = full
			}
		}
	}
	return r
}

// Canon puts the tree in canonical form modulo the documented normalisations:
// loads as a set of bindings, keyword arguments of calls unordered in build-like files, argument
// classes ordered positional/named/*args/**kwargs, labels in label attributes canonicalised, sortable
// lists as sets, docstring indentation.
func Canon(f *N, sp *Spec) *N {
	if sp.Only != nil {
		return canonOnly(f, sp)
	}
	var loads []string
	var rest []*N
	for _, s := range f.C {
		if s.K == "load" {
			for _, y := range s.C {
				if sp.SkipLoads[loadName(y.V)] {
					continue
				}
				loads = append(loads, s.V+"%"+y.V)
			}
			continue
		}
		rest = append(rest, s)
	}
	sort.Strings(loads)
	out := n("file", "")
	prev := ""
	for _, l := range loads {
		if l != prev {
			out.C = append(out.C, n("load", l))
		}
		prev = l
	}
	for _, s := range rest {
		out.C = append(out.C, canon(s, sp))
	}
	return out
}

// canonOnly is Canon when only some of the rewrites may have been applied.
func canonOnly(f *N, sp *Spec) *N {
	var l []*N
	for _, s := range f.C {
		if s.K == "load" {
			c := n("load", s.V)
			for _, y := range s.C {
				if !sp.SkipLoads[loadName(y.V)] {
					c.C = append(c.C, y)
				}
			}
			s = c
		}
		l = append(l, s)
	}
	if sp.may("loadTop") {
		var loads, rest []*N
		for _, s := range l {
			if s.K == "load" {
				loads = append(loads, s)
			} else {
				rest = append(rest, s)
			}
		}
		l = append(loads, rest...)
	}
	if sp.may("sameOriginLoad") {
		first := map[string]*N{}
		var rest []*N
		for _, s := range l {
			if s.K == "load" {
				if x := first[s.V]; x != nil {
					x.C = append(x.C, s.C...)
					continue
				}
				first[s.V] = s
			}
			rest = append(rest, s)
		}
		l = rest
	}
	if sp.may("sortLoadStatements") {
		for i := 0; i < len(l); i++ {
			j := i
			for j < len(l) && l[j].K == "load" {
				j++
			}
			chunk := l[i:j]
			sort.SliceStable(chunk, func(a, b int) bool { return chunk[a].V < chunk[b].V })
			i = j
		}
	}
	out := n("file", "")
	for _, s := range l {
		if s.K != "load" {
			out.C = append(out.C, canon(s, sp))
			continue
		}
		if sp.may("loadsort") {
			var names []string
			for _, y := range s.C {
				names = append(names, y.V)
			}
			sort.Strings(names)
			c := n("load", s.V)
			for i, v := range names {
				if i == 0 || names[i-1] != v {
					c.C = append(c.C, n("sym", v))
				}
			}
			s = c
		}
		out.C = append(out.C, s)
	}
	return out
}

func argClass(a *N) int {
	switch {
	case a.K == "un" && a.V == "**":
		return 4
	case a.K == "un" && a.V == "*":
		return 3
	case a.K == "assign":
		return 2
	}
	return 1
}

func callName(c *N) string {
	x := c.C[0]
	var parts []string
	for x.K == "dot" {
		parts = append(parts, x.V)
		x = x.C[0]
	}
	if x.K != "id" {
		return ""
	}
	parts = append(parts, x.V)
	for i, j := 0, len(parts)-1; i < j; i, j = i+1, j-1 {
		parts[i], parts[j] = parts[j], parts[i]
	}
	return strings.Join(parts, ".")
}

func canon(x *N, sp *Spec) *N {
	switch x.K {
	case "def":
		r := n("def", x.V)
		for _, c := range x.C {
			if sp.may("formatdocstrings") && c.K == "block" && len(c.C) > 0 && c.C[0].K == "str" {
				b := n("block", "", n("docstring", normDoc(c.C[0].V)))
				for _, s := range c.C[1:] {
					b.C = append(b.C, canon(s, sp))
				}
				r.C = append(r.C, b)
				continue
			}
			r.C = append(r.C, canon(c, sp))
		}
		return r
	case "call":
		r := n("call", "", canon(x.C[0], sp))
		name := callName(x)
		args := append([]*N{}, x.C[1:]...)
		if sp.may("reorderarguments") {
			sort.SliceStable(args, func(i, j int) bool { return argClass(args[i]) < argClass(args[j]) })
		}
		if sp.BuildLike && sp.may("callsort") {
			// each run of named arguments
			for i := 0; i < len(args); i++ {
				j := i
				for j < len(args) && argClass(args[j]) == 2 {
					j++
				}
				run := args[i:j]
				sort.SliceStable(run, func(a, b int) bool { return run[a].C[0].V < run[b].C[0].V })
				i = j
			}
		}
		for _, a := range args {
			if sp.BuildLike && a.K == "assign" && a.C[0].K == "id" {
				key := a.C[0].V
				v := a.C[1]
				if sp.may("label") && sp.LabelArg[key] && !sp.LabelDeny[name+"."+key] {
					v = canonLabels(v)
				}
				cv := canon(v, sp)
				ctx := name + "." + key
				if sp.may("listsort") && !sp.SortDeny[ctx] && (sp.SortArg[key] || sp.SortAllow[ctx]) {
					cv = sortLists(cv)
				}
				r.C = append(r.C, n("assign", "=", a.C[0], cv))
				continue
			}
			r.C = append(r.C, canon(a, sp))
		}
		if sp.Module && sp.may("useRepoPositionalsSort") && name == "use_repo" && len(r.C) > 2 {
			tail := r.C[2:]
			l := sortStrs(&N{"list", "", append([]*N{}, tail...)})
			r.C = append(r.C[:2:2], l.C...)
		}
		return r
	case "list":
		r := n("list", "")
		for _, c := range x.C {
			r.C = append(r.C, canon(c, sp))
		}
		if sp.ListsAsSet && sp.may("listsort") {
			return sortStrs(r)
		}
		return r
	}
	r := n(x.K, x.V)
	for _, c := range x.C {
		r.C = append(r.C, canon(c, sp))
	}
	return r
}

// normDoc removes what docstring re-indentation may change: leading blanks of continuation lines and
// trailing blanks of every line but the last.
func normDoc(s string) string {
	l := strings.Split(s, "\n")
	for i := range l {
		if i > 0 {
			l[i] = strings.TrimLeft(l[i], " ")
		}
		if i > 0 && i < len(l)-1 {
			l[i] = strings.TrimRight(l[i], " ")
		}
	}
	return strings.Join(l, "\n")
}

// LabelCanon is the documented label normalisation: redundant target names are dropped.
func LabelCanon(s string) string {
	repo := ""
	rest := s
	if strings.HasPrefix(s, "@") {
		i := strings.Index(s, "//")
		if i < 0 {
			return s
		}
		repo, rest = s[1:i], s[i:]
		for _, c := range repo {
			if !(c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
				return s
			}
		}
		if repo == "" {
			return s
		}
	}
	if !strings.HasPrefix(rest, "//") {
		return s
	}
	i := strings.LastIndex(rest, ":")
	if i < 0 {
		return s
	}
	pkg, tgt := rest[2:i], rest[i+1:]
	last := pkg[strings.LastIndex(pkg, "/")+1:]
	if pkg == "" && repo != "" && tgt == repo {
		return "@" + repo
	}
	if last != "" && last == tgt {
		return s[:len(s)-len(tgt)-1]
	}
	return s
}

// canonLabels canonicalises labels at the positions the formatter documents: a string, strings in a list, both
// within "+" concatenations and select() values, joining "//a" + ":b".
func canonLabels(x *N) *N {
	one := func(e *N) *N {
		if e.K == "bin" && e.V == "+" && e.C[0].K == "str" && e.C[1].K == "str" &&
			strings.HasPrefix(e.C[0].V, "//") && !strings.Contains(e.C[0].V, " ") && !strings.Contains(e.C[1].V, " ") {
			e = n("str", e.C[0].V+e.C[1].V)
		}
		if e.K == "str" {
			return n("str", LabelCanon(e.V))
		}
		return e
	}
	switch {
	case x.K == "list" || x.K == "set":
		r := n(x.K, "")
		for _, c := range x.C {
			r.C = append(r.C, one(c))
		}
		return r
	}
	y := one(x)
	switch {
	case y.K == "bin" && y.V == "+":
		return n("bin", "+", canonLabels(y.C[0]), canonLabels(y.C[1]))
	case y.K == "call" && len(y.C) > 1 && y.C[0].K == "id" && y.C[0].V == "select" && y.C[1].K == "dict":
		d := n("dict", "")
		for _, kv := range y.C[1].C {
			d.C = append(d.C, n("kv", "", kv.C[0], canonLabels(kv.C[1])))
		}
		return n("call", "", append([]*N{y.C[0], d}, y.C[2:]...)...)
	}
	return y
}

// sortLists treats string lists at sortable positions as sets.
func sortLists(x *N) *N {
	switch {
	case x.K == "list":
		return sortStrs(x)
	case x.K == "bin" && x.V == "+":
		return n("bin", "+", sortLists(x.C[0]), sortLists(x.C[1]))
	case x.K == "call" && len(x.C) > 1 && x.C[0].K == "id" && x.C[0].V == "select" && x.C[1].K == "dict":
		d := n("dict", "")
		for _, kv := range x.C[1].C {
			d.C = append(d.C, n("kv", "", kv.C[0], sortLists(kv.C[1])))
		}
		return n("call", "", append([]*N{x.C[0], d}, x.C[2:]...)...)
	}
	return x
}

// sortStrs sorts and deduplicates runs of strings between non-strings.
func sortStrs(l *N) *N {
	r := n(l.K, l.V)
	seen := map[string]bool{}
	var run []*N
	flush := func() {
		sort.SliceStable(run, func(i, j int) bool { return run[i].V < run[j].V })
		r.C = append(r.C, run...)
		run = nil
	}
	for _, c := range l.C {
		if c.K == "str" {
			// duplicates anywhere in the list may be removed
			if !seen[c.V] {
				seen[c.V] = true
				run = append(run, c)
			}
			continue
		}
		flush()
		r.C = append(r.C, c)
	}
	flush()
	return r
}
