package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/warn"
	"go.starlark.net/resolve"
	"go.starlark.net/syntax"
	"verif/mc/core"
	"verif/mc/sem"
)

// C32: the lints of unused and redefined names agree with the binding rules of the language.

func init() { resolve.AllowGlobalReassign, resolve.AllowSet = true, true }

// A decl is a name bound by a file or function.
type decl struct {
	line   int
	name   string
	used   bool
	quiet  bool // not to be reported
	def    bool
	global bool
	load   bool
	other  *decl // the same name declared as a function and as a variable
	again  bool  // a load of a name that has been loaded before
}

// A binder finds the declarations and uses of a file according to an independent resolver.
type binder struct {
	decls map[*syntax.Ident]*decl // by the first binding occurrence
	order []*decl
	uses  []*syntax.Ident
	marks map[int]bool // lines with @unused
}

func (b *binder) declare(id *syntax.Ident, quiet, def, global bool) {
	bind, ok := id.Binding.(*resolve.Binding)
	if !ok {
		return
	}
	first := bind.First
	if first == nil {
		first = id
	}
	for p := b.decls[first]; p != nil; p = p.other {
		if p.def == def {
			for q := b.decls[first]; def && quiet && q != nil; q = q.other {
				q.quiet = q.quiet || !q.load
			}
			return
		}
	}
	for p := b.decls[first]; p != nil; p = p.other {
		if !p.load {
			quiet = quiet || p.quiet
			p.quiet = quiet
		}
	}
	d := &decl{other: b.decls[first], line: int(id.NamePos.Line), name: id.Name, quiet: quiet, def: def, global: global}
	b.decls[first] = d
	b.order = append(b.order, d)
}

func targets(e syntax.Expr) []*syntax.Ident {
	switch e := e.(type) {
	case *syntax.Ident:
		return []*syntax.Ident{e}
	case *syntax.ParenExpr:
		return targets(e.X)
	case *syntax.TupleExpr:
		var r []*syntax.Ident
		for _, x := range e.List {
			r = append(r, targets(x)...)
		}
		return r
	case *syntax.ListExpr:
		var r []*syntax.Ident
		for _, x := range e.List {
			r = append(r, targets(x)...)
		}
		return r
	}
	return nil
}

// lhs collects the uses in the target of an assignment.
func (b *binder) lhs(e syntax.Expr) {
	switch e := e.(type) {
	case *syntax.Ident:
	case *syntax.ParenExpr:
		b.lhs(e.X)
	case *syntax.TupleExpr:
		for _, x := range e.List {
			b.lhs(x)
		}
	case *syntax.ListExpr:
		for _, x := range e.List {
			b.lhs(x)
		}
	default:
		b.expr(e)
	}
}

func (b *binder) stmts(l []syntax.Stmt, global bool) {
	for _, s := range l {
		switch s := s.(type) {
		case *syntax.AssignStmt:
			b.expr(s.RHS)
			b.lhs(s.LHS)
			ids := targets(s.LHS)
			all := true
			for _, id := range ids {
				all = all && strings.HasPrefix(id.Name, "_")
			}
			for _, id := range ids {
				b.declare(id, b.marks[int(id.NamePos.Line)] || !all && strings.HasPrefix(id.Name, "_"), false, global)
			}
		case *syntax.ExprStmt:
			b.expr(s.X)
		case *syntax.ReturnStmt:
			b.expr(s.Result)
		case *syntax.IfStmt:
			b.expr(s.Cond)
			b.stmts(s.True, global)
			b.stmts(s.False, global)
		case *syntax.ForStmt:
			b.expr(s.X)
			b.lhs(s.Vars)
			for _, id := range targets(s.Vars) {
				b.declare(id, strings.HasPrefix(id.Name, "_"), false, global)
			}
			b.stmts(s.Body, global)
		case *syntax.DefStmt:
			b.declare(s.Name, b.marks[int(s.Def.Line)], true, global)
			b.params(s.Params, true)
			b.stmts(s.Body, false)
		case *syntax.LoadStmt:
			for _, id := range s.To {
				first := id
				if bind, ok := id.Binding.(*resolve.Binding); ok && bind.First != nil {
					first = bind.First
				}
				d := &decl{line: int(id.NamePos.Line), name: id.Name, load: true, quiet: b.marks[int(id.NamePos.Line)]}
				if _, ok := b.decls[first]; ok {
					d.again = true
				} else {
					b.decls[first] = d
				}
				b.order = append(b.order, d)
			}
		}
	}
}

func (b *binder) params(l []syntax.Expr, declare bool) {
	for _, p := range l {
		switch p := p.(type) {
		case *syntax.Ident:
			if declare {
				b.param(p)
			}
		case *syntax.BinaryExpr:
			b.expr(p.Y)
			if declare {
				b.param(p.X.(*syntax.Ident))
			}
		case *syntax.UnaryExpr:
			if id, ok := p.X.(*syntax.Ident); ok && declare {
				b.param(id)
			}
		}
	}
}

func (b *binder) param(id *syntax.Ident) {
	b.declare(id, id.Name == "name" || strings.HasPrefix(id.Name, "_"), false, false)
}

func (b *binder) expr(e syntax.Expr) {
	switch e := e.(type) {
	case nil:
	case *syntax.Ident:
		b.uses = append(b.uses, e)
	case *syntax.LambdaExpr:
		b.params(e.Params, false)
		b.expr(e.Body)
	case *syntax.Comprehension:
		for _, c := range e.Clauses {
			switch c := c.(type) {
			case *syntax.ForClause:
				b.expr(c.X)
				b.lhs(c.Vars)
			case *syntax.IfClause:
				b.expr(c.Cond)
			}
		}
		b.expr(e.Body)
	case *syntax.CallExpr:
		b.expr(e.Fn)
		for _, a := range e.Args {
			if bin, ok := a.(*syntax.BinaryExpr); ok && bin.Op == syntax.EQ {
				b.expr(bin.Y)
			} else {
				b.expr(a)
			}
		}
	case *syntax.DotExpr:
		b.expr(e.X)
	case *syntax.ParenExpr:
		b.expr(e.X)
	case *syntax.BinaryExpr:
		b.expr(e.X)
		b.expr(e.Y)
	case *syntax.UnaryExpr:
		b.expr(e.X)
	case *syntax.CondExpr:
		b.expr(e.Cond)
		b.expr(e.True)
		b.expr(e.False)
	case *syntax.IndexExpr:
		b.expr(e.X)
		b.expr(e.Y)
	case *syntax.SliceExpr:
		b.expr(e.X)
		b.expr(e.Lo)
		b.expr(e.Hi)
		b.expr(e.Step)
	case *syntax.ListExpr:
		for _, x := range e.List {
			b.expr(x)
		}
	case *syntax.TupleExpr:
		for _, x := range e.List {
			b.expr(x)
		}
	case *syntax.DictExpr:
		for _, x := range e.List {
			b.expr(x)
		}
	case *syntax.DictEntry:
		b.expr(e.Key)
		b.expr(e.Value)
	}
}

// bind resolves a file.
func bind(text string) (*binder, error) {
	f, err := syntax.Parse("f", text, 0)
	if err != nil {
		return nil, err
	}
	if err := resolve.File(f, func(string) bool { return true }, func(string) bool { return false }); err != nil {
		return nil, err
	}
	b := &binder{decls: map[*syntax.Ident]*decl{}, marks: map[int]bool{}}
	for i, l := range strings.Split(text, "\n") {
		if strings.HasSuffix(l, "# @unused") {
			b.marks[i+1] = true
		}
	}
	b.stmts(f.Stmts, true)
	for _, id := range b.uses {
		if bind, ok := id.Binding.(*resolve.Binding); ok && bind.First != nil {
			for d := b.decls[bind.First]; d != nil; d = d.other {
				d.used = true
			}
		} else {
			// a use on top level before the definition
			for _, d := range b.order {
				if d.global && d.name == id.Name {
					d.used = true
				}
			}
		}
	}
	return b, nil
}

type scopeCase struct{ Type, Text string }

// old rewrites the syntax that the reference doesn't know to an equivalent one.
var annotation = regexp.MustCompile(`(\w+): (\w+)([,)])`)

var annotation2 = regexp.MustCompile(`(\w+): (\w+) = (\w+)([,)])`)

var annotation3 = regexp.MustCompile(`\*(\w+): (\w+)([,)])`)

func old(text string) string {
	text = annotation2.ReplaceAllString(text, "$1 = ($2, $3)$4")
	text = annotation3.ReplaceAllString(text, "_anno = $2, *$1$3")
	return annotation.ReplaceAllString(text, "$1 = $2$3")
}

var quoted = regexp.MustCompile(`"(\w+)"`)

var c32 = &core.Check{ID: "C32", Level: "model_checking", Guard: true,
	Run: func(c *core.Ctx) {
		unused := core.NewEval(c, "unused", func(in scopeCase) error {
			b, err := bind(old(in.Text))
			if err != nil {
				return nil
			}
			file, err := parse(in.Type, in.Text)
			if err != nil {
				return nil
			}
			var got, want []string
			for _, f := range warn.FileWarnings(file, []string{"unused-variable"}, nil, warn.ModeWarn, nil) {
				got = append(got, fmt.Sprintf("%d %s", f.Start.Line, strings.Split(f.Message, "\"")[1]))
			}
			for _, d := range b.order {
				if d.load || d.used || d.quiet {
					continue
				}
				if d.global && (in.Type == "bzl" || in.Type == "default") && !strings.HasPrefix(d.name, "_") {
					continue
				}
				want = append(want, fmt.Sprintf("%d %s", d.line, d.name))
			}
			sort.Strings(got)
			sort.Strings(want)
			if len(want) > 0 {
				c.NonTrivial(1)
			}
			if !same(got, want) {
				class := "missing"
				if len(got) > len(want) {
					class = "wrong"
				}
				return core.Failf(class, "%s:\n%sreported as unused: %v, want %v", in.Type, in.Text, got, want)
			}
			return nil
		})
		loads := core.NewEval(c, "loads", func(in scopeCase) error {
			b, err := bind(old(in.Text))
			if err != nil {
				return nil
			}
			file, err := parse(in.Type, in.Text)
			if err != nil {
				return nil
			}
			got := map[string]bool{}
			for _, f := range warn.FileWarnings(file, []string{"load"}, nil, warn.ModeWarn, nil) {
				got[fmt.Sprintf("%d %s", f.Start.Line, quoted.FindStringSubmatch(f.Message)[1])] = true
			}
			body := ""
			for _, l := range strings.Split(in.Text, "\n") {
				if !strings.HasPrefix(l, "load(") {
					body += l + "\n"
				}
			}
			kept := map[string]bool{}
			for _, d := range b.order {
				if !d.load {
					continue
				}
				key := fmt.Sprintf("%d %s", d.line, d.name)
				mentioned := regexp.MustCompile(`\b` + d.name + `\b`).MatchString(body)
				c.NonTrivial(1)
				switch {
				case got[key] && !d.again && (d.used || d.quiet):
					return core.Failf("load-used", "%s:\n%sreports %s as unused", in.Type, in.Text, key)
				case !got[key] && (d.again && !d.quiet || !mentioned && !d.quiet):
					return core.Failf("load-unused", "%s:\n%sdoesn't report %s", in.Type, in.Text, key)
				}
				kept[d.name] = kept[d.name] || d.used || d.quiet
			}
			// the fix
			warn.FixWarnings(file, []string{"load"}, false, nil)
			out := string(build.FormatWithoutRewriting(file))
			b2, err := bind(old(out))
			if err != nil {
				return core.Failf("fix-parse", "%v\n%s", err, out)
			}
			for _, d := range b2.order {
				if d.load {
					delete(kept, d.name)
				}
			}
			for k, v := range kept {
				if v {
					return core.Failf("fix", "%s:\n%sis fixed to\n%sand %s isn't loaded anymore", in.Type, in.Text, out, k)
				}
			}
			if f2, err := parse(in.Type, out); err != nil {
				return core.Failf("fix-parse", "%v\n%s", err, out)
			} else {
				for _, f := range warn.FileWarnings(f2, []string{"load"}, nil, warn.ModeWarn, nil) {
					if !strings.HasPrefix(f.Message, "A different symbol") {
						return core.Failf("fix-left", "%s:\n%sis fixed to\n%sand still has %s", in.Type, in.Text, out, f.Message)
					}
				}
			}
			if i := strings.Index(in.Text, "\n# rest\n"); i >= 0 && !sameRest(in.Text[i+1:], out) {
				return core.Failf("fix-rest", "%s:\n%sis fixed to\n%s", in.Type, in.Text, out)
			}
			return nil
		})
		redefined := core.NewEval(c, "redefined", func(in scopeCase) error {
			file, err := parse(in.Type, in.Text)
			if err != nil {
				return nil
			}
			var got, want []string
			for _, f := range warn.FileWarnings(file, []string{"redefined-variable"}, nil, warn.ModeWarn, nil) {
				got = append(got, fmt.Sprint(f.Start.Line))
			}
			seen := map[string]bool{}
			list := map[string]bool{}
			for i, l := range strings.Split(in.Text, "\n") {
				n, rhs, ok := strings.Cut(l, " = ")
				plus := false
				if !ok {
					n, rhs, plus = strings.Cut(l, " += ")
				}
				if l == "if x: x = 1" {
					list["x"] = false
				}
				if n == "x, y" {
					delete(list, "x")
					delete(list, "y")
				}
				if n != "x" && n != "y" && n != "_x" {
					continue
				}
				isList := strings.HasPrefix(rhs, "[") || list[rhs]
				if seen[n] && !(plus && (isList || list[n])) {
					want = append(want, fmt.Sprint(i+1))
				}
				seen[n] = true
				if strings.HasPrefix(rhs, "[") {
					list[n] = true
				} else if l, ok := list[rhs]; ok {
					list[n] = l
				} else if rhs == "1" || rhs == "\"a\"" || !plus {
					list[n] = false
				}
			}
			c.NonTrivial(1)
			if !same(got, want) {
				return core.Failf("redefined", "%s:\n%sreported: %v, want %v", in.Type, in.Text, got, want)
			}
			return nil
		})

		stmts := []string{
			"x = 1", "x = y", "x = x", "x += y", "_x = 1", "x = 1  # @unused", "g(x)", "g(_x)", "g(y)", "g(x = 1)", "g(x = x)", "g(*x)", "g(**x)", "g.x", "g(x.y)", "g(x[y])", "x[y] = 1", "x.y = 1", "x[1] = y",
			"x, y = 1, 2", "x, _y = 1, 2", "_x, _y = 1, 2", "(x, [y, z]) = g()", "(x) = 1", "((x), y) = g(l)", "x[y], z = 1, 2", "y = [x for x in y]",
			"for x in y: g()", "for x in x: g()", "for _x in l: g()", "for i in l: g(i, x)", "for x, _y in l: g(x)", "for i in l: x = i", "for l[x] in l: g()", "for (x, y) in l: g(y)",
			"if x: g()", "if g: x = 1", "if g: pass\nelse: g(x)", "if g:\n    def h(x): g(x)", "for i in l:\n    g(i)\n    def h(x): return x", "if g: pass\nelse:\n    def h(x): return x",
			"g([x for x in l])", "g([y for x in l])", "g([x for x in x])", "g([x for y in l for x in y])", "g([x for x in l if x])", "g([y for x in l for y in x])", "g({x: y for x in l})", "g({x: 1})", "g([z for z in l if x])", "g([1 for x, y in l])", "g([y for l[x] in l])", "g([x for x in l] + [y])", "g([[x for x in y] for y in x])", "g([x for y in x for x in l])",
			"g(lambda x: x)", "g(lambda y: x)", "g(lambda: x)", "g(lambda x = x: x)", "g(lambda y = x: y)", "g(lambda *x: x)", "g(lambda y, x = y: x)", "g(lambda: [x for x in y])", "g([lambda x: y for y in l])",
			"g(x if y else z)", "g(x[1:y:z])", "g(not x)", "g(-x)", "g((x, y))", "g(\"x\")", "return x", "return", "g(x)(y)",
			"def h(): g(x)", "def h(x): g(x)", "def h(x): g()", "def h(_x, name): g()", "def h(y = x): g(y)", "def h(x = x): g(x)", "def h(*x, **y): g(y)", "def h(): x = 1", "def h(): x = y", "def x(): g()", "def x(): x()", "def x():  # @unused\n    g()", "def h(x: y = 1): g(x)", "def h(x: y = z): g(x)", "def h(*x: y): g(x)", "def _x(): g()", "def h():\n    def k(): g(x)", "def h():\n    x = 1\n    def k(): g(x)", "def h():\n    def x(): g(y)\n    x()", "def h(*, x): g()", "def h(x: y): g(x)", "def h(x, y): g([x for y in l])", "def h(y):\n    g(x)\n    x = y", "h()", "h(x)",
		}
		core.Stream(c, func(emit func(scopeCase) bool) {
			// functions
			for _, ty := range []string{"bzl", "build", "default"} {
				for _, head := range []string{"def f(y, z):\n", "def f(x, y = 1, *args, **kwargs):\n", "x = 1\ndef f():\n", "def f():\n    y = g(l)\n"} {
					for _, a := range stmts {
						if !emit(scopeCase{ty, head + indent(a)}) {
							return
						}
						for _, b := range stmts {
							if !emit(scopeCase{ty, head + indent(a) + indent(b)}) {
								return
							}
						}
					}
				}
			}
			c.Bound("all functions of <=2 of %d statements with 4 headers in 3 file types", len(stmts))
			for _, ty := range types {
				for _, a := range stmts {
					if !emit(scopeCase{ty, a + "\n"}) {
						return
					}
					for _, b := range stmts {
						if !emit(scopeCase{ty, a + "\n" + b + "\n"}) {
							return
						}
					}
				}
			}
			c.Bound("all files of <=2 of %d statements in 5 file types", len(stmts))
			var small []string
			for i, s := range stmts {
				if c.Thorough() || i%3 == 0 {
					small = append(small, s)
				}
			}
			for _, a := range small {
				for _, b := range small {
					for _, d := range stmts {
						if !emit(scopeCase{"bzl", "def f(y, z):\n" + indent(a) + indent(b) + indent(d)}) {
							return
						}
						if !emit(scopeCase{"build", a + "\n" + b + "\n" + d + "\n"}) {
							return
						}
						if !emit(scopeCase{"bzl", a + "\ndef f(y):\n" + indent(b) + indent(d)}) {
							return
						}
						if !emit(scopeCase{"bzl", "def f(y):\n" + indent(a) + "    def k(z):\n" + indent(indent(b)) + "    k()\n" + indent(d)}) {
							return
						}
					}
				}
			}
			c.Bound("all functions and files of 3 of %d x %d x %d statements, with nested functions", len(small), len(small), len(stmts))
		}, func(x scopeCase) { unused.Do(x) })
		core.Stream(c, func(emit func(scopeCase) bool) {
			ls := []string{`load(":a.bzl", "x")`, `load(":a.bzl", "x", "y")`, `load(":a.bzl", "y", x = "z")`, `load(":b.bzl", "x")`, `load(":b.bzl", x = "y")`, `load(":a.bzl", "x")  # @unused`, `load(":a.bzl", "z", "x", "w")`}
			for _, ty := range []string{"build", "bzl", "workspace", "default"} {
				for i, l := range ls {
					for j := -1; j < len(ls); j++ {
						head := l + "\n"
						if j >= 0 {
							head += ls[j] + "\n"
						}
						for k, s := range stmts {
							if !emit(scopeCase{ty, head + "\n# rest\n" + s + "\n"}) || !emit(scopeCase{ty, head + "\n# rest\ndef f(y):\n" + indent(s)}) {
								return
							}
							if j >= 0 && !c.Thorough() || i%2 > 0 {
								continue
							}
							for m, t := range stmts {
								if !c.Thorough() && (m+k)%4 > 0 {
									continue
								}
								if !emit(scopeCase{ty, head + "\n# rest\n" + s + "\n" + t + "\n"}) || !emit(scopeCase{ty, head + "\n# rest\ndef f(y):\n" + indent(s) + indent(t)}) {
									return
								}
							}
						}
					}
				}
			}
			c.Bound("all pairs of %d loads with one of %d statements, single loads with pairs of them", len(ls), len(stmts))
		}, func(x scopeCase) { loads.Do(x) })
		core.Stream(c, func(emit func(scopeCase) bool) {
			as := []string{"x = 1", "x = [1]", "y = [1]", "x = y", "x += [1]", "x += 1", "x += y", "x += \"a\"", "_x = 1", "def f(): x = 1", "x, y = 1, 2", "if x: x = 1", "x[0] = 1", "f(x = 1)", "x.a = 1"}
			var rec func(s string, n int) bool
			rec = func(s string, n int) bool {
				if n == 0 {
					return true
				}
				for _, a := range as {
					for _, ty := range []string{"bzl", "build"} {
						if !emit(scopeCase{ty, s + a + "\n"}) {
							return false
						}
					}
					if !rec(s+a+"\n", n-1) {
						return false
					}
				}
				return true
			}
			if rec("", c.Pick(4, 5)) {
				c.Bound("all files of <=%d of %d assignments", c.Pick(4, 5), len(as))
			}
		}, func(x scopeCase) { redefined.Do(x) })
	}}

// sameRest says whether the statements behind "# rest" are the same.
func sameRest(want, out string) bool {
	i := strings.Index(out, "# rest\n")
	if i < 0 {
		return false
	}
	a, err1 := sem.FromStarlark(old(want))
	b, err2 := sem.FromStarlark(old(out[i:]))
	return err1 == nil && err2 == nil && a.String() == b.String()
}

func indent(s string) string {
	r := ""
	for _, l := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
		r += "    " + l + "\n"
	}
	return r
}
