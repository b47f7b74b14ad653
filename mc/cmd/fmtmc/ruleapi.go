package main

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"go.starlark.net/syntax"

	"verif/mc/core"
	"verif/mc/sem"
)

// C45: the rule API of a file behaves as an ordered table of rules with ordered attributes. Files of up to three
// statements are combined with every sequence of mutations up to a depth; after every step every query and the file
// itself are compared with a model built from the reference parser's tree.

type N = sem.N

// An Op is a mutation through the rule API.
type Op struct {
	Op   string
	Rule int // index among all rules at that moment
	Key  string
	Val  string
}

// A RuleHist is a file and a history of mutations.
type RuleHist struct {
	Path string
	Text string
	Ops  []Op
}

// mRules are the outermost calls in source order.
func mRules(f *N) []*N {
	var r []*N
	var walk func(x *N)
	walk = func(x *N) {
		if x.K == "call" {
			r = append(r, x)
			return
		}
		for _, c := range x.C {
			if c != nil {
				walk(c)
			}
		}
	}
	walk(f)
	return r
}

func mKind(call *N) string {
	x, s := call.C[0], ""
	for x.K == "dot" {
		s = "." + x.V + s
		x = x.C[0]
	}
	if x.K != "id" {
		return ""
	}
	return x.V + s
}

func mAttr(call *N, key string) (int, *N) {
	for i, a := range call.C[1:] {
		if a.K == "assign" && a.C[0].K == "id" && a.C[0].V == key {
			return i + 1, a.C[1]
		}
	}
	return -1, nil
}

func mString(x *N) string {
	if x != nil && x.K == "str" {
		return x.V
	}
	return ""
}

// mName is the name of a rule: explicit, or that of the directory for the only unnamed rule of the file.
func mName(f *N, p string, call *N) string {
	_, v := mAttr(call, "name")
	if s := mString(v); s != "" {
		return s
	}
	dir := path.Dir(p)
	if dir == "." || mKind(call) == "package" {
		return ""
	}
	unnamed, it := 0, false
	for _, s := range f.C {
		if s.K != "call" {
			continue
		}
		_, v := mAttr(s, "name")
		switch n := mString(v); {
		case n == path.Base(dir):
			return ""
		case n == "" && mKind(s) != "":
			unnamed++
			it = it || s == call
		}
	}
	if unnamed == 1 && it {
		return path.Base(dir)
	}
	return ""
}

var ruleKeys = []string{"name", "size", "deps", "x"}

var ruleVals = map[string]func() build.Expr{
	`"v"`:   func() build.Expr { return &build.StringExpr{Value: "v"} },
	`"pkg"`: func() build.Expr { return &build.StringExpr{Value: "pkg"} },
	`1`:     func() build.Expr { return &build.LiteralExpr{Token: "1"} },
	`VAR`:   func() build.Expr { return &build.Ident{Name: "VAR"} },
	`["p", "q"]`: func() build.Expr {
		return &build.ListExpr{List: []build.Expr{&build.StringExpr{Value: "p"}, &build.StringExpr{Value: "q"}}}
	},
}

func ruleVal(v string) *N {
	f, err := sem.FromStarlark(v)
	if err != nil {
		panic(err)
	}
	return f.C[0]
}

func clone(x *N) *N {
	if x == nil {
		return nil
	}
	r := &N{K: x.K, V: x.V}
	for _, c := range x.C {
		r.C = append(r.C, clone(c))
	}
	return r
}

func mApply(f *N, p string, o Op) (result string) {
	rs := mRules(f)
	switch o.Op {
	case "set":
		r := rs[o.Rule]
		if i, _ := mAttr(r, o.Key); i >= 0 {
			r.C[i].C[1] = ruleVal(o.Val)
		} else {
			r.C = append(r.C, &N{K: "assign", V: "=", C: []*N{{K: "id", V: o.Key}, ruleVal(o.Val)}})
		}
	case "del":
		r := rs[o.Rule]
		i, v := mAttr(r, o.Key)
		if i < 0 {
			return "nil"
		}
		r.C = append(append([]*N{}, r.C[:i]...), r.C[i+1:]...)
		return v.String()
	case "kind":
		var x *N
		for i, s := range strings.Split(o.Val, ".") {
			if i == 0 {
				x = &N{K: "id", V: s}
			} else {
				x = &N{K: "dot", V: s, C: []*N{x}}
			}
		}
		rs[o.Rule].C[0] = x
	case "delrules":
		drop := map[*N]bool{}
		for _, s := range f.C {
			if s.K == "call" && (o.Key == "" || mKind(s) == o.Key) && (o.Val == "" || mName(f, p, s) == o.Val) {
				drop[s] = true
			}
		}
		var l []*N
		for _, s := range f.C {
			if !drop[s] {
				l = append(l, s)
			}
		}
		f.C = l
		return fmt.Sprint(len(drop))
	}
	return ""
}

func rApply(f *build.File, o Op) (result string) {
	switch o.Op {
	case "set":
		f.Rules("")[o.Rule].SetAttr(o.Key, ruleVals[o.Val]())
	case "del":
		v := f.Rules("")[o.Rule].DelAttr(o.Key)
		if v == nil {
			return "nil"
		}
		return sem.FromBuildExpr(v, false).String()
	case "kind":
		f.Rules("")[o.Rule].SetKind(o.Val)
	case "delrules":
		return fmt.Sprint(f.DelRules(o.Key, o.Val))
	}
	return ""
}

var queryNames = []string{"x", "y", "z", "v", "w", "pkg", "", "missing"}
var queryKinds = []string{"foo", "bar", "a.b", "package", "m", "missing", "glob"}

// ruleQueries compares all answers with the model.
func ruleQueries(f *build.File, m *N, p string) error {
	rs, ms := f.Rules(""), mRules(m)
	if len(rs) != len(ms) {
		return core.Failf("rules", "%d rules, want %d", len(rs), len(ms))
	}
	q := func(class, what string, got, want any) error {
		if g, w := fmt.Sprintf("%#v", got), fmt.Sprintf("%#v", want); g != w {
			return core.Failf(class, "%s: got %s, want %s", what, g, w)
		}
		return nil
	}
	for i, r := range rs {
		c := ms[i]
		if g, w := sem.FromBuildExpr(r.Call, false).String(), c.String(); g != w {
			return core.Failf("order", "rule %d is %s, want %s", i, g, w)
		}
		_, nm := mAttr(c, "name")
		var keys []string
		for _, a := range c.C[1:] {
			if a.K == "assign" && a.C[0].K == "id" {
				keys = append(keys, a.C[0].V)
			}
		}
		for _, e := range []error{
			q("kind", "Kind", r.Kind(), mKind(c)),
			q("explicit-name", "ExplicitName", r.ExplicitName(), mString(nm)),
			q("name", "Name", r.Name(), mName(m, p, c)),
			q("keys", "AttrKeys", r.AttrKeys(), keys),
		} {
			if e != nil {
				return e
			}
		}
		for _, k := range ruleKeys {
			_, v := mAttr(c, k)
			got := "nil"
			if r.Attr(k) != nil {
				got = sem.FromBuildExpr(r.Attr(k), false).String()
			}
			want, lit := "nil", ""
			var strs []string
			if v != nil {
				want = v.String()
				switch v.K {
				case "id":
					lit = v.V
				case "num":
					_, lit, _ = strings.Cut(v.V, ":")
				case "list":
					strs = []string{}
					for _, e := range v.C {
						if e.K != "str" {
							strs = nil
							break
						}
						strs = append(strs, e.V)
					}
				}
			}
			gotLit := r.AttrLiteral(k)
			if l, ok := r.Attr(k).(*build.LiteralExpr); ok && gotLit == l.Token {
				// the model has values of numbers only
				if n := sem.FromBuildExpr(&build.LiteralExpr{Token: gotLit}, false); n.K == "num" {
					_, gotLit, _ = strings.Cut(n.V, ":")
				}
			}
			d := r.AttrDefn(k)
			if (d == nil) != (v == nil) || d != nil && (d.LHS.(*build.Ident).Name != k || d.RHS != r.Attr(k)) {
				return core.Failf("defn", "AttrDefn(%q) doesn't go with the attribute", k)
			}
			for _, e := range []error{
				q("attr", "Attr "+k, got, want),
				q("string", "AttrString "+k, r.AttrString(k), mString(v)),
				q("literal", "AttrLiteral "+k, gotLit, lit),
				q("strings", "AttrStrings "+k, r.AttrStrings(k), strs),
			} {
				if e != nil {
					return e
				}
			}
		}
	}
	for _, k := range queryKinds {
		var want []*build.CallExpr
		for i, c := range ms {
			if mKind(c) == k {
				want = append(want, rs[i].Call)
			}
		}
		got := f.Rules(k)
		ok := len(got) == len(want)
		for i := 0; ok && i < len(got); i++ {
			ok = got[i].Call == want[i]
		}
		if !ok {
			return core.Failf("of-kind", "Rules(%q) returns %d rules, want %d", k, len(got), len(want))
		}
	}
	for _, n := range queryNames {
		var want *build.CallExpr
		k := 0
		for i, c := range ms {
			if mName(m, p, c) == n {
				want = rs[i].Call
				k++
			}
		}
		got := f.RuleNamed(n)
		if (got != nil) != (k == 1) || got != nil && got.Call != want {
			return core.Failf("named", "RuleNamed(%q) found %v; %d rules have that name", n, got != nil, k)
		}
	}
	if g, w := sem.FromBuild(f, false).String(), m.String(); g != w {
		return core.Failf("file", "the file is\n%s\nwant\n%s", g, w)
	}
	out, err := sem.FromStarlark(string(build.FormatWithoutRewriting(f)))
	if err != nil || out.String() != m.String() {
		return core.Failf("printed", "the printed file differs from the model (%v):\n%s", err, build.FormatWithoutRewriting(f))
	}
	return nil
}

// ruleLines lists the first and last line of the function expression of every outermost call.
func ruleLines(text string) [][2]int {
	f, err := syntax.Parse("ref", text, 0)
	if err != nil {
		panic(err)
	}
	var r [][2]int
	depth := 0
	var stack []bool
	syntax.Walk(f, func(n syntax.Node) bool {
		if n == nil {
			if stack[len(stack)-1] {
				depth--
			}
			stack = stack[:len(stack)-1]
			return true
		}
		c, ok := n.(*syntax.CallExpr)
		if ok {
			if depth == 0 {
				s, e := c.Fn.Span()
				r = append(r, [2]int{int(s.Line), int(e.Line)})
			}
			depth++
		}
		stack = append(stack, ok)
		return true
	})
	return r
}

func ruleHist(h RuleHist) error {
	f, err := build.ParseBuild(h.Path, []byte(h.Text))
	if err != nil {
		return core.Failf("parse", "%v", err)
	}
	m, err := sem.FromStarlark(h.Text)
	if err != nil {
		panic(err)
	}
	if len(h.Ops) == 0 {
		lines := ruleLines(h.Text)
		for l := 0; l < strings.Count(h.Text, "\n")+2; l++ {
			k, at := 0, -1
			for i, x := range lines {
				if x[0] <= l && l <= x[1] {
					k, at = k+1, i
				}
			}
			_ = at
			if got := f.RuleAt(l); (got != nil) != (k == 1) {
				return core.Failf("at", "RuleAt(%d): found %v, %d rules start there", l, got != nil, k)
			} else if got != nil {
				s, e := got.Call.X.Span()
				if s.Line > l || e.Line < l {
					return core.Failf("at", "RuleAt(%d) returned the rule of lines %d-%d", l, s.Line, e.Line)
				}
			}
		}
	}
	for i, o := range h.Ops {
		want := mApply(m, h.Path, o)
		if got := rApply(f, o); got != want {
			return core.Failf("result/"+o.Op, "step %d %v returned %s, want %s", i, o, got, want)
		}
		if i < len(h.Ops)-1 {
			continue // the shorter history was checked by itself
		}
	}
	if err := ruleQueries(f, m, h.Path); err != nil {
		if ce, ok := err.(*core.ClassError); ok && len(h.Ops) > 0 {
			ce.Class = h.Ops[len(h.Ops)-1].Op + "/" + ce.Class
		}
		return err
	}
	return nil
}

var ruleStmts = []string{
	"foo(\n    name = \"x\",\n    size = \"a\",\n)",
	"foo(size = 1)",
	"a.b(name = \"pkg\", deps = [\"a\", \"b\"])",
	"package(x = [])",
	"load(\"//m\", \"foo\")",
	"X = foo(name = \"y\")",
	"[foo(name = n, x = [1]) for n in [\"p\", \"q\"]]",
	"def f():\n    foo(name = \"z\")",
	"f()(name = \"x\")",
	"foo(bar(name = \"w\"), name = \"x\")",
	"a[0].b(name = \"w\")",
	"foo(Name = \"Q\", Deps = [\"r\"], X = 1, size = 1.50, x = 0x1F)",
	"foo(name = \"x\" + \"y\", x = -1)",
	"bar(name = \"\", deps = [\"a\", n])",
	"X = [foo(name = \"v\"), bar(name = \"w\")]",
	"foo(name = \"w\") if c else bar(name = \"v\")",
	"bar(\n    size = VAR,\n    name = \"w\", *d, **k)",
	"X = glob([\"*\"])",
	"package(default_visibility = [], name = \"w\")",
	"a \\\n  .b(name = \"v\", x = 10)",
	"\"doc\"",
	"if c:\n    foo(name = \"v\")\nelse:\n    bar(name = \"z\")",
	"foo()",
}

func ruleOps(rules int, deep bool) []Op {
	var r []Op
	var vals []string
	for v := range ruleVals {
		vals = append(vals, v)
	}
	sort.Strings(vals)
	keys := ruleKeys
	kinds, dk, dn := []string{"m", "a.b", "package", "a.b.c"}, []string{"", "foo", "a.b", "package", "m"}, []string{"", "x", "v", "pkg"}
	if !deep {
		vals, keys, kinds, dk, dn = vals[1:3], []string{"name", "x"}, kinds[1:3], []string{"", "foo", "m"}, []string{"", "x", "pkg"}
	}
	for i := 0; i < rules; i++ {
		for _, k := range keys {
			for _, v := range vals {
				r = append(r, Op{"set", i, k, v})
			}
			r = append(r, Op{Op: "del", Rule: i, Key: k})
		}
		for _, k := range kinds {
			r = append(r, Op{Op: "kind", Rule: i, Val: k})
		}
	}
	for _, k := range dk {
		for _, n := range dn {
			r = append(r, Op{Op: "delrules", Key: k, Val: n})
		}
	}
	return r
}

var c45 = &core.Check{ID: "C45", Level: "model_checking", Run: func(c *core.Ctx) {
	ev := core.NewEval(c, "rules", ruleHist)
	paths := []string{"BUILD", "pkg/BUILD", "/abs/pkg/BUILD.bazel"}
	maxLen := c.Pick(3, 4)
	c.Bound("files of up to %d of %d statements x %d paths: all queries; files of up to 2 statements: all histories of up to 2 mutations, of 1 statement: of up to %d",
		maxLen, len(ruleStmts), len(paths), c.Pick(2, 3))
	core.Stream(c, func(emit func(RuleHist) bool) {
		var files func(pre []string, left int) bool
		files = func(pre []string, left int) bool {
			text := strings.Join(pre, "\n\n") + "\n"
			if _, err := syntax.Parse("ref", text, 0); err != nil {
				panic(fmt.Sprint(err, text))
			}
			for pi, p := range paths {
				if !emit(RuleHist{Path: p, Text: text}) {
					return false
				}
				if len(pre) > 2 || pi >= c.Pick(2, 3) && len(pre) > 1 {
					continue
				}
				var hist func(h []Op, left int) bool
				hist = func(h []Op, left int) bool {
					if len(h) > 0 && !emit(RuleHist{p, text, append([]Op{}, h...)}) {
						return false
					}
					if left == 0 {
						return true
					}
					m, _ := sem.FromStarlark(text)
					for _, o := range h {
						mApply(m, p, o)
					}
					for _, o := range ruleOps(len(mRules(m)), len(pre) < 2 && c.Thorough() || len(h) == 0) {
						if !hist(append(h, o), left-1) {
							return false
						}
					}
					return true
				}
				d := 2
				if len(pre) <= 1 && pi < 2 && c.Thorough() {
					d = 3
				}
				if len(pre) == 2 && pi != 1 && !c.Thorough() {
					d = 1
				}
				if !hist(nil, d) {
					return false
				}
			}
			if left > 0 {
				for _, s := range ruleStmts {
					if !files(append(append([]string{}, pre...), s), left-1) {
						return false
					}
				}
			}
			return true
		}
		files(nil, maxLen)
	}, func(h RuleHist) {
		if ev.Do(h) && len(h.Ops) > 0 {
			c.NonTrivial(1)
		}
	})
}}
