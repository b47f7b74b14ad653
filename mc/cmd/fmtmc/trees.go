package main

import (
	"fmt"
	"sync/atomic"

	"github.com/bazelbuild/buildtools/build"
	"verif/mc/core"
	"verif/mc/sem"
)

// C06: printing trees built by programs.

// Tree is an expression: constructor K applied to subtrees.
type Tree struct {
	K string
	C []Tree `json:",omitempty"`
}

type ctor struct {
	name  string
	holes int
	build func(a []build.Expr) build.Expr
}

func id(n string) *build.Ident { return &build.Ident{Name: n} }

var ctors []ctor
var ctorOf = map[string]*ctor{}

func init() {
	add := func(name string, holes int, f func(a []build.Expr) build.Expr) {
		ctors = append(ctors, ctor{name, holes, f})
	}
	leaf := func(name string, f func() build.Expr) {
		add(name, 0, func([]build.Expr) build.Expr { return f() })
	}
	leaf("a", func() build.Expr { return id("a") })
	leaf("1", func() build.Expr { return &build.LiteralExpr{Token: "1"} })
	leaf("str", func() build.Expr { return &build.StringExpr{Value: "s"} })
	for _, op := range []string{"+", "-", "*", "/", "//", "%", "|", "&", "^", "<<", ">>", "==", "!=", "<", "<=", ">", ">=", "in", "not in", "and", "or"} {
		op := op
		add("bin "+op, 2, func(a []build.Expr) build.Expr { return &build.BinaryExpr{X: a[0], Op: op, Y: a[1]} })
	}
	for _, op := range []string{"-", "+", "~", "not"} {
		op := op
		add("un "+op, 1, func(a []build.Expr) build.Expr { return &build.UnaryExpr{Op: op, X: a[0]} })
	}
	add("cond", 3, func(a []build.Expr) build.Expr { return &build.ConditionalExpr{Then: a[0], Test: a[1], Else: a[2]} })
	lam := func(p []build.Expr, b build.Expr) build.Expr {
		return &build.LambdaExpr{Function: build.Function{Params: p, Body: []build.Expr{b}}}
	}
	add("lambda", 1, func(a []build.Expr) build.Expr { return lam([]build.Expr{id("p")}, a[0]) })
	add("lambda0", 1, func(a []build.Expr) build.Expr { return lam(nil, a[0]) })
	add("lambdadefault", 2, func(a []build.Expr) build.Expr {
		return lam([]build.Expr{&build.AssignExpr{LHS: id("p"), Op: "=", RHS: a[0]}}, a[1])
	})
	add("dot", 1, func(a []build.Expr) build.Expr { return &build.DotExpr{X: a[0], Name: "d"} })
	add("index", 2, func(a []build.Expr) build.Expr { return &build.IndexExpr{X: a[0], Y: a[1]} })
	pos := build.Position{Line: 1, LineRune: 1, Byte: 1}
	add("slice", 3, func(a []build.Expr) build.Expr { return &build.SliceExpr{X: a[0], From: a[1], To: a[2]} })
	add("slice3", 4, func(a []build.Expr) build.Expr {
		return &build.SliceExpr{X: a[0], From: a[1], To: a[2], SecondColon: pos, Step: a[3]}
	})
	add("call0", 1, func(a []build.Expr) build.Expr { return &build.CallExpr{X: a[0]} })
	add("call", 2, func(a []build.Expr) build.Expr { return &build.CallExpr{X: a[0], List: []build.Expr{a[1]}} })
	add("call2", 2, func(a []build.Expr) build.Expr { return &build.CallExpr{X: id("f"), List: []build.Expr{a[0], a[1]}} })
	add("callkw", 1, func(a []build.Expr) build.Expr {
		return &build.CallExpr{X: id("f"), List: []build.Expr{&build.AssignExpr{LHS: id("k"), Op: "=", RHS: a[0]}}}
	})
	add("callstar", 2, func(a []build.Expr) build.Expr {
		return &build.CallExpr{X: id("f"), List: []build.Expr{&build.UnaryExpr{Op: "*", X: a[0]}, &build.UnaryExpr{Op: "**", X: a[1]}}}
	})
	leaf("list0", func() build.Expr { return &build.ListExpr{} })
	add("list", 1, func(a []build.Expr) build.Expr { return &build.ListExpr{List: a[:1]} })
	add("list2", 2, func(a []build.Expr) build.Expr { return &build.ListExpr{List: a[:2]} })
	add("listml", 2, func(a []build.Expr) build.Expr { return &build.ListExpr{List: a[:2], ForceMultiLine: true} })
	leaf("tuple0", func() build.Expr { return &build.TupleExpr{} })
	add("tuple1", 1, func(a []build.Expr) build.Expr { return &build.TupleExpr{List: a[:1]} })
	add("tuple2", 2, func(a []build.Expr) build.Expr { return &build.TupleExpr{List: a[:2]} })
	add("set", 1, func(a []build.Expr) build.Expr { return &build.SetExpr{List: a[:1]} })
	leaf("dict0", func() build.Expr { return &build.DictExpr{} })
	add("dict", 2, func(a []build.Expr) build.Expr {
		return &build.DictExpr{List: []*build.KeyValueExpr{{Key: a[0], Value: a[1]}}}
	})
	add("comp", 3, func(a []build.Expr) build.Expr {
		return &build.Comprehension{Body: a[0], Clauses: []build.Expr{&build.ForClause{Vars: id("i"), X: a[1]}, &build.IfClause{Cond: a[2]}}}
	})
	add("comp2", 2, func(a []build.Expr) build.Expr {
		return &build.Comprehension{Body: id("i"), Clauses: []build.Expr{&build.ForClause{Vars: id("i"), X: a[0]}, &build.ForClause{Vars: id("j"), X: a[1]}}}
	})
	add("dictcomp", 2, func(a []build.Expr) build.Expr {
		return &build.Comprehension{Curly: true, Body: &build.KeyValueExpr{Key: a[0], Value: a[1]}, Clauses: []build.Expr{&build.ForClause{Vars: id("i"), X: id("y")}}}
	})
	add("paren", 1, func(a []build.Expr) build.Expr { return &build.ParenExpr{X: a[0]} })
	for i := range ctors {
		ctorOf[ctors[i].name] = &ctors[i]
	}
}

func (t Tree) expr() build.Expr {
	k := ctorOf[t.K]
	var a []build.Expr
	for _, c := range t.C {
		a = append(a, c.expr())
	}
	return k.build(a)
}

func (t Tree) String() string {
	s := t.K
	if len(t.C) > 0 {
		s += fmt.Sprint(t.C)
	}
	return s
}

// treeCase is a tree in a statement.
type treeCase struct {
	Stmt string
	T    Tree
	Type string
}

var stmts06 = map[string]func(e build.Expr) build.Expr{
	"expr":   func(e build.Expr) build.Expr { return e },
	"assign": func(e build.Expr) build.Expr { return &build.AssignExpr{LHS: id("x"), Op: "=", RHS: e} },
	"aug":    func(e build.Expr) build.Expr { return &build.AssignExpr{LHS: id("x"), Op: "+=", RHS: e} },
	"if": func(e build.Expr) build.Expr {
		return &build.IfStmt{Cond: e, True: []build.Expr{&build.BranchStmt{Token: "pass"}}}
	},
	"elif": func(e build.Expr) build.Expr {
		return &build.IfStmt{Cond: id("c"), True: []build.Expr{&build.BranchStmt{Token: "pass"}}, False: []build.Expr{&build.IfStmt{Cond: e, True: []build.Expr{&build.BranchStmt{Token: "pass"}}}}}
	},
	"for": func(e build.Expr) build.Expr {
		return &build.ForStmt{Vars: id("i"), X: e, Body: []build.Expr{&build.BranchStmt{Token: "pass"}}}
	},
	"return": func(e build.Expr) build.Expr {
		return &build.DefStmt{Name: "f", Function: build.Function{Params: []build.Expr{&build.AssignExpr{LHS: id("p"), Op: "=", RHS: e}}, Body: []build.Expr{&build.ReturnStmt{Result: e}}}}
	},
	"notuple": func(e build.Expr) build.Expr {
		return &build.AssignExpr{LHS: &build.TupleExpr{NoBrackets: true, List: []build.Expr{id("x"), id("y")}}, Op: "=", RHS: &build.TupleExpr{NoBrackets: true, List: []build.Expr{e, id("z")}}}
	},
}

var stmtNames06 = []string{"expr", "assign", "aug", "if", "elif", "for", "return", "notuple"}

var c06 = &core.Check{ID: "C06", Level: "model_checking",
	Run: func(c *core.Ctx) {
		trans := c.Counter("transitions")
		ref := c.Counter("compared_with_reference_parser")
		ev := core.NewEval(c, "tree", func(in treeCase) error {
			mk := func() *build.File {
				f, _ := parseAs(in.Type, "")
				f.Stmt = []build.Expr{stmts06[in.Stmt](in.T.expr())}
				return f
			}
			want := sem.FromBuild(mk(), false).String()
			for _, rw := range []bool{false, true} {
				var out string
				if rw {
					out = string(build.Format(mk()))
				} else {
					out = string(build.FormatWithoutRewriting(mk()))
				}
				atomic.AddInt64(trans, 1)
				f, err := parseAs(in.Type, out)
				if err != nil {
					return core.Failf("reparse", "the tree %v (%s) is printed as text that does not parse: %v\n%s", in.T, in.Stmt, err, out)
				}
				c.NonTrivial(1)
				c.Outcome([]byte(in.Stmt + out))
				if got := sem.FromBuild(f, false).String(); got != want {
					return core.Failf("tree", "the tree %v (%s) is printed as %q, which means %s instead of %s", in.T, in.Stmt, out, got, want)
				}
				if r, err := sem.FromStarlark(out); err == nil {
					atomic.AddInt64(ref, 1)
					if got := r.String(); got != want {
						return core.Failf("tree-ref", "the tree %v (%s) is printed as %q, which the reference parser reads as %s instead of %s", in.T, in.Stmt, out, got, want)
					}
				}
			}
			if in.Stmt == "expr" {
				s := build.FormatString(in.T.expr())
				if f, err := parseAs(in.Type, s+"\n"); err != nil || sem.FromBuild(f, false).String() != want {
					return core.Failf("formatstring", "FormatString of the tree %v gives %q (%v)", in.T, s, err)
				}
			}
			return nil
		})
		leafs := []Tree{{K: "a"}}
		fill := func(k ctor, holes []Tree) []Tree { // one hole varies, the others are leaves
			var r []Tree
			if k.holes == 0 {
				return []Tree{{K: k.name}}
			}
			for h := 0; h < k.holes; h++ {
				for _, t := range holes {
					c := make([]Tree, k.holes)
					for i := range c {
						c[i] = leafs[0]
					}
					c[h] = t
					r = append(r, Tree{k.name, c})
				}
			}
			return r
		}
		var d1 []Tree
		for _, k := range ctors {
			d1 = append(d1, fill(k, leafs)[0])
		}
		var d2 []Tree
		for _, k := range ctors {
			d2 = append(d2, fill(k, d1)...)
		}
		core.Stream(c, func(emit func(treeCase) bool) {
			for _, st := range stmtNames06 {
				for _, t := range d2 {
					for _, ty := range []string{"build", "bzl"} {
						if !emit(treeCase{st, t, ty}) {
							return
						}
					}
				}
			}
			c.Bound("%d trees of depth 2 (%d constructors, every hole) in %d statements", len(d2), len(ctors), len(stmtNames06))
			// Depth 3: every chain of constructors; and every pair of subtrees in constructors with two holes.
			for _, k := range ctors {
				for _, t := range fill(k, d2) {
					if !emit(treeCase{"assign", t, "build"}) {
						return
					}
				}
				if k.holes == 2 {
					for _, x := range d1 {
						for _, y := range d1 {
							if !emit(treeCase{"assign", Tree{k.name, []Tree{x, y}}, "bzl"}) {
								return
							}
						}
					}
				}
			}
			c.Bound("all chains of 3 constructors, all pairs of subtrees of depth 1")
			if c.Thorough() {
				// Depth 4 over the operators.
				var ops []ctor
				for _, k := range ctors {
					switch k.name {
					case "bin +", "bin -", "bin *", "bin |", "bin <<", "bin ==", "bin not in", "bin and", "bin or", "un -", "un not", "cond", "lambda", "lambda0", "dot", "index", "call", "tuple2", "comp", "slice":
						ops = append(ops, k)
					}
				}
				lv := leafs
				for d := 0; d < 3; d++ {
					var next []Tree
					for _, k := range ops {
						next = append(next, fill(k, lv)...)
					}
					lv = next
				}
				for _, k := range ops {
					for _, t := range fill(k, lv) {
						if !emit(treeCase{"assign", t, "bzl"}) {
							return
						}
					}
				}
				c.Bound("all chains of 4 of %d operators", len(ops))
			}
		}, func(x treeCase) { ev.Do(x) })
	}}
