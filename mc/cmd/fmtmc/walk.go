package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/convertast"
	"go.starlark.net/syntax"
	"verif/mc/core"
	"verif/mc/sem"
)

// C39: the traversals of syntax trees.

type step struct {
	x   build.Expr
	stk []build.Expr
}

// refWalk lists the nodes of a tree with the paths that lead to them, found by reflection.
func refWalk(x build.Expr, stk []build.Expr, r *[]step) {
	*r = append(*r, step{x, append([]build.Expr{}, stk...)})
	for _, y := range children(x) {
		refWalk(y, append(stk[:len(stk):len(stk)], x), r)
	}
}

func sameStk(a, b []build.Expr) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// sameSteps compares two traversals: the same nodes with the same stacks, every node before its descendants. The order of
// siblings isn't specified beyond that.
func sameSteps(got, want []step) string {
	w := map[build.Expr]step{}
	for _, s := range want {
		w[s.x] = s
	}
	seen := map[build.Expr]bool{}
	for _, g := range got {
		s, ok := w[g.x]
		switch {
		case !ok:
			return fmt.Sprintf("visits %s, which isn't a part of the tree", kindOf(g.x))
		case seen[g.x]:
			return fmt.Sprintf("visits a %s twice", kindOf(g.x))
		case !sameStk(g.stk, s.stk):
			return fmt.Sprintf("the stack of a %s is %s instead of %s", kindOf(g.x), kinds(g.stk), kinds(s.stk))
		case len(s.stk) > 0 && len(got) == len(want) && !seen[s.stk[len(s.stk)-1]]:
			return fmt.Sprintf("visits a %s before its parent", kindOf(g.x))
		}
		seen[g.x] = true
	}
	for _, s := range want {
		if !seen[s.x] {
			return fmt.Sprintf("doesn't visit the %s below %s", kindOf(s.x), kinds(s.stk))
		}
	}
	return ""
}

func kinds(l []build.Expr) string {
	var r []string
	for _, x := range l {
		r = append(r, kindOf(x))
	}
	return strings.Join(r, ">")
}

func isStatementList(p build.Expr, x build.Expr) bool {
	in := func(l []build.Expr) bool {
		for _, y := range l {
			if x == y {
				return true
			}
		}
		return false
	}
	switch p := p.(type) {
	case *build.File:
		return in(p.Stmt)
	case *build.DefStmt:
		return in(p.Body)
	case *build.ForStmt:
		return in(p.Body)
	case *build.IfStmt:
		return in(p.True) || in(p.False)
	}
	return false
}

// renamed is the tree with all identifiers of expressions renamed, by reflection.
func renameAll(x build.Expr) {
	if id, ok := x.(*build.Ident); ok {
		id.Name += "_x"
	}
	for _, y := range children(x) {
		renameAll(y)
	}
}

var c39 = &core.Check{ID: "C39", Level: "model_checking", Guard: true,
	Run: func(c *core.Ctx) {
		nodes := c.Counter("nodes")
		ev := core.NewEval(c, "walk", func(in Case) error {
			f, err := parseAs(in.Type, in.Text)
			if err != nil {
				return nil
			}
			c.NonTrivial(1)
			before := sem.FromBuild(f, true).String()
			var want []step
			refWalk(f, nil, &want)
			*nodes += int64(len(want))
			fail := func(what, msg string) error {
				if msg == "" {
					return nil
				}
				kind := msg
				if i := strings.IndexByte(kind, '>'); i > 0 {
					kind = kind[:i]
				}
				return core.Failf(what+"/"+strings.ReplaceAll(kind, " ", "-"), "%s: %s\n%s", what, msg, in.Text)
			}
			var got []step
			build.Walk(f, func(x build.Expr, stk []build.Expr) {
				got = append(got, step{x, append([]build.Expr{}, stk...)})
			})
			if err := fail("Walk", sameSteps(got, want)); err != nil {
				return err
			}
			got = nil
			build.WalkPointers(f, func(x *build.Expr, stk []build.Expr) {
				got = append(got, step{*x, append([]build.Expr{}, stk...)})
			})
			if err := fail("WalkPointers", sameSteps(got, want)); err != nil {
				return err
			}
			got = nil
			build.EditChildren(f, func(x build.Expr, stk []build.Expr) build.Expr {
				got = append(got, step{x, append([]build.Expr{}, stk...)})
				return nil
			})
			if err := fail("EditChildren", sameSteps(append([]step{{x: f}}, got...), want)); err != nil {
				return err
			}
			// The children of each node.
			for _, s := range want {
				kids := map[build.Expr]bool{}
				for _, y := range children(s.x) {
					kids[y] = true
				}
				n := len(kids)
				var bad string
				build.WalkOnce(s.x, func(y *build.Expr) {
					if *y == nil {
						return
					}
					if !kids[*y] {
						bad = fmt.Sprintf("visits a %s that isn't a child of the %s (or twice)", kindOf(*y), kindOf(s.x))
					}
					delete(kids, *y)
					n--
				})
				if bad == "" && len(kids) != 0 {
					bad = fmt.Sprintf("misses a child of a %s", kindOf(s.x))
				}
				if err := fail("WalkOnce", bad); err != nil {
					return err
				}
			}
			// Statements.
			var wantS []step
			for _, s := range want {
				if len(s.stk) == 0 || isStatementList(s.stk[len(s.stk)-1], s.x) {
					ok := true
					for i := 1; i < len(s.stk); i++ {
						ok = ok && isStatementList(s.stk[i-1], s.stk[i])
					}
					if ok {
						wantS = append(wantS, s)
					}
				}
			}
			got = nil
			build.WalkStatements(f, func(x build.Expr, stk []build.Expr) error {
				got = append(got, step{x, append([]build.Expr{}, stk...)})
				return nil
			})
			if err := fail("WalkStatements", sameSteps(got, wantS)); err != nil {
				return err
			}
			// Stopping at each node: exactly its descendants are left out.
			for _, at := range want {
				below := func(s step) bool {
					for _, p := range s.stk {
						if p == at.x {
							return true
						}
					}
					return false
				}
				var w, ws []step
				for _, s := range want {
					if !below(s) {
						w = append(w, s)
					}
				}
				for _, s := range wantS {
					if !below(s) {
						ws = append(ws, s)
					}
				}
				got = nil
				build.WalkInterruptable(f, func(x build.Expr, stk []build.Expr) error {
					got = append(got, step{x, append([]build.Expr{}, stk...)})
					if x == at.x {
						return &build.StopTraversalError{}
					}
					return nil
				})
				if err := fail("WalkInterruptable", sameSteps(got, w)); err != nil {
					return err
				}
				got = nil
				build.WalkStatements(f, func(x build.Expr, stk []build.Expr) error {
					got = append(got, step{x, append([]build.Expr{}, stk...)})
					if x == at.x {
						return &build.StopTraversalError{}
					}
					return nil
				})
				if err := fail("WalkStatements-stop", sameSteps(got, ws)); err != nil {
					return err
				}
			}
			if s := sem.FromBuild(f, true).String(); s != before {
				return core.Failf("changed", "the traversals changed the tree from %s to %s\n%s", before, s, in.Text)
			}
			// Replacing one node: Edit goes on with the replacement, not with what was replaced.
			for _, at := range want {
				if len(at.stk) == 0 {
					continue
				}
				switch p := at.stk[len(at.stk)-1].(type) {
				case *build.LoadStmt, *build.DictExpr:
					continue // the types of the children are fixed
				case *build.TypedIdent:
					if at.x == build.Expr(p.Ident) {
						continue
					}
				}
				for _, by := range []*build.CallExpr{nil, {X: &build.Ident{Name: "zz"}, List: []build.Expr{&build.Ident{Name: "yy"}}}} {
					var y build.Expr = &build.Ident{Name: "xx"}
					if by != nil {
						y = by
					}
					replace := func(x build.Expr, stk []build.Expr) build.Expr {
						got = append(got, step{x, append([]build.Expr{}, stk...)})
						if x == at.x {
							got[len(got)-1].x = y
							return y
						}
						return nil
					}
					var w []step
					for _, s := range want {
						for _, x := range s.stk {
							if x == at.x {
								s.x = nil
							}
						}
						if s.x == nil {
							continue
						}
						if s.x == at.x {
							s.x = y
						}
						w = append(w, s)
						if s.x == y && by != nil {
							below := append(append([]build.Expr{}, s.stk...), y)
							w = append(w, step{by.X, below}, step{by.List[0], below})
						}
					}
					got = nil
					if res := build.Edit(f, replace); res != build.Expr(f) {
						return core.Failf("Edit/root", "Edit returns another tree\n%s", in.Text)
					}
					if err := fail("Edit-replace", sameSteps(got, w)); err != nil {
						return err
					}
					var now []step
					refWalk(f, nil, &now)
					found := false
					for _, s := range now {
						found = found || s.x == y && sameStk(s.stk, at.stk)
					}
					if !found {
						return core.Failf("Edit-replace/lost", "the replacement of a %s isn't in the tree\n%s", kindOf(at.x), in.Text)
					}
					build.Edit(f, func(x build.Expr, stk []build.Expr) build.Expr {
						if x == y {
							return at.x
						}
						return nil
					})
					if res := build.Edit(at.x, replace); res != y {
						return core.Failf("Edit-replace/root", "Edit of a %s doesn't return its replacement\n%s", kindOf(at.x), in.Text)
					}
				}
			}
			if s := sem.FromBuild(f, true).String(); s != before {
				return core.Failf("Edit-replace/changed", "replacing nodes and putting them back changed the tree from %s to %s\n%s", before, s, in.Text)
			}
			// Replacing each node by a copy of itself keeps the tree, and the copies are in it.
			copies := map[build.Expr]bool{}
			res := build.Edit(f, func(x build.Expr, stk []build.Expr) build.Expr {
				for _, p := range stk {
					if !copies[p] {
						copies[nil] = true
					}
				}
				v := reflect.New(reflect.TypeOf(x).Elem())
				v.Elem().Set(reflect.ValueOf(x).Elem())
				y := v.Interface().(build.Expr)
				copies[y] = true
				return y
			})
			if copies[nil] {
				return core.Failf("Edit/stack", "the stack of Edit contains replaced nodes\n%s", in.Text)
			}
			var after []step
			refWalk(res, nil, &after)
			for _, s := range after {
				if !copies[s.x] {
					return core.Failf("Edit/lost/"+kindOf(s.x), "the replacement of a %s below %s isn't in the tree\n%s", kindOf(s.x), kinds(s.stk), in.Text)
				}
			}
			if len(after) != len(want) || sem.FromBuild(res.(*build.File), true).String() != before {
				return core.Failf("Edit/tree", "replacing every node by a copy changed the tree from %s to %s\n%s", before, sem.FromBuild(res.(*build.File), true), in.Text)
			}
			// Renaming all identifiers.
			f1, _ := parseAs(in.Type, in.Text)
			f2, _ := parseAs(in.Type, in.Text)
			build.Edit(f1, func(x build.Expr, stk []build.Expr) build.Expr {
				if id, ok := x.(*build.Ident); ok {
					return &build.Ident{Name: id.Name + "_x"}
				}
				return nil
			})
			renameAll(f2)
			if a, b := sem.FromBuild(f1, true).String(), sem.FromBuild(f2, true).String(); a != b {
				return core.Failf("Edit/rename", "renaming all identifiers: %s instead of %s\n%s", a, b, in.Text)
			}
			return nil
		})
		core.Stream(c, func(emit func(Case) bool) {
			seen := map[string]bool{}
			give := func(ty, t string) bool {
				f, err := parseAs(ty, t)
				if err != nil {
					return true
				}
				k := ty + sem.FromBuild(f, true).String()
				if seen[k] {
					return true
				}
				seen[k] = true
				return emit(Case{ty, t})
			}
			for _, t := range typedPrograms() {
				if !give("default", t) {
					return
				}
			}
			source(c, func(x Case) bool {
				if x.Type != "build" && x.Type != "default" {
					return true
				}
				return give(x.Type, x.Text)
			})
			c.Bound("every different tree once; each traversal is stopped at every node")
		}, func(x Case) { ev.Do(x) })
	}}

// typedPrograms are functions with annotations, which the seeds don't combine.
func typedPrograms() []string {
	params := []string{"a", "a: T", "a: T[b, c]", "a = 1", "a: T = f(x)", "*", "*b", "*b: T", "**k", "**k: d.type"}
	var r []string
	for _, p := range params {
		for _, q := range params {
			for _, ret := range []string{"", " -> T", " -> T[int, a.type]"} {
				r = append(r, fmt.Sprintf("def f(%s, %s)%s:\n    return lambda %s: (x, y)\n", p, strings.Replace(q, "a", "z", 1), ret, strings.NewReplacer(": T[b, c]", "", ": T", "", ": d.type", "").Replace(p)))
			}
		}
	}
	return r
}

// starlarkComments lists the comments of a file in sorted order, and whether some are inside of statements.
func starlarkComments(f *syntax.File) (l []string, inner bool) {
	syntax.Walk(f, func(n syntax.Node) bool {
		if n == nil {
			return true
		}
		c := n.Comments()
		if c == nil {
			return true
		}
		for _, x := range [][]syntax.Comment{c.Before, c.Suffix, c.After} {
			for _, y := range x {
				l = append(l, strings.TrimRight(y.Text, " "))
			}
		}
		_, stmt := n.(syntax.Stmt)
		_, file := n.(*syntax.File)
		if !stmt && !file && len(c.Before)+len(c.Suffix)+len(c.After) > 0 {
			inner = true
		}
		return true
	})
	sort.Strings(l)
	return l, inner
}

// C36: conversion of the trees of go.starlark.net.
var c36 = &core.Check{ID: "C36", Level: "model_checking", Guard: true,
	Run: func(c *core.Ctx) {
		ev := core.NewEval(c, "convert", func(in Case) error {
			sf, err := syntax.Parse("f.bzl", in.Text, syntax.RetainComments)
			if err != nil || bytesRE.MatchString(in.Text) {
				return nil
			}
			c.NonTrivial(1)
			want, err := sem.FromStarlark(in.Text)
			if err != nil {
				return nil
			}
			f := convertast.ConvFile(sf)
			if got := sem.FromBuild(f, false).String(); got != want.String() {
				return core.Failf("tree", "%s is converted to %s\n%s", want, got, in.Text)
			}
			comments, inner := starlarkComments(sf)
			if inner {
				return nil // their places in the tree aren't those of build's parser
			}
			text := build.FormatWithoutRewriting(f)
			got, err := sem.FromStarlark(string(text))
			if err != nil {
				return core.Failf("text/syntax", "the converted tree is printed as\n%s which doesn't parse: %v\n%s", text, err, in.Text)
			}
			if got.String() != want.String() {
				return core.Failf("text/tree", "the converted tree is printed as\n%s\n%s\n%s\n%s", text, got, want, in.Text)
			}
			tf, err := syntax.Parse("f.bzl", string(text), syntax.RetainComments)
			if err != nil {
				return nil
			}
			if l, _ := starlarkComments(tf); strings.Join(l, "\n") != strings.Join(comments, "\n") {
				return core.Failf("comments", "the converted tree is printed as\n%s\nwith the comments %q instead of %q\n%s", text, l, comments, in.Text)
			}
			return nil
		})
		core.Stream(c, func(emit func(Case) bool) {
			source(c, func(x Case) bool {
				return x.Type != "default" || emit(x)
			})
		}, func(x Case) { ev.Do(x) })
	}}
