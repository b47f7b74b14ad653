package main

import (
	"fmt"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/bzlenv"
	"go.starlark.net/resolve"
	"go.starlark.net/syntax"
	"verif/mc/core"
)

// C47: the environment of the linter (package bzlenv) resolves every name as the language does.

// A variable of the reference.
type refVar struct {
	name  string
	kinds map[bzlenv.ValueKind]bool
	lines map[int]bool // lines of the identifiers that bind it
}

type pos struct{ line, col int }

// A resolved identifier.
type refUse struct {
	v  *refVar // nil: not bound in the file
	fn int     // line of the innermost function definition around it; 0: none, -1: don't care
}

// namesRef resolves all identifiers of a file with the reference resolver.
func namesRef(text string) (map[pos]refUse, error) {
	f, err := syntax.Parse("f", text, 0)
	if err != nil {
		return nil, err
	}
	if err := resolve.File(f, func(string) bool { return true }, func(string) bool { return false }); err != nil {
		return nil, err
	}
	vars := map[*syntax.Ident]*refVar{}
	globals := map[string]*refVar{}
	// The variable bound by an identifier.
	bind := func(id *syntax.Ident, k bzlenv.ValueKind, global bool) {
		first := id
		if b, ok := id.Binding.(*resolve.Binding); ok && b.First != nil {
			first = b.First
		}
		v := vars[first]
		if v == nil && global {
			v = globals[id.Name]
		}
		if v == nil {
			v = &refVar{name: id.Name, kinds: map[bzlenv.ValueKind]bool{}, lines: map[int]bool{}}
		}
		vars[first] = v
		vars[id] = v
		if global {
			globals[id.Name] = v
		}
		v.kinds[k] = true
		v.lines[int(id.NamePos.Line)] = true
	}
	fns := map[*syntax.Ident]int{}
	var ids []*syntax.Ident
	var stmts func(l []syntax.Stmt, fn int)
	var expr func(e syntax.Expr, fn int)
	use := func(id *syntax.Ident, fn int) {
		ids = append(ids, id)
		fns[id] = fn
	}
	target := func(e syntax.Expr, k bzlenv.ValueKind, fn int, global bool) {
		for _, id := range targets(e) {
			bind(id, k, global)
		}
		expr(e, fn)
	}
	params := func(l []syntax.Expr, fn int) {
		for _, p := range l {
			switch p := p.(type) {
			case *syntax.BinaryExpr:
				expr(p.Y, fn)
				bind(p.X.(*syntax.Ident), bzlenv.Parameter, false)
				use(p.X.(*syntax.Ident), fn)
			case *syntax.UnaryExpr:
				if id, ok := p.X.(*syntax.Ident); ok {
					bind(id, bzlenv.Parameter, false)
					use(id, fn)
				}
			case *syntax.Ident:
				bind(p, bzlenv.Parameter, false)
				use(p, fn)
			}
		}
	}
	expr = func(e syntax.Expr, fn int) {
		if e == nil {
			return
		}
		syntax.Walk(e, func(n syntax.Node) bool {
			switch n := n.(type) {
			case *syntax.Ident:
				use(n, fn)
			case *syntax.DotExpr:
				expr(n.X, fn)
				return false
			case *syntax.CallExpr:
				expr(n.Fn, fn)
				for _, a := range n.Args {
					if b, ok := a.(*syntax.BinaryExpr); ok && b.Op == syntax.EQ {
						expr(b.Y, fn)
					} else {
						expr(a, fn)
					}
				}
				return false
			case *syntax.LambdaExpr:
				params(n.Params, fn)
				expr(n.Body, fn)
				return false
			case *syntax.Comprehension:
				for _, c := range n.Clauses {
					switch c := c.(type) {
					case *syntax.ForClause:
						expr(c.X, fn)
						target(c.Vars, bzlenv.Local, fn, false)
					case *syntax.IfClause:
						expr(c.Cond, fn)
					}
				}
				expr(n.Body, fn)
				return false
			}
			return true
		})
	}
	stmts = func(l []syntax.Stmt, fn int) {
		local := bzlenv.Local
		if fn == 0 {
			local = bzlenv.Global
		}
		for _, s := range l {
			switch s := s.(type) {
			case *syntax.LoadStmt:
				for _, id := range s.To {
					bind(id, bzlenv.Imported, true)
				}
			case *syntax.AssignStmt:
				expr(s.RHS, fn)
				target(s.LHS, local, fn, fn == 0)
			case *syntax.ExprStmt:
				expr(s.X, fn)
			case *syntax.ReturnStmt:
				expr(s.Result, fn)
			case *syntax.IfStmt:
				expr(s.Cond, fn)
				stmts(s.True, fn)
				stmts(s.False, fn)
			case *syntax.ForStmt:
				expr(s.X, fn)
				target(s.Vars, local, fn, fn == 0)
				stmts(s.Body, fn)
			case *syntax.DefStmt:
				bind(s.Name, bzlenv.Function, fn == 0)
				params(s.Params, -1)
				stmts(s.Body, int(s.Def.Line))
			}
		}
	}
	stmts(f.Stmts, 0)
	r := map[pos]refUse{}
	for _, id := range ids {
		u := refUse{fn: fns[id]}
		if b, ok := id.Binding.(*resolve.Binding); ok && b.First != nil {
			u.v = vars[b.First]
		} else if v := vars[id]; v != nil {
			u.v = v
		} else {
			u.v = globals[id.Name]
		}
		r[pos{int(id.NamePos.Line), int(id.NamePos.Col)}] = u
	}
	return r, nil
}

func checkNames(text string) (int, error) {
	ref, err := namesRef(text)
	if err != nil {
		return 0, nil
	}
	f, err := parse("bzl", text)
	if err != nil {
		return 0, nil
	}
	seen := map[pos]bool{}
	ids := map[*refVar]int{}
	byID := map[int]*refVar{}
	var bad error
	fail := func(class, format string, args ...interface{}) {
		if bad == nil {
			bad = core.Failf(class, "%s%s", text, fmt.Sprintf(format, args...))
		}
	}
	var stack []build.Expr
	var walk func(e *build.Expr, env *bzlenv.Environment)
	walk = func(e *build.Expr, env *bzlenv.Environment) {
		if *e == nil {
			return
		}
		ok := len(stack) == len(env.Stack)
		for i := 0; ok && i < len(stack); i++ {
			ok = stack[i] == env.Stack[i]
		}
		if !ok {
			fail("stack", "%T has %d ancestors, the environment %d", *e, len(stack), len(env.Stack))
		}
		if id, ok := (*e).(*build.Ident); ok {
			p := pos{id.NamePos.Line, id.NamePos.LineRune}
			if u, ok := ref[p]; ok {
				if seen[p] {
					fail("twice", "%s in %v is visited twice", id.Name, p)
				}
				seen[p] = true
				got := env.Get(id.Name)
				switch {
				case got == nil && u.v != nil:
					fail("unbound", "%s in %v isn't resolved", id.Name, p)
				case got != nil && u.v == nil:
					fail("bound", "%s in %v is resolved to a %v, it isn't bound", id.Name, p, got.Kind)
				case got != nil:
					old, ok := ids[u.v]
					other := byID[got.ID]
					if ok && old != got.ID || other != nil && other != u.v {
						fail("binding", "%s in %v is resolved to another variable (a %v)", id.Name, p, got.Kind)
					}
					ids[u.v], byID[got.ID] = got.ID, u.v
					if got.Name != id.Name || !u.v.kinds[got.Kind] {
						fail("kind", "%s in %v is a %v named %s", id.Name, p, got.Kind, got.Name)
					}
					start, end := got.Definition.Span()
					in := false
					for l := range u.v.lines {
						in = in || start.Line <= l && l <= end.Line
					}
					if !in {
						fail("definition", "%s in %v is defined in lines %d-%d", id.Name, p, start.Line, end.Line)
					}
				}
				fn := 0
				if env.Function != nil {
					fn = env.Function.StartPos.Line
				}
				if u.fn >= 0 && fn != u.fn {
					fail("function", "%s in %v is in the function of line %d, not %d", id.Name, p, fn, u.fn)
				}
			}
		}
		stack = append(stack, *e)
		bzlenv.WalkOnceWithEnvironment(*e, env, walk)
		stack = stack[:len(stack)-1]
	}
	env := bzlenv.NewEnvironment()
	var e build.Expr = f
	walk(&e, env)
	if env.Function != nil || len(env.Stack) > 0 || len(env.Blocks) != 1 {
		fail("end", "afterwards the environment has %d blocks, %d ancestors", len(env.Blocks), len(env.Stack))
	}
	for p := range ref {
		if !seen[p] {
			fail("unvisited", "the name in %v isn't visited", p)
		}
	}
	return len(ref), bad
}

type nameCase struct{ Text string }

var c47 = &core.Check{ID: "C47", Level: "model_checking", Guard: true,
	Run: func(c *core.Ctx) {
		ev := core.NewEval(c, "names", func(in nameCase) error {
			n, err := checkNames(in.Text)
			if n > 1 {
				c.NonTrivial(1)
			}
			return err
		})
		// Statements of functions; the simple ones may be on top level.
		simple := []string{
			"x = 1", "x = x", "x += y", "x, y = y, x", "(x, [y, z]) = x", "[x, y] = g", "x[y], z = 1, 2", "x.y = x", "x[x] = y", "(x) = y",
			"g(x)", "g(x = y)", "g(x = x, *y, **x)", "x.x(x)", "x[y:z:x]", "g(x if y else z)", "g((x, [y], {x: y}), not x)",
			"g([x for x in x])", "g([y for x in y for y in x if x])", "g([x for y in x for x in y])", "g([x for x, [y, z] in l if y])", "g({x: y for x in y})", "g([x for x[y] in l])", "g([[x for x in y] for y in x])", "g([x for x in [y for y in x]])", "g([x for a in l if x for x in l], x)", "g([(lambda y: x + y)(y) for x in y])",
			"g(lambda x: x)", "g(lambda y = x: y)", "g(lambda x = x: x)", "g(lambda *x, **y: x)(y)", "g(lambda x, y = x: lambda z = y: x)", "g(lambda: [x for x in y])", "g(lambda x, *, y = x: y)",
			"def x(): g(x)", "def h(x): return x", "def h(x = x, y = y): g(x, y)", "def h(*x, **y): return x, y", "def h():\n    x = y\n    return x", "def h(y):\n    def x(): g(y)\n    x()", "def h():\n    def k(x = x):\n        y = x\n    k(x, y)", "def h(x, *, y = x): g(y)",
			"def h():\n    g(x)\n    def k(): g(x)\n    x = 1",
			"g(x) # end",
		}
		blocks := []string{
			"if x: x = 1", "if g:\n    pass\nelse:\n    x = y", "if x: pass\nelif y: y = x\nelse: z = x", "for x in x: g(x)", "for x, y in l: pass", "for i in l:\n    x = i\n    g(i)", "for i in l:\n    for [x] in i:\n        y = x", "if g:\n    for x in l:\n        if x:\n            pass\n        else:\n            z = x",
			"if g:\n    def x(): pass", "for i in l:\n    def y(x): g(x, i)", "if g:\n    x += 1", "for l[x] in l: pass", "return x", "return lambda: x", "if g: pass\nelse:\n    def x(y): return x(y)",
		}
		all := append(append([]string{}, simple...), blocks...)
		core.Stream(c, func(emit func(nameCase) bool) {
			var tops []string
			for _, t := range append([]string{``, `load(":a.bzl", "x")`, `load(":a.bzl", "z", x = "y")`, `load(":a.bzl", y = "x")`}, simple...) {
				if t != "" {
					t += "\n"
				}
				tops = append(tops, t)
			}
			for i, t := range tops {
				for j, u := range tops {
					if !emit(nameCase{t + u}) {
						return
					}
					for k, v := range tops {
						if (c.Thorough() || (i+j+k)%5 == 0) && !emit(nameCase{t + u + v}) {
							return
						}
					}
				}
			}
			c.Bound("all files of <=2 of %d statements, of 3 of them (quick: a fifth)", len(tops))
			heads := []string{"def f():\n", "def f(x):\n", "def f(x, y = x, *z, **w):\n", "def f(x = y, *, y = x):\n"}
			for _, h := range heads {
				for i, a := range all {
					for j, b := range all {
						fn := h + indent(a) + indent(b)
						for k, t := range tops {
							if k > 3 && !c.Thorough() && (i+j+k)%7 > 0 {
								continue
							}
							if !emit(nameCase{t + fn}) || k%4 == 1 && !emit(nameCase{fn + t}) {
								return
							}
						}
						// in a nested function, with a function after it
						if !emit(nameCase{"def o(y):\n" + indent(h+indent(a)) + indent(b) + "def p(z):\n    g(x, y, z)\n"}) || !emit(nameCase{"def o(z):\n" + indent(a) + indent(h+indent(b)) + "    g(x, y, f)\ng(f)\n"}) {
							return
						}
						for k, d := range all {
							if !c.Thorough() && (i+j+k)%5 > 0 {
								continue
							}
							if !emit(nameCase{fn + indent(d)}) {
								return
							}
						}
					}
				}
			}
			c.Bound("all functions of 2 of %d statements with %d headers, nested in functions, after one of %d statements; of 3 statements (quick: a fifth)", len(all), len(heads), len(tops))
		}, func(x nameCase) { ev.Do(x) })
	}}
