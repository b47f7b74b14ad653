package main

import (
	"fmt"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/warn"
	"go.starlark.net/resolve"
	"go.starlark.net/starlark"
	"go.starlark.net/syntax"
	"verif/mc/core"
)

// C48: the types that the lints infer (package warn, types.go) are those of the values at run time.

func init() { resolve.AllowLambda, resolve.AllowFloat, resolve.AllowNestedDef = true, true, true }

// A value of a type that the interpreter doesn't have.
type obj string

func (o obj) String() string        { return string(o) }
func (o obj) Type() string          { return string(o) }
func (o obj) Freeze()               {}
func (o obj) Truth() starlark.Bool  { return true }
func (o obj) Hash() (uint32, error) { return 0, nil }
func (o obj) Binary(op syntax.Token, y starlark.Value, side starlark.Side) (starlark.Value, error) {
	if o == "depset" && y == starlark.Value(o) && (op == syntax.PLUS || op == syntax.PIPE) {
		return o, nil
	}
	return nil, nil
}
func (o obj) AttrNames() []string { return nil }
func (o obj) Attr(name string) (starlark.Value, error) {
	fn := func(v starlark.Value) starlark.Value {
		return starlark.NewBuiltin(name, func(*starlark.Thread, *starlark.Builtin, starlark.Tuple, []starlark.Tuple) (starlark.Value, error) {
			return v, nil
		})
	}
	switch string(o) + "." + name {
	case "ctx.actions":
		return obj("ctx.actions"), nil
	case "ctx.actions.args":
		return fn(obj("ctx.actions.args")), nil
	case "ctx.actions.declare_file", "ctx.args":
		return fn(obj("file")), nil
	case "ctx.label", "ctx.attr":
		return obj("file"), nil
	case "depset.to_list":
		return fn(starlark.NewList(nil)), nil
	}
	return nil, nil
}

// typeName is the name of a type of the linter for a value.
func typeName(v starlark.Value) string {
	switch t := v.Type(); t {
	case "NoneType":
		return "none"
	default:
		return t
	}
}

// An inferCase is a program; the probes are calls probe("sure", value) or probe("", value), the type is to be known
// for the former.
type inferCase struct{ Text string }

func checkInfer(text string) (int, error) {
	f, err := parse("bzl", text)
	if err != nil {
		return 0, nil
	}
	// the run: the types of the values by the line of the probe
	got := map[string]string{}
	count := 0
	probe := starlark.NewBuiltin("probe", func(t *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kw []starlark.Tuple) (starlark.Value, error) {
		at := t.CallFrame(1).Pos
		key := fmt.Sprintf("%d:%d", at.Line, at.Col)
		ty := typeName(args[1])
		if old, ok := got[key]; ok && old != ty {
			ty = "several"
		}
		got[key] = ty
		count++
		return args[1], nil
	})
	pre := starlark.StringDict{"probe": probe,
		"depset": starlark.NewBuiltin("depset", func(*starlark.Thread, *starlark.Builtin, starlark.Tuple, []starlark.Tuple) (starlark.Value, error) {
			return obj("depset"), nil
		}),
		"unknown": starlark.NewBuiltin("unknown", func(t *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kw []starlark.Tuple) (starlark.Value, error) {
			return args[0], nil
		}),
		"ctx_": obj("ctx"),
	}
	thread := &starlark.Thread{Name: "x"}
	if _, err := starlark.ExecFile(thread, "f", text, pre); err != nil {
		return 0, nil // not a program without errors
	}
	inferred := warn.DetectTypes(f)
	var bad error
	build.Walk(f, func(e build.Expr, stack []build.Expr) {
		call, ok := e.(*build.CallExpr)
		if !ok || bad != nil {
			return
		}
		if id, ok := call.X.(*build.Ident); !ok || id.Name != "probe" {
			return
		}
		ty, ok := got[fmt.Sprintf("%d:%d", call.ListStart.Line, call.ListStart.LineRune)]
		if !ok {
			return // not run
		}
		arg := call.List[1]
		t := inferred[arg].String()
		switch {
		case t == "unknown":
			if call.List[0].(*build.StringExpr).Value == "sure" {
				bad = core.Failf("unknown", "%sthe type in line %d is unknown, it is %s", text, call.ListStart.Line, ty)
			}
		case t != ty:
			bad = core.Failf("wrong", "%sthe type in line %d is taken to be %s, it is %s", text, call.ListStart.Line, t, ty)
		}
	})
	return count, bad
}

var inferTypes = []string{"bool", "int", "float", "string", "list", "dict", "depset", "none", "ctx", "ctx.actions", "ctx.actions.args", "file", "tuple"}

// known are the expressions of a type with a type that is known; without variables.
var known = map[string][]string{
	"bool":             {"True", "False", "bool(1)", "1 < 2", "\"a\" == 1", "1 in [2]", "\"a\" not in p_dict", "p_int != 2"},
	"int":              {"1", "0x1F", "0xfa", "0o7", "int(\"1\")", "7 // 2", "2 * 3 - 1", "7 % 4", "p_int + 1", "1 | 2"},
	"float":            {"1.5", "float(1)", "1.5 * 2.0", "1e3", ".5"},
	"string":           {"\"a%s\"", "\"a\"", "str(1)", "\"%s\" % 1", "\"a\" + p_string", "p_string + \"a\"", "\"%s\" % [1]", "\"%s\" % (1,)", "\"a%%s\" % 1", "\"a\" \"b\""},
	"list":             {"[]", "list((1,))", "[i for i in p_list]", "[{i: j} for i in p_list for j in p_list]", "[1] + p_list", "p_list + []"},
	"dict":             {"{}", "dict(a = 1)", "{i: j for i in p_list for j in p_list if i}", "{i: i for i in p_list}", "{1: 2} | p_dict"},
	"depset":           {"depset()", "depset([1])", "depset() + p_depset", "p_depset | depset([2])"},
	"none":             {"None"},
	"ctx":              {"ctx"},
	"ctx.actions":      {"ctx.actions"},
	"ctx.actions.args": {"ctx.actions.args()"},
}

// unsure are expressions the type of which need not be known.
var unsure = map[string][]string{
	"bool":             {"not 1", "unknown(True)", "p_bool", "True and False"},
	"int":              {"unknown(1)", "p_int", "len(\"a\")", "-1", "p_int % 7", "[1][0]", "{1: 2}[1]", "1 if True else 2", "\"a\".find(\"a\")", "(lambda x: 1)(2)"},
	"float":            {"unknown(1.5)", "p_float"},
	"string":           {"unknown(\"a\")", "p_string", "\"a\"[0]", "\"\".join([])", "\"a\".upper()", "p_string % 1", "p_string % [1]", "p_string % {}", "p_string % 1.5", "p_string % True", "p_string % \"a\""},
	"list":             {"unknown([])", "p_list", "depset().to_list()", "[1][:]", "\"a\".split(\"b\")", "{}.keys()", "[[1]][0]", "[1] and [2]"},
	"dict":             {"unknown({})", "p_dict", "[{}][0]"},
	"depset":           {"unknown(depset())", "p_depset"},
	"none":             {"unknown(None)", "print_()", "[None][0]"},
	"ctx":              {"unknown(ctx)"},
	"ctx.actions":      {"unknown(ctx.actions)"},
	"ctx.actions.args": {"unknown(ctx.actions).args()"},
	"file":             {"ctx.args()", "ctx.label", "ctx.attr", "ctx.actions.declare_file(\"a\")", "unknown(ctx).args()"},
	"tuple":            {"()", "(1, 2)", "1, 2", "(\"a\",)", "unknown((1,))"},
}

// An inferState is a straight-line program and what is known of its variables.
type inferState struct {
	text string
	typ  map[string]string
	sure map[string]bool
}

const inferHead = `def f(ctx, p_bool, p_int, p_float, p_string, p_list, p_dict, p_depset):
`

const inferTail = `
def print_():
    pass

f(ctx_, True, 5, 2.5, "p%s", [3], {4: 5}, depset())
`

func (s inferState) with(stmt string, v, t string, sure bool) inferState {
	r := inferState{s.text + "    " + stmt + "\n", map[string]string{}, map[string]bool{}}
	for k, x := range s.typ {
		r.typ[k], r.sure[k] = x, s.sure[k]
	}
	if v != "" {
		r.typ[v], r.sure[v] = t, sure
	}
	return r
}

// file completes the program with probes.
func (s inferState) file() inferCase {
	var b strings.Builder
	b.WriteString(inferHead + s.text)
	put := func(sure bool, stmt string, x string) {
		k := ""
		if sure {
			k = "sure"
		}
		b.WriteString("    " + strings.ReplaceAll(stmt, "$", fmt.Sprintf("probe(%q, %s)", k, x)) + "\n")
	}
	for _, v := range []string{"x", "y"} {
		t := s.typ[v]
		if t == "" {
			continue
		}
		sure := s.sure[v]
		put(sure, "$", v)
		put(sure, "unknown(x = 1, *[0, $])", "("+v+")")
		put(sure, "[$ for i in [1]]", v)
		put(false, "[$ for "+v+" in [(), \"a\"[0]]]", v)
		put(false, "unknown(lambda "+v+": $)(())", v)
		put(sure, "unknown(lambda i: $)(())", v)
		b.WriteString("    unknown(1, *[], **{})\n    if " + v + ":\n        probe(\"" + map[bool]string{true: "sure"}[sure] + "\", " + v + ")\n")
		put(true, "$", v+" == "+v)
		switch t {
		case "int", "list", "string", "dict", "depset":
			op := "+"
			if t == "dict" || t == "depset" {
				op = "|"
			}
			put(sure, "$", v+" "+op+" p_"+t)
			put(sure, "$", "p_"+t+" "+op+" "+v)
			put(sure, "$", "("+v+" "+op+" "+v+")")
		case "ctx":
			put(sure, "$", v+".actions")
			put(sure, "$", v+".actions.args()")
			put(false, "$", v+".label")
		case "ctx.actions":
			put(sure, "$", v+".args()")
			put(false, "$", v+".declare_file(\"a\")")
		}
	}
	b.WriteString("    def g(x, i = 1):\n        y = ()\n        probe(\"\", x)\n        probe(\"\", y)\n    g(())\n")
	b.WriteString(inferTail)
	return inferCase{b.String()}
}

// next are the states after one more statement.
func (s inferState) next(full bool, emit func(inferState) bool) bool {
	for _, v := range []string{"x", "y"} {
		if v == "y" && s.typ["x"] == "" && !full {
			continue
		}
		for _, t := range inferTypes {
			ks, us := known[t], unsure[t]
			if !full {
				ks = ks[:min(2, len(ks))]
				us = us[:1]
			}
			for _, e := range ks {
				if !emit(s.with(v+" = "+e, v, t, true)) || full && !emit(s.with("("+v+") = ("+e+")", v, t, false)) {
					return false
				}
			}
			for _, e := range us {
				for _, st := range []string{"%s = %s", "%s, i = (%s), \"\"", "[(i), %s] = [1, (%s)]", "for %s in [(%s)]: i = 1", "for i, %s in [(1, (%s))]: i = 1", "%s = [(%s), 1][0]"} {
					if !emit(s.with(fmt.Sprintf(st, v, e), v, t, false)) {
						return false
					}
					if !full {
						break
					}
				}
			}
			if s.typ[v] == t {
				op := ""
				switch t {
				case "int", "float", "string", "list":
					op = "+="
				case "dict", "depset":
					op = "|="
				}
				if t == "string" || t == "int" {
					for _, e := range []string{"p_int", "7", "[1]"} {
						if t == "int" && e == "[1]" {
							continue
						}
						n := s.with(v+" %= "+e, v, t, s.sure[v])
						if !s.sure[v] && e == "7" {
							n.sure[v] = false
						}
						if !emit(n) {
							return false
						}
					}
				}
				if op != "" {
					if !emit(s.with(v+" "+op+" "+ks[len(ks)-1], v, t, true)) || len(us) > 1 && !emit(s.with(v+" "+op+" p_"+t, v, t, s.sure[v])) {
						return false
					}
				}
			}
		}
		w := map[string]string{"x": "y", "y": "x"}[v]
		if t := s.typ[w]; t != "" {
			if !emit(s.with(v+" = "+w, v, t, s.sure[w])) || !emit(s.with(v+" = unknown("+w+")", v, t, false)) {
				return false
			}
		}
		if s.typ["x"] != "" && s.typ["y"] != "" && v == "x" {
			n := s.with("x, y = y, x", "x", s.typ["y"], false)
			n.typ["y"], n.sure["y"] = s.typ["x"], false
			if !emit(n) {
				return false
			}
		}
	}
	// without an effect on the variables
	for _, st := range []string{"[x for x in [(), 1][:1]]", "unknown(x = \"a\", *[1])", "unknown(lambda x = 1, y = {}: x)", "def h(x = 1, y = []): x = {}", "def h(): x = 1", "def h():\n        y = ()\n        x = \"a\"", "(lambda: 1)()", "{}.get(1, 2)"} {
		if !emit(s.with(st, "", "", false)) {
			return false
		}
	}
	return true
}

var c48 = &core.Check{ID: "C48", Level: "model_checking", Guard: true,
	Run: func(c *core.Ctx) {
		ev := core.NewEval(c, "infer", func(in inferCase) error {
			n, err := checkInfer(in.Text)
			if n > 0 {
				c.NonTrivial(1)
			}
			return err
		})
		core.Stream(c, func(emit func(inferCase) bool) {
			// names that look like the context
			for _, b := range []string{"[probe(\"\", ctx) for ctx in [1]]", "def h():\n    ctx = p(1)\n    probe(\"\", ctx)\nh()", "def h():\n    ctx = 1\n    probe(\"sure\", ctx)\nh()", "def h(ctx):\n    probe(\"sure\", ctx)\n    def k(): probe(\"sure\", ctx.actions)\n    k()\nh(ctx_)", "def h():\n    for ctx in [\"a\"]:\n        probe(\"\", ctx)\nh()", "ctx = p(\"a\")\nprobe(\"\", ctx)\n[probe(\"\", ctx) for i in [1]]\n", "def ctx(): pass\nprobe(\"\", ctx)", "def h(x):\n    ctx, y = x, 1\n    probe(\"\", ctx)\nh(1)", "(lambda ctx: probe(\"\", ctx.actions))(ctx_)"} {
				if !emit(inferCase{"p = unknown\n" + b + "\n"}) {
					return
				}
			}
			// expressions
			for _, t := range inferTypes {
				for i, l := range [][]string{known[t], unsure[t]} {
					for _, e := range l {
						sure := []string{"sure", ""}[i]
						for _, w := range []string{"$", "($)", "((\n        $))"} {
							e := strings.ReplaceAll(w, "$", e)
							if t == "tuple" && w == "$" {
								e = "(" + e + ")"
							}
							if !emit(inferCase{inferHead + fmt.Sprintf("    probe(%q, %s)\n    [probe(%q, %s) for j in [1]]\n", sure, e, sure, e) + inferTail}) {
								return
							}
						}
						for _, op := range []string{"+", "-", "*", "//", "%", "|", "==", "in", "not in", ">="} {
							for j, l2 := range [][]string{known[t], unsure[t]} {
								for _, e2 := range l2 {
									if t == "tuple" || op == "*" && (t != "int" && t != "float") {
										continue
									}
									s := ""
									if i == 0 && (j == 0 || op != "%") || op == ">=" || op == "==" || strings.HasSuffix(op, "in") {
										s = "sure"
									}
									if !emit(inferCase{inferHead + fmt.Sprintf("    probe(%q, (%s) %s (%s))\n", s, e, op, e2) + inferTail}) {
										return
									}
								}
							}
						}
					}
				}
			}
			c.Bound("all expressions of %d types, all binary operators between expressions of the same type", len(inferTypes))
			var rec func(s inferState, n int, full bool) bool
			rec = func(s inferState, n int, full bool) bool {
				if !emit(s.file()) {
					return false
				}
				if n == 0 {
					return true
				}
				return s.next(full && n == 1, func(s inferState) bool { return rec(s, n-1, full) })
			}
			n := c.Pick(2, 3)
			if rec(inferState{}, 1, true) && rec(inferState{}, n, true) {
				c.Bound("all programs of <=%d assignments to 2 variables, the last one of any kind, then %d probes", n, 20)
			}
			if rec(inferState{}, n+1, false) {
				c.Bound("all programs of %d simple assignments", n+1)
			}
		}, func(x inferCase) { ev.Do(x) })
	}}
