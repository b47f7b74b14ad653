package main

import (
	"fmt"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/warn"
	"verif/mc/core"
	"verif/mc/sem"
)

// C46: the linter is total. Every program over the linter's own vocabulary (the functions, methods, keywords and globals
// its categories look for, in all combinations with each other and with odd kinds of arguments and statements) is linted
// and fixed with all categories: nothing crashes, findings lie in the file, fixes are only made where there is a fixable finding, and give a program.

type totalCase struct {
	Type, Text string
}

var totalFuncs = []string{"glob", "select", "depset", "provider", "rule", "struct", "print", "FileType", "int", "str", "len", "list", "tuple", "dict", "zip", "max", "all", "sorted", "hasattr", "getattr", "fail", "type",
	"package", "exports_files", "licenses", "git_repository", "http_archive", "maybe", "vardef", "register_toolchains", "cc_library", "py_binary", "java_library", "proto_library", "sh_test", "aspect", "repository_rule", "macro", "PACKAGE_NAME", "load", "include", "package_group", "workspace", "bazel_dep", "use_repo"}

var totalBases = []string{"native", "ctx", "ctx.actions", "ctx.actions.args()", "attr", "ctx.attr.dep", "depset([])", "{}", "\"ab\"", "x", "java_common", "java_common.provider", "f()", "dict()", "(lambda: a)", "[1]"}

var totalMethods = []string{"package", "glob", "cc_library", "package_name", "new_file", "experimental_new_directory", "file_action", "action", "empty_action", "template_action", "add", "add_all", "run", "write", "label", "label_list", "license", "output", "string_list",
	"output_group", "union", "to_list", "pop", "get", "setdefault", "append", "JavaInfo", "items"}

var totalKeys = []string{"name", "include", "exclude", "items", "direct", "transitive", "order", "fields", "doc", "implementation", "cfg", "single_file", "allow_files", "non_empty", "default", "sibling", "filename", "executable", "command", "before_each", "join_with", "map_fn", "x", "elements", "deps",
	"default_visibility", "visibility", "licenses", "package_metadata", "initializer", "attrs", "iterable"}

var totalAtoms = []string{"a", "1", `"s"`, `"data"`, `["a"]`, "[a]", "[]", "{}", `{"b": 1, "a": 2}`, `{a: 1, "b": 2}`, "(1, 2)", "None", "True", "lambda: a", "-1", "not a", `"%s" % a`, "[i for i in a]", "{k: v for k, v in a}", "a[0]", "a[1:]", "a.b", "f(a)", "depset()", "PACKAGE_NAME", "native.glob", "ctx.attr.dep.output_group", "1 / 2", "a if b else c", "_impl", `"""x"""`, "_"}

var totalStmts = []string{
	"pass", "return", "return a", "a = 1", "a += [1]", "a += 1", "a.b = 1", "a[0] += [a]", "a, b = 1, 2", "[a, b] = c", "(a, (b, _)) = c", "a /= 2", "a = b = 1", "_ = 1", "BadName = 1", "a -= depset()", "a |= {}",
	"for a in b:\n    pass", "for a, _b in {}:\n    a = 1\n    break", "for i in depset():\n    x = depset(transitive = [x])", "for a in \"ab\":\n    continue\n    a", "for a.b in c:\n    return 1", "for a[0] in x:\n    a += [a]",
	"if a:\n    pass", "if a:\n    return 1\nelif b:\n    return\nelse:\n    x = 1", "if not a:\n    fail(\"x\")\nelse:\n    return a",
	"def f():\n    pass", "def f(a, b = 1, *args, **kwargs):\n    return a", "def f(*, name):\n    native.x(name = name)", "def _f(ctx):\n    return struct(a = 1)", "def f(x):\n    \"\"\"Doc.\n\n    Args:\n      x: y\n      y\n    Returns:\n    \"\"\"\n    if x:\n        return 1", "def f(a):\n    def g(a):\n        return a\n    return g(a)",
	"def F(a = [i for i in b], b = lambda x: x):\n    \"\"\"doc\"\"\"", "def f(a: int, b: list[str] = []) -> None:\n    pass", "def f(*args, **kwargs):\n    f(*args, **kwargs)", "def f(name):\n    f(name)", "def f():\n    return _f()", "def _f():\n    return f()", "def f():\n    \"\"\"\n    Args:\n    \"\"\"\n    native.cc_library(name = \"x\")", "def f():\n    1\n    \"s\"\n    a.b\n    a[0]\n    [1]\n    a == b",
	"load(\":a.bzl\", \"f\")", "load(\":a.bzl\", a = \"b\", f = \"f\")", "load(\"@x//internal:a.bzl\", \"cc_library\", \"f\")", "load(\"//p:f.bzl\", \"f\")", "load(\"//p:dep.bzl\", \"old\", g = \"old\")", "load(\"\", \"x\")", "load(\":\", \"x\")", "load(\"@r\", \"x\")", "load(\"a\", \"x\")", "load(\"@bazel_tools//tools/build_defs/repo:git.bzl\", \"git_repository\")",
	"\"\"\"Doc.\"\"\"", "\"s\"", "1", "a", "[1]", "{}", "a.b", "a[0]", "a == b", "[f() for a in b]", "[a for a in b]", "lambda: a", "# skylark\na", "r = rule(implementation = _f)", "r = rule(_f)", "r = macro(implementation = f)", "f(name = \"a\")", "f(\"a\")", "f(name = n)", "x = f(name = \"a\")", "package()", "package(default_visibility = [\"a\"])", "old()", "g(1)", "f.g()", "cc_library(name = \"a\", deps = [\":b\", \":a\"])",
}

var totalCtx = map[string][]string{
	"bzl":       {"$\n", "def _x(ctx, a, x):\n    $\n", "def x(ctx):\n    if a:\n        y = $\n    return $\n"},
	"build":     {"$\n", "t(name = $)\n", "y = [$ for i in $]\n"},
	"workspace": {"$\n"}, "module": {"$\n"}, "default": {"def x():\n    return $\n"},
}

func total(in totalCase) error {
	f, err := parse(in.Type, in.Text)
	if err != nil {
		return nil
	}
	nl := strings.Count(in.Text, "\n") + 1
	fixable := map[string]bool{}
	any := false
	for _, x := range warn.FileWarnings(f, warn.AllWarnings, nil, warn.ModeWarn, fwReader()) {
		any = any || x.AutoFixable
		fixable[x.Category] = fixable[x.Category] || x.AutoFixable
		if x.Start.Line < 1 || x.End.Line > nl || x.End.Line < x.Start.Line || x.Message == "" || x.Category == "" {
			return core.Failf("finding", "finding %s of a file with %d lines", show(x), nl)
		}
	}
	if sem.FromBuild(f, true).String() != mustTree(in.Type, in.Text) {
		return core.Failf("modified", "linting changed the tree")
	}
	before := string(build.FormatWithoutRewriting(f))
	g, err := parse(in.Type, in.Text)
	if err != nil {
		return nil
	}
	warn.FixWarnings(g, warn.AllWarnings, false, fwReader())
	out := string(build.FormatWithoutRewriting(g))
	if out != before && !any {
		return core.Failf("unannounced", "there is no fixable finding, but the file is fixed to\n%s", out)
	}
	if _, err := parse(in.Type, out); err != nil {
		return core.Failf("unparseable", "the fixed file doesn't parse: %v\n%s", err, out)
	}
	return nil
}

func mustTree(typ, text string) string {
	f, err := parse(typ, text)
	if err != nil {
		panic(err)
	}
	return sem.FromBuild(f, true).String()
}

func totals(c *core.Ctx, emit func(totalCase) bool) {
	typed := func(e string, all bool) bool {
		for _, t := range types {
			for i, x := range totalCtx[t] {
				if !all && (i > 0 || t == "module" || t == "default" || t == "workspace") {
					continue
				}
				if !emit(totalCase{t, strings.ReplaceAll(x, "$", e)}) {
					return false
				}
			}
		}
		return true
	}
	var args []string
	for _, a := range totalAtoms {
		args = append(args, a)
	}
	for _, k := range totalKeys {
		for i, a := range totalAtoms {
			if i < 4 || c.Thorough() {
				args = append(args, k+" = "+a)
			}
		}
	}
	args = append(args, "*a", "**a", "*[a]", "**{}")
	few := []string{"a", `"s"`, `["a"]`, "*a", "**a", "depset(a)", "{}"}
	for _, k := range totalKeys {
		few = append(few, k+" = a")
		if c.Thorough() {
			few = append(few, k+` = "s"`, k+" = True")
		}
	}
	funcs := append([]string{}, totalFuncs...)
	for _, b := range totalBases {
		for _, m := range totalMethods {
			funcs = append(funcs, b+"."+m)
			if !typed(b+"."+m, true) {
				return
			}
		}
	}
	for _, f := range funcs {
		if f == "load" {
			continue
		}
		if !typed(f+"()", true) || !typed(f, true) {
			return
		}
		for _, a := range args {
			if !typed(f+"("+a+")", c.Thorough() || !strings.Contains(f, ".") && !strings.Contains(a, "=")) {
				return
			}
		}
	}
	for i, f := range funcs {
		if f == "load" {
			continue
		}
		for _, a := range few {
			for _, b := range few {
				if i >= len(totalFuncs) && !c.Thorough() && (!strings.HasPrefix(f, "ctx") && !strings.HasPrefix(f, "attr") || !strings.Contains(a+b, "=")) {
					continue
				}
				if !emit(totalCase{"bzl", "def _x(ctx, a, x):\n    " + f + "(" + a + ", " + b + ")\n"}) {
					return
				}
				if i < len(totalFuncs) && !emit(totalCase{"build", f + "(" + a + ", " + b + ")\n"}) {
					return
				}
			}
		}
	}
	c.Bound("%d functions and methods x all %d arguments, all pairs of %d arguments, in %d contexts of all types of files", len(funcs), len(args), len(few), 9)
	// operators
	for _, a := range totalAtoms {
		for _, x := range []string{"-(%s)", "not (%s)", "(%s).x", "(%s)[0]", "(%s)[:1]", "(%s)()", "[%s for a in a]", "[a for a in (%s)]", "[a for a in a if (%s)]"} {
			if !typed(fmt.Sprintf(x, a), true) {
				return
			}
		}
		for _, b := range totalAtoms {
			for _, op := range []string{"+", "-", "/", "//", "%", "|", "in", "not in", "==", "<", "and", "*"} {
				if !typed("("+a+") "+op+" ("+b+")", op == "+" || op == "/" || c.Thorough()) {
					return
				}
			}
			if !emit(totalCase{"bzl", "def _x(a, b):\n    a = " + a + "\n    a += " + b + "\n    b /= " + a + "\n    return a / b\n"}) {
				return
			}
		}
	}
	c.Bound("all pairs of %d operands with 12 operators", len(totalAtoms))
	// statements
	n := len(totalStmts)
	ind := func(s string) string { return "    " + strings.ReplaceAll(s, "\n", "\n    ") }
	for i := -1; i < n; i++ {
		for j := 0; j < n; j++ {
			for k := -1; k < n; k++ {
				if i < 0 && k >= 0 || k >= 0 && !c.Thorough() && (i+j+k)%11 > 0 {
					continue
				}
				s := totalStmts[j]
				d := ind(s)
				if i >= 0 {
					s = totalStmts[i] + "\n\n" + s
					d = ind(totalStmts[i]) + "\n" + d
				}
				if k >= 0 {
					s += "\n\n" + totalStmts[k]
					d += "\n" + ind(totalStmts[k])
				}
				for _, t := range types {
					if t != "bzl" && t != "build" && k >= 0 {
						continue
					}
					if !emit(totalCase{t, s + "\n"}) {
						return
					}
					if (t == "bzl" || t == "default" && k < 0) && !strings.Contains(d, "load(") && !emit(totalCase{t, "def f(a, x, ctx):\n" + d + "\n"}) {
						return
					}
				}
				if k < 0 && !strings.Contains(d, "load(") && !emit(totalCase{"bzl", "def f(a, x, ctx):\n    for a in x:\n" + ind(d) + "\n    if x:\n" + ind(d) + "\n    else:\n" + ind(d) + "\n"}) {
					return
				}
			}
		}
	}
	if c.Thorough() {
		c.Bound("files and functions of <=3 of %d statements", n)
	} else {
		c.Bound("files and functions of <=2 of %d statements, and of every 11th triple", n)
	}
}

var c46 = &core.Check{ID: "C46", Level: "model_checking", Guard: true,
	Run: func(c *core.Ctx) {
		ev := core.NewEval(c, "total", func(in totalCase) error {
			c.NonTrivial(1)
			return total(in)
		})
		core.Stream(c, func(emit func(totalCase) bool) { totals(c, emit) }, func(x totalCase) { ev.Do(x) })
	}}
