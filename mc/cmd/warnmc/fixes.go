package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/warn"
	"verif/mc/core"
	"verif/mc/gen"
	"verif/mc/sem"
)

// C28: automatic fixes rewrite exactly the patterns they document, wherever they are nested.
// C40: the pattern lints report exactly the patterns they document.

// A tmpl is a pattern: Before is rewritten to After. $1 and $2 are arbitrary expressions.
type tmpl struct {
	cat, before, after string
}

// exprTmpls are expressions in a .bzl file, in a function with the parameter ctx.
var exprTmpls = []tmpl{
	{"", "x.package($1)", ""},
	{"", "f().package($1)", ""},
	{"", "glob([f($1)])", ""},
	{"constant-glob", `glob([f($1), "b"])`, ""},
	{"", `a.glob(["a"], x = $1)`, ""},
	{"", `f(1)(["a"], include = $1)`, ""},
	{"ctx-actions", "ctx.new_file($1)", "ctx.actions.declare_file($1)"},
	{"ctx-actions", "ctx.new_file($1, $2)", "ctx.actions.declare_file($2, sibling = $1)"},
	{"ctx-actions", "ctx.new_file(sibling = $1, filename = $2)", "ctx.actions.declare_file($2, sibling = $1)"},
	{"ctx-actions", "ctx.experimental_new_directory($1)", "ctx.actions.declare_directory($1)"},
	{"ctx-actions", "ctx.file_action(output = $1, executable = $2)", "ctx.actions.write(output = $1, is_executable = $2)"},
	{"ctx-actions", "ctx.action(outputs = $1, command = $2)", "ctx.actions.run_shell(outputs = $1, command = $2)"},
	{"ctx-actions", "ctx.action(executable = $1, *$2)", "ctx.actions.run(executable = $1, *$2)"},
	{"ctx-actions", "ctx.empty_action(mnemonic = $1)", "ctx.actions.do_nothing(mnemonic = $1)"},
	{"ctx-actions", "ctx.template_action(template = $1, executable = $2)", "ctx.actions.expand_template(template = $1, is_executable = $2)"},
	{"ctx-actions", "ctx.template_action(executable = $1, output = $2)", "ctx.actions.expand_template(is_executable = $1, output = $2)"},
	{"ctx-actions", "ctx.new_file($1, $2, c)", ""},
	{"attr-cfg", `attr.label(default = $1, cfg = "data")`, "attr.label(default = $1)"},
	{"attr-cfg", `attr.label_list(cfg = "data", default = $1, **$2)`, "attr.label_list(default = $1, **$2)"},
	{"attr-cfg", `attr.label(cfg = "host", default = $1)`, `attr.label(cfg = "exec", default = $1)`},
	{"attr-non-empty", "attr.label_list($1, non_empty = True)", "attr.label_list($1, allow_empty = False)"},
	{"attr-non-empty", "attr.label_list(non_empty = False, x = $1)", "attr.label_list(allow_empty = True, x = $1)"},
	{"attr-non-empty", "attr.string_list(non_empty = not ($1))", "attr.string_list(allow_empty = ($1))"},
	{"attr-non-empty", "attr.string_list(non_empty = $1)", "attr.string_list(allow_empty = not ($1))"},
	{"attr-single-file", "attr.label(single_file = True, x = $1)", "attr.label(allow_single_file = True, x = $1)"},
	{"attr-single-file", "attr.label(single_file = True, allow_files = $1)", "attr.label(allow_single_file = $1)"},
	{"attr-single-file", "attr.label(allow_files = $1, single_file = True, y = $2)", "attr.label(allow_single_file = $1, y = $2)"},
	{"attr-single-file", "attr.label(single_file = False, allow_files = $1)", "attr.label(allow_files = $1)"},
	{"attr-single-file", "attr.label(allow_files = $1, single_file = False)", "attr.label(allow_files = $1)"},
	{"output-group", "ctx.attr.dep.output_group", "ctx.attr.dep[OutputGroupInfo]"},
	{"package-name", "PACKAGE_NAME", "native.package_name()"},
	{"repository-name", "REPOSITORY_NAME", "native.repository_name()"},
	{"integer-division", "1 / 2", "1 // 2"},
	{"integer-division", "int($1) / int($2)", "int($1) // int($2)"},
	{"integer-division integer-division", "int($1) / 2 / 3", "int($1) // 2 // 3"},
	{"integer-division integer-division", "1 / (2 / int($1))", "1 // (2 // int($1))"},
	{"ctx-args", "ctx.actions.args().add($1, before_each = $2)", "ctx.actions.args().add_all($1, before_each = $2)"},
	{"ctx-args", "ctx.actions.args().add($1, join_with = $2)", "ctx.actions.args().add_joined($1, join_with = $2)"},
	{"ctx-args", "ctx.actions.args().add(before_each = $1, join_with = $2)", `ctx.actions.args().add_joined(format_each = ($1) + "%s", join_with = $2)`},
	{"ctx-args", "ctx.actions.args().add(map_fn = $1)", "ctx.actions.args().add_all(map_each = $1)"},
	{"ctx-args", "ctx.actions.args().add(join_with = $1, map_fn = $2)", "ctx.actions.args().add_joined(join_with = $1, map_each = $2)"},
	{"depset-iteration", "len(depset($1))", "len(depset($1).to_list())"},
	{"depset-iteration", "list(depset($1))", "depset($1).to_list()"},
	{"depset-iteration", "b in depset($1)", "b in depset($1).to_list()"},
	{"depset-iteration", "b not in depset($1)", "b not in depset($1).to_list()"},
	{"depset-iteration", "zip(a, depset($1))", "zip(a, depset($1).to_list())"},
	{"depset-iteration depset-iteration", "zip(depset($2), depset($1))", "zip(depset($2).to_list(), depset($1).to_list())"},
	{"depset-iteration", "[i for i in depset($1) if ($2)]", "[i for i in depset($1).to_list() if ($2)]"},
	{"depset-iteration depset-iteration", "[i for i in depset($1) for j in depset($2)]", "[i for i in depset($1).to_list() for j in depset($2).to_list()]"},
	{"keyword-positional-params", "all(elements = $1)", "all($1)"},
	{"keyword-positional-params keyword-positional-params", "hasattr(x = $1, name = $2)", "hasattr($1, $2)"},
	{"keyword-positional-params keyword-positional-params", "getattr(a, name = $1, default = $2)", "getattr(a, $1, $2)"},
	{"keyword-positional-params", "native.len(x = $1)", "native.len($1)"},
	{"unsorted-dict-items", `{"b": $1, "a": $2}`, `{"a": $2, "b": $1}`},
	// not fixable
	{"attr-license", "attr.license($1)", ""},
	{"attr-output-default", "attr.output(x = $1, default = $2)", ""},
	{"attr-licenses", `{"licenses": $1}`, ""},
	{"attr-applicable_licenses", `{"package_metadata": $1}`, ""},
	{"filetype", "FileType($1)", ""},
	{"print", "print($1)", ""},
	{"constant-glob", `glob(["a"], exclude = $1)`, ""},
	{"constant-glob", `glob(exclude = $1, include = ["a*", "b", "c"])`, ""},
	{"provider-params", "provider(fields = $1)", ""},
	{"provider-params", "provider($1, f = $2)", ""},
	{"depset-items", "g(depset(items = $1))", ""},
	{"depset-items", "g(depset(depset($1), order = $2))", ""},
	{"depset-union", "g(depset($1) + a)", ""},
	{"depset-union", "g(a | depset($1))", ""},
	{"depset-union", "depset($1).union($2)", ""},
	{"dict-concatenation", "g({a: $1} + b)", ""},
	{"dict-concatenation", "g(b + dict(x = $1))", ""},
	{"dict-method-named-arg", "{a: $2}.pop($1, default = 1)", ""},
	{"dict-method-named-arg", "dict(x = $1).setdefault($2, default = 1)", ""},
	{"string-iteration", `[i for i in "ab" if ($1)]`, ""},
	{"string-iteration", `max(str($1))`, ""},
	{"string-iteration string-iteration", `zip("ab", str($1))`, ""},
	{"native-package", "native.package(x = $1)", ""},
	// near misses
	{"", "foo.new_file($1)", ""},
	{"", "ctx.new_files($1)", ""},
	{"", "x.ctx.new_file($1)", ""},
	{"", "new_file(ctx, $1)", ""},
	{"", "ctx.actions.write($1, executable = $2)", ""},
	{"", `attr.label(cfg = "exec", default = $1)`, ""},
	{"", `attr.label(cfg = g("data", $1))`, ""},
	{"", `foo.label(cfg = "data", x = $1)`, ""},
	{"", `attr.label("data", x = $1)`, ""},
	{"", `attr(cfg = "data", non_empty = True, single_file = $1)`, ""},
	{"", `attrs.label(non_empty = True, single_file = $1)`, ""},
	{"", "attr.label(allow_files = $1)", ""},
	{"", "ctx.attr.output_group", ""},
	{"", "x.attr.dep.output_group", ""},
	{"", "ctx.attr.dep.output_groups", ""},
	{"", "ctx.attr.dep[x].output_group", ""},
	{"", "x.PACKAGE_NAME", ""},
	{"", "g(PACKAGE_NAME = $1)", ""},
	{"", "[PACKAGE_NAME for PACKAGE_NAME in ($1)]", ""},
	{"", "REPOSITORY_NAMES", ""},
	{"", "1 // int($1)", ""},
	{"", "1.5 / int($1)", ""},
	{"", "a / int($1)", ""},
	{"", "x.args().add($1, before_each = $2)", ""},
	{"", "ctx.actions.args().add($1)", ""},
	{"", "ctx.actions.args().add_all($1, map_fn = $2)", ""},
	{"", "ctx.actions.args().adds($1, join_with = $2)", ""},
	{"", "len(g(depset($1)))", ""},
	{"", "depset($1).to_list()", ""},
	{"", "zips(depset($1))", ""},
	{"", "max(depset($1), depset($2))", ""},
	{"", "b == depset($1)", ""},
	{"", "x.all(elements = $1)", ""},
	{"", "all(x = $1)", ""},
	{"", `{"a": $1, "b": $2}`, ""},
	{"", `{b: $1, a: $2}`, ""},
	{"", `{"a": $1, "_b": $2}`, ""},
	{"", `{"z": $1, "//conditions:default": $2}`, ""},
	{"", "attr.licenses($1)", ""},
	{"", "attr.outputs(default = $1)", ""},
	{"", `{"license": $1}`, ""},
	{"", "x.FileType($1)", ""},
	{"", "x.print($1)", ""},
	{"", `glob(["a*"], exclude = ["b", $1])`, ""},
	{"", `globs(["a"], exclude = $1)`, ""},
	{"", `provider(doc = $1, fields = $2)`, ""},
	{"", `provider("a", fields = $2)`, ""},
	{"", `x.provider($2)`, ""},
	{"", "g(depset($1, transitive = $2))", ""},
	{"", "g(depset(direct = depset($1)))", ""},
	{"", "depset($1) == depset($2)", ""},
	{"", "x.union(g(depset($1)))", ""},
	{"", "{a: $1}.pop($2, c)", ""},
	{"", "{a: $1}.get($2, defaults = c)", ""},
	{"", "x.pop($1, default = c)", ""},
	{"", "g({a: $1} | {b: $2})", ""},
	{"", "sorted(str($1))", ""},
	{"", `max("a", $1)`, ""},
	{"", "native.packages($1)", ""},
}

// stmtTmpls are statements.
var stmtTmpls = []tmpl{
	{"list-append", "x += [$1]", "x.append($1)"},
	{"list-append", "x.y[$2] += [$1]", "x.y[$2].append($1)"},
	{"integer-division", "n /= int($1)", ""},
	{"integer-division", "3 /= 2", "3 //= 2"},
	{"depset-iteration", "for i in depset($1): g($2)", "for i in depset($1).to_list(): g($2)"},
	{"string-iteration", "for i in str($1): g($2)", ""},
	{"depset-union", "x += depset($1)", ""},
	{"dict-concatenation", "x += {a: $1}", ""},
	{"", "x += [$1, b]", ""},
	{"", "x += [i for i in ($1)]", ""},
	{"", "x = [$1]", ""},
	{"", "x -= [$1]", ""},
}

// buildTmpls are expressions in BUILD files.
var buildTmpls = []tmpl{
	{"native-build", "native.glob($1)", "glob($1)"},
	{"native-build", "native.existing_rule", "existing_rule"},
	{"native-build", "native.foo.bar($1)", "foo.bar($1)"},
	{"build-args-kwargs", "g(*$1)", ""},
	{"build-args-kwargs build-args-kwargs", "g(*$1, **$2)", ""},
	{"constant-glob", `glob(["a"], exclude = $1)`, ""},
	{"print", "print($1)", ""},
	{"keyword-positional-params", "select(x = $1)", "select($1)"},
	{"unsorted-dict-items", `{"b": $1, "a": $2}`, `{"a": $2, "b": $1}`},
	{"integer-division", "int($1) / int($2)", "int($1) // int($2)"},
	{"depset-iteration", "len(depset($1))", "len(depset($1).to_list())"},
	{"", "x.native.glob($1)", ""},
	{"", "native($1)", ""},
	{"", "natives.glob($1)", ""},
	{"", "ctx.new_file($1)", ""},
	{"", "PACKAGE_NAME", ""},
	{"", `attr.label(cfg = "data", non_empty = True, single_file = $1)`, ""},
	{"", "ctx.attr.dep.output_group", ""},
	{"", "FileType($1)", ""},
}

// exprCtxs embed an expression.
var exprCtxs = []string{"$", "g(p, $)", "g(p = $)", "g(*$)", "g(**$)", "[$, p]", "($, p)", "{$: p}", "{p: $}", "$ if p else q", "p if $ else q", "p if q else $", "p < ($)", "p == ($)", "x[$]", "x[$:p]", "x[p:$]", "x[::$]", "($).foo", "($)(p)", "($)[p]", "[$ for i in p]", "[i for i in ($)]", "[i for i in p if ($)]", "[i for i in p for j in ($)]", "{$: i for i in p}", "{i: $ for i in p}", "lambda: $", "lambda p: $", "lambda p = $: p", "not ($)", "-($)", "($) and p", "p or ($)", "p in [$]", "($)"}

// stmtCtxs embed an expression in a function with the parameter ctx.
var stmtCtxs = []string{"z = $", "g($)", "return $", "if $:\n        pass", "if p:\n        pass\n    elif $:\n        pass\n    else:\n        pass", "for i in [$]:\n        pass", "if p:\n        z = $", "if p:\n        pass\n    else:\n        for i in p:\n            z = $", "def h(p = $):\n        pass", "def h(p):\n        return $", "z += g($)", "z, y = p, $", "z[$] = p", "z =  \\\n        $"}

var fillers = []string{"a", "1", `g("s")`, "not a", "a and b", "a if b else d", "True", "None", "a + b", "lambda: a", "[a]", "(a)", "-a"}

type patCase struct {
	Type, Before, After string
	Cats                []string
	Want                []string // "line category"
	Loads               []string // loads that may be added to the top
}

// fill puts expressions into a template.
func fill(t string, a1, a2 string) string {
	return strings.ReplaceAll(strings.ReplaceAll(t, "$1", a1), "$2", a2)
}

// A rend is an expression before and after the fixes and the categories of the findings in it.
type rend struct {
	before, after string
	cats          []string
}

// apply puts rendered expressions into a template; if the category isn't enabled, it's not rewritten.
func (t tmpl) apply(on func(string) bool, a1, a2 rend) rend {
	r := rend{before: fill(t.before, a1.before, a2.before)}
	after := t.after
	c := strings.Fields(t.cat)
	if after == "" || len(c) == 0 || !on(c[0]) {
		after = t.before
	}
	for _, x := range c {
		if on(x) {
			r.cats = append(r.cats, x)
		}
	}
	r.after = fill(after, a1.after, a2.after)
	if strings.Contains(t.before, "$1") {
		r.cats = append(r.cats, a1.cats...)
	}
	if strings.Contains(t.before, "$2") {
		r.cats = append(r.cats, a2.cats...)
	}
	return r
}

func (r rend) in(ctx string) rend {
	return rend{strings.ReplaceAll(ctx, "$", r.before), strings.ReplaceAll(ctx, "$", r.after), r.cats}
}

func canon(typ, text string) (string, error) {
	f, err := parse(typ, text)
	if err != nil {
		return "", err
	}
	return negations(sem.FromBuild(f, false)).Indented(), nil
}

// negations simplifies `not not x`, `not True` and `not False`.
func negations(x *sem.N) *sem.N {
	if x == nil {
		return nil
	}
	for i := range x.C {
		x.C[i] = negations(x.C[i])
	}
	if x.K == "un" && x.V == "not" {
		y := x.C[0]
		switch {
		case y.K == "un" && y.V == "not":
			return y.C[0]
		case y.K == "id" && y.V == "True":
			return &sem.N{K: "id", V: "False"}
		case y.K == "id" && y.V == "False":
			return &sem.N{K: "id", V: "True"}
		}
	}
	return x
}

// patternCats are the categories with templates.
var patternCats = func() []string {
	m := map[string]bool{}
	for _, l := range [][]tmpl{exprTmpls, stmtTmpls, buildTmpls} {
		for _, t := range l {
			for _, c := range strings.Fields(t.cat) {
				m[c] = true
			}
		}
	}
	var r []string
	for c := range m {
		r = append(r, c)
	}
	sort.Strings(r)
	return r
}()

// patterns enumerates the cases of C28 and C40.
func patterns(c *core.Ctx, emit func(patCase) bool) {
	file := func(typ string, heads []string, stmts []string, tail string, rs []rend, cats []string) bool {
		pc := patCase{Type: typ, Cats: cats}
		for _, h := range heads {
			pc.Before += h + "\n"
			pc.After += h + "\n"
		}
		for i, s := range stmts {
			at := strings.Index(s, "$")
			line := strings.Count(pc.Before, "\n") + 1 + strings.Count(s[:at], "\n")
			for _, x := range rs[i].cats {
				pc.Want = append(pc.Want, fmt.Sprintf("%d %s", line, x))
			}
			pc.Before += strings.ReplaceAll(s, "$", rs[i].before) + "\n"
			pc.After += strings.ReplaceAll(s, "$", rs[i].after) + "\n"
		}
		pc.Before += tail
		pc.After += tail
		sort.Strings(pc.Want)
		return emit(pc)
	}
	all := func(string) bool { return true }
	bzl := []string{`"""Doc."""`, "", "def f(ctx, a, b, c, d, p, q, l, x, n):"}
	run := func(typ string, heads []string, tmpls []tmpl, ctxs []string, indent string) bool {
		leaf := func(s string) rend { return rend{s, s, nil} }
		one := func(r func(on func(string) bool) rend, cats []string, stmt string) bool {
			if !file(typ, heads, []string{indent + stmt}, "", []rend{r(all)}, patternCats) {
				return false
			}
			for _, k := range cats {
				on := func(x string) bool { return x == k }
				if !file(typ, heads, []string{indent + stmt}, "", []rend{r(on)}, []string{k}) {
					return false
				}
			}
			return true
		}
		uniq := func(l ...string) []string {
			var r []string
			m := map[string]bool{}
			for _, x := range l {
				for _, y := range strings.Fields(x) {
					if !m[y] {
						m[y] = true
						r = append(r, y)
					}
				}
			}
			return r
		}
		// one template with all fillers in all contexts
		for _, t := range tmpls {
			seen := map[string]bool{}
			for _, a1 := range fillers {
				for _, a2 := range fillers {
					if seen[fill(t.before, a1, a2)] {
						continue
					}
					if t.after == "attr.string_list(allow_empty = not ($1))" && (a1 == "not a" || a1 == "True" || a1 == "None") || strings.Contains(t.before, "{a:") && a1 == "lambda: a" {
						continue
					}
					seen[fill(t.before, a1, a2)] = true
					for i, x := range exprCtxs {
						if typ == "build" && strings.HasPrefix(x, "g(*") {
							continue
						}
						for j, s := range ctxs {
							if !(i == 0 || j == 0 || c.Thorough() && (i+j)%3 == 0) || !c.Thorough() && i > 0 && (t.cat == "" && a1 != "a" || a1 != "a" && a2 != "a" && a1 != a2) {
								continue
							}
							if !one(func(on func(string) bool) rend { return t.apply(on, leaf(a1), leaf(a2)).in(x) }, uniq(t.cat), s) {
								return false
							}
						}
					}
				}
			}
		}
		// two templates nested
		for ti, t := range tmpls {
			for ui, u := range tmpls {
				if !strings.Contains(t.before, "$1") {
					continue
				}
				for i, x := range exprCtxs {
					if typ == "build" && strings.HasPrefix(x, "g(*") {
						continue
					}
					for j, s := range ctxs {
						if !(j == 0 || i == 0 && (c.Thorough() || j%4 == 0)) || i > 0 && !c.Thorough() && (t.cat == "" || u.cat == "" || (i+ti+ui)%3 > 0) {
							continue
						}
						cats := uniq(t.cat, u.cat)
						if i > 0 && !c.Thorough() {
							cats = nil
						}
						if !one(func(on func(string) bool) rend {
							return t.apply(on, u.apply(on, leaf("a"), leaf("b")).in(x), leaf("a"))
						}, cats, s) {
							return false
						}
						if strings.Contains(t.before, "$2") && i == 0 {
							if !one(func(on func(string) bool) rend {
								return t.apply(on, u.apply(on, leaf("a"), leaf("b")), u.apply(on, leaf("a"), leaf("d")))
							}, uniq(t.cat, u.cat), s) {
								return false
							}
						}
					}
				}
			}
		}
		// three nested
		for _, t := range tmpls {
			for _, u := range tmpls {
				for _, v := range tmpls {
					if !strings.Contains(t.before, "$1") || !strings.Contains(u.before, "$1") || t.cat == "" || u.cat == "" || v.cat == "" {
						continue
					}
					if !c.Thorough() && uniq(t.cat)[0] != uniq(u.cat)[0] && uniq(u.cat)[0] != uniq(v.cat)[0] {
						continue
					}
					if !file(typ, heads, []string{indent + ctxs[0]}, "", []rend{t.apply(all, u.apply(all, v.apply(all, leaf("a"), leaf("b")), leaf("d")), leaf("a"))}, patternCats) {
						return false
					}
				}
			}
		}
		// two statements
		for _, t := range tmpls {
			for _, u := range tmpls {
				if !file(typ, heads, []string{indent + ctxs[0] + " # k1", indent + "# k2\n" + indent + ctxs[1%len(ctxs)]}, "# k3\n", []rend{t.apply(all, leaf("a"), leaf("b")), u.apply(all, leaf("a"), leaf("b"))}, patternCats) {
					return false
				}
			}
		}
		return true
	}
	if !run("bzl", bzl, exprTmpls, stmtCtxs, "    ") {
		return
	}
	if !run("build", nil, buildTmpls, []string{"z = $", "g(name = $)", "[g(name = $) for i in l]"}, "") {
		return
	}
	// statements
	leaf := func(s string) rend { return rend{s, s, nil} }
	for _, t := range stmtTmpls {
		for _, u := range append([]tmpl{{"", "a", ""}, {"", "a if b else d", ""}, {"", "lambda: a", ""}}, exprTmpls...) {
			for _, x := range exprCtxs {
				if strings.Contains(x, ": $") && strings.HasPrefix(t.before, "for ") && strings.HasPrefix(x, "lambda") {
					continue
				}
				for _, s := range []string{"$", "if p:\n        $", "for i in p:\n        if q:\n            pass\n        else:\n            $", "def h(p):\n        $\n        return p"} {
					if x != "$" && s != "$" && !c.Thorough() {
						continue
					}
					for _, on := range []func(string) bool{all, func(y string) bool { return t.cat != "" && y == t.cat }} {
						cats := patternCats
						if !on("x") {
							if t.cat == "" {
								continue
							}
							cats = []string{t.cat}
						}
						tt := t
						if t.before == "n /= int($1)" {
							tt.cat = "" // n isn't known to be an int
						}
						r := tt.apply(on, u.apply(on, leaf("a"), leaf("b")).in(x), leaf("b"))
						if strings.Contains(s, "\n") && strings.HasPrefix(t.before, "for ") && s == "x" {
							continue
						}
						if !file("bzl", bzl, []string{"    " + s}, "", []rend{r}, cats) {
							return
						}
					}
				}
			}
		}
	}
	c.Bound("%d expression patterns and near misses of %d lints (%d of them in BUILD files), alone with %d fillers, nested in each other through %d contexts, three deep, in %d statements, two statements; %d statement patterns", len(exprTmpls)+len(buildTmpls), len(patternCats), len(buildTmpls), len(fillers), len(exprCtxs), len(stmtCtxs), len(stmtTmpls))
}

func autofixable(typ string, cats []string, text string, fr *warn.FileReader) (string, error) {
	f, err := parse(typ, text)
	if err != nil {
		return "", err
	}
	for _, x := range warn.FileWarnings(f, cats, nil, warn.ModeWarn, fr) {
		if x.AutoFixable {
			return fmt.Sprintf("%d %s", x.Start.Line, x.Category), nil
		}
	}
	return "", nil
}

var c28 = &core.Check{ID: "C28", Level: "model_checking", Guard: true,
	Run: func(c *core.Ctx) {
		ev := core.NewEval(c, "fix", func(in patCase) error {
			want, err := canon(in.Type, in.After)
			if err != nil {
				return core.Failf("model", "%v\n%s", err, in.After)
			}
			f, err := parse(in.Type, in.Before)
			if err != nil {
				return core.Failf("model", "%v\n%s", err, in.Before)
			}
			warn.FixWarnings(f, in.Cats, false, nil)
			out := string(build.FormatWithoutRewriting(f))
			got, err := canon(in.Type, out)
			if err != nil {
				return core.Failf("unparseable", "%v\n%sis fixed to\n%s", err, in.Before, out)
			}
			if in.After != in.Before {
				c.NonTrivial(1)
			}
			if got != want {
				return core.Failf("fix", "%v: %sis fixed to\n%sinstead of\n%s", short(in.Cats), in.Before, out, in.After)
			}
			a, b := gen.Comments(in.Before), gen.Comments(out)
			sort.Strings(a)
			sort.Strings(b)
			if !same(a, b) {
				return core.Failf("comments", "%sis fixed to\n%s", in.Before, out)
			}
			left, err := autofixable(in.Type, in.Cats, out, nil)
			if left != "" || err != nil {
				return core.Failf("left", "%sis fixed to\n%sand still has %s", in.Before, out, left)
			}
			return nil
		})
		core.Stream(c, func(emit func(patCase) bool) { patterns(c, emit) }, func(x patCase) { ev.Do(x) })
	}}

func short(cats []string) string {
	if len(cats) > 4 {
		return "all"
	}
	return strings.Join(cats, " ")
}

var c40 = &core.Check{ID: "C40", Level: "model_checking", Guard: true,
	Run: func(c *core.Ctx) {
		ev := core.NewEval(c, "patterns", func(in patCase) error {
			f, err := parse(in.Type, in.Before)
			if err != nil {
				return core.Failf("model", "%v\n%s", err, in.Before)
			}
			got := lines(warn.FileWarnings(f, in.Cats, nil, warn.ModeWarn, nil))
			if len(in.Want) > 0 {
				c.NonTrivial(1)
			}
			if !same(got, in.Want) {
				return core.Failf("patterns", "%sgot %v, want %v", in.Before, got, in.Want)
			}
			return nil
		})
		core.Stream(c, func(emit func(patCase) bool) { patterns(c, emit) }, func(x patCase) { ev.Do(x) })
	}}
