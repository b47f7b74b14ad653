package main

import (
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/warn"
	"verif/mc/core"
)

// triggers are top-level statements with findings; @ makes names unique.
var bzlTriggers = []string{
	"load(\":a.bzl\", \"u@\")",
	"load(\":a.bzl\", x@ = \"u\", y@ = \"v\")\n\ng(y@)",
	"load(\":dep.bzl\", old@ = \"old\")\n\nold@()",
	"load(\"//foo/internal:a.bzl\", \"v@\")\n\nv@()",
	"def p@(a):\n    g(1)\n    g(2)\n    g(3)\n    g(4)\n    g(a)",
	"def p@(a, *b):\n    \"\"\"Summary.\n    more\n\n    Args:\n      c: no\n      d: no\n    \"\"\"\n    g(1)\n    return a",
	"def q@(a):\n    \"\"\"Summary.\n\n    Arguments:\n      a: a\n    \"\"\"\n    g(a)",
	"def n@():\n    Bad = 1\n    g(Bad)",
	"def c@(x):\n    l = x\n    g(l)",
	"1 == 2",
	"def e@(x):\n    x == 2\n    [x]\n    \"text\"\n    x[1]",
	"R@ = 1\n\nR@ = 2",
	"def _impl@(ctx):\n    return struct()\n\nr@ = rule(implementation = _impl@)",
	"def v@(x):\n    if x:\n        return 1",
	"def i@(x):\n    if x:\n        y = 1\n    g(y)",
	"def d@(x):\n    return x\n    g(x)\n    g(x)",
	"def w@(x):\n    y = 1\n    for z in x:\n        pass",
	"# Skylark\nx@ = 1",
	"def s@():\n    \"\"\"Skylark\"\"\"\n    pass  # skylark",
	"def o@(l):\n    x = depset()\n    for i in l:\n        x = depset([i], transitive = [x])\n    return x",
	"def m@():\n    native.foo()",
	"def k@(name):\n    m(1)\n    native.foo(name = name)",
	"def j@():\n    j2@()\n\ndef j2@():\n    native.foo()",
	"cc_library(name = \"x@\")",
	"def cc@():\n    native.cc_library(name = \"x\")\n    native.py_binary(name = \"y\")\n    CcInfo(1)",
	"git_repository(name = \"r@\")",
	"http_archive(name = \"h@\")",
	"D@ = {\"b\": 1, \"a\": 2}",
	"P@ = provider(\"d\", fields = [])",
	"def t@(x):\n    for i in \"abc\":\n        print(i)\n    x += [i]\n    return x / 2",
	"Z@ = [PACKAGE_NAME, REPOSITORY_NAME]",
	"def a@(x):\n    # comment\n\n    # buildifier: disable=none\n    y = (\n        1\n    )",
}

var buildTriggers = []string{
	"load(\":a.bzl\", \"u@\")",
	"load(\":a.bzl\", x@ = \"u\", y@ = \"v\")\n\ny@()",
	"load(\"//foo/internal:a.bzl\", \"v@\")\n\nv@()",
	"g(name = \"n@\")\n\nh(name = \"n@\")",
	"g(\"n@\")",
	"[g(\"n@\") for i in l]",
	"g(\n    name = \"a@\",\n    deps = [\n        \"b\",\n        \"a\",\n    ],\n    visibility = select({\"b\": native.glob([\"x\"]), \"a\": []}),\n)",
	"foo@()\n\npackage(x = @)",
	"1 == @",
	"R@ = 1\n\nR@ = 2",
	"# skylark\nx@ = 1",
	"D@ = {\"b\": 1, \"a\": {\"d\": 1, \"c\": 2}}",
	"\"\"\"Skylark @\"\"\"",
	"cc_library(name = \"x@\", deps = [\":b\", \":a\"])",
	"py_binary(\n    name = \"z@\",\n    srcs = native.glob([\"a\"]),\n)",
	"sh_test(name = \"s@\")\n\njava_library(name = \"t@\")",
	"g(*args@)",
	"select(x = {\"b\": @, \"a\": 2})",
	"print(PACKAGE_NAME)",
	"proto_library(name = \"p@\")  # comment",
	"x@ = int(1) / 2",
	"x@ = [depset([1]), len(depset([2])), 3 / 4]",
	"l@ = glob([\"a@.cc\"])",
}

// a few more from the patterns of C28 and C40
func init() {
	seen := map[string]int{}
	for _, t := range exprTmpls {
		if t.cat == "" || seen[t.cat] > 1 {
			continue
		}
		seen[t.cat]++
		e := fill(t.before, "a", "b")
		bzlTriggers = append(bzlTriggers, "def _x@(ctx, a, b):\n    g("+e+")")
		if seen[t.cat] == 1 {
			bzlTriggers = append(bzlTriggers, "X@ = g("+e+")")
		}
	}
	for _, t := range stmtTmpls {
		if t.cat != "" {
			bzlTriggers = append(bzlTriggers, "def _y@(x, n, ctx):\n    "+fill(t.before, "1", "2"))
		}
	}
	for _, t := range buildTmpls {
		if t.cat != "" {
			buildTriggers = append(buildTriggers, "X@ = ["+fill(t.before, "a", "b")+"]", fill(t.before, "c", "d"))
		}
	}
}

func trigger(l []string, i, n int) string {
	return strings.ReplaceAll(l[i], "@", fmt.Sprint(n)) + "\n"
}

func triggersOf(typ string) []string {
	switch typ {
	case "bzl", "default":
		return bzlTriggers
	}
	return buildTriggers
}

func fwReader() *warn.FileReader {
	return warn.NewFileReader(func(path string) ([]byte, error) {
		if path == "p/dep.bzl" {
			return []byte("def old():\n    \"\"\"Summary.\n\n    Deprecated:\n      use new\n    \"\"\"\n    pass\n"), nil
		}
		return nil, fmt.Errorf("no file %s", path)
	})
}

// show prints everything a finding says.
func show(f *warn.Finding) string {
	r := ""
	if f.Replacement != nil {
		r = fmt.Sprintf(" %+v", *f.Replacement)
	}
	return fmt.Sprintf("%d:%d-%d:%d %s %v %v %s: %s%s", f.Start.Line, f.Start.LineRune, f.End.Line, f.End.LineRune, f.Category, f.AutoFixable, f.Actionable, f.URL, f.Message, r)
}

func showAll(l []*warn.Finding) []string {
	r := []string{}
	for _, f := range l {
		r = append(r, show(f))
	}
	return r
}

func sorted(l []string) []string {
	l = append([]string{}, l...)
	sort.Strings(l)
	return l
}

var lineNumber = regexp.MustCompile(`line \d+|:\d+`)

// local is a finding relative to a line.
func local(f *warn.Finding, base int) string {
	return fmt.Sprintf("%d:%d-%d:%d %s %v %s", f.Start.Line-base, f.Start.LineRune, f.End.Line-base, f.End.LineRune, f.Category, f.AutoFixable, lineNumber.ReplaceAllString(f.Message, "line N"))
}

func locals(l []*warn.Finding, base int, skip map[string]bool) []string {
	r := []string{}
	for _, f := range l {
		if !skip[f.Category] {
			r = append(r, local(f, base))
		}
	}
	sort.Strings(r)
	return r
}

func diffStr(a, b []string) string {
	in := map[string]int{}
	for _, x := range a {
		in[x]++
	}
	var r []string
	for _, x := range b {
		if in[x] > 0 {
			in[x]--
		} else {
			r = append(r, "+ "+x)
		}
	}
	for _, x := range a {
		if in[x] > 0 {
			in[x]--
			r = append(r, "- "+x)
		}
	}
	if len(r) == 0 {
		return "different order"
	}
	return strings.Join(r, "\n")
}

type fwCase struct {
	Type string
	L    []int
}

func (in fwCase) parts() []string {
	var r []string
	for n, i := range in.L {
		r = append(r, trigger(triggersOf(in.Type), i, n+1))
	}
	return r
}

// The findings that depend on what else is in the file
var fileWide = map[string]bool{"module-docstring": true, "package-on-top": true}

func purity(c *core.Ctx, in fwCase) error {
	parts := in.parts()
	text := strings.Join(parts, "\n")
	f, err := parse(in.Type, text)
	if err != nil {
		return core.Failf("parse", "%q: %v", text, err)
	}
	fresh, _ := parse(in.Type, text)
	all := warn.AllWarnings
	got := warn.FileWarnings(f, all, nil, warn.ModeWarn, fwReader())
	if len(got) > 0 {
		c.NonTrivial(1)
	}
	if !reflect.DeepEqual(f, fresh) {
		return core.Failf("tree", "%q: linting changed the tree", text)
	}
	want := showAll(got)
	// again, and on the same reader
	fr := fwReader()
	for i := 0; i < 2; i++ {
		if again := showAll(warn.FileWarnings(f, all, nil, warn.ModeWarn, fr)); !same(want, again) {
			return core.Failf("again", "%q: linted again: %s", text, diffStr(want, again))
		}
	}
	// category by category
	var union []*warn.Finding
	for _, cat := range all {
		l := warn.FileWarnings(f, []string{cat}, nil, warn.ModeWarn, fr)
		for _, x := range l {
			if x.Category != cat {
				return core.Failf("category", "%q: -warnings=%s found %s", text, cat, show(x))
			}
			if x.File != f || x.Replacement != nil || !x.Actionable {
				return core.Failf("finding", "%q: bad finding %s", text, show(x))
			}
		}
		union = append(union, l...)
	}
	if u := sorted(showAll(union)); !same(sorted(want), u) {
		return core.Failf("union", "%q: all warnings at once vs. one by one: %s", text, diffStr(sorted(want), u))
	}
	// the order of the categories doesn't matter
	rev := make([]string, len(all))
	for i, x := range all {
		rev[len(all)-1-i] = x
	}
	if r := showAll(warn.FileWarnings(f, rev, nil, warn.ModeWarn, fr)); !same(want, r) {
		return core.Failf("category-order", "%q: categories reversed: %s", text, diffStr(want, r))
	}
	for i, x := range all {
		if rev[len(all)-1-i] != x {
			return core.Failf("categories-changed", "%q: linting changed the list of categories", text)
		}
	}
	nl := strings.Count(text, "\n")
	ls := strings.Split(text, "\n")
	for i, x := range got {
		if i > 0 && got[i-1].Start.Line > x.Start.Line {
			return core.Failf("sorted", "%q: findings aren't sorted: %s", text, strings.Join(want, "\n"))
		}
		if x.Start.Line < 1 || x.End.Line < x.Start.Line || x.End.Line > nl ||
			x.Start.LineRune < 1 || x.Start.LineRune > len(ls[x.Start.Line-1])+1 || x.End.LineRune > len(ls[x.End.Line-1])+1 ||
			x.Start.Line == x.End.Line && x.End.LineRune < x.Start.LineRune {
			return core.Failf("position", "%q: position outside of the file: %s", text, show(x))
		}
	}
	// comments before it move everything
	const head = "# a\n# b\n\n"
	g, err := parse(in.Type, head+text)
	if err != nil {
		return core.Failf("parse", "%q: %v", head+text, err)
	}
	w, m := locals(got, 0, fileWide), locals(warn.FileWarnings(g, all, nil, warn.ModeWarn, fwReader()), 3, fileWide)
	if !same(w, m) {
		return core.Failf("shift", "%q: after three lines: %s", text, diffStr(w, m))
	}
	// the findings of the parts
	docstring := false
	for _, p := range parts[1:] {
		docstring = docstring || strings.HasPrefix(p, "\"\"\"")
	}
	if len(parts) > 1 && !docstring {
		var l []string
		base := 0
		for _, p := range parts {
			q, err := parse(in.Type, p)
			if err != nil {
				return core.Failf("parse", "%q: %v", p, err)
			}
			for _, x := range warn.FileWarnings(q, all, nil, warn.ModeWarn, fwReader()) {
				if !fileWide[x.Category] {
					y := *x
					y.Start.Line += base
					y.End.Line += base
					l = append(l, local(&y, 0))
				}
			}
			base += strings.Count(p, "\n") + 1
		}
		sort.Strings(l)
		if !same(l, w) {
			return core.Failf("parts", "%q: findings of the statements vs. the file: %s", text, diffStr(l, w))
		}
	}
	return nil
}

var _ = build.Format

var c27 = &core.Check{ID: "C27", Level: "model_checking", Guard: true,
	Run: func(c *core.Ctx) {
		ev := core.NewEval(c, "purity", func(in fwCase) error { return purity(c, in) })
		core.Stream(c, func(emit func(fwCase) bool) {
			for _, typ := range types {
				l := triggersOf(typ)
				for i := range l {
					if !emit(fwCase{typ, []int{i}}) {
						return
					}
				}
				for i := range l {
					for j := range l {
						if !emit(fwCase{typ, []int{i, j}}) {
							return
						}
						for k := range l {
							if c.Thorough() && (typ == "bzl" || typ == "build") && !emit(fwCase{typ, []int{i, j, k}}) {
								return
							}
						}
					}
				}
			}
		}, func(x fwCase) { ev.Do(x) })
		c.Bound("all files of <= %d of %d/%d snippets", c.Pick(2, 3), len(bzlTriggers), len(buildTriggers))
	}}
