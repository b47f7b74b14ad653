package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/warn"
	"verif/mc/core"
	"verif/mc/gen"
)

// C43: lints about the structure of files and blocks report exactly what they document, and their fixes do exactly
// what is needed.

type cosCase struct {
	Type, Path    string
	Cat           string
	Before, After string // After: the file after the fix
	Want          []int  // lines
}

func cosCheck(c *core.Ctx, in cosCase) error {
	read := func(text string) (*build.File, error) {
		f, err := parse(in.Type, text)
		if err == nil && in.Path != "" {
			f.Pkg, f.Label = in.Path[:strings.Index(in.Path, ":")], in.Path[strings.Index(in.Path, ":")+1:]
			f.WorkspaceRoot = "/w"
		}
		return f, err
	}
	f, err := read(in.Before)
	if err != nil {
		return core.Failf("model", "%v\n%s", err, in.Before)
	}
	var got []int
	for _, x := range warn.FileWarnings(f, []string{in.Cat}, nil, warn.ModeWarn, nil) {
		got = append(got, x.Start.Line)
	}
	sort.Ints(got)
	sort.Ints(in.Want)
	if len(in.Want) > 0 {
		c.NonTrivial(1)
	}
	if fmt.Sprint(got) != fmt.Sprint(in.Want) {
		return core.Failf(in.Cat, "%s %s:\n%sgot lines %v, want %v", in.Cat, in.Path, in.Before, got, in.Want)
	}
	f, _ = read(in.Before)
	warn.FixWarnings(f, []string{in.Cat}, false, nil)
	out := string(build.FormatWithoutRewriting(f))
	a, err := canon(in.Type, out)
	if err != nil {
		return core.Failf("unparseable", "%sis fixed to\n%s", in.Before, out)
	}
	b, err := canon(in.Type, in.After)
	if err != nil {
		return core.Failf("model", "%v\n%s", err, in.After)
	}
	ca, cb := gen.Comments(in.After), gen.Comments(out)
	sort.Strings(ca)
	sort.Strings(cb)
	if a != b || !same(ca, cb) {
		return core.Failf(in.Cat+"-fix", "%s:\n%sis fixed to\n%sinstead of\n%s", in.Cat, in.Before, out, in.After)
	}
	if in.After == in.Before {
		return nil
	}
	left, err := autofixable(in.Type, []string{in.Cat}, out, nil)
	if left != "" || err != nil {
		return core.Failf("left", "%s:\n%sis fixed to\n%sand still has %s", in.Cat, in.Before, out, left)
	}
	return nil
}

// pkgTop enumerates sequences of statements of files with package().
func pkgTop(c *core.Ctx, emit func(cosCase) bool) {
	// d: docstring, c: comment, l: load, p: package, L: licenses, g: package_group, r: anything else, a: assignment
	kinds := []string{"d\"\"\"Doc N.\"\"\"", "c# c N\n", "lload(\":N.bzl\", \"xN\")", "ppackage(x = N)  # p N", "# q N\npackage(y = N)", "Llicenses([\"N\"])", "gpackage_group(name = \"N\")", "rrule(name = \"N\")", "r[package(n = N) for i in l]", "r# r N\nif N:\n    package(z = 1)", "aa = N", "ra.b(N)", "rnative.package(n = N)", "aa += N"}
	kinds[4] = "p" + kinds[4]
	max := c.Pick(4, 5)
	for _, typ := range types {
		var rec func(ks, ts []string) bool
		rec = func(ks, ts []string) bool {
			if len(ks) > 0 {
				var before []string
				x := cosCase{Type: typ, Cat: "package-on-top"}
				line := 1
				first, stop := -1, false
				var after, moved, rest []string
				for i, k := range ks {
					t := ts[i] + "\n"
					before = append(before, t)
					at := line
					for strings.HasPrefix(strings.TrimSpace(strings.Split(x.Before+t, "\n")[at-1]), "#") && k != "c" {
						at++
					}
					x.Before += t
					line += strings.Count(t, "\n")
					if k == "a" {
						stop = true
					}
					switch {
					case stop:
					case k == "p" && first >= 0:
						if typ != "workspace" && typ != "module" {
							x.Want = append(x.Want, at)
							moved = append(moved, t)
							continue
						}
					case k == "r" && first < 0:
						first = i
					}
					if first < 0 {
						after = append(after, t)
					} else {
						rest = append(rest, t)
					}
				}
				x.After = strings.Join(after, "") + strings.Join(moved, "") + strings.Join(rest, "")
				if !emit(x) {
					return false
				}
			}
			if len(ks) == max || len(ks) == 3 && typ != "build" {
				return true
			}
			for _, k := range kinds {
				if typ == "module" && strings.Contains(k, "if ") {
					continue
				}
				t := strings.ReplaceAll(k[1:], "N", fmt.Sprint(len(ks)+1))
				if !rec(append(ks[:len(ks):len(ks)], k[:1]), append(ts[:len(ts):len(ts)], t)) {
					return false
				}
			}
			return true
		}
		if !rec(nil, nil) {
			return
		}
	}
	c.Bound("package-on-top: all files of <= %d statements of %d kinds", max, len(kinds))
}

// dicts enumerates dictionaries.
func dicts(c *core.Ctx, emit func(cosCase) bool) {
	keys := []string{`"a"`, `"b"`, `"B"`, `"_a"`, `"_b"`, `"//conditions:default"`, `c`, `""`, `"a" + "b"`, `1`}
	less := func(a, b string) bool { // Strings.
		class := func(x string) int {
			switch {
			case strings.HasPrefix(x, `"_`):
				return 2
			case x == `"//conditions:default"`:
				return 1
			}
			return 0
		}
		if class(a) != class(b) {
			return class(a) < class(b)
		}
		return class(a) != 1 && a < b
	}
	str := func(k string) bool { return k[0] == '"' && !strings.Contains(k, "+") }
	// sorted returns the order of items and the numbers of the misplaced ones.
	sorted := func(ks []string) (order, bad []int) {
		var pos, idx []int
		for i, k := range ks {
			order = append(order, i)
			if str(k) {
				if len(pos) > 0 && less(k, ks[pos[len(pos)-1]]) {
					bad = append(bad, i)
				}
				pos = append(pos, i)
				idx = append(idx, i)
			}
		}
		sort.SliceStable(idx, func(i, j int) bool { return less(ks[idx[i]], ks[idx[j]]) })
		for i := range pos {
			order[pos[i]] = idx[i]
		}
		return
	}
	ctxs := []string{"d = $", "f(x = [$, 1])", "# c\nd = $ # e", "{1: $}.x", "[\n# k\n$]", "# @unsorted-dict-items\nd = $", "# X @Unsorted-Dict-Items: x\nf(x = $)", "f(\n  # @unsorted-dict-items\n  x = $\n)", "d = [1] + $ # @unsorted-dict-items", "def f():\n  if x:\n    return $", "def f():\n  # @unsorted-dict-items\n  if x:\n    return $", "d = \\\n$", "# @unsorted-dict-item\nd = $", "select($ | $)", "# @unsorted-dict-items\n\nd = $"}
	// The text of a dictionary and of the sorted one; fill(i) is the value of an item.
	text := func(ks []string, order []int, val func(i int) string) string {
		t := "{"
		for n, i := range order {
			t += fmt.Sprintf("\n%s: %s, # k%d", ks[i], val(i), i)
			_ = n
		}
		return t + "\n}"
	}
	ident := func(n int) []int {
		var r []int
		for i := 0; i < n; i++ {
			r = append(r, i)
		}
		return r
	}
	max := c.Pick(4, 5)
	var rec func(ks []string) bool
	rec = func(ks []string) bool {
		order, bad := sorted(ks)
		val := func(i int) string { return fmt.Sprint(i) }
		before := text(ks, ident(len(ks)), val)
		after := text(ks, order, val)
		for i, x := range ctxs {
			if i > 0 && len(ks) > 3 {
				break
			}
			typ := "bzl"
			if !strings.Contains(x, "def ") && len(ks)%2 == 0 {
				typ = "build"
			}
			cc := cosCase{Type: typ, Cat: "unsorted-dict-items", Before: strings.ReplaceAll(x, "$", before) + "\n", After: strings.ReplaceAll(x, "$", after) + "\n"}
			off := strings.ToLower(x)
			if strings.Contains(off, "@unsorted-dict-items") && !strings.Contains(off, "items\n\n") {
				cc.After = cc.Before
			} else {
				pos := 0
				for {
					at := strings.Index(x[pos:], "$")
					if at < 0 {
						break
					}
					l := 1 + strings.Count(strings.ReplaceAll(x[:pos+at], "$", before), "\n")
					for _, b := range bad {
						cc.Want = append(cc.Want, l+1+b)
					}
					pos += at + 1
				}
			}
			if !emit(cc) {
				return false
			}
		}
		// nested
		if len(ks) <= 3 && len(ks) > 0 {
			inner := []string{`"b"`, `"a"`}
			for _, at := range ident(len(ks)) {
				nest := func(order []int, iorder []int) string {
					return text(ks, order, func(i int) string {
						if i == at {
							return text(inner, iorder, val)
						}
						return fmt.Sprint(i)
					})
				}
				cc := cosCase{Type: "bzl", Cat: "unsorted-dict-items", Before: "d = " + nest(ident(len(ks)), []int{0, 1}) + "\n", After: "d = " + nest(order, []int{1, 0}) + "\n"}
				cc.Want = append(cc.Want, 1+1+at+2)
				for _, b := range bad {
					l := 1 + 1 + b
					if b > at {
						l += 3
					}
					cc.Want = append(cc.Want, l)
				}
				if !emit(cc) {
					return false
				}
				// A dictionary that isn't sorted on purpose isn't touched, neither are the ones in it.
				for _, com := range []string{"# @unsorted-dict-items\n", ""} {
					in := text(inner, ident(2), val)
					b := "d = " + text(ks, ident(len(ks)), func(i int) string {
						if i == at {
							return in + " # @unsorted-dict-items"
						}
						return fmt.Sprint(i)
					}) + "\n"
					a := "d = " + text(ks, order, func(i int) string {
						if i == at {
							return in + " # @unsorted-dict-items"
						}
						return fmt.Sprint(i)
					}) + "\n"
					b, a = strings.ReplaceAll(b, fmt.Sprintf("items, # k%d", at), fmt.Sprintf("items\n, # k%d", at)), strings.ReplaceAll(a, fmt.Sprintf("items, # k%d", at), fmt.Sprintf("items\n, # k%d", at))
					cc := cosCase{Type: "bzl", Cat: "unsorted-dict-items", Before: com + b, After: com + a}
					if com != "" {
						cc.After = cc.Before
					} else {
						for _, x := range bad {
							l := 1 + 1 + x
							if x > at {
								l += 4
							}
							cc.Want = append(cc.Want, l)
						}
					}
					if !emit(cc) {
						return false
					}
				}
			}
		}
		if len(ks) == max {
			return true
		}
		for i, k := range keys {
			if len(ks) >= 3 && i > 6 && !c.Thorough() {
				break
			}
			dup := false
			for _, x := range ks {
				dup = dup || x == k
			}
			if dup && len(ks) > 2 {
				continue
			}
			if !rec(append(ks[:len(ks):len(ks)], k)) {
				return false
			}
		}
		return true
	}
	rec(nil)
	c.Bound("unsorted-dict-items: all dictionaries of <= %d items with %d kinds of keys in %d contexts, nested", max, len(keys), len(ctxs))
}

// skylarks enumerates texts with the old name of the language.
func skylarks(c *core.Ctx, emit func(cosCase) bool) {
	words := []string{"skylark", "Skylark", "SKYLARK", "skyLark", "/", " ", "x", "é"}
	repl := map[string]string{"skylark": "starlark", "Skylark": "Starlark", "SKYLARK": "STARLARK", "skyLark": "starlark"}
	max := c.Pick(4, 5)
	gen.Words(words, max, "\x00", func(s string) bool {
		ws := strings.Split(s, "\x00")
		old := strings.Join(ws, "")
		neu := ""
		for i, w := range ws {
			if r, ok := repl[w]; ok && !(i > 0 && ws[i-1] == "/") && !(i+1 < len(ws) && ws[i+1] == "/") {
				w = r
			}
			neu += w
		}
		if strings.TrimSpace(old) != old || old == "" {
			return true
		}
		type pl struct {
			cat, text string
			line      int
		}
		pls := []pl{{"skylark-comment", "# $\nx = 1\n", 1}, {"skylark-docstring", "\"\"\"$\"\"\"\n", 1}}
		if len(ws) <= 3 {
			pls = append(pls,
				pl{"skylark-comment", "x = 1 # $\n", 1},
				pl{"skylark-comment", "# a\n\n# b $\n", 3},
				pl{"skylark-comment", "f(\n    x, # $\n)\n", 2},
				pl{"skylark-comment", "f(\n    x,\n    # $\n)\n", 3},
				pl{"skylark-comment", "[\n    x,\n    # $\n]\n", 3},
				pl{"skylark-comment", "def f():\n    x # a\n    # $\n", 3},
				pl{"skylark-comment", "# $\n\n\"\"\"a\"\"\"\n", 1},
				pl{"skylark-comment", "load(\n    \"a\", # $\n    \"b\",\n)\n", 2},
				pl{"skylark-comment", "load(\n    # $\n    \"a\",\n    \"b\",\n)\n", 2},
				pl{"skylark-comment", "load(\n    \"a\",\n    \"b\", # $\n)\n", 3},
				pl{"skylark-comment", "x = {\n    # $\n    1: 2,\n}\n", 2},
				pl{"skylark-comment", "if x:\n    y\nelse: # $\n    z\n", 3},
				pl{"skylark-comment", "[x for x in y\n    # $\n    if x]\n", 2},
				pl{"skylark-comment", "def f(\n        x, # $\n        y):\n    return x\n", 2},
				pl{"skylark-comment", "def f(\n        x,\n        # $\n        *y):\n    return x\n", 3},
				pl{"skylark-comment", "x = 1 # buildifier: disable=skylark-docstring $\n", 0},
				pl{"skylark-comment", "x = 1 # buildifier: disable=skylark-comment $\n", 0},
				pl{"skylark-docstring", "# c\n'$'\nx = 1\n", 2},
				pl{"skylark-docstring", "\"\"\"a\n\n$\n\"\"\" # c\n", 1},
				pl{"skylark-docstring", "r\"\"\"$\\n\"\"\"\n", 1},
				pl{"skylark-docstring", "\"a \\\" \\\\ \\n $\"\n", 1},
				pl{"skylark-docstring", "def f():\n    # c\n    '''$'''\n    x\n", 3},
				pl{"skylark-docstring", "def f():\n    \"$\"\n", 2},
				pl{"skylark-docstring", "x = \"$\"\n", 0},
				pl{"skylark-docstring", "\"x\"\n\"$\"\n", 0},
				pl{"skylark-docstring", "def f():\n    x\n    \"$\"\n", 0},
				pl{"skylark-docstring", "\"a\" # $\n", 0},
				pl{"skylark-comment", "\"$\"\n", 0})
		}
		for _, p := range pls {
			x := cosCase{Type: "bzl", Cat: p.cat, Before: strings.ReplaceAll(p.text, "$", old), After: strings.ReplaceAll(p.text, "$", old)}
			if p.line > 0 && old != neu {
				x.Want = []int{p.line}
				x.After = strings.ReplaceAll(p.text, "$", neu)
			}
			if !emit(x) {
				return false
			}
		}
		// two comments of the same statement
		if len(ws) <= 2 {
			x := cosCase{Type: "bzl", Cat: "skylark-comment", Before: "# " + old + "\n# x skylark\ny = 1 # k\n", After: "# " + neu + "\n# x starlark\ny = 1 # k\n", Want: []int{2}}
			if !emit(x) {
				return false
			}
		}
		return true
	})
	c.Bound("skylark-comment, skylark-docstring: all texts of <= %d words of %d in 2 places, of <= 3 in 30", max, len(words))
}

// visibility enumerates loads of possibly internal files.
func visibility(c *core.Ctx, emit func(cosCase) bool) {
	dirs := []string{"a", "ab", "internal", "private", "internals", "java", "javatests"}
	var paths []string
	for _, x := range dirs {
		paths = append(paths, x)
		for _, y := range dirs {
			paths = append(paths, x+"/"+y)
			if c.Thorough() || x == "a" || x == "java" || x == "javatests" {
				for _, z := range dirs {
					paths = append(paths, x+"/"+y+"/"+z)
				}
			}
		}
	}
	inside := func(p, dir string) bool { return dir == "" || p == dir || strings.HasPrefix(p, dir+"/") }
	for _, from := range append([]string{""}, paths...) {
		for _, to := range paths {
			for i, form := range []string{"//$:x.bzl", "@r//$:x.bzl", "@@r//$:x.bzl", "//$:y/x.bzl"} {
				if i > 0 && len(to) > 9 {
					continue
				}
				x := cosCase{Type: "bzl", Path: from + ":f.bzl", Cat: "bzl-visibility", Before: "# c\nload(\"" + strings.ReplaceAll(form, "$", to) + "\", \"x\")\n"}
				if i%2 == 1 {
					x.Type, x.Path = "build", from+":BUILD"
				}
				parts := strings.Split(to, "/")
				for k, p := range parts {
					if p == "internal" || p == "private" {
						dir := strings.Join(parts[:k], "/")
						// Tests in javatests/a are considered to be in java/a.
						alt := strings.TrimPrefix(strings.Replace("/"+from+"/", "/javatests/", "/java/", 1), "/")
						alt = strings.TrimSuffix(alt, "/")
						if !inside(from, dir) && !inside(alt, dir) {
							x.Want = []int{2}
						}
						break
					}
				}
				x.After = x.Before
				if !emit(x) {
					return
				}
			}
		}
	}
	for _, m := range []string{":x.bzl", ":internal/x.bzl", "//:x.bzl", "//:internal.bzl", "//a:internal.bzl", "//a:private", "@internal//:x.bzl", "@r//:x.bzl", "//internal:x.bzl"} {
		x := cosCase{Type: "bzl", Path: "a:f.bzl", Cat: "bzl-visibility", Before: "load(\"" + m + "\", \"x\")\n"}
		x.After = x.Before
		if !emit(x) {
			return
		}
	}
	c.Bound("bzl-visibility: %d packages x %d loaded packages x 4 forms of labels", len(paths)+1, len(paths))
}

// namings enumerates bindings of names.
func namings(c *core.Ctx, emit func(cosCase) bool) {
	names := []string{"foo", "FOO", "foo_bar", "FOO_BAR", "Foo", "fooBar", "FooBar", "FooInfo", "_FooInfo", "Foo_Info", "_foo", "_FOO", "_Foo", "fooInfo", "Info", "F", "f", "_", "__x", "foo1", "FOO1", "Foo1", "x_Y", "l", "I", "O", "o", "i", "L", "ll", "_l", "l1"}
	bad := func(n string) bool {
		if n == strings.ToLower(n) || n == strings.ToUpper(n) {
			return false
		}
		m := strings.TrimPrefix(n, "_")
		return !(strings.HasSuffix(m, "Info") && !strings.Contains(m, "_") && m[0] >= 'A' && m[0] <= 'Z')
	}
	confusing := func(n string) bool { return n == "l" || n == "I" || n == "O" }
	type form struct {
		text string
		line int    // of N
		cats string // n: name-conventions, c: confusing-name
	}
	for _, n := range names {
		for _, f := range []form{
			{"N = 1", 1, "nc"}, {"N, x = 1, 2", 1, "nc"}, {"(x, N) = a", 1, "nc"}, {"[x, [N]] = a", 1, "nc"}, {"x, (y, N) = a", 1, "nc"}, {"N += 1", 1, "nc"}, {"x = [N]", 0, ""}, {"N.x = 1", 0, ""}, {"N[0] = 1", 0, ""}, {"N()", 0, ""}, {"f(N = 1)", 0, ""}, {"x = N = 1", 1, "nc?"},
			{"def N():\n    pass", 1, "c"}, {"def f(N):\n    pass", 1, "c"}, {"def f(N = 1):\n    pass", 1, "c"}, {"def f(*N):\n    pass", 1, "c"}, {"def f(x, *, N):\n    pass", 1, "c"}, {"def f(**N):\n    pass", 1, "c"}, {"def f(N: int):\n    pass", 1, "c"}, {"def f(N: int = 1):\n    pass", 1, "c"},
			{"def f():\n    N = 1", 2, "nc"}, {"def f():\n    x, N = 1", 2, "nc"}, {"def f():\n    for N in x:\n        pass", 2, "c"}, {"def f():\n    for x in y:\n        N = 1", 3, "nc"}, {"def f():\n    if x:\n        pass\n    elif y:\n        N = 1", 5, "nc"}, {"def f():\n    if x:\n        pass\n    else:\n        for i, N in y:\n            pass", 5, "c"},
			{"def f():\n    def N():\n        pass", 2, "c"}, {"def f():\n    def g():\n        N = 1", 3, "nc"}, {"def f():\n    def g(N):\n        pass", 2, "c"}, {"x = [1 for N in y]", 1, "c"}, {"x = {1: 2 for y, N in y}", 1, "c"}, {"x = f(\n    [1 for x in y for N in x if N])", 2, "c"}, {"x = lambda y: [1 for N in y]", 1, "c"},
			{"load(\"a\", \"N\")", 0, ""}, {"load(\"a\", N = \"x\")", 0, ""}, {"x = \"N\"", 0, ""}, {"# N\nx = 1", 0, ""}, {"x.N", 0, ""}, {"return_(N)", 0, ""},
		} {
			if f.cats == "nc?" || n == "f" && strings.Contains(f.text, "f(") {
				continue
			}
			for _, cat := range []string{"name-conventions", "confusing-name"} {
				x := cosCase{Type: "bzl", Cat: cat, Before: "# c\n" + strings.ReplaceAll(f.text, "N", n) + "\n"}
				if cat == "name-conventions" && bad(n) && strings.Contains(f.cats, "n") || cat == "confusing-name" && confusing(n) && strings.Contains(f.cats, "c") {
					x.Want = []int{f.line + 1}
				}
				x.After = x.Before
				if !emit(x) {
					return
				}
				if !strings.Contains(f.text, "def ") && !strings.Contains(f.text, "lambda") {
					x.Type = "build"
					if !emit(x) {
						return
					}
				}
			}
		}
	}
	c.Bound("name-conventions, confusing-name: %d names x 39 bindings and uses", len(names))
}

// buildRules enumerates BUILD and WORKSPACE files with rules.
func buildRules(c *core.Ctx, emit func(cosCase) bool) {
	// text, name, line of the name, line of a positional argument that is reported
	type rule struct {
		text string
		name string
		line int
		pos  int
	}
	rules := []rule{
		{`r(name = "a")`, "a", 1, 0}, {`r(name = "b")`, "b", 1, 0}, {"r(\n    x = 1,\n    name = \"a\",\n)", "a", 3, 0}, {`s(name = "a", y = 1)`, "a", 1, 0}, {`r()`, "", 0, 0}, {`r(name = "")`, "", 0, 0}, {`r(name = a)`, "", 0, 0},
		{`r("a")`, "", 0, 1}, {"r(\n    \"a\", \"b\")", "", 0, 2}, {"r(\n    x = 1,\n    y = 2,\n    *z)", "", 0, 4}, {`[r("a") for i in x]`, "", 0, 1}, {`[r(name = "a") for i in x]`, "a", 1, 0}, {"[\n    r(\n        i)\n    for i in x]", "", 0, 3},
		{`exports_files(["a"])`, "", 0, 0}, {`licenses(["a"])`, "", 0, 0}, {`print("a")`, "", 0, 0}, {`vardef("a", 1)`, "", 0, 0}, {`register_toolchains("a")`, "", 0, 0}, {`a.b("x", name = "a")`, "a", 1, 0}, {`package("a")`, "", 0, 1}, {`x = r("a")`, "", 0, 0}, {`x = r(name = "a")`, "a", 1, 0}, {`r(r("a"), name = "b")`, "b", 1, 1}, {`r(x = r("a", name = "b"))`, "", 0, 0}, {`r("a", # c` + "\n    name = \"b\",\n)", "b", 2, 1}, {`r(deps = glob(["a"]))`, "", 0, 0}, {`"r"`, "", 0, 0}, {"# r(name = \"a\")\n", "", 0, 0},
	}
	max := c.Pick(3, 4)
	for _, typ := range []string{"build", "workspace", "bzl"} {
		var rec func(l []rule) bool
		rec = func(l []rule) bool {
			if len(l) > 0 {
				d := cosCase{Type: typ, Cat: "duplicated-name"}
				p := cosCase{Type: typ, Cat: "positional-args"}
				line := 0
				seen := map[string]bool{}
				for _, r := range l {
					d.Before += r.text + "\n"
					if r.name != "" && typ != "bzl" {
						if seen[r.name] {
							d.Want = append(d.Want, line+r.line)
						}
						seen[r.name] = true
					}
					if r.pos > 0 && typ == "build" {
						p.Want = append(p.Want, line+r.pos)
					}
					line += strings.Count(r.text, "\n") + 1
				}
				d.After, p.Before, p.After = d.Before, d.Before, d.Before
				if !emit(d) || len(l) < 3 && !emit(p) {
					return false
				}
			}
			if len(l) == max || len(l) == 2 && typ == "bzl" {
				return true
			}
			for _, r := range rules {
				if !rec(append(l[:len(l):len(l)], r)) {
					return false
				}
			}
			return true
		}
		if !rec(nil) {
			return
		}
	}
	c.Bound("duplicated-name, positional-args: all files of <= %d of %d calls", max, len(rules))
}

// blocks enumerates blocks of statements.
func blocks(c *core.Ctx, emit func(cosCase) bool) {
	// the statement, whether it has no effect: in a file, in a function
	type st struct {
		text      string
		top, fn   bool
		str, comm bool
	}
	stmts := []st{
		{`"""s"""`, true, true, true, false}, {"# c\n", false, false, false, true}, {`x = 1`, false, false, false, false}, {`f()`, false, false, false, false}, {`x`, true, true, false, false}, {`1`, true, true, false, false}, {`x + f()`, true, true, false, false}, {`x == 1`, true, true, false, false}, {`[x]`, true, true, false, false}, {`[f() for i in x]`, false, true, false, false}, {`{i: f() for i in x}`, true, true, false, false}, {`x.y`, true, true, false, false}, {`x[1]`, true, true, false, false}, {`x += 1`, false, false, false, false}, {`not f()`, true, true, false, false}, {`lambda: f()`, true, true, false, false}, {`f() if x else f()`, true, true, false, false}, {`pass`, false, false, false, false}, {`"a" + "b"`, true, true, false, false}, {`x, f()`, true, true, false, false},
	}
	max := c.Pick(3, 4)
	heads := []struct {
		text  string
		depth int
		doc   bool
	}{
		{"", 0, true}, {"def f():\n", 1, true}, {"def f():\n    \"doc\"\n    for i in x:\n", 2, false}, {"def f():\n    \"doc\"\n    if x:\n", 2, false}, {"def f():\n    \"doc\"\n    if x:\n        pass\n    else:\n", 2, false}, {"def f():\n    \"doc\"\n    if x:\n        pass\n    elif y:\n", 2, false}, {"def f():\n    def g():\n", 2, true}, {"def f():\n    if x:\n        for i in x:\n            def g():\n", 4, true}, {"if x:\n", 1, false}, {"for i in x:\n", 1, false},
	}
	for hi, h := range heads {
		ind := strings.Repeat("    ", h.depth)
		var rec func(l []st) bool
		rec = func(l []st) bool {
			if len(l) > 0 {
				x := cosCase{Type: "bzl", Cat: "no-effect", Before: h.text}
				seen := false
				comments := 0
				for _, s := range l {
					line := strings.Count(x.Before, "\n") + 1
					x.Before += ind + s.text + "\n"
					if s.comm {
						comments++
					}
					rep := s.fn
					if h.depth == 0 {
						rep = s.top
					}
					if s.str && !seen && h.doc {
						rep = false
					}
					seen = seen || !s.comm
					if rep {
						x.Want = append(x.Want, line)
					}
				}
				x.After = x.Before
				if comments == len(l) && h.depth > 0 {
					goto next
				}
				if !emit(x) {
					return false
				}
				if h.depth == 0 {
					// module-docstring: the first statement is a string.
					y := x
					y.Cat, y.Want = "module-docstring", nil
					line := 1
					for _, s := range l {
						if !s.comm {
							if !s.str {
								y.Want = []int{line}
							}
							break
						}
						line += 2
					}
					for _, t := range types {
						y.Type = t
						z := y
						if t != "bzl" && t != "default" {
							z.Want = nil
						}
						if strings.Contains(y.Before, "lambda") && t != "bzl" {
							continue
						}
						if !emit(z) {
							return false
						}
					}
				}
			}
		next:
			if len(l) == max || hi > 1 && len(l) == 2 {
				return true
			}
			for _, s := range stmts {
				if !rec(append(l[:len(l):len(l)], s)) {
					return false
				}
			}
			return true
		}
		if !rec(nil) {
			return
		}
	}
	c.Bound("no-effect, module-docstring: all blocks of <= %d statements of %d in files and functions, of 2 in 8 other blocks", max, len(stmts))
}

// impls enumerates rule implementations and loops with depsets.
func impls(c *core.Ctx, emit func(cosCase) bool) {
	rules := []struct {
		text string
		impl bool
	}{{"r = rule(implementation = f)", true}, {"r = rule(f)", true}, {"r = rule(f, implementation = g)", false}, {"r = rule(attrs = f)", false}, {"r = rule(attrs = {}, implementation = f)", true}, {"x(rule(implementation = f))", true}, {"def m():\n    return rule(\n        implementation = f,\n    )", true}, {"r = rule(implementation = \"f\")", false}, {"r = rule(implementation = x.f)", false}, {"r = x.rule(implementation = f)", false}, {"r = aspect(implementation = f)", false}, {"r = rules(implementation = f)", false}, {"r = rule()", false}, {"", false}, {"r = rule(implementation = g)", false}}
	rets := []struct {
		text string
		bad  []int
	}{{"return struct()", []int{0}}, {"return struct(a = 1, b = struct())", []int{0}}, {"return", nil}, {"return [struct()]", nil}, {"return x.struct()", nil}, {"return struct", nil}, {"return structs()", nil}, {"struct()\nreturn x", nil}, {"if x:\n    return struct()\nelse:\n    return struct(\n        a = 1)", []int{1, 3}}, {"for i in x:\n    return struct() # c", []int{1}}, {"# c\nif x:\n    pass\nelif y:\n    return struct()\nreturn []", []int{4}}, {"return [\n    struct() for i in x]", nil}, {"return x if y else struct()", nil}, {"x = struct()\nreturn x", nil}}
	for _, r := range rules {
		for _, q := range rets {
			for _, place := range []int{0, 1} {
				for _, typ := range types {
					if typ != "bzl" && typ != "default" {
						continue
					}
					def := "def f(ctx):\n    " + strings.ReplaceAll(q.text, "\n", "\n    ") + "\n"
					x := cosCase{Type: typ, Cat: "rule-impl-return", Before: r.text + "\n" + def}
					line := strings.Count(r.text, "\n") + 3
					if place == 1 {
						x.Before = def + r.text + "\n"
						line = 2
					}
					if r.impl && typ == "bzl" {
						for _, b := range q.bad {
							x.Want = append(x.Want, line+b)
						}
					}
					x.After = x.Before
					if !emit(x) {
						return
					}
				}
			}
		}
	}
	loops := []string{"for i in y:\n    $", "for i in y:\n    if x:\n        $", "for i in y:\n    pass\n$", "if y:\n    $", "for i in y:\n    for j in i:\n        $", "for i in y:\n    if x:\n        pass\n    else:\n        $", "$", "for i in y:\n    # c\n\n    $"}
	asg := []struct {
		text string
		bad  bool
	}{{"x = depset(i, transitive = [x])", true}, {"x = depset(transitive = [i, x])", true}, {"x = depset([x])", false}, {"x = depset(transitive = [i])", false}, {"x = depset(transitive = x)", false}, {"x = depset(transitive = [x.y])", false}, {"x = depset(transitive = [x, x], direct = [])", true}, {"x = f(transitive = [x])", false}, {"y = depset(transitive = [x])", false}, {"x.y = depset(transitive = [x])", false}, {"x = a.depset(transitive = [x])", false}, {"f(depset(transitive = [x]))", false}, {"x = depset(x, transitive = [\n    # c\n    x,\n])", true}}
	for _, l := range loops {
		for _, a := range asg {
			for _, wrap := range []string{"", "def f(x):\n    "} {
				at := strings.Index(l, "$")
				ind := l[strings.LastIndex(l[:at], "\n")+1 : at]
				t := strings.ReplaceAll(l, "$", strings.ReplaceAll(a.text, "\n", "\n"+ind))
				line := strings.Count(l[:at], "\n") + 1
				x := cosCase{Type: "bzl", Cat: "overly-nested-depset", Before: t + "\n"}
				if wrap != "" {
					x.Before = wrap + strings.ReplaceAll(t, "\n", "\n    ") + "\n"
					line++
				}
				if a.bad && strings.HasPrefix(l, "for") && ind != "" {
					x.Want = []int{line}
				}
				x.After = x.Before
				if !emit(x) {
					return
				}
			}
		}
	}
	c.Bound("rule-impl-return: %d rules x %d functions; overly-nested-depset: %d loops x %d assignments", len(rules), len(rets), len(loops), len(asg))
}

var c43 = &core.Check{ID: "C43", Level: "model_checking", Guard: true,
	Run: func(c *core.Ctx) {
		ev := core.NewEval(c, "structure", func(in cosCase) error { return cosCheck(c, in) })
		core.Stream(c, func(emit func(cosCase) bool) {
			ok := true
			e := func(x cosCase) bool { ok = emit(x); return ok }
			for _, g := range []func(*core.Ctx, func(cosCase) bool){pkgTop, dicts, skylarks, visibility, namings, buildRules, blocks, impls} {
				if ok {
					g(c, e)
				}
			}
		}, func(x cosCase) { ev.Do(x) })
	}}
