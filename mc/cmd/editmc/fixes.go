package main

import (
	"fmt"
	"regexp"
	"slices"
	"sort"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/tables"

	"verif/mc/core"
	"verif/mc/sem"
)

// C44: the fix command.

type FixCase struct {
	Text   string
	Target string // of //pkg
	Fixes  []string
}

var ruleFixes = []string{"sortGlob", "splitOptions", "shortenLabels", "removeVisibility", "removeTestOnly", "genruleRenameDepsTools", "genruleFixHeuristicLabels", "sortExportsFiles", "varref", "mergeLiteralLists"}
var fileFixes = []string{"movePackageToTop", "usePlusEqual", "unusedLoads", "moveLicenses"}

func buildSpec() *sem.Spec {
	return &sem.Spec{BuildLike: true, LabelArg: tables.IsLabelArg, LabelDeny: tables.LabelDenylist, SortArg: tables.IsSortableListArg,
		SortDeny: tables.SortableDenylist, SortAllow: tables.SortableAllowlist}
}

func callOf(s *N) *N {
	if s.K == "expr" && len(s.C) == 1 {
		s = s.C[0]
	}
	if s.K == "call" {
		return s
	}
	return nil
}

// concat lists the operands of a concatenation.
func concat(x *N) []*N {
	if x != nil && x.K == "bin" && x.V == "+" {
		return append(concat(x.C[0]), concat(x.C[1])...)
	}
	return []*N{x}
}

func attrOf(call *N, name string) *N {
	for _, a := range call.C[1:] {
		if a.K == "assign" && a.C[0].V == name {
			return a.C[1]
		}
	}
	return nil
}

func delAttr(call *N, name string) {
	for i, a := range call.C[1:] {
		if a.K == "assign" && a.C[0].V == name {
			call.C = append(call.C[:i+1:i+1], call.C[i+2:]...)
			return
		}
	}
}

func isInt(x *N, v string) bool { return x != nil && x.K == "num" && x.V == "int64:"+v }

// strings of a list of string literals, nil otherwise.
func stringList(x *N) []string {
	if x == nil || x.K != "list" {
		return nil
	}
	r := []string{}
	for _, e := range x.C {
		if e.K != "str" {
			return nil
		}
		r = append(r, e.V)
	}
	return r
}

// sortedAsSources is the order the formatter gives to a list of sources.
func sortedAsSources(l *N) *N {
	for _, e := range l.C {
		if e.K != "str" {
			return nil // not claimed here
		}
	}
	var b strings.Builder
	b.WriteString("cc_library(resources = [\n")
	for _, e := range l.C {
		fmt.Fprintf(&b, "    %q,\n", e.V)
	}
	b.WriteString("])\n")
	f, err := build.ParseBuild("BUILD", []byte(b.String()))
	if err != nil {
		return nil
	}
	p := mustParse(string(build.Format(f)))
	return attrOf(callOf(p.C[0]), "resources")
}

func replaceCalls(x *N, name string, g func(*N) *N) *N {
	for i, c := range x.C {
		x.C[i] = replaceCalls(c, name, g)
	}
	if x.K == "call" && x.C[0].K == "id" && x.C[0].V == name {
		return g(x)
	}
	return x
}

var tokenRE = regexp.MustCompile(`[a-zA-Z0-9:/_.+-]+|[^a-zA-Z0-9:/_.+-]+`)

type undefined struct{}

// fixRuleModel applies a fix to a rule.
func fixRuleModel(f *N, call *N, fix string) {
	r := asRule(call)
	if r == nil {
		return
	}
	var pkgDecl *N
	for _, s := range f.C {
		if c := callOf(s); c != nil && c.C[0].K == "id" && c.C[0].V == "package" {
			pkgDecl = c
			break
		}
	}
	switch fix {
	case "sortGlob":
		replaceCalls(call, "glob", func(c *N) *N {
			if len(c.C) > 1 && c.C[1].K == "list" {
				s := sortedAsSources(c.C[1])
				if s == nil {
					panic(undefined{})
				}
				c.C[1] = s
			}
			return c
		})
	case "splitOptions":
		for _, a := range []string{"copts", "linkopts"} {
			for _, l := range concat(attrOf(call, a)) {
				if l == nil || l.K != "list" {
					continue
				}
				var n []*N
				for _, e := range l.C {
					// quoted or escaped parts, and locations, can't be split
					if e.K != "str" || !strings.Contains(e.V, " ") || strings.ContainsAny(e.V, "'\"\\") || strings.Contains(e.V, "$(") {
						n = append(n, e)
						continue
					}
					for _, w := range strings.Fields(e.V) {
						n = append(n, str(w))
					}
				}
				l.C = n
			}
		}
	case "shortenLabels":
		for _, a := range call.C[1:] {
			if a.K != "assign" || !tables.IsLabelArg[a.C[0].V] || tables.LabelDenylist[r.Kind+"."+a.C[0].V] {
				continue
			}
			for _, l := range concat(a.C[1]) {
				if l.K == "list" {
					for i, e := range l.C {
						if e.K == "str" {
							l.C[i] = str(short(e.V))
						}
					}
				}
			}
		}
	case "removeVisibility":
		def := []string{"//visibility:private"}
		if pkgDecl != nil {
			if v := attrOf(pkgDecl, "default_visibility"); v != nil {
				def = stringList(v)
			}
		}
		vis := stringList(attrOf(call, "visibility"))
		if len(vis) == 0 || def == nil {
			return
		}
		a, b := append([]string{}, vis...), append([]string{}, def...)
		sort.Strings(a)
		sort.Strings(b)
		if strings.Join(a, " ") == strings.Join(b, " ") {
			delAttr(call, "visibility")
		}
	case "removeTestOnly":
		test := strings.HasSuffix(r.Kind, "_test") || r.Kind == "test_suite"
		var def *N
		if pkgDecl != nil {
			def = attrOf(pkgDecl, "default_testonly")
		}
		t := attrOf(call, "testonly")
		switch {
		case test || isInt(def, "1"):
			if isInt(t, "1") {
				delAttr(call, "testonly")
			}
		case def == nil || isInt(def, "0"):
			if isInt(t, "0") {
				delAttr(call, "testonly")
			}
		}
	case "genruleRenameDepsTools":
		if r.Kind == "genrule" && r.Attrs["tools"] == nil {
			for _, a := range call.C[1:] {
				if a.K == "assign" && a.C[0].V == "deps" {
					a.C[0] = id("tools")
				}
			}
		}
	case "genruleFixHeuristicLabels":
		if r.Kind != "genrule" {
			return
		}
		known := map[string]bool{}
		for _, a := range []string{"tools", "srcs"} {
			for _, l := range concat(attrOf(call, a)) {
				if l != nil && l.K == "list" {
					for _, e := range l.C {
						if e.K == "str" {
							known[e.V] = true
						}
					}
				}
			}
		}
		for _, s := range concat(attrOf(call, "cmd")) {
			if s == nil || s.K != "str" {
				continue
			}
			parts := tokenRE.FindAllString(s.V, -1)
			loc := func(i int) bool {
				return i >= 2 && strings.TrimSpace(parts[i-1]) == "" && regexp.MustCompile(`^(r?location|execpath|rootpath|rlocationpath)s?$`).MatchString(parts[i-2])
			}
			for i, p := range parts {
				if loc(i) && !known[p] && !known[":"+p] {
					panic(undefined{}) // the location of something else
				}
			}
			for i, p := range parts {
				l := p
				if !known[l] {
					l = ":" + p
				}
				if !known[l] {
					continue
				}
				if loc(i) {
					continue
				}
				parts[i] = "$(location " + l + ")"
			}
			s.V = strings.Join(parts, "")
		}
	case "sortExportsFiles":
		if r.Kind == "exports_files" && len(call.C) > 1 && call.C[1].K == "list" {
			s := sortedAsSources(call.C[1])
			if s == nil {
				panic(undefined{})
			}
			call.C[1] = s
		}
	case "varref":
		*call = *replaceCalls(call, "varref", func(c *N) *N {
			if len(c.C) == 2 && c.C[1].K == "str" {
				return str("$(" + c.C[1].V + ")")
			}
			return c
		})
	case "mergeLiteralLists":
		*call = *mergeLists(call)
	}
}

func mergeLists(x *N) *N {
	for i, c := range x.C {
		x.C[i] = mergeLists(c)
	}
	if x.K == "bin" && x.V == "+" && x.C[0].K == "list" && x.C[1].K == "list" {
		return list(append(append([]*N{}, x.C[0].C...), x.C[1].C...)...)
	}
	return x
}

func fixFileModel(f *N, fix string) {
	pkgAt := func() int {
		for i, s := range f.C {
			if c := callOf(s); c != nil && c.C[0].K == "id" && c.C[0].V == "package" {
				return i
			}
		}
		return -1
	}
	switch fix {
	case "movePackageToTop":
		p := pkgAt()
		for i := 0; i < p; i++ {
			switch f.C[i].K {
			case "load", "assign":
				continue
			case "str":
				continue
			case "expr":
				if f.C[i].C[0].K == "str" {
					continue
				}
			}
			s := f.C[p]
			rest := append(append([]*N{}, f.C[i:p]...), f.C[p+1:]...)
			f.C = append(append(f.C[:i:i], s), rest...)
			return
		}
	case "usePlusEqual":
		for i, s := range f.C {
			c := callOf(s)
			if c == nil || c.C[0].K != "dot" || c.C[0].C[0].K != "id" || len(c.C) != 2 {
				continue
			}
			switch {
			case c.C[1].K == "assign" || c.C[1].K == "un" && strings.HasPrefix(c.C[1].V, "*"):
				continue // not a plain argument
			case c.C[0].V == "extend":
				f.C[i] = &N{K: "assign", V: "+=", C: []*N{c.C[0].C[0], c.C[1]}}
			case c.C[0].V == "append":
				f.C[i] = &N{K: "assign", V: "+=", C: []*N{c.C[0].C[0], list(c.C[1])}}
			}
		}
	case "unusedLoads":
		if b, _ := bindings(f); ambiguous(b) {
			panic(undefined{})
		}
		used := usedNames(f)
		last := map[string]binding{}
		var out []*N
		for _, s := range f.C {
			if s.K != "load" || s.V == ":d.bzl" { // marked as @unused
				out = append(out, s)
				continue
			}
			var keep []*N
			for _, y := range s.C {
				to, from, _ := strings.Cut(y.V, "=")
				b := binding{s.V, to, from}
				if !used[to] || last[to] == b {
					continue
				}
				last[to] = b
				keep = append(keep, y)
			}
			if len(keep) > 0 {
				out = append(out, &N{K: "load", V: s.V, C: keep})
			}
		}
		f.C = out
	case "moveLicenses":
		var arg *N
		var out []*N
		for _, s := range f.C {
			if c := callOf(s); c != nil && c.C[0].K == "id" && c.C[0].V == "licenses" && len(c.C) == 2 {
				if c.C[1].K == "assign" {
					out = append(out, s)
					continue
				}
				if arg != nil {
					panic(undefined{}) // isn't allowed
				}
				arg = c.C[1]
				continue
			}
			out = append(out, s)
		}
		if arg == nil {
			return
		}
		f.C = out
		c := callOf(f.C[pkgAt()])
		delAttr(c, "licenses")
		c.C = append(c.C, &N{K: "assign", V: "=", C: []*N{id("licenses"), arg}})
	}
}

// fixModel is the file after a fix command, nil if it isn't defined here.
func fixModel(f *N, target string, fixes []string) (res *N) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(undefined); !ok {
				panic(e)
			}
			res = nil
		}
	}()
	if target == "__pkg__" {
		have := false
		at := -1
		for i, s := range f.C {
			if c := callOf(s); c != nil && c.C[0].K == "id" && c.C[0].V == "package" {
				have = true
			}
			if at < 0 && !(s.K == "load" || s.K == "str" || s.K == "expr" && s.C[0].K == "str") {
				at = i
			}
		}
		if at < 0 {
			at = len(f.C)
		}
		if !have { // an empty one comes at the top, and goes if it isn't used
			f.C = append(append(f.C[:at:at], &N{K: "call", C: []*N{id("package")}}), append([]*N{}, f.C[at:]...)...)
		}
	}
	on := func(x string) bool { return len(fixes) == 0 || slices.Contains(fixes, x) }
	for _, s := range f.C {
		c := callOf(s)
		if c == nil {
			continue
		}
		if r := asRule(c); target != "__pkg__" && (r == nil || r.name() != target) {
			continue
		}
		for _, x := range ruleFixes {
			if on(x) {
				fixRuleModel(f, c, x)
			}
		}
		if target != "__pkg__" {
			return f
		}
	}
	if target == "__pkg__" {
		for _, x := range fileFixes {
			if on(x) {
				fixFileModel(f, x)
			}
		}
	}
	return f
}

var commentWordRE = regexp.MustCompile(`# (k\w+)`)

func doFix(in FixCase) (string, error) {
	pre, err := sem.FromStarlark(in.Text)
	if err != nil {
		return "", nil
	}
	want := fixModel(pre, in.Target, in.Fixes)
	if want == nil {
		return "", nil
	}
	if t := callOf; t != nil {
		// an empty package declaration is removed by every command
		var out []*N
		for _, s := range want.C {
			if c := callOf(s); c != nil && c.C[0].V == "package" && len(c.C) == 1 {
				continue
			}
			out = append(out, s)
		}
		want.C = out
	}
	cmd := strings.TrimSpace("fix " + strings.Join(in.Fixes, " "))
	r := one(in.Text, cmd, "//pkg:"+in.Target)
	text := r.Files[buildFile]
	what := "all"
	if len(in.Fixes) > 0 {
		what = strings.Join(in.Fixes, "+")
	}
	post, err := sem.FromStarlark(text)
	if err != nil {
		return "", failf(what+"/syntax", "%s makes a file that doesn't parse: %v\n%s", cmd, err, text)
	}
	a, b := sem.Canon(post, buildSpec()).String(), sem.Canon(want, buildSpec()).String()
	if a != b {
		return "", failf(what+"/result", "%s on %s gives\n%s\n%s\ninstead of\n%s", cmd, in.Target, text, a, b)
	}
	ba, _ := bindings(post)
	bb, _ := bindings(want)
	if len(ba) != len(bb) {
		return "", failf(what+"/loads", "%s on %s leaves %d loaded symbols instead of %d\n%s", cmd, in.Target, len(ba), len(bb), text)
	}
	for _, m := range commentWordRE.FindAllStringSubmatch(in.Text, -1) {
		if n := strings.Count(text, m[0]); n != strings.Count(in.Text, m[0]) {
			return "", failf(what+"/comment", "%s on %s leaves the comment %s %d times\n%s", cmd, in.Target, m[1], n, text)
		}
	}
	switch {
	case text != in.Text && (r.RC != 0 || len(r.Writes) != 1):
		return "", failf(what+"/exit", "the file changed, but the exit code is %d: %s", r.RC, r.Err)
	case text == in.Text && (r.RC != 3 || len(r.Writes) != 0):
		return "", failf(what+"/exit", "the file did not change, but the exit code is %d, writes %v: %s", r.RC, r.Writes, r.Err)
	}
	if len(in.Fixes) == 1 && text != in.Text {
		if r := one(text, cmd, "//pkg:"+in.Target); r.Files[buildFile] != text {
			return "", failf(what+"/again", "%s on %s gives\n%s\nand once more\n%s", cmd, in.Target, text, r.Files[buildFile])
		}
	}
	return text, nil
}

var c44 = &core.Check{ID: "C44", Level: "model_checking", Guard: true,
	Run: func(c *core.Ctx) {
		ev := core.NewEval(c, "fix", func(in FixCase) error {
			text, err := doFix(in)
			if text != "" && text != in.Text {
				c.NonTrivial(1)
				c.Outcome([]byte(text))
			}
			return err
		})
		do := func(text, target string, fixes ...string) {
			ev.Do(FixCase{formatted(text), target, fixes})
		}
		lists := func(items []string, max int) []string {
			r := []string{"[]"}
			var rec func(pre []string)
			rec = func(pre []string) {
				if len(pre) > 0 {
					r = append(r, "[\n"+strings.Join(pre, ",\n")+",\n]")
				}
				if len(pre) == max {
					return
				}
				for _, x := range items {
					rec(append(pre[:len(pre):len(pre)], x))
				}
			}
			rec(nil)
			return r
		}
		type job struct {
			text  string
			fixes [][]string
		}
		var jobs []job
		n := 0
		addRule := func(kind, pkg, args string, fixes ...string) {
			l := [][]string{nil}
			for _, f := range fixes {
				l = append(l, []string{f})
			}
			n++
			l = append(l, []string{ruleFixes[n%len(ruleFixes)]}, []string{ruleFixes[n%len(ruleFixes)], fileFixes[n%len(fileFixes)]}, []string{"nosuchfix"})
			jobs = append(jobs, job{pkg + kind + "(\n    name = \"t\",\n" + args + ")\n\ncc_library(\n    name = \"other\",\n    copts = [\"-a -b\"],\n    visibility = [\"//visibility:private\"],\n)\n", l})
		}
		k := c.Pick(2, 3)
		// options
		opts := []string{`"-a -b"`, `"-c"`, `"-DX='a b'"`, `"-DX=\"a b\" -z"`, `"-I$(location :x) -y"`, `"-I$(execpath :x)"`, `" -a  -b\t-c "`, `" "`, `X`, "# kbefore\n\"-d -e\"", `"-Wl,a\\ b"`}
		if !c.Thorough() {
			opts = opts[:]
		}
		for _, a := range []string{"copts", "linkopts", "opts"} {
			for _, l := range lists(opts, k) {
				addRule("cc_library", "", "    "+a+" = "+l+",\n", "splitOptions")
			}
			for _, v := range []string{`["-a -b"] + ["-c -d"]`, `["-a -b"] + X + ["-c -d"]`, `select({"//c": ["-a -b"], "//d": []})`, `["-a -b"] + select({"//c": ["-a -b"]})`, `X`, `"-a -b"`, `["-a -b"] # ksuffix` + "\n", `["-a -b" for x in y]`, "[\"-a -b\", # kend\n]", "[\"-a -b\", # kend\n# klast\n]"} {
				addRule("cc_library", "", "    "+a+" = "+v+",\n", "splitOptions", "mergeLiteralLists")
			}
		}
		// labels
		lab := []string{`"//pkg:a"`, `":a"`, `"a"`, `"//pkg"`, `"//a:a"`, `"//a:b"`, `"@r//:r"`, `"@r//pkg:a"`, `X`, `"//pkg/sub:a"`, `"//pkgx:a"`, "# kbefore\n\"//pkg:q\""}
		for _, a := range []string{"deps", "srcs", "opts", "data"} {
			for _, kind := range []string{"cc_library", "genrule", "x.y"} {
				for _, l := range lists(lab, k-1) {
					addRule(kind, "", "    "+a+" = "+l+",\n", "shortenLabels", "genruleRenameDepsTools")
				}
			}
			for _, v := range []string{`["//pkg:a"] + ["//pkg:b"]`, `["//pkg:a"] + X + ["//pkg:b"]`, `select({"//pkg:c": ["//pkg:a"]})`, `"//pkg:a"`, `glob(["b", "a"]) + ["//pkg:a"]`} {
				addRule("cc_library", "", "    "+a+" = "+v+",\n", "shortenLabels", "mergeLiteralLists", "sortGlob")
			}
		}
		for _, x := range []string{`["a"]`, `[":b"]`, `[]`, `X`} {
			for _, y := range []string{"", "    tools = [\":t1\"],\n"} {
				for _, kind := range []string{"genrule", "cc_library"} {
					addRule(kind, "", "    deps = "+x+",\n"+y, "genruleRenameDepsTools")
				}
			}
		}
		// defaults
		pkgs := []string{"", "package(default_visibility = [\"//visibility:public\"])\n\n", "package(default_visibility = [\"//b:__pkg__\", \"//a:__pkg__\"])\n\n", "package(default_visibility = X)\n\n", "package(default_visibility = [])\n\n",
			"package(default_testonly = 1)\n\n", "package(default_testonly = 0)\n\n", "package(default_testonly = True)\n\n", "package(default_testonly = X, default_visibility = [\"//visibility:public\"])\n\n", "package(features = [\"x\"])\n\n"}
		vis := []string{`"//visibility:public"`, `"//visibility:private"`, `"//a:__pkg__"`, `"//b:__pkg__"`, `X`}
		for _, p := range pkgs {
			for _, l := range append(lists(vis, 2), "X", `["//visibility:public"] + X`, `["//visibility:private"] + []`) {
				addRule("cc_library", p, "    visibility = "+l+",\n", "removeVisibility")
			}
			for _, kind := range []string{"cc_library", "cc_test", "test_suite", "x.y_test"} {
				for _, t := range []string{"0", "1", "True", "False", "X", `"1"`} {
					addRule(kind, p, "    testonly = "+t+",\n", "removeTestOnly")
				}
			}
		}
		// commands
		words := []string{"a", ":a", "x/b", "//o:c", "$(location a)", "$(locations :a)", "$(execpath a)", "$@", "ab", "location", ">"}
		var cmds []string
		var rec func(pre []string)
		rec = func(pre []string) {
			if len(pre) > 0 {
				cmds = append(cmds, strings.Join(pre, " "))
			}
			if len(pre) < k {
				for _, w := range words {
					if w == "location" && len(pre) > 0 {
						continue
					}
					rec(append(pre[:len(pre):len(pre)], w))
				}
			}
		}
		rec(nil)
		cmds = append(cmds, "cat a;cat x/b>$@", "a,:a", "'a'", "-Ia", "a.b a", "$$(cat a)", "./a")
		for i, cmd := range cmds {
			if strings.HasPrefix(cmd, "location") {
				continue
			}
			for j, s := range []string{"    srcs = [\"a\"],\n", "    srcs = [\":a\", \"x/b\"],\n", "    tools = [\"a\", \"//o:c\"],\n", "    srcs = [\"a\"] + X,\n    tools = [\"x/b\"],\n"} {
				if c.Thorough() || (i+j)%2 == 0 || i < 12 {
					addRule("genrule", "", s+fmt.Sprintf("    cmd = %q,\n", cmd), "genruleFixHeuristicLabels")
				}
			}
		}
		for _, v := range []string{`"cat a " + X + "a"`, `X`, `select({"//c": "a"})`, `varref("CC") + " a"`} {
			addRule("genrule", "", "    srcs = [\"a\"],\n    cmd = "+v+",\n", "genruleFixHeuristicLabels", "varref")
			addRule("cc_library", "", "    srcs = [\"a\"],\n    cmd = "+v+",\n", "genruleFixHeuristicLabels", "varref")
		}
		// expressions
		exprs := []string{`varref("A")`, `varref(A)`, `varref("A", "B")`, `x.varref("A")`, `["a", varref("A")]`, `{"k": varref("A")}`, `f(varref("A"))`, "varref(\"A\") # kvar\n", `varref(x = "A")`, `varref("A") + varref("B")`,
			`glob(["b", "a"])`, `glob(["b", "a"], exclude = ["d", "c"])`, `glob(include = ["b", "a"])`, `glob()`, `glob(X)`, `glob(["b.h", "a/b.h", ":c", "//x:y", "a.h"])`, "glob([\n\"b\",\n\"a\", # ka\n])", `x.glob(["b", "a"])`, `glob(["b", "a"]) + glob(["d", "c"])`, `[f(glob(["b", "a"]))]`, `glob(["b", "a", "b"])`,
			`[1] + [2]`, `[1] + [2] + [3]`, `X + [1] + [2]`, `[1] + [2] + X`, `X + ([1] + [2])`, `[1] + X + [2]`, `[1] - [2]`, `f([1] + [2])`, `[[1] + [2]] + [[3] + []]`, `{"a": [1] + [2]}`, `[] + []`, `[] + [1]`, `[1] + (2,)`, `[1] + [2 for x in y]`, `select({"//c": [1] + [2]}) + [3] + [4]`,
			"[\n1, # k1\n] + [\n2, # k2\n]", "[\n# k1\n1,\n] + [\n# k2\n2,\n]", "[1] + [2] # ksum\n", "[\n1,\n# klast1\n] + [\n2,\n# klast2\n]", "[\n1,\n] + # kplus\n[2]"}
		for _, v := range exprs {
			for _, a := range []string{"x", "deps", "srcs"} {
				addRule("cc_library", "", "    "+a+" = "+v+",\n", "varref", "sortGlob", "mergeLiteralLists")
			}
		}
		core.Stream(c, func(emit func(FixCase) bool) {
			for _, j := range jobs {
				for _, f := range j.fixes {
					for _, t := range []string{"t", "__pkg__"} {
						if !emit(FixCase{j.text, t, f}) {
							return
						}
					}
				}
			}
		}, func(x FixCase) { do(x.Text, x.Target, x.Fixes...) })
		c.Bound("rules: %d rules with lists of <=%d options and labels, defaults, commands of <=%d words, expressions; each fix, all fixes and unknown ones, on the rule and on the file", len(jobs), k, k)
		// Files.
		stmts := []string{`"""Doc."""`, "# kblock\n", "load(\":a.bzl\", \"f\", \"g\")", "load(\":a.bzl\", f = \"h\")", "load(\":b.bzl\", \"u\")", "# kload\nload(\":c.bzl\", \"v\")", "x = []", "package(default_visibility = [\"//visibility:public\"]) # kpkg",
			"# klic\nlicenses([\"notice\"])", "licenses(license_types = [\"x\"])", "x.append(f(1))", "x.extend(g) # kext", "# kapp\nx.append(y = 1)", "f.g.append(1)", "f(name = \"t\")", "exports_files([\n\"b\",\n\"a\", # kexp\n])", "package(licenses = [\"old\"])", "load(\":d.bzl\", \"w\") # @unused", "def m(a: u): pass"}
		core.Stream(c, func(emit func(FixCase) bool) {
			fixes := [][]string{nil}
			for _, x := range fileFixes {
				fixes = append(fixes, []string{x})
			}
			fixes = append(fixes, []string{"sortExportsFiles"}, []string{"unusedLoads", "moveLicenses"}, []string{"movePackageToTop", "moveLicenses"})
			var rec func(pre []int) bool
			depth := c.Pick(3, 4)
			rec = func(pre []int) bool {
				if len(pre) > 0 {
					var b strings.Builder
					for _, i := range pre {
						b.WriteString(stmts[i] + "\n\n")
					}
					for _, f := range fixes {
						if !emit(FixCase{b.String(), "__pkg__", f}) {
							return false
						}
					}
				}
				if len(pre) == depth {
					return true
				}
				for i := range stmts {
					if !slices.Contains(pre, i) && !rec(append(pre[:len(pre):len(pre)], i)) {
						return false
					}
				}
				return true
			}
			rec(nil)
			c.Bound("files of <=%d of %d statements, 8 sets of fixes", depth, len(stmts))
		}, func(x FixCase) { do(x.Text, x.Target, x.Fixes...) })
	}}
