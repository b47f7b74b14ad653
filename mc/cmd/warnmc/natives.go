package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/warn"
	"verif/mc/core"
	"verif/mc/gen"
	"verif/mc/sem"
)

// C42: the native-* lints find the symbols that have to be loaded, and their fixes load exactly those.

// A native symbol: the category that reports it, its kind and the file it has to be loaded from (repository name
// in the registry, label of the file). Written down from warnings.textproto and the rules_* repositories, not from
// the tables of the code.
type native struct {
	Cat, Name  string
	Fn         bool
	Repo, File string
	Bzl        bool // only in .bzl files
}

var natives = func() []native {
	var r []native
	add := func(repo, dir, cat, file string, fn bool, names ...string) {
		for _, x := range names {
			y := file
			if y == "" {
				y = x + ".bzl"
			}
			r = append(r, native{Cat: cat, Name: x, Fn: fn, Repo: repo, File: "//" + dir + ":" + y, Bzl: repo == "bazel_tools"})
		}
	}
	cats := func(repo, dir string, l ...string) {
		for i := 0; i < len(l); i += 3 {
			add(repo, dir, l[i], l[i+2], l[i+2] == "", l[i+1])
		}
	}
	add("bazel_tools", "tools/build_defs/repo", "git-repository", "git.bzl", true, "git_repository", "new_git_repository")
	add("bazel_tools", "tools/build_defs/repo", "http-archive", "http.bzl", true, "http_archive")
	add("rules_android", "android", "native-android", "rules.bzl", true, "aar_import", "android_binary", "android_device", "android_instrumentation_test", "android_library", "android_local_test", "android_sdk_repository")
	add("rules_python", "python", "native-py", "defs.bzl", true, "py_library", "py_binary", "py_test", "py_runtime")
	cats("rules_cc", "cc", "native-cc-binary", "cc_binary", "", "native-cc-import", "cc_import", "", "native-cc-library", "cc_library", "", "native-cc-objc-import", "objc_import", "", "native-cc-objc-library", "objc_library", "", "native-cc-shared-library", "cc_shared_library", "", "native-cc-test", "cc_test", "")
	cats("rules_cc", "cc/toolchains", "native-cc-toolchain", "cc_toolchain", "", "native-cc-toolchain-suite", "cc_toolchain_suite", "", "native-cc-fdo-prefetch-hints", "fdo_prefetch_hints", "", "native-cc-fdo-profile", "fdo_profile", "", "native-cc-memprof-profile", "memprof_profile", "", "native-cc-propeller-optimize", "propeller_optimize", "")
	cats("rules_cc", "cc/common", "native-cc-common", "cc_common", "cc_common.bzl", "native-cc-debug-package-info", "DebugPackageInfo", "debug_package_info.bzl", "native-cc-info", "CcInfo", "cc_info.bzl", "native-cc-shared-library-info", "CcSharedLibraryInfo", "cc_shared_library_info.bzl", "native-cc-shared-library-hint-info", "CcSharedLibraryHintInfo", "cc_shared_library_hint_info.bzl")
	cats("rules_java", "java", "native-java-binary", "java_binary", "", "native-java-import", "java_import", "", "native-java-library", "java_library", "", "native-java-plugin", "java_plugin", "", "native-java-test", "java_test", "")
	cats("rules_java", "java/toolchains", "native-java-package-config", "java_package_configuration", "", "native-java-runtime", "java_runtime", "", "native-java-toolchain", "java_toolchain", "")
	cats("rules_java", "java/common", "native-java-common", "java_common", "java_common.bzl", "native-java-info", "JavaInfo", "java_info.bzl", "native-java-plugin-info", "JavaPluginInfo", "java_plugin_info.bzl")
	cats("protobuf", "bazel", "native-proto", "proto_library", "", "native-java-proto", "java_proto_library", "", "native-java-lite-proto", "java_lite_proto_library", "", "native-cc-proto", "cc_proto_library", "")
	cats("protobuf", "bazel/toolchains", "native-proto-lang-toolchain", "proto_lang_toolchain", "")
	cats("protobuf", "bazel/common", "native-proto-info", "ProtoInfo", "proto_info.bzl", "native-proto-common", "proto_common", "proto_common.bzl", "native-proto-lang-toolchain-info", "ProtoLangToolchainInfo", "proto_lang_toolchain_info.bzl")
	cats("rules_shell", "shell", "native-sh-binary", "sh_binary", "", "native-sh-library", "sh_library", "", "native-sh-test", "sh_test", "")
	return r
}()

var nativeCats = func() []string {
	m := map[string]bool{}
	var r []string
	for _, x := range natives {
		if !m[x.Cat] {
			m[x.Cat] = true
			r = append(r, x.Cat)
		}
	}
	return r
}()

// What a piece of code does with X: uses as a global name or as native.X, with or without X or native bound
// locally, or binds X in the file.
type piece struct {
	text string // X is the symbol, R its file, O other symbol of that file
	// one letter for each line of the text with a use of X:
	// f: X called, v: X used otherwise, n: native.X called, m: native.X called where X is something else locally
	uses string
	bind string // "": not bound, "right": loaded from R, "wrong": something else
	load bool   // loads from R
}

var nativeHeads = []piece{
	{text: `"""Doc."""`},
	{text: "# c"},
	{text: `load("R", "X")`, bind: "right", load: true},
	{text: `load("R", "O")`, load: true},
	{text: `load("R", y = "X")`, load: true},
	{text: `load("R", X = "O")`, bind: "wrong", load: true},
	{text: `load("//o:o.bzl", "X")`, bind: "wrong"},
	{text: `load("//o:o.bzl", y = "X")`},
	{text: `load("//o:o.bzl", "O")`},
	{text: `X = 1`, bind: "wrong"},
	{text: "def X():\n    pass", bind: "wrong"},
	{text: "def X(**kw):\n    native.X(**kw)", uses: ".n", bind: "wrong"},
	{text: `# k`},
	{text: "p = 1 # k"},
}

var nativeBodies = []piece{
	{text: "X(name = \"a\") # k", uses: "f"},
	{text: "native.X(name = \"a\") # k", uses: "n"},
	{text: "a = X", uses: "v"},
	{text: "a = [X, 1] # X", uses: "v"},
	{text: "foo.X()"},
	{text: "native.foo(X())", uses: "f"},
	{text: "a = native.X"},
	{text: "native.a.X()"},
	{text: "g(X = 1)"},
	{text: "g(X = X)", uses: "v"},
	{text: "X.y(1)", uses: "v"},
	{text: "\"X\""},
	{text: "native.X(\n    X(\n        native.X())).b()", uses: "nfn"},
	{text: "def f():\n    X()\n    # k\n    native.X()", uses: ".f.n"},
	{text: "def f(X):\n    X()\n    return X"},
	{text: "def f(X):\n    native.X()", uses: ".m"},
	{text: "def f(x = X()):\n    X = 1\n    X()", uses: "f"},
	{text: "def f(x = native.X()):\n    X = 1\n    native.X(a)", uses: "n.m"},
	{text: "def f(native):\n    native.X()"},
	{text: "def f():\n    def X():\n        pass\n    X()"},
	{text: "def f():\n    if a:\n        X()\n    else:\n        native.X()", uses: "..f.n"},
	{text: "[X() for X in l]"},
	{text: "[native.X() for X in l]", uses: "m"},
	{text: "[X() for i in native.X()\n]", uses: "f"}, // replaced below
	{text: "[i for i in X()]", uses: "f"},
	{text: "[X for X in X()]", uses: "f"},
	{text: "a = lambda X: X()"},
	{text: "a = lambda y: X()", uses: "f"},
	{text: "a = (X)()", uses: "p"},
	{text: "def f(a: X):\n    pass", uses: "v"},
	{text: "def f() -> X:\n    pass", uses: "v"},
}

func init() {
	for i := range nativeBodies {
		if nativeBodies[i].text == "[X() for i in native.X()\n]" {
			nativeBodies[i].text = "[X()\n    for i in native.X()]"
			nativeBodies[i].uses = "fn"
		}
	}
}

type nativeCase struct {
	Type, Module string // MODULE.bazel; "-": no file reader
	Before       string
	After        string
	Cats         []string
	Want         []string
}

// natFile builds a case for a symbol from pieces. only: whether only the category of the symbol is enabled.
func natFile(typ, module string, s native, other string, ps []piece, cats []string) (nativeCase, bool) {
	r := nativeCase{Type: typ, Module: module, Cats: cats}
	repo := s.Repo
	if module != "-" {
		// The apparent name according to MODULE.bazel.
		switch {
		case strings.Contains(module, `"`+s.Repo+`", repo_name = "my_`):
			repo = "my_" + s.Repo
		case strings.Contains(module, `"`+s.Repo+`"`):
		case s.Repo == "protobuf":
			repo = "com_google_protobuf"
		}
	}
	file := "@" + repo + s.File
	on := typ == "bzl" || typ == "build" && !s.Bzl
	bound, loads := "", 0
	for _, p := range ps {
		if p.bind != "" {
			if bound != "" {
				return r, false
			}
			bound = p.bind
		}
		if p.load {
			loads++
		}
	}
	sub := func(t string) string {
		t = strings.ReplaceAll(t, "native", "\x00")
		for _, x := range [][2]string{{"X", s.Name}, {"R", file}, {"O", other}} {
			t = strings.ReplaceAll(t, x[0], "\x01"+x[1]+"\x02")
		}
		// undo replacements in replacements
		return t
	}
	_ = sub
	repl := func(t string) string {
		var b strings.Builder
		for i := 0; i < len(t); i++ {
			switch t[i] {
			case 'X':
				b.WriteString(s.Name)
			case 'R':
				b.WriteString(file)
			case 'O':
				b.WriteString(other)
			default:
				b.WriteByte(t[i])
			}
		}
		return b.String()
	}
	var after []string
	need := false
	line := 1
	top := -1
	firstLoad := -1
	for i, p := range ps {
		ls := strings.Split(p.text, "\n")
		if top < 0 && !strings.HasPrefix(p.text, "#") && !(strings.HasPrefix(p.text, `"`) && i < 2) {
			top = i
		}
		if p.load && firstLoad < 0 {
			firstLoad = i
		}
		for j := range ls {
			u := byte('.')
			if j < len(p.uses) {
				u = p.uses[j]
			}
			report := false
			switch u {
			case 'f':
				report = bound == ""
			case 'v', 'p':
				report = bound == "" && !s.Fn
			case 'n':
				report = s.Fn
				if bound != "wrong" && s.Fn && on {
					ls[j] = strings.Replace(ls[j], "native.X", "X", 1)
				}
			case 'm':
				report = s.Fn
			}
			if report && on {
				r.Want = append(r.Want, fmt.Sprintf("%d %s", line+j, s.Cat))
				if bound == "" && u != 'm' {
					need = true
				}
			}
		}
		r.Before += repl(p.text) + "\n"
		line += len(ls)
		after = append(after, repl(strings.Join(ls, "\n")))
	}
	if need {
		switch {
		case firstLoad >= 0:
			after[firstLoad] = strings.Replace(after[firstLoad], ")", `, "`+s.Name+`")`, 1)
		default:
			rest := append([]string{`load("` + file + `", "` + s.Name + `")`}, after[top:]...)
			after = append(after[:top:top], rest...)
		}
	}
	r.After = strings.Join(after, "\n") + "\n"
	sort.Strings(r.Want)
	return r, true
}

func nativeCases(c *core.Ctx, emit func(nativeCase) bool) {
	modules := []string{"-", "", `bazel_dep(name = "REPO", version = "1")`, `bazel_dep(name = "REPO", repo_name = "my_REPO")`, "module(name = \"m\")\nbazel_dep(name = \"x\")\n\nmodule(name = \"REPO\", repo_name = \"my_REPO\")", `include("//:i.MODULE.bazel")`, "include(\"//:j.MODULE.bazel\")"}
	for k, s := range natives {
		other := "other"
		for _, x := range natives {
			if x.Cat == s.Cat && x.Name != s.Name {
				other = x.Name
			}
		}
		deep := k == 0 || c.Thorough() || s.Name == "CcInfo" || s.Name == "py_test" || s.Name == "proto_library"
		put := func(typ, module string, ps ...piece) bool {
			m := strings.ReplaceAll(module, "REPO", s.Repo)
			for _, cats := range [][]string{{s.Cat}, nativeCats} {
				x, ok := natFile(typ, m, s, other, ps, cats)
				if !ok {
					return true
				}
				if len(cats) > 1 && other != "other" && strings.Contains(x.Before, other) {
					continue // reported as well
				}
				if !emit(x) {
					return false
				}
			}
			return true
		}
		for _, t := range types {
			for _, b := range nativeBodies {
				if t != "bzl" && strings.Contains(b.text, "def ") {
					continue
				}
				for _, m := range modules {
					if !deep && t != "bzl" {
						continue
					}
					if m == `include("//:i.MODULE.bazel")` {
						m = "include(\"//:i.MODULE.bazel\") # \"REPO\", repo_name = \"my_REPO\""
					}
					if !put(t, m, b) {
						return
					}
				}
				if t != "bzl" && t != "build" {
					continue
				}
				for i, h := range nativeHeads {
					if t != "bzl" && strings.Contains(h.text, "def ") {
						continue
					}
					if h.text != "# c" && (!put(t, "-", b, h)) || !put(t, "-", h, b) || deep && !put(t, "", h, b) {
						return
					}
					for j, g := range nativeHeads {
						if !deep || i == j || t != "bzl" && (strings.Contains(g.text, "def ")) || g.text == `"""Doc."""` && h.text != "# c" {
							continue
						}
						if !put(t, "-", h, g, b) || !put(t, "-", h, b, g) {
							return
						}
					}
				}
				for _, b2 := range nativeBodies {
					if !deep || t != "bzl" {
						continue
					}
					if !put(t, "-", b, b2) || !put(t, "-", nativeHeads[2], b, b2) || !put(t, "-", nativeHeads[6], b, b2) {
						return
					}
				}
			}
		}
	}
}

// A pair of symbols.
type nativePair struct{ A, B native }

// natReader reads MODULE.bazel, in which i.MODULE.bazel is included.
func natReader(module string) *warn.FileReader {
	if module == "-" {
		return nil
	}
	return warn.NewFileReader(func(path string) ([]byte, error) {
		switch path {
		case "MODULE.bazel":
			return []byte(module), nil
		case "i.MODULE.bazel":
			if i := strings.Index(module, "# "); i >= 0 {
				return []byte("bazel_dep(name = " + module[i+2:] + ")\ninclude(\"//:MODULE.bazel\")\n"), nil
			}
		}
		return nil, fmt.Errorf("no file %s", path)
	})
}

// sortedLoads is the neutral tree of a file in which the symbols of each load are sorted.
func sortedLoads(typ, text string) (string, error) {
	f, err := parse(typ, text)
	if err != nil {
		return "", err
	}
	for _, s := range f.Stmt {
		if l, ok := s.(*build.LoadStmt); ok {
			build.SortLoadArgs(l)
		}
	}
	return sem.FromBuild(f, false).Indented(), nil
}

func checkNatives(typ, module, before, after string, cats, wantLines []string) error {
	want, err := sortedLoads(typ, after)
	if err != nil {
		return core.Failf("model", "%v\n%s", err, after)
	}
	f, err := parse(typ, before)
	if err != nil {
		return core.Failf("model", "%v\n%s", err, before)
	}
	warn.FileWarnings(f, cats, nil, warn.ModeWarn, natReader(module))
	got := lines(warn.FileWarnings(f, cats, nil, warn.ModeWarn, natReader(module)))
	if !same(got, wantLines) {
		return core.Failf("findings", "%s (%s)\n%sgot %v, want %v", typ, module, before, got, wantLines)
	}
	f, _ = parse(typ, before)
	warn.FixWarnings(f, cats, false, natReader(module))
	out := string(build.FormatWithoutRewriting(f))
	got1, err := sortedLoads(typ, out)
	if err != nil {
		return core.Failf("unparseable", "%v\n%sis fixed to\n%s", err, before, out)
	}
	if got1 != want {
		return core.Failf("fix", "%s (%s)\n%sis fixed to\n%sinstead of\n%s", typ, module, before, out, after)
	}
	a, b := gen.Comments(before), gen.Comments(out)
	sort.Strings(a)
	sort.Strings(b)
	if !same(a, b) {
		return core.Failf("comments", "%sis fixed to\n%s", before, out)
	}
	left, err := autofixable(typ, cats, out, natReader(module))
	if left != "" || err != nil {
		return core.Failf("left", "%sis fixed to\n%sand still has %s", before, out, left)
	}
	return nil
}

var c42 = &core.Check{ID: "C42", Level: "model_checking", Guard: true,
	Run: func(c *core.Ctx) {
		ev := core.NewEval(c, "native", func(in nativeCase) error {
			if len(in.Want) > 0 {
				c.NonTrivial(1)
			}
			return checkNatives(in.Type, in.Module, in.Before, in.After, in.Cats, in.Want)
		})
		core.Stream(c, func(emit func(nativeCase) bool) { nativeCases(c, emit) }, func(x nativeCase) { ev.Do(x) })
		pair := core.NewEval(c, "pair", func(in nativePair) error {
			use := func(n native) (string, string, string) {
				if n.Fn {
					return "native." + n.Name + "(name = \"a\")\n", n.Name + "(name = \"a\")\n", "@" + n.Repo + n.File
				}
				return "a = " + n.Name + ".x\n", "a = " + n.Name + ".x\n", "@" + n.Repo + n.File
			}
			b1, a1, f1 := use(in.A)
			b2, a2, f2 := use(in.B)
			want := []string{"1 " + in.A.Cat, "2 " + in.B.Cat}
			sort.Strings(want)
			load := func(f string, l ...string) string {
				sort.Strings(l)
				return "load(\"" + f + "\", \"" + strings.Join(l, "\", \"") + "\")\n"
			}
			var loads string
			switch {
			case in.A.Name == in.B.Name:
				loads = load(f1, in.A.Name)
			case f1 == f2:
				loads = load(f1, in.A.Name, in.B.Name)
			default:
				// The order of independent loads doesn't matter; new loads are put on top in the order of categories.
				if in.A.Cat < in.B.Cat {
					loads = load(f2, in.B.Name) + load(f1, in.A.Name)
				} else {
					loads = load(f1, in.A.Name) + load(f2, in.B.Name)
				}
			}
			return checkNatives("bzl", "-", b1+b2, loads+a1+a2, nativeCats, want)
		})
		for _, a := range natives {
			for _, b := range natives {
				pair.Do(nativePair{a, b})
			}
		}
		c.Bound("%d symbols x %d pieces of code that use them or something similar x %d pieces before or after it that may bind the name, two pieces, 5 file types, 7 MODULE.bazel files; all pairs of symbols", len(natives), len(nativeBodies), len(nativeHeads))
	}}
