package main

import (
	"errors"
	"fmt"
	"regexp"
	"sort"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/warn"
	"verif/mc/core"
)

// C33: the lints that read other files agree with the graph of all files.

// A Graph is a set of .bzl files; Defs maps a file to its statements.
type Graph struct {
	Files map[string][]string
	Lint  string
	Also  []string // linted before with the same reader
}

func (g Graph) text(file string) string { return strings.Join(g.Files[file], "\n") + "\n" }

func (g Graph) read(file string) ([]byte, error) {
	if _, ok := g.Files[file]; !ok {
		return nil, errors.New("not found")
	}
	return []byte(g.text(file)), nil
}

func (g Graph) lint(fr *warn.FileReader, file, cat string) ([]*warn.Finding, error) {
	pkg, label, _ := strings.Cut(file, "/")
	f, err := build.ParseBzl(file, []byte(g.text(file)))
	if err != nil {
		return nil, err
	}
	f.Pkg, f.Label, f.WorkspaceRoot = pkg, label, "/w"
	return warn.FileWarnings(f, []string{cat}, nil, warn.ModeWarn, fr), nil
}

var (
	loadRe  = regexp.MustCompile(`^load\("([^"]*)", (.*)\)$`)
	symRe   = regexp.MustCompile(`(?:(\w+) = )?"(\w+)"`)
	defRe   = regexp.MustCompile(`^def (\w+)\((.*)\):((?:\n(?:    .*)?)*)$`)
	aliasRe = regexp.MustCompile(`^(\w+) = (\w+)$`)
	ruleRe  = regexp.MustCompile(`^(\w+) = rule\(`)
	callRe  = regexp.MustCompile(`(?:(?:^|[^.\w])(native)\.|(?:^|[^.\w]))(\w+)\(`)
)

// resolveFile finds the file of a load in a package, "" if it's outside of the repository.
func resolveFile(label, pkg string) string {
	switch {
	case strings.HasPrefix(label, "@//"):
		return resolveFile(label[1:], pkg)
	case strings.HasPrefix(label, "@"):
		return ""
	case strings.HasPrefix(label, "//"):
		return strings.Replace(label[2:], ":", "/", 1)
	}
	return pkg + "/" + strings.TrimPrefix(label, ":")
}

// A sym is a top-level symbol: file and name.
type sym struct{ file, name string }

// macros computes all symbols that are macros or rules: the least fixpoint over the graph of all files.
func (g Graph) macros() map[sym]bool {
	r := map[sym]bool{}
	edges := map[sym][]sym{}
	nonMacros := map[string]bool{"glob": true, "existing_rule": true, "existing_rules": true, "package_name": true, "repository_name": true, "exports_files": true}
	for file, stmts := range g.Files {
		if _, err := build.ParseBzl(file, []byte(g.text(file))); err != nil {
			continue // counts as missing
		}
		pkg := strings.Split(file, "/")[0]
		loaded := map[string]sym{}
		for _, s := range stmts {
			if m := loadRe.FindStringSubmatch(s); m != nil {
				if to := resolveFile(m[1], pkg); to != "" {
					for _, x := range symRe.FindAllStringSubmatch(m[2], -1) {
						n := x[1]
						if n == "" {
							n = x[2]
						}
						loaded[n] = sym{to, x[2]}
					}
				}
			}
		}
		at := func(n string) sym {
			if s, ok := loaded[n]; ok {
				return s
			}
			return sym{file, n}
		}
		for _, s := range stmts {
			if m := ruleRe.FindStringSubmatch(s); m != nil {
				r[sym{file, m[1]}] = true
			} else if m := aliasRe.FindStringSubmatch(s); m != nil {
				edges[sym{file, m[1]}] = append(edges[sym{file, m[1]}], at(m[2]))
			} else if m := defRe.FindStringSubmatch(s); m != nil {
				me := sym{file, m[1]}
				for _, c := range callRe.FindAllStringSubmatch(m[3], -1) {
					if c[1] == "native" {
						if !nonMacros[c[2]] {
							r[me] = true
						}
					} else {
						edges[me] = append(edges[me], at(c[2]))
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for from, l := range edges {
			for _, to := range l {
				if r[to] && !r[from] {
					r[from], changed = true, true
				}
			}
		}
	}
	return r
}

var deprecatedRe = regexp.MustCompile(`(?m)^    Deprecated:$`)

var c33 = &core.Check{ID: "C33", Level: "model_checking", Guard: true,
	Run: func(c *core.Ctx) {
		macros := core.NewEval(c, "macros", func(in Graph) error {
			is := in.macros()
			var want []string
			line := 1
			type fn struct {
				line  int
				lines []string
			}
			fns := map[string]fn{}
			for _, s := range in.Files[in.Lint] {
				if m := defRe.FindStringSubmatch(s); m != nil {
					fns[m[1]] = fn{line, strings.Split(s, "\n")}
					named := false
					for _, p := range strings.Split(m[2], ", ") {
						named = named || p == "name" || strings.HasPrefix(p, "name ") || strings.HasPrefix(p, "name:") || strings.HasPrefix(p, "**")
					}
					if !strings.HasPrefix(m[1], "_") && !named && is[sym{in.Lint, m[1]}] {
						want = append(want, fmt.Sprintf("%d %s", line, m[1]))
					}
				}
				line += strings.Count(s, "\n") + 1
			}
			sort.Strings(want)
			var fr *warn.FileReader
			reads := map[string]int{}
			fr = warn.NewFileReader(func(f string) ([]byte, error) { reads[f]++; return in.read(f) })
			for _, a := range in.Also {
				in.lint(fr, a, "unnamed-macro")
			}
			var first []string
			for i := 0; i < 2; i++ {
				l, err := in.lint(fr, in.Lint, "unnamed-macro")
				if err != nil {
					return core.Failf("parse", "%v", err)
				}
				var got, msgs []string
				for _, f := range l {
					name := strings.Split(f.Message, "\"")[1]
					got = append(got, fmt.Sprintf("%d %s", f.Start.Line, name))
					msgs = append(msgs, f.Message)
					// the reason
					if m := regexp.MustCompile(`calls a rule or another macro "([\w.]+)" on line (\d+)`).FindStringSubmatch(f.Message); m != nil {
						d := fns[name]
						n := 0
						fmt.Sscan(m[2], &n)
						if n < d.line || n >= d.line+len(d.lines) || !strings.Contains(d.lines[n-d.line], m[1]+"(") {
							return core.Failf("reason", "%v\n%s", in, f.Message)
						}
					} else {
						return core.Failf("noreason", "%v\n%s", in, f.Message)
					}
				}
				sort.Strings(got)
				if len(want) > 0 {
					c.NonTrivial(1)
				}
				if !same(got, want) {
					return core.Failf("macros", "%s: reported %v, want %v\n%s", in.Lint, got, want, dump(in))
				}
				if i > 0 && !same(first, msgs) {
					return core.Failf("repeat", "the second run says\n%s\nthe first\n%s", msgs, first)
				}
				first = msgs
			}
			for f, n := range reads {
				if n > 1 {
					return core.Failf("reads", "%s was read %d times\n%s", f, n, dump(in))
				}
			}
			return nil
		})
		deprecated := core.NewEval(c, "deprecated", func(in Graph) error {
			var want []string
			line := 1
			pkg := strings.Split(in.Lint, "/")[0]
			for _, s := range in.Files[in.Lint] {
				if m := loadRe.FindStringSubmatch(s); m != nil {
					to := resolveFile(m[1], pkg)
					for _, x := range symRe.FindAllStringSubmatch(m[2], -1) {
						for _, d := range in.Files[to] {
							if m := defRe.FindStringSubmatch(d); m != nil && m[1] == x[2] && strings.HasPrefix(strings.TrimSpace(m[3]), `"""`) && deprecatedRe.MatchString(m[3]) {
								want = append(want, fmt.Sprintf("%d %s", line, x[2]))
							}
						}
					}
				}
				line += strings.Count(s, "\n") + 1
			}
			l, err := in.lint(warn.NewFileReader(in.read), in.Lint, "deprecated-function")
			if err != nil {
				return core.Failf("parse", "%v", err)
			}
			var got []string
			for _, f := range l {
				got = append(got, fmt.Sprintf("%d %s", f.Start.Line, strings.Split(f.Message, "\"")[1]))
			}
			sort.Strings(got)
			sort.Strings(want)
			c.NonTrivial(1)
			if !same(got, want) {
				return core.Failf("deprecated", "reported %v, want %v\n%s", got, want, dump(in))
			}
			if l, _ := in.lint(nil, in.Lint, "deprecated-function"); len(l) > 0 {
				return core.Failf("noreader", "%v", l[0].Message)
			}
			return nil
		})

		def := func(name, params string, calls ...string) string {
			b := ""
			for i, x := range calls {
				switch (i + len(calls)) % 3 {
				case 0:
					b += "\n    if c: " + x
				case 1:
					b += "\n    " + x
				default:
					b += "\n    return [" + x + " for i in l]"
				}
			}
			if b == "" {
				b = "\n    pass"
			}
			return "def " + name + "(" + params + "):" + b
		}
		subsets := func(l []string, n int) [][]string {
			r := [][]string{nil}
			for i, a := range l {
				r = append(r, []string{a})
				for _, b := range l[i+1:] {
					r = append(r, []string{a, b}, []string{b, a})
				}
			}
			if n > 2 {
				for i, a := range l {
					for j, b := range l[i+1:] {
						for _, d := range l[i+j+2:] {
							r = append(r, []string{a, b, d})
						}
					}
				}
			}
			return r
		}
		core.Stream(c, func(emit func(Graph) bool) {
			// one file: all call graphs of 3 functions
			leaves := []string{"native.cc_library()", "native.glob()", "r()", "u()", "foo.native.x()"}
			ss := subsets([]string{"a()", "b()", "k()"}, 3)
			for _, pa := range ss {
				for _, pb := range ss {
					for _, pk := range ss {
						for i := 0; i < 8; i++ {
							for _, leaf := range leaves {
								x := [][]string{append([]string{}, pa...), append([]string{}, pb...), append([]string{}, pk...)}
								for j := range x {
									if i>>j&1 > 0 {
										x[j] = append(x[j], leaf)
									}
								}
								if i == 0 && leaf != leaves[0] {
									continue
								}
								if !emit(Graph{Files: map[string][]string{"p/f.bzl": {"r = rule(x)", def("a", "", x[0]...), def("b", "c", x[1]...), def("k", "*args", x[2]...)}}, Lint: "p/f.bzl"}) {
									return
								}
							}
						}
					}
				}
			}
			c.Bound("all call graphs of 3 functions of a file with a call of a rule, a macro or neither at any of them")
			if c.Thorough() {
				ss := subsets([]string{"a()", "b()", "k()", "m()"}, 2)
				for _, pa := range ss {
					for _, pb := range ss {
						for _, pk := range ss {
							for _, pm := range ss {
								for i := 1; i < 16; i++ {
									x := [][]string{append([]string{}, pa...), append([]string{}, pb...), append([]string{}, pk...), append([]string{}, pm...)}
									for j := range x {
										if i>>j&1 > 0 {
											x[j] = append(x[j], "r()")
										}
									}
									if !emit(Graph{Files: map[string][]string{"p/f.bzl": {"r = rule(x)", def("a", "", x[0]...), def("b", "c", x[1]...), def("k", "*args", x[2]...), def("m", "", x[3]...)}}, Lint: "p/f.bzl"}) {
										return
									}
								}
							}
						}
					}
				}
				c.Bound("all call graphs of 4 functions with <=2 callees")
			}
			// parameters and names
			for _, ps := range []string{"", "name", "name = None", "x, name", "**kwargs", "*args, **kw", "*name", "*, name", "names", "x, *, y", "name: string", "x: name", "_name"} {
				for _, n := range []string{"a", "_a", "name"} {
					for _, call := range []string{"native.x()", "native.glob()", "native.existing_rules()", "native.package_name()", "native.exports_files()", "native.module_name()", "r(name = 1)", "r2()", "q2()", "g(lambda: r())", "g([r() for x in y])", "r.x()", "x.r()"} {
						for _, nested := range []bool{false, true} {
							d := def(n, ps, "g()", call)
							if nested {
								d = def(n, ps, "g()") + "\n    def h():\n        " + call
							}
							if !emit(Graph{Files: map[string][]string{"p/f.bzl": {"r = rule(x)", "r2 = repository_rule(x)", "q2 = r", d}}, Lint: "p/f.bzl"}) {
								return
							}
						}
					}
				}
			}
			c.Bound("parameter lists x names x kinds of calls")
			// files of the same name in several packages
			for _, pg := range [][]string{{"a = rule(x)"}, {def("a", "")}, {`load("//q:g.bzl", "a")`, "b = a"}, {`load("//q:g.bzl", "a")`, def("b", "", "a()")}, {`load("//q:f.bzl", a = "m")`, def("b", "", "a()")}} {
				for _, qg := range [][]string{{"a = rule(x)"}, {def("a", "")}, {"b = rule(x)"}, {`load("//p:g.bzl", "a")`, "b = a"}, {`load(":f.bzl", "m")`, def("a", "", "m()"), "b = m"}} {
					for _, qf := range [][]string{{"m = rule(x)", "n = rule(x)"}, {def("m", ""), def("n", "", "native.x()")}, {`load(":g.bzl", "a")`, def("m", "", "a()")}, {`load("//p:f.bzl", "m")`, "n = m"}} {
						for _, lds := range [][]string{{`load(":g.bzl", "a")`, `load("//q:g.bzl", "b")`}, {`load("//q:g.bzl", "a")`, `load(":g.bzl", "b")`}, {`load("//q:f.bzl", a = "m")`, `load("//q:g.bzl", "b")`}, {`load("//q:f.bzl", "a", b = "n")`}} {
							for _, calls := range [][2]string{{"a()", "b()"}, {"n()", "a()"}, {"b()", "m()"}} {
								fs := map[string][]string{"p/f.bzl": append(append([]string{}, lds...), def("m", "", calls[0]), def("n", "", calls[1])), "p/g.bzl": pg, "q/g.bzl": qg, "q/f.bzl": qf}
								if !emit(Graph{Files: fs, Lint: "p/f.bzl"}) || !emit(Graph{Files: fs, Lint: "q/f.bzl", Also: []string{"p/f.bzl"}}) {
									return
								}
							}
						}
					}
				}
			}
			c.Bound("contents of four files of two names in two packages that load each other")
			// several files, loads and aliases
			libs := map[string][][]string{
				"p/g.bzl": {
					{"a = rule(x)"}, {def("a", "", "native.x()")}, {def("a", "", "g()")}, {"a = b", "b = rule(x)"}, {"a = b", def("b", "", "native.x()")}, {"b = a", "a = b"},
					{`load("//q:h.bzl", "b")`, "a = b"}, {`load("//q:h.bzl", a = "b")`}, {`load("//q:h.bzl", x = "b")`, def("a", "", "x()")}, {`load(":f.bzl", "m")`, def("a", "", "m()")}, {`load(":f.bzl", "m")`, def("a", "", "m()", "native.x()")}, {`load("//q:h.bzl", "c")`, def("a", "", "c()"), def("b", "", "a()")}, nil, {"a = ("},
					{`load("@r//q:h.bzl", "b")`, def("a", "", "b()")}, {`load("@r//q:h.bzl", "b")`, "a = b"}, {"a = lambda: native.x()"}, {"a = macro(x)"},
				},
				"q/h.bzl": {
					nil, {"b = rule(x)"}, {def("b", "", "native.x()"), def("c", "", "b()")}, {`load("//p:g.bzl", "a")`, "b = a", "c = a"}, {`load("//p:g.bzl", "a")`, def("b", "", "a()"), def("c", "", "a()", "native.x()")}, {`load("//p:f.bzl", "n")`, def("b", "", "n()"), "c = n"}, {`load(":g.bzl", "a")`, "b = a"},
				},
			}
			mains := [][]string{}
			for _, ld := range []string{`load(":g.bzl", "a")`, `load("//p:g.bzl", "a")`, `load("g.bzl", "a")`, `load("@//p:g.bzl", "a")`, `load("//q:g.bzl", "a")`, `load(":g.bzl", "b", a = "a")`, `load(":g.bzl", a = "b")`} {
				for _, m := range [][]string{{"a()"}, {"n()"}, {"n()", "a()"}, {"a()", "n()"}, {"g()"}} {
					for _, n := range [][]string{{"a()"}, {"m()"}, {"b()"}, {"a()", "m()"}, {"native.glob()"}} {
						mains = append(mains, []string{ld, def("m", "", m...), def("n", "", n...), "o = m"})
					}
				}
			}
			for i, mn := range mains {
				for _, g := range libs["p/g.bzl"] {
					for _, h := range libs["q/h.bzl"] {
						fs := map[string][]string{"p/f.bzl": mn}
						if g != nil {
							fs["p/g.bzl"] = g
						}
						if h != nil {
							fs["q/h.bzl"] = h
						}
						if !emit(Graph{Files: fs, Lint: "p/f.bzl"}) {
							return
						}
						if g != nil && (c.Thorough() || i%3 == 0) {
							if !emit(Graph{Files: fs, Lint: "p/f.bzl", Also: []string{"p/g.bzl", "q/h.bzl"}}) || !emit(Graph{Files: fs, Lint: "p/g.bzl"}) || !emit(Graph{Files: fs, Lint: "p/g.bzl", Also: []string{"q/h.bzl", "p/f.bzl"}}) {
								return
							}
						}
					}
				}
			}
			c.Bound("%d x %d x %d contents of three files that load each other", len(mains), len(libs["p/g.bzl"]), len(libs["q/h.bzl"]))
		}, func(g Graph) {
			if _, err := build.ParseBzl(g.Lint, []byte(g.text(g.Lint))); err != nil {
				return
			}
			macros.Do(g)
		})
		core.Stream(c, func(emit func(Graph) bool) {
			var bodies []string
			parts := []string{"Deprecated:", "Args:", "  x: foo", "Returns:", "  Deprecated:", "Deprecated: no", "deprecated:", "Deprecated", "", "header"}
			for _, a := range parts {
				for _, b := range parts {
					for _, d := range parts {
						t := "\n    \"\"\"header\n"
						for _, l := range []string{a, b, d} {
							if l != "" {
								l = "    " + l
							}
							t += l + "\n"
						}
						bodies = append(bodies, t+"    \"\"\"\n    pass", "\n    pass"+t+"    \"\"\"")
					}
				}
			}
			for _, b := range bodies {
				for _, ld := range []string{`load(":g.bzl", "a")`, `load("//p:g.bzl", x = "a")`, `load("@r//p:g.bzl", "a")`, `load(":g.bzl", "b", "a")`, `load("//q:g.bzl", "a")`} {
					if !emit(Graph{Files: map[string][]string{"p/g.bzl": {"def b(x):\n    pass", "def a(x):" + b}, "p/f.bzl": {"x = 1", ld}}, Lint: "p/f.bzl"}) {
						return
					}
				}
			}
			c.Bound("all docstrings of 3 of %d lines x 5 loads", len(parts))
		}, func(g Graph) { deprecated.Do(g) })
	}}

func dump(g Graph) string {
	var fs []string
	for f := range g.Files {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	r := ""
	for _, f := range fs {
		r += "== " + f + "\n" + g.text(f)
	}
	return r
}
