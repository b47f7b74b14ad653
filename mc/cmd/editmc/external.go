package main

import (
	"os"
	"sort"
	"strings"

	"github.com/bazelbuild/buildtools/edit"

	"verif/mc/core"
)

// A repoRule is a statement of a WORKSPACE file.
type repoRule struct {
	kind, name, spelled string // spelled is the value of build_file, "" if there is none
}

var repoKinds = []string{"git_repository", "new_local_repository", "new_git_repository", "new_http_archive", "local_repository", "http_archive"}

// external explores targets in external repositories: they address the BUILD file that WORKSPACE names for the repository.
func external(c *core.Ctx) {
	type In struct {
		Rules  []repoRule
		Lines  []string
		Target string
		Broken bool
		Inside bool // the working directory is the workspace
	}
	spell := map[string]string{"x.BUILD": "x.BUILD", ":x.BUILD": "x.BUILD", "//:x.BUILD": "x.BUILD", "//ext:y.BUILD": "ext/y.BUILD", "ext/y.BUILD": "ext/y.BUILD", "//ext/deep:z.BUILD": "ext/deep/z.BUILD"}
	spellings := append(sortedStrs(spell), "")
	files := map[string]string{"x.BUILD": "m(name = \"a\")\n\nm(name = \"b\")\n", "ext/y.BUILD": "m(name = \"a\")\n\nk(name = \"b\")\n", "ext/deep/z.BUILD": "k(name = \"a\")\n", "a/BUILD": "m(name = \"a\")\n"}
	ev := core.NewEval(c, "external", func(in In) error {
		repo, rest, _ := strings.Cut(strings.TrimPrefix(in.Target, "@"), "//")
		_, name, _ := strings.Cut(rest, ":")
		want := ""
		for _, l := range in.Lines {
			f := strings.Fields(l)
			if f[0] == repo {
				want = f[1]
			}
		}
		var b strings.Builder
		for _, r := range in.Rules {
			b.WriteString(r.kind + "(\n    name = \"" + r.name + "\",\n")
			if r.spelled != "" {
				b.WriteString("    build_file = \"" + r.spelled + "\",\n")
			}
			b.WriteString(")\n")
		}
		if in.Broken {
			b.WriteString("x = (\n")
			want = ""
		}
		w := getWorld()
		w.set(files)
		os.WriteFile(w.root+"/WORKSPACE", []byte(b.String()), 0644)
		if in.Inside {
			os.Chdir(w.root)
		}
		r := w.run([]string{"set zz 1", in.Target}, func(o *edit.Options) {
			if in.Inside {
				o.RootDir = ""
			}
		})
		os.WriteFile(w.root+"/WORKSPACE", nil, 0644)
		pool <- w
		if want == "" {
			if r.RC == 0 || len(r.Writes) > 0 {
				return failf("unknown", "%s is unknown, exit code %d, writes %v, stderr %q\n%s", repo, r.RC, r.Writes, r.Err, b.String())
			}
			return nil
		}
		c.NonTrivial(1)
		exists := name == "all" || strings.Contains(files[want], "(name = \""+name+"\")")
		if !exists {
			if r.RC != 2 || len(r.Writes) > 0 {
				return failf("norule", "%s isn't in %s, exit code %d, writes %v", name, want, r.RC, r.Writes)
			}
			return nil
		}
		if r.RC != 0 || join(r.Writes) != want {
			return failf("file", "exit code %d, writes %v, want %s, stderr %q\n%s", r.RC, r.Writes, want, r.Err, b.String())
		}
		before, _ := callsOf(files[want])
		after, err := callsOf(r.Files[want])
		if err != nil || len(before) != len(after) {
			return failf("rules", "%v\n%s", err, r.Files[want])
		}
		for i, x := range after {
			if (x.zz == "1") != (name == "all" || x.name == name) || x.name != before[i].name || x.kind != before[i].kind {
				return failf("rules", "%s was edited to\n%s", want, r.Files[want])
			}
		}
		return nil
	})
	var rules []repoRule
	for _, k := range repoKinds {
		for _, s := range spellings {
			rules = append(rules, repoRule{k, "r", s})
		}
	}
	targets := []string{"@r//:a", "@r//:b", "@r//:all", "@r//some/pkg:a", "@r//a:a", "@s//:a", "@t//:a", "@r//:nosuch"}
	var known func(l []repoRule) []string
	core.Stream(c, func(emit func(In) bool) {
		known = func(l []repoRule) []string {
			var r []string
			for _, x := range l {
				if x.spelled != "" && x.kind != "local_repository" && x.kind != "http_archive" {
					r = append(r, x.name+" "+spell[x.spelled])
				}
			}
			return r
		}
		for _, x := range rules {
			for _, t := range targets {
				one := []repoRule{x}
				if !emit(In{one, known(one), t, false, false}) || !emit(In{one, known(one), t, true, false}) {
					return
				}
			}
			for _, y := range rules {
				y.name = "s"
				for _, l := range [][]repoRule{{x, y}, {y, x}} {
					for _, t := range targets {
						if !emit(In{l, known(l), t, false, false}) {
							return
						}
					}
				}
			}
		}
		c.Bound("WORKSPACE files of <=2 of %d rules x %d targets in external repositories", len(rules), len(targets))
	}, func(in In) { ev.Do(in) })
	// One working directory at a time.
	if c.Replaying() {
		return
	}
	c.Par(1, func(int) {
		for _, x := range rules {
			for _, t := range targets {
				for _, broken := range []bool{false, true} {
					ev.Do(In{[]repoRule{x}, known([]repoRule{x}), t, broken, true})
				}
			}
		}
		os.Chdir("/")
	})
}

func sortedStrs(m map[string]string) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// spellings explores the other ways to write a target.
func spellings(c *core.Ctx) {
	type In struct {
		Text, File, Cmd string
		A, B            string
	}
	ev := core.NewEval(c, "spelling", func(in In) error {
		files := map[string]string{in.File: in.Text, "BUILD": in.Text}
		a, b := buildozer(files, []string{in.Cmd, in.A}), buildozer(files, []string{in.Cmd, in.B})
		if a.RC == 0 {
			c.NonTrivial(1)
		}
		norm := func(s, t string) string { return strings.ReplaceAll(s, t, "T") }
		if a.RC != b.RC || a.Out != b.Out || norm(a.Err, in.A) != norm(b.Err, in.B) && a.RC == 0 || join(a.Writes) != join(b.Writes) {
			return failf("spelling", "%s: exit code %d, %q, %q, writes %v\n%s: exit code %d, %q, %q, writes %v", in.A, a.RC, a.Out, a.Err, a.Writes, in.B, b.RC, b.Out, b.Err, b.Writes)
		}
		for f := range files {
			if a.Files[f] != b.Files[f] {
				return failf("spelling", "%s gives\n%s\n%s gives\n%s", in.A, a.Files[f], in.B, b.Files[f])
			}
		}
		return nil
	})
	texts := []string{"m(name = \"pkg\")\n", "m(name = \"q\")\n", "m(x = 1)\n\nm(name = \"BUILD\")\n", "package(default_visibility = [\"//a\"])\n\nm(name = \"pkg\")\n", "load(\":a.bzl\", \"b\")\n\nm(name = \"deep\")\n", "", "# comment\n"}
	cmds := []string{"set zz 1", "print name kind", "new m fresh", "delete", "new_load :x.bzl y", "add default_visibility //b", "print startline"}
	core.Stream(c, func(emit func(In) bool) {
		for _, t := range texts {
			for _, cmd := range cmds {
				for _, n := range []string{"BUILD", "BUILD.bazel", "BUCK"} {
					for _, d := range []string{"pkg", "pkg/deep"} {
						last := d[strings.LastIndex(d, "/")+1:]
						pairs := [][2]string{{"//" + d, "//" + d + ":" + last}}
						for _, m := range []string{"BUILD", "BUILD.bazel", "BUCK"} {
							pairs = append(pairs, [2]string{"//" + d + "/" + m, "//" + d + ":__pkg__"})
						}
						for _, p := range pairs {
							if !emit(In{t, d + "/" + n, cmd, p[0], p[1]}) {
								return
							}
						}
					}
				}
			}
		}
		c.Bound("%d files x %d commands x 3 names of BUILD files x 8 short forms of targets", len(texts), len(cmds))
	}, func(in In) { ev.Do(in) })
}
