package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"github.com/bazelbuild/buildtools/edit"

	"verif/mc/core"
	"verif/mc/sem"
)

// splitLine is the documented syntax of a line of a command file.
func splitLine(line string) []string {
	var r []string
	cur := ""
	for i := 0; i < len(line); i++ {
		switch {
		case line[i] == '\\' && i+1 < len(line) && line[i+1] == '|':
			cur += "|"
			i++
		case line[i] == '|':
			r = append(r, cur)
			cur = ""
		default:
			cur += line[i : i+1]
		}
	}
	return append(r, cur)
}

// splitWords is the documented syntax of a command: words separated by blanks, an escaped blank is part of a word.
func splitWords(s string) []string {
	var r []string
	cur, in := "", false
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '\\' && i+1 < len(s) && s[i+1] == ' ':
			cur += " "
			in = true
			i++
		case s[i] == ' ':
			if in {
				r = append(r, cur)
			}
			cur, in = "", false
		default:
			cur += s[i : i+1]
			in = true
		}
	}
	if in {
		r = append(r, cur)
	}
	return r
}

func isCommand(arg string) bool {
	w := strings.Fields(arg)
	_, ok := edit.AllCommands[strings.Join(w[:min(1, len(w))], "")]
	return ok
}

// fileOf is the file that a target of this check addresses.
func filesOf(target string, files map[string]string) []string {
	p, _, _ := strings.Cut(strings.TrimPrefix(target, "//"), ":")
	if p == "..." {
		return sortedKeys(files)
	}
	return []string{strings.TrimSuffix(p, "/BUILD") + "/BUILD"}
}

// sameMeaning ignores the layout and the order, duplicates and spelling of list elements: these depend on how often the
// file has been formatted.
func sameMeaning(a, b string) bool {
	if a == b {
		return true
	}
	x, err1 := sem.FromStarlark(a)
	y, err2 := sem.FromStarlark(b)
	return err1 == nil && err2 == nil && (x.String() == y.String() || asSets(x).String() == asSets(y).String())
}

func asSets(x *N) *N {
	r := &N{K: x.K, V: x.V}
	for _, c := range x.C {
		r.C = append(r.C, asSets(c))
	}
	if x.K != "list" {
		return r
	}
	seen := map[string]bool{}
	var l []*N
	for _, c := range r.C {
		if c.K == "str" {
			c.V = strings.TrimPrefix(sem.LabelCanon(c.V), ":")
		}
		if k := c.String(); !seen[k] {
			seen[k] = true
			l = append(l, c)
		}
	}
	sort.SliceStable(l, func(i, j int) bool { return l[i].String() < l[j].String() })
	r.C = l
	return r
}

func all(l []string, m map[string]bool) bool {
	for _, s := range l {
		if !m[s] {
			return false
		}
	}
	return true
}

// commentsOf are the comments of a file, wherever they are.
func commentsOf(text string) string {
	l := comment.FindAllString(text, -1)
	sort.Strings(l)
	return strings.Join(l, "\n")
}

var comment = regexp.MustCompile("#.*")

var c19 = &core.Check{ID: "C19", Level: "model_checking", Guard: true,
	Run: func(c *core.Ctx) {
		// One invocation with several commands does what several invocations with one command each do.
		type Seq struct {
			Text string
			Cmds []string
			Path string
		}
		seq := core.NewEval(c, "sequence", func(in Seq) error {
			want := in.Text
			for _, cmd := range in.Cmds {
				r := one(want, cmd, "//pkg:t")
				if r.RC == 2 {
					return nil
				}
				want = r.Files[buildFile]
			}
			r := one(in.Text, append(append([]string{}, in.Cmds...), "//pkg:t")...)
			if got := r.Files[buildFile]; !sameMeaning(got, want) {
				return failf(strings.Fields(in.Cmds[0])[0]+"/"+strings.Fields(in.Cmds[len(in.Cmds)-1])[0], "%q in one invocation:\n%sone by one:\n%s", in.Cmds, got, want)
			}
			if a, b := commentsOf(r.Files[buildFile]), commentsOf(want); a != b {
				return failf("comments/"+strings.Fields(in.Cmds[0])[0]+"/"+strings.Fields(in.Cmds[len(in.Cmds)-1])[0], "%q in one invocation:\n%sone by one:\n%s", in.Cmds, r.Files[buildFile], want)
			}
			if len(r.Writes) > 1 {
				return failf("writes", "the file is written %d times", len(r.Writes))
			}
			if want != in.Text {
				c.NonTrivial(1)
			}
			return nil
		})
		type In struct {
			Files     map[string]string
			Cmds      []string // the contents of command files
			Labels    []string
			KeepGoing bool
		}
		ev := core.NewEval(c, "commandfile", func(in In) error {
			text := map[string]string{}
			for k, v := range in.Files {
				text[k] = v
			}
			failed := map[string]bool{}
			var out []string
			readonly := true
			for _, f := range in.Cmds {
				for _, line := range strings.Split(f, "\n") {
					line = strings.TrimSpace(line)
					if line == "" || line[0] == '#' {
						continue
					}
					var cmds, targets []string
					for _, a := range splitLine(line) {
						if isCommand(a) {
							cmds = append(cmds, a)
						} else {
							targets = append(targets, a)
						}
					}
					if len(targets) == 1 && targets[0] == "*" {
						targets = in.Labels
					}
					for _, t := range targets {
						for _, cmd := range cmds {
							readonly = readonly && strings.HasPrefix(cmd, "print")
							r := buildozer(text, []string{cmd, t})
							for _, f := range filesOf(t, in.Files) {
								if strings.Contains(r.Err, "ROOT/"+f+":") {
									failed[f] = true
								}
							}
							text = r.Files
							out = append(out, strings.Split(strings.TrimSuffix(r.Out, "\n"), "\n")...)
						}
					}
				}
			}
			if len(failed) > 0 && in.KeepGoing {
				return nil
			}
			files := map[string]string{}
			for k, v := range in.Files {
				files[k] = v
			}
			var names []string
			w := getWorld()
			for i, f := range in.Cmds {
				n := fmt.Sprintf("cmds%d", i)
				files[n] = f
				names = append(names, w.root+"/"+n)
			}
			w.set(files)
			r := w.run(in.Labels, func(o *edit.Options) { o.CommandsFiles = names; o.KeepGoing = in.KeepGoing })
			pool <- w
			mod := false
			for f, orig := range in.Files {
				want := text[f]
				if failed[f] {
					want = orig
				}
				if !sameMeaning(r.Files[f], want) {
					return failf("file", "%s is\n%swant\n%sstderr: %s", f, r.Files[f], want, r.Err)
				}
				mod = mod || want != orig
				nw := 0
				for _, x := range r.Writes {
					if x == f {
						nw++
					}
				}
				if nw > 1 || nw == 0 && want != orig {
					return failf("writes", "%s is written %d times", f, nw)
				}
			}
			want := 3
			if len(failed) > 0 {
				want = 2
			} else if mod {
				want = 0
			}
			if r.RC != want && !(want == 3 && r.RC == 0 && readonly) {
				return failf("exit", "exit code %d, want %d: %s", r.RC, want, r.Err)
			}
			if len(failed) == 0 {
				got := strings.Split(strings.TrimSuffix(r.Out, "\n"), "\n")
				norm := func(l []string) string {
					var r []string
					for _, s := range l {
						if s != "" {
							r = append(r, s)
						}
					}
					sort.Strings(r)
					return strings.Join(r, "\n")
				}
				if norm(got) != norm(out) {
					return failf("output", "printed %q, want %q", got, out)
				}
			}
			c.NonTrivial(1)
			return nil
		})
		type Esc struct {
			Arg  string
			File bool
		}
		esc := core.NewEval(c, "escape", func(in Esc) error {
			cmd := "comment x" + in.Arg
			words := splitWords(cmd)
			if in.File {
				l := splitLine(cmd)
				if len(l) > 1 || strings.HasSuffix(cmd, "\\") {
					// a second label or command
					return nil
				}
				words = splitWords(l[0])
			}
			if len(words) < 2 {
				return nil
			}
			// comment ATTR TEXT: comment TEXT alone has one argument
			text := strings.Join(words[1:], " ")
			if len(words) > 2 {
				return nil
			}
			w := getWorld()
			files := map[string]string{buildFile: "m(name = \"t\")\n"}
			var r Result
			if in.File {
				files["cmds"] = cmd + "|//pkg:t\n"
				w.set(files)
				r = w.run(nil, func(o *edit.Options) { o.CommandsFiles = []string{w.root + "/cmds"} })
			} else {
				w.set(files)
				r = w.run([]string{cmd, "//pkg:t"})
			}
			pool <- w
			want := "# " + text + "\nm(name = \"t\")\n"
			if strings.TrimRight(r.Files[buildFile], " \n") != strings.TrimRight(want, " \n") && strings.TrimRight(r.Files[buildFile], "\n") != "# "+strings.TrimRight(text, " ")+"\nm(name = \"t\")" {
				return failf("escape", "%q:\n%swant\n%s", cmd, r.Files[buildFile], want)
			}
			c.NonTrivial(1)
			return nil
		})
		bases := []string{schedBase,
			"load(\":d.bzl\", m2 = \"x\")\n\ncc_library(\n    name = \"t\",\n    srcs = glob([\"a\"]) + [\n        \"s1\",\n    ],  # why\n    deps = [\n        \":b\",  # b\n        # c\n        \":c\",\n    ] + select({\n        \"//x:1\": [\":d\"],\n        \"//x:2\": [],\n    }),\n)\n\nm(name = \"b\")\n",
			"cc_library(\n    name = \"t\",\n)\n\nm(\n    name = \"b\",\n    deps = [\":x\"],\n    new = 1,\n    dd = {\"k\": [\"v\"], \"l\": \"w\"},\n)\n"}
		if c.Thorough() {
			bases = append(bases, "package(default_visibility = [\"//visibility:public\"])\n\ncc_library(name = \"t\", testonly = True, deps = X + [\n    # keep sorted\n    \"b\",\n    \"//a\",\n    # do not sort\n    \"a\",\n], dd = {\"k\": [\"v\"]})\n\nm(name = \"b\", deps = [])\n")
		}
		for _, b := range bases {
			bases = append(bases[1:], formatted(b))
		}
		var cmds []string
		for _, s := range schedCommands {
			cmds = append(cmds, s)
		}
		cmds = append(cmds, "add deps b z", "add srcs s0 s.c", "add args z b a", "remove deps", "remove deps a c", "remove * b", "replace deps b //r", "replace * c y", "substitute * ([bc]) ${1}2", "move deps new a b", "move srcs deps *", "set name t2", "set deps x", "rename name n", "dict_remove dd k a", "dict_list_add dd l a", "set_if_absent deps q", "set kind k", "comment deps :b why", "remove_comment deps", "print_comment deps", "remove name", "new_load :d.bzl x m", "substitute_load d.bzl e.bzl",
			"copy dd b", "dict_set dd k:2", "add deps q", "rename deps rdeps", "comment deps two\\\nlines", "comment v x\\\ny", "set kind cc_library")
		core.Stream(c, func(emit func(Seq) bool) {
			n := c.Pick(2, 3)
			few := map[string]bool{}
			for _, s := range []string{"copy dd b", "dict_set dd k:2", "dict_list_add dd l a", "dict_remove dd k", "rename deps rdeps", "add deps q", "remove deps a", "move srcs deps *", "comment deps hello", "comment v x\\\ny", "rename v w", "set deps x", "set_select sel k1 a k2 b", "copy deps b", "remove_comment deps", "set kind cc_library"} {
				few[s] = true
			}
			for _, b := range bases {
				var rec func(l []string) bool
				rec = func(l []string) bool {
					if len(l) > 1 && !emit(Seq{b, append([]string{}, l...), ""}) {
						return false
					}
					if len(l) == n && (len(l) == 3 || !all(l, few)) || len(l) == 3 {
						return true
					}
					for _, cmd := range cmds {
						if len(l) == n && !few[cmd] {
							continue
						}
						if len(l) > 0 && l[len(l)-1] == "delete" || strings.HasPrefix(cmd, "print") {
							continue
						}
						if !rec(append(l, cmd)) {
							return false
						}
					}
					return true
				}
				if !rec(nil) {
					return
				}
			}
			c.Bound("all sequences of 2 to %d of %d commands on %d files, of 3 of %d commands", n, len(cmds), len(bases), len(few))
		}, func(in Seq) { seq.Do(in) })

		core.Stream(c, func(emit func(In) bool) {
			lines := []string{"", " \t", "# add deps x|//a:t", "  # add deps x|//a:t", "add deps n|//a:t", "add deps n|add srcs m|//a:t", "//a:t|add deps n", "add deps n|//a:t|//b:t", "//b:t|set v 2|//a:b|add deps o", "set v 3|*", "set w 1|add deps k|*", "*|set w 2", `comment x\|y|//a:t`, `set s a\ b|//b:t`,
				"new cc_library nn|//a:__pkg__", "set v 9|//a:nn", "rename v w|//a:t", "print name v|//a:t", "remove deps a|//b:t", "set v 2|//nosuch:t", "set v 2|//a:nosuch", "\t set v 4|//a:t  \r", "set v 5|//a:*", "delete|//a:b", "set u 1|//...:t", "new_load :x.bzl q|//a/BUILD", "set u 2|//b", "set v 1|//b:b", "copy v b|//a:t"}
			labels := [][]string{nil, {"//a:t"}, {"//b:t", "//a:b"}}
			n := c.Pick(2, 3)
			two := map[string]string{"a/BUILD": schedBase, "b/BUILD": bases[1]}
			for i, ls := range labels {
				for _, kg := range []bool{false, true} {
					var rec func(l []string) bool
					rec = func(l []string) bool {
						if len(l) > 0 {
							all := strings.Join(l, "\n")
							fs := [][]string{{all + "\n"}}
							if i == 1 && !kg {
								fs = append(fs, []string{all}, []string{l[0], strings.Join(l[1:], "\n")})
							}
							for _, f := range fs {
								if !emit(In{two, f, ls, kg}) {
									return false
								}
							}
						}
						if len(l) == n {
							return true
						}
						for _, s := range lines {
							if !rec(append(l, s)) {
								return false
							}
						}
						return true
					}
					if !rec(nil) {
						return
					}
				}
			}
			c.Bound("command files with all sequences of <=%d of %d lines x %d label lists x -k, in one or two files", n, len(lines), len(labels))
		}, func(in In) { ev.Do(in) })

		core.Stream(c, func(emit func(Esc) bool) {
			n := c.Pick(6, 7)
			var rec func(s string) bool
			rec = func(s string) bool {
				for _, f := range []bool{false, true} {
					if !emit(Esc{s, f}) {
						return false
					}
				}
				if len(s) == n {
					return true
				}
				for _, ch := range []string{"a", " ", "\\", "|"} {
					if !rec(s + ch) {
						return false
					}
				}
				return true
			}
			rec("")
			c.Bound("all strings of <=%d of {a, blank, backslash, |} as a part of a command, on the command line and in a command file", n)
		}, func(in Esc) { esc.Do(in) })
	}}
