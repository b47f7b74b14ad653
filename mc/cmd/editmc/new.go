package main

import (
	"strings"
	"sync/atomic"

	"verif/mc/core"
	"verif/mc/sem"
)

// newRules: the commands that add and delete rules, over all short sequences of statements.
func newRules(c *core.Ctx) {
	trans := c.Counter("transitions")
	type In struct {
		Text, Target string
		Cmd          []string
	}
	ev := core.NewEval(c, "new", func(in In) error {
		pre, err := sem.FromStarlark(in.Text)
		if err != nil {
			return nil
		}
		atomic.AddInt64(trans, 1)
		r := one(in.Text, escape(in.Cmd), "//pkg:"+in.Target)
		text := r.Files[buildFile]
		post, err := sem.FromStarlark(text)
		if err != nil {
			return failf("syntax", "the file does not parse any more: %v", err)
		}
		c.NonTrivial(1)
		c.Outcome([]byte(text))
		want, fails := modelNew(pre, in.Target, in.Cmd)
		if fails {
			if r.RC != 2 || text != in.Text {
				return failf("error", "an error is expected, exit code %d\n%s", r.RC, text)
			}
			return nil
		}
		if a, b := strings.Join(strs(want), "\n"), strings.Join(strs(post.C), "\n"); a != b {
			return failf(in.Cmd[0], "want\n%s\nhave\n%s", a, b)
		}
		for _, l := range strings.Split(in.Text, "\n") {
			if i := strings.Index(l, "# c"); i >= 0 && strings.Count(text, l[i:]) != 1 && in.Cmd[0] == "new" {
				return failf("comments", "the comment %q is lost", l[i:])
			}
		}
		return nil
	})
	pieces := []string{"load(\":a.bzl\", \"k\")", "k(name = \"%\")", "cc_library(name = \"%\")", "# c%", "X% = 1", "# c%\ncc_library(name = \"%\")", "package(x = 1)", "k(name = \"t\")", "[k(name = i) for i in X]", `"""doc"""`, "def f%():\n    pass"}
	core.Stream(c, func(emit func(In) bool) {
		var rec func(n int, text string) bool
		rec = func(n int, text string) bool {
			st := formatted(text)
			for _, t := range []string{"__pkg__", "t", "all", "%k", "r1", "missing"} {
				for _, cmd := range [][]string{{"new", "k", "n"}, {"new", "cc_library", "n"}, {"new", "z", "n"}, {"new", "k", "t"}, {"new", "k", "n", "before", "r1"}, {"new", "k", "n", "after", "r1"}, {"new", "k", "n", "before", "r0"},
					{"new", "k", "n", "after", "missing"}, {"new", "k", "n", "after", "__pkg__"}, {"new", "k", "n", "around", "r1"}, {"delete"}} {
					if (t == "__pkg__") == (cmd[0] == "delete") || cmd[0] == "new" && t != "__pkg__" {
						continue
					}
					if !emit(In{st, t, cmd}) {
						return false
					}
				}
			}
			if n == 0 {
				return true
			}
			for _, p := range pieces {
				q := text
				if q != "" {
					q += "\n\n"
				}
				k := string(rune('0' + strings.Count(text, "\n\n")))
				if text != "" {
					k = string(rune('1' + strings.Count(text, "\n\n")))
				}
				if !rec(n-1, q+strings.NewReplacer(`"%"`, `"r`+k+`"`, "%", k).Replace(p)) {
					return false
				}
			}
			return true
		}
		if rec(c.Pick(3, 4), "") {
			c.Bound("new/delete on all sequences of <=%d of %d statements", c.Pick(3, 4), len(pieces))
		}
	}, func(in In) { ev.Do(in) })
}

func findRule(f *N, name string) int {
	for i, s := range f.C {
		if q := asRule(s); q != nil && (q.name() == name || name == "__pkg__" && q.Kind == "package") {
			return i
		}
	}
	return -1
}

func modelNew(f *N, target string, cmd []string) (want []*N, fails bool) {
	if cmd[0] == "delete" {
		sel := targets(f, target)
		if target == "all" {
			if findRule(f, "all") < 0 {
				for i, s := range f.C {
					if asRule(s) != nil {
						sel = append(sel, i)
					}
				}
			}
		} else if target[0] != '%' && len(sel) == 0 {
			return nil, true
		}
		gone := map[int]bool{}
		for _, i := range sel {
			gone[i] = true
		}
		for i, s := range f.C {
			if !gone[i] {
				want = append(want, s)
			}
		}
		return want, false
	}
	kind, name := cmd[1], cmd[2]
	call := &N{K: "call", C: []*N{id(kind), {K: "assign", V: "=", C: []*N{id("name"), str(name)}}}}
	at := -1
	if len(cmd) > 3 {
		if cmd[4] == "__pkg__" {
			at = -2
		}
		if i := findRule(f, cmd[4]); i >= 0 {
			switch cmd[3] {
			case "before":
				at = i
			case "after":
				at = i + 1
			default:
				return nil, true
			}
		}
	}
	if findRule(f, name) >= 0 {
		return nil, true
	}
	if at == -2 { // behind the package declaration's place: after the loads and comments at the top
		at = 0
		for at < len(f.C) && (f.C[at].K == "load" || f.C[at].K == "str") {
			at++
		}
	}
	if at < 0 {
		at = len(f.C)
		for i, s := range f.C {
			if q := asRule(s); q != nil && q.Kind == kind {
				at = i + 1
			}
		}
	}
	want = append(want, f.C[:at]...)
	want = append(want, call)
	return append(want, f.C[at:]...), false
}
