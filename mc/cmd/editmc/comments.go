package main

import (
	"strings"
	"sync/atomic"

	"github.com/bazelbuild/buildtools/edit"

	"verif/mc/core"
	"verif/mc/sem"
)

// A CState is a state of the comment exploration: the file and what the commands so far have attached.
type CState struct {
	Text   string
	Before map[string]string // full-line comment by anchor ("", "attr", "attr value"), lines separated by \n
	Suffix map[string]string // end-of-line comment
}

type COp struct {
	Cmd []string
	EOL bool
}

type CStep struct {
	S  CState
	Op COp
}

func anchorOf(args []string) string { return strings.Join(args, " ") }

var c21 = &core.Check{ID: "C21", Level: "model_checking", Guard: true,
	Run: func(c *core.Ctx) {
		anchorsAll := [][]string{nil, {"deps"}, {"v"}, {"sel"}, {"deps", "a"}, {"deps", ":b"}, {"sel", "c"}, {"sel", "e"}, {"deps", "zz"}, {"nosuch"}, {"one"}, {"one", "x"}, {"name"}}
		has := func(a []string) bool { return len(a) == 0 || a[len(a)-1] != "zz" && a[0] != "nosuch" }
		print := func(text string, a []string) Result {
			return one(text, strings.TrimSpace("print_comment "+strings.Join(a, " ")), "//pkg:t")
		}
		trans, states := c.Counter("transitions"), c.Counter("states")
		var next []CState
		mu := make(chan struct{}, 1)
		mu <- struct{}{}
		ev := core.NewEval(c, "comment", func(st CStep) error {
			atomic.AddInt64(trans, 1)
			pre, err := sem.FromStarlark(st.S.Text)
			if err != nil {
				return nil
			}
			r := buildozer(map[string]string{buildFile: st.S.Text}, []string{escape(st.Op.Cmd), "//pkg:t"}, func(o *edit.Options) { o.PreferEOLComments = st.Op.EOL })
			text := r.Files[buildFile]
			post, err := sem.FromStarlark(text)
			if err != nil {
				return failf("syntax", "the file does not parse any more: %v\n%s", err, text)
			}
			if pre.String() != post.String() {
				return failf("program", "a comment command changed the program\n%s", text)
			}
			if r.RC != 0 && r.RC != 3 || (r.RC == 0) != (text != st.S.Text) {
				return failf("exit", "exit code %d, changed %v: %s", r.RC, text != st.S.Text, r.Err)
			}
			// the model
			nx := CState{Text: text, Before: map[string]string{}, Suffix: map[string]string{}}
			for k, v := range st.S.Before {
				nx.Before[k] = v
			}
			for k, v := range st.S.Suffix {
				nx.Suffix[k] = v
			}
			var anchor []string
			if st.Op.Cmd[0] == "comment" {
				anchor = st.Op.Cmd[1 : len(st.Op.Cmd)-1]
				s := strings.ReplaceAll(st.Op.Cmd[len(st.Op.Cmd)-1], `\n`, "\n")
				if has(anchor) {
					if len(anchor) == 0 || !st.Op.EOL || strings.Contains(s, "\n") {
						nx.Before[anchorOf(anchor)] = s
					} else {
						nx.Suffix[anchorOf(anchor)] = s
					}
				}
			} else {
				anchor = st.Op.Cmd[1:]
				if has(anchor) {
					delete(nx.Before, anchorOf(anchor))
					delete(nx.Suffix, anchorOf(anchor))
				}
			}
			// every anchor has exactly the comments of the model
			total := 0
			for _, a := range anchorsAll {
				p := print(text, a)
				if !has(a) {
					if p.RC != 2 {
						return failf("print-missing", "print_comment %v: exit code %d", a, p.RC)
					}
					continue
				}
				var l []string
				for _, m := range []map[string]string{nx.Before, nx.Suffix} {
					if s, ok := m[anchorOf(a)]; ok {
						total += strings.Count(s, "\n") + 1
						l = append(l, strings.ReplaceAll(s, "\n", " "))
					}
				}
				want := strings.Join(l, " ")
				if p.RC != 0 || strings.TrimSuffix(p.Out, "\n") != want || p.Files[buildFile] != text {
					return failf(st.Op.Cmd[0]+"/print", "print_comment %v: %q, want %q (exit code %d)\n%s", a, p.Out, want, p.RC, text)
				}
			}
			if n := strings.Count(text, "#"); n != total+3 {
				return failf(st.Op.Cmd[0]+"/count", "%d comment lines, want %d\n%s", n, total+3, text)
			}
			for _, s := range []string{"# other\nm(\n", "    x = 1,  # x\n", "\n# end\n"} {
				if !strings.Contains(text, s) {
					return failf(st.Op.Cmd[0]+"/frame", "the comment %q of something else changed\n%s", s, text)
				}
			}
			c.NonTrivial(1)
			if c.Outcome([]byte(text)) {
				atomic.AddInt64(states, 1)
				<-mu
				next = append(next, nx)
				mu <- struct{}{}
			}
			return nil
		})
		var ops []COp
		for _, a := range anchorsAll {
			for _, s := range []string{"hello", "w x", `two\nlines`, "y"} {
				for _, eol := range []bool{true, false} {
					if eol || !strings.Contains(s, "lines") && s != "y" {
						ops = append(ops, COp{append(append([]string{"comment"}, a...), s), eol})
					}
				}
			}
			ops = append(ops, COp{append([]string{"remove_comment"}, a...), true})
		}
		start := formatted("# other\nm(\n    name = \"before\",\n    x = 1,  # x\n)\n\ncc_library(\n    name = \"t\",\n    deps = [\"a\", \"b\", \"//q:c\"],\n    v = 1,\n    one = [\"x\"],\n    sel = [\"d\"] + select({\"//x:1\": [\"c\", \"f\"], \"//x:2\": [\"e\"]}),\n)\n\n# end\n")
		level := []CState{{Text: start}}
		for d := 1; d <= c.Pick(3, 4) && len(level) > 0 && !c.Expired(); d++ {
			next = nil
			core.Stream(c, func(emit func(CStep) bool) {
				for _, s := range level {
					for i, op := range ops {
						if d == 4 && i%5 != 4 && op.EOL {
							continue
						}
						if !emit(CStep{s, op}) {
							return
						}
					}
				}
			}, func(st CStep) { ev.Do(st) })
			c.Bound("depth %d: %d states expanded, %d new states, %d operations", d, len(level), len(next), len(ops))
			level = append([]CState{}, next...)
			if !c.Thorough() && d == 2 && len(level) > 600 {
				// the third step of the quick tier: every 8th state
				var l []CState
				for i := 0; i < len(level); i += 8 {
					l = append(l, level[i])
				}
				level = l
			}
		}
	}}
