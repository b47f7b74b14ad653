package main

import (
	"regexp"
	"strings"
	"sync/atomic"

	"verif/mc/core"
	"verif/mc/sem"
)

// C13: commands on load statements.

type binding struct{ mod, to, from string }

func bindings(f *N) (b []binding, rest []string) {
	for _, s := range f.C {
		if s.K == "load" {
			for _, y := range s.C {
				to, from, _ := strings.Cut(y.V, "=")
				b = append(b, binding{s.V, to, from})
			}
			continue
		}
		rest = append(rest, s.String())
	}
	return
}

func bindSet(b []binding) string {
	m := map[string]bool{}
	for _, x := range b {
		m[x.mod+"%"+x.to+"="+x.from] = true
	}
	return strings.Join(sortedKeys(m), "\n")
}

// ambiguous: a name that is bound twice to different things; Bazel rejects such a file and the formatter may drop a binding.
func ambiguous(b []binding) bool {
	m := map[string]binding{}
	for _, x := range b {
		if y, ok := m[x.to]; ok && y != x {
			return true
		}
		m[x.to] = x
	}
	return false
}

func args2(args []string) (b []binding) {
	for _, a := range args {
		to, from, ok := strings.Cut(a, "=")
		if !ok {
			from = to
		}
		b = append(b, binding{"", to, from})
	}
	return
}

func usedNames(f *N) map[string]bool {
	used := map[string]bool{}
	var walk func(x *N, lhs bool)
	walk = func(x *N, lhs bool) {
		switch {
		case x == nil:
			return
		case x.K == "load":
			return
		case x.K == "id":
			if !lhs {
				used[x.V] = true
			}
		case x.K == "assign" && len(x.C) == 2:
			walk(x.C[0], x.C[0].K == "id" && x.V == "=")
			walk(x.C[1], false)
			return
		}
		for _, c := range x.C {
			walk(c, false)
		}
	}
	walk(f, false)
	return used
}

func modelLoad(f *N, b []binding, cmd []string) ([]binding, bool) {
	switch cmd[0] {
	case "substitute_load":
		re, err := regexp.Compile(cmd[1])
		if err != nil {
			return nil, true
		}
		var r []binding
		for _, x := range b {
			x.mod = substitute(x.mod, re, cmd[2])
			r = append(r, x)
		}
		return r, false
	case "replace_load":
		gone := map[string]bool{}
		for _, a := range args2(cmd[2:]) {
			gone[a.to] = true
		}
		var r []binding
		for _, x := range b {
			if !gone[x.to] {
				r = append(r, x)
			}
		}
		b = r
		fallthrough
	case "new_load":
		last := map[string]string{} // the last of several definitions of a name in the command wins
		for _, a := range args2(cmd[2:]) {
			last[a.to] = a.from
		}
		r := append([]binding{}, b...)
		for _, to := range sortedKeys(last) {
			have := false
			for _, x := range b {
				have = have || x.mod == cmd[1] && x.to == to
			}
			if !have {
				r = append(r, binding{cmd[1], to, last[to]})
			}
		}
		return r, false
	case "fix":
		used := usedNames(f)
		var r []binding
		for _, x := range b {
			if used[x.to] {
				r = append(r, x)
			}
		}
		return r, false
	}
	return b, false
}

var c13 = &core.Check{ID: "C13", Level: "model_checking", Guard: true,
	Run: func(c *core.Ctx) {
		trans := c.Counter("transitions")
		type In struct {
			Text string
			Cmd  []string
		}
		const other = "pkg2/BUILD"
		ev := core.NewEval(c, "load", func(in In) error {
			pre, err := sem.FromStarlark(in.Text)
			if err != nil {
				return nil
			}
			b, rest := bindings(pre)
			if ambiguous(b) {
				return nil
			}
			want, fails := modelLoad(pre, b, in.Cmd)
			if ambiguous(want) {
				return nil
			}
			atomic.AddInt64(trans, 1)
			// The same command on two files of the same contents, in one invocation.
			r := buildozer(map[string]string{buildFile: in.Text, other: in.Text}, []string{escape(in.Cmd), "//pkg:__pkg__", "//pkg2:__pkg__"})
			text := r.Files[buildFile]
			if text != in.Text {
				c.NonTrivial(1)
			}
			c.Outcome([]byte(text))
			if fails {
				if r.RC != 2 || text != in.Text {
					return failf("error", "an error is expected, exit code %d", r.RC)
				}
				return nil
			}
			if o := r.Files[other]; o != text {
				return failf("aliasing", "the same command on the same contents has different results in two files of one invocation:\n%s\n---\n%s", text, o)
			}
			post, err := sem.FromStarlark(text)
			if err != nil {
				return failf("syntax", "the file does not parse any more: %v\n%s", err, text)
			}
			nb, nrest := bindings(post)
			if strings.Join(rest, "\n") != strings.Join(nrest, "\n") {
				return failf("frame", "statements other than loads changed: %v -> %v", rest, nrest)
			}
			if x, y := bindSet(want), bindSet(nb); x != y {
				return failf("bindings/"+in.Cmd[0], "want the bindings\n%s\nhave\n%s", x, y)
			}
			seen := map[string]bool{}
			for _, x := range nb {
				k := x.mod + "%" + x.to
				if seen[k] {
					return failf("duplicate", "the symbol %s is loaded twice from %s", x.to, x.mod)
				}
				seen[k] = true
			}
			if (text != in.Text) != (r.RC == 0) {
				return failf("exit", "changed %v, exit code %d", text != in.Text, r.RC)
			}
			// Comments of everything that stays are kept.
			keep := map[string]bool{}
			for _, x := range nb {
				keep[x.to] = true
			}
			if in.Cmd[0] == "replace_load" {
				// A replaced symbol goes together with its comments.
				for _, a := range in.Cmd[2:] {
					delete(keep, strings.SplitN(a, "=", 2)[0])
				}
			}
			for _, l := range strings.Split(in.Text, "\n") {
				i := strings.Index(l, "# on ")
				if i < 0 {
					continue
				}
				if keep[strings.TrimSpace(l[i+5:])] && strings.Count(text, l[i:]) != 1 {
					return failf("comments", "the comment %q is lost or duplicated\n%s", l[i:], text)
				}
			}
			return nil
		})
		loads := []string{`load(":a.bzl", "x")`, `load(":a.bzl", "y", "z")`, `load(":a.bzl", w = "x")`, `load(":b.bzl", "y")`, `load(":b.bzl", "u", "v", "x")`, `load("@r//p:a.bzl", "q", r = "q")`, "load(\n    \":c.bzl\",\n    # on m\n    \"m\",\n    \"n\",  # on n\n)",
			`load(":c.bzl", "k", "l", "x")`}
		bodies := []string{"", "x(name = \"t\")\n", "y(\n    name = \"t\",\n    a = [z for z in u],\n)\n", "x = 1\n\nq(x)\n", "# comment\n\"\"\"doc\"\"\"\n\nm(n)\n", "package(a = v)\n\nk.l(name = w)\n", "[m(name = n) for n in r]\n", "def f(x, y = z):\n    return u[v]\n"}
		var cmds [][]string
		for _, m := range []string{":a.bzl", ":b.bzl", ":new.bzl", "//q:d.bzl"} {
			for _, s := range []string{"x", "y", "x y", "x y z", "n1", "n1 n2", "a1=x", "x=y", "x y=x", "x x", "a1=x a1=y", "u v x", "y z", "m n", "q r", "r=q", "k l x", "x w", "w"} {
				cmds = append(cmds, append([]string{"new_load", m}, strings.Fields(s)...), append([]string{"replace_load", m}, strings.Fields(s)...))
			}
		}
		cmds = append(cmds, []string{"fix", "unusedLoads"}, []string{"substitute_load", "^@([^/]*)//(.*)$", "//third_party/$1/$2"}, []string{"substitute_load", "a", "bb"}, []string{"substitute_load", "^:", "//pkg:"}, []string{"substitute_load", "(", "x"}, []string{"substitute_load", "^:[ac].bzl$", ":b.bzl"})
		n := c.Pick(2, 3)
		core.Stream(c, func(emit func(In) bool) {
			var rec func(k int, text string) bool
			rec = func(k int, text string) bool {
				for _, body := range bodies {
					st := formatted(text + body)
					for _, cmd := range cmds {
						if !emit(In{st, cmd}) {
							return false
						}
					}
				}
				if k == n {
					return true
				}
				for _, l := range loads {
					if strings.Contains(text, l) {
						continue
					}
					if !rec(k+1, text+l+"\n") {
						return false
					}
				}
				return true
			}
			if rec(0, "") {
				c.Bound("all files of <=%d of %d load statements with %d bodies x %d commands, on two files at once", n, len(loads), len(bodies), len(cmds))
			}
		}, func(in In) { ev.Do(in) })
	}}
