package main

import (
	"sort"
	"strings"
	"sync/atomic"

	"verif/mc/core"
	"verif/mc/sem"
)

// C14: use_repo_add and use_repo_remove.

type usage struct {
	proxy, bzl, name string
	dev, iso         bool
}

func useExt(s *N, module string) (u usage, ok bool) {
	if s.K != "assign" || s.C[0].K != "id" || s.C[1].K != "call" {
		return
	}
	call := s.C[1]
	if call.C[0].K != "id" || call.C[0].V != "use_extension" || len(call.C) < 3 || !isStr(call.C[1]) || !isStr(call.C[2]) {
		return
	}
	u = usage{proxy: s.C[0].V, bzl: extLabel(call.C[1].V, module), name: call.C[2].V}
	for _, a := range call.C[3:] {
		if a.K == "assign" {
			v := !(a.C[1].K == "id" && a.C[1].V == "False")
			switch a.C[0].V {
			case "dev_dependency":
				u.dev = v
			case "isolate":
				u.iso = v
			}
		}
	}
	return u, true
}

// extLabel is the full label of an extension file as seen from a module.
func extLabel(l, module string) string {
	switch {
	case strings.HasPrefix(l, "@//"):
		l = "@" + module + l[1:]
	case strings.HasPrefix(l, "//"):
		l = "@" + module + l
	case strings.HasPrefix(l, "@"):
	default:
		l = "@" + module + "//:" + strings.TrimPrefix(l, ":")
	}
	return l
}

func moduleName(f *N) string {
	for _, s := range f.C {
		if r := asRule(s); r != nil && r.Kind == "module" {
			if v := r.Attrs["repo_name"]; isStr(v) && v.V != "" {
				return v.V
			}
			if v := r.Attrs["name"]; isStr(v) {
				return v.V
			}
		}
	}
	return ""
}

func isEmptyUse(s *N) bool {
	return s.K == "call" && s.C[0].K == "id" && s.C[0].V == "use_repo" && len(s.C) == 2
}

func repoOf(a *N) string {
	if a.K == "str" {
		return a.V
	}
	if a.K == "assign" && a.C[1].K == "str" {
		return a.C[1].V
	}
	return ""
}

func modelUseRepo(f *N, cmd []string) (want []*N, fails bool) {
	mod := moduleName(f)
	args := cmd[1:]
	ext := func(s string) bool { return strings.HasPrefix(s, "@") || strings.HasPrefix(s, "//") }
	dev := false
	if args[0] == "dev" && ext(args[1]) {
		dev = true
		args = args[1:]
	}
	var us []usage
	for _, s := range f.C {
		if u, ok := useExt(s, mod); ok {
			us = append(us, u)
		}
	}
	proxies := map[string]bool{}
	var repos []string
	if ext(args[0]) {
		for _, u := range us {
			if u.bzl == extLabel(args[0], mod) && u.name == args[1] && u.dev == dev && !u.iso {
				proxies[u.proxy] = true
			}
		}
		repos = args[2:]
	} else {
		for _, u := range us {
			if u.proxy != args[0] {
				continue
			}
			if u.iso {
				proxies[u.proxy] = true
			} else {
				for _, v := range us {
					if v.bzl == u.bzl && v.name == u.name && v.dev == u.dev && !v.iso {
						proxies[v.proxy] = true
					}
				}
			}
			break
		}
		repos = args[1:]
	}
	if len(proxies) == 0 {
		return nil, true
	}
	last, lastUsage, lastProxy := -1, -1, ""
	imported := map[string]bool{}
	for i, s := range f.C {
		if u, ok := useExt(s, mod); ok && proxies[u.proxy] {
			lastUsage, lastProxy = i, u.proxy
		}
		if s.K == "call" && s.C[0].K == "dot" && s.C[0].C[0].K == "id" && proxies[s.C[0].C[0].V] {
			lastUsage, lastProxy = i, s.C[0].C[0].V
		}
		if s.K == "call" && s.C[0].K == "id" && s.C[0].V == "use_repo" && len(s.C) > 1 && s.C[1].K == "id" && proxies[s.C[1].V] {
			last = i
			for _, a := range s.C[2:] {
				imported[repoOf(a)] = true
			}
		}
	}
	remove := map[string]bool{}
	for _, r := range repos {
		remove[r] = true
	}
	var add []*N
	if cmd[0] == "use_repo_add" {
		seen := map[string]bool{}
		for _, r := range repos {
			if !imported[r] && !seen[r] {
				seen[r] = true
				add = append(add, str(r))
			}
		}
	}
	for i, s := range f.C {
		t := s
		if s.K == "call" && s.C[0].K == "id" && s.C[0].V == "use_repo" && len(s.C) > 1 && s.C[1].K == "id" && proxies[s.C[1].V] {
			t = &N{K: "call", C: append([]*N{}, s.C[:2]...)}
			for _, a := range s.C[2:] {
				if cmd[0] == "use_repo_remove" && remove[repoOf(a)] {
					continue
				}
				t.C = append(t.C, a)
			}
			if i == last {
				t.C = append(t.C, add...)
			}
		}
		want = append(want, t)
		if last < 0 && i == lastUsage && len(add) > 0 {
			want = append(want, &N{K: "call", C: append([]*N{id("use_repo"), id(lastProxy)}, add...)})
		}
	}
	return want, false
}

// normUse orders the arguments of use_repo calls.
func normUse(l []*N) []string {
	var r []string
	for _, s := range l {
		if isEmptyUse(s) {
			continue
		}
		if s.K == "call" && s.C[0].K == "id" && s.C[0].V == "use_repo" {
			a := strs(s.C[2:])
			sort.Strings(a)
			r = append(r, "use_repo "+s.C[1].String()+" "+strings.Join(a, " "))
			continue
		}
		r = append(r, s.String())
	}
	return r
}

var c14 = &core.Check{ID: "C14", Level: "model_checking", Guard: true,
	Run: func(c *core.Ctx) {
		trans := c.Counter("transitions")
		type In struct {
			Text string
			Cmd  []string
		}
		const mf = "MODULE.bazel"
		ev := core.NewEval(c, "use_repo", func(in In) error {
			pre, err := sem.FromStarlark(in.Text)
			if err != nil {
				return nil
			}
			atomic.AddInt64(trans, 1)
			want, fails := modelUseRepo(pre, in.Cmd)
			r := buildozer(map[string]string{mf: in.Text}, []string{escape(in.Cmd), "//MODULE.bazel:all"})
			text := r.Files[mf]
			if fails {
				if r.RC != 2 || text != in.Text {
					return failf("error", "an error is expected, exit code %d\n%s", r.RC, text)
				}
				return nil
			}
			if text != in.Text {
				c.NonTrivial(1)
			}
			c.Outcome([]byte(text))
			post, err := sem.FromStarlark(text)
			if err != nil {
				return failf("syntax", "the file does not parse any more: %v\n%s", err, text)
			}
			if a, b := strings.Join(normUse(want), "\n"), strings.Join(normUse(post.C), "\n"); a != b {
				return failf(in.Cmd[0], "exit code %d %s\nwant\n%s\nhave\n%s", r.RC, r.Err, a, b)
			}
			for _, s := range post.C {
				if isEmptyUse(s) {
					return failf("empty", "an empty use_repo call is left\n%s", text)
				}
			}
			if (text != in.Text) != (r.RC == 0) {
				return failf("exit", "changed %v, exit code %d", text != in.Text, r.RC)
			}
			return nil
		})
		stmts := []string{`module(name = "m")`, `module(name = "m", repo_name = "n")`, `e = use_extension("//:e.bzl", "e")`, `e = use_extension("@m//:e.bzl", "e", dev_dependency = True)`, `d = use_extension("//:e.bzl", "e")`,
			`d = use_extension("@n//:e.bzl", "e", isolate = True)`, `d = use_extension("@//:e.bzl", "f", dev_dependency = False)`, `e.tag(name = "t")`, `d.tag(name = "t")`, `use_repo(e, "a")`, `use_repo(d, "b", x = "a")`, `use_repo(e, "b", "c", y = "d")`, `bazel_dep(name = "z")`, `use_repo(q, "a")`,
			`f = use_extension("//:e.bzl", "e", dev_dependency = True, x = 1)`, `e = use_extension("//:e.bzl", "e", isolate = True, dev_dependency = True, y = False)`}
		var cmds [][]string
		for _, op := range []string{"use_repo_add", "use_repo_remove"} {
			for _, p := range []string{"e", "d", "dev //:e.bzl e", "//:e.bzl e", "@m//:e.bzl e", "@//:e.bzl f", "@n//:e.bzl e", "dev @m//:e.bzl e", "q"} {
				for _, l := range []string{"a", "b", "n", "a b", "n n", "b c d", "x"} {
					cmds = append(cmds, append(append([]string{op}, strings.Fields(p)...), strings.Fields(l)...))
				}
			}
		}
		n := c.Pick(3, 4)
		core.Stream(c, func(emit func(In) bool) {
			var rec func(k int, text string) bool
			rec = func(k int, text string) bool {
				r := buildozer(map[string]string{mf: text}, []string{"format", "//MODULE.bazel:all"})
				for _, cmd := range cmds {
					if !emit(In{r.Files[mf], cmd}) {
						return false
					}
				}
				if k == n {
					return true
				}
				for _, s := range stmts {
					if strings.HasPrefix(s, "module") && strings.Contains(text, "module") {
						continue // a file has one module() at most
					}
					if !rec(k+1, text+s+"\n") {
						return false
					}
				}
				return true
			}
			if rec(0, "") {
				c.Bound("all MODULE.bazel files of <=%d of %d statements x %d commands", n, len(stmts), len(cmds))
			}
		}, func(in In) { ev.Do(in) })
	}}
