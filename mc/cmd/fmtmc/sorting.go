package main

import (
	"sort"
	"strings"

	"github.com/bazelbuild/buildtools/tables"
	"verif/mc/core"
	"verif/mc/sem"
)

// C08: what is sorted and in which order.

// sortKey orders strings as documented: by group (plain, ":", "//", "@"), then by the components between '.' and ':'.
func sortKey(s string) string {
	g := "0"
	for i, p := range []string{":", "//", "@"} {
		if strings.HasPrefix(s, p) {
			g = string(rune('1' + i))
		}
	}
	return g + strings.NewReplacer(".", "\x01", ":", "\x01").Replace(s) + "\x00" + s
}

// An Elem is an element of a list and what separates it from the previous one.
type Elem struct {
	Text string
	Sep  string // "", "blank", "comment"
}

func (e Elem) str() bool { return strings.HasPrefix(e.Text, "\"") && strings.Count(e.Text, "\"") == 2 }

// sortModel is the documented result.
func sortModel(l []Elem, mode string) [][]string {
	dedup := func() []string {
		seen := map[string]bool{}
		var r []string
		for _, e := range l {
			if e.str() && seen[e.Text] {
				continue
			}
			seen[e.Text] = true
			r = append(r, e.Text)
		}
		return r
	}
	chunks := func() []string {
		var r, run []string
		flush := func() {
			sort.Slice(run, func(i, j int) bool {
				return sortKey(strings.Trim(run[i], "\"")) < sortKey(strings.Trim(run[j], "\""))
			})
			for i, s := range run {
				if i == 0 || s != run[i-1] {
					r = append(r, s)
				}
			}
			run = nil
		}
		for _, e := range l {
			if !e.str() || e.Sep == "comment" {
				flush()
			}
			if e.str() {
				run = append(run, e.Text)
			} else {
				r = append(r, e.Text)
			}
		}
		flush()
		return r
	}
	switch mode {
	case "sort": // unless there are comments
		for _, e := range l {
			if e.Sep == "comment" {
				return [][]string{dedup()}
			}
		}
		return [][]string{chunks()}
	case "force":
		return [][]string{chunks()}
	case "dedup":
		return [][]string{dedup()}
	}
	var r []string
	for _, e := range l {
		r = append(r, e.Text)
	}
	return [][]string{r}
}

func find(x *sem.N, ok func(*sem.N) bool) *sem.N {
	if ok(x) {
		return x
	}
	for _, c := range x.C {
		if r := find(c, ok); r != nil {
			return r
		}
	}
	return nil
}

type listCase struct {
	Type, Pre, Post, Mode string
	Elems                 []Elem
}

type argCase struct {
	Type, Kind string
	Fixed      []string // positional arguments
	Names      []string
	Keep       bool // leave-alone
}

type loadCase struct {
	Type    string
	Modules []string
	Symbols []string // of a single load
}

var c08 = &core.Check{ID: "C08", Level: "model_checking", Guard: true,
	Run: func(c *core.Ctx) {
		lists := core.NewEval(c, "list", func(in listCase) error {
			var b strings.Builder
			b.WriteString(in.Pre)
			for i, e := range in.Elems {
				switch e.Sep {
				case "blank":
					b.WriteString("\n\n")
				case "comment":
					b.WriteString("\n# c\n")
				}
				b.WriteString(e.Text + ",")
				if i%2 == 1 {
					b.WriteString("\n")
				}
			}
			b.WriteString(in.Post)
			out, err := format(in.Type, b.String())
			if err != nil {
				return core.Failf("parse", "%v\n%s", err, b.String())
			}
			t, err := sem.FromStarlark(out)
			if err != nil {
				return core.Failf("output", "%v\n%s", err, out)
			}
			l := find(t, func(x *sem.N) bool { return x.K == "list" })
			if strings.Contains(in.Pre, "use_repo(") {
				l = find(t, func(x *sem.N) bool { return x.K == "call" && x.C[0].V == "use_repo" })
				l.C = l.C[2:]
			}
			var got []string
			for _, x := range l.C {
				s := x.V
				if x.K == "str" {
					s = "\"" + s + "\""
				} else if x.K != "id" {
					s = "f(1)"
				}
				got = append(got, s)
			}
			c.NonTrivial(1)
			wants := sortModel(in.Elems, in.Mode)
			for _, w := range wants {
				if strings.Join(got, " ") == strings.Join(w, " ") {
					return nil
				}
			}
			return core.Failf("order/"+in.Mode, "%s:\n%sbecomes\n%swith %v, want %v", in.Type, b.String(), out, got, wants)
		})
		args := core.NewEval(c, "args", func(in argCase) error {
			text := "# above\n"
			if in.Keep {
				text = "# buildifier: leave-alone\n"
			}
			text += in.Kind + "("
			for _, f := range in.Fixed {
				text += f + ", "
			}
			for i, n := range in.Names {
				text += n + " = " + string(rune('0'+i)) + ", "
			}
			text += ")\n"
			out, err := format(in.Type, text)
			if err != nil {
				return core.Failf("parse", "%v\n%s", err, text)
			}
			t, err := sem.FromStarlark(out)
			if err != nil {
				return core.Failf("output", "%v\n%s", err, out)
			}
			call := find(t, func(x *sem.N) bool { return x.K == "call" })
			var got []string
			for _, a := range call.C[1+len(in.Fixed):] {
				got = append(got, a.String())
			}
			type arg struct {
				p    int
				name string
				s    string
			}
			var l []arg
			for i, n := range in.Names {
				p := tables.NamePriority[n]
				if q, ok := tables.NamePriority[in.Kind+"."+n]; ok {
					p = q
				}
				s, _ := sem.FromStarlark("f(" + n + " = " + string(rune('0'+i)) + ")\n")
				l = append(l, arg{p, n, find(s, func(x *sem.N) bool { return x.K == "call" }).C[1].String()})
			}
			if !in.Keep && in.Type != "bzl" && in.Type != "default" {
				sort.SliceStable(l, func(i, j int) bool { return l[i].p < l[j].p || l[i].p == l[j].p && l[i].name < l[j].name })
			}
			var want []string
			for _, a := range l {
				want = append(want, a.s)
			}
			c.NonTrivial(1)
			if strings.Join(got, " ") != strings.Join(want, " ") {
				return core.Failf("args", "%s: %s becomes %s, want %v", in.Type, text, out, want)
			}
			return nil
		})
		loads := core.NewEval(c, "loads", func(in loadCase) error {
			text := ""
			for i, m := range in.Modules {
				text += "load(\"" + m + "\", \"s" + string(rune('a'+i)) + "\")\n"
			}
			if in.Symbols != nil {
				text = "load(\":x.bzl\", " + strings.Join(in.Symbols, ", ") + ")\n"
			}
			out, err := format(in.Type, text)
			if err != nil {
				return core.Failf("parse", "%v\n%s", err, text)
			}
			if in.Symbols != nil {
				want := append([]string{}, in.Symbols...)
				key := func(s string) string {
					if n, _, ok := strings.Cut(s, " = "); ok {
						return "1" + n
					}
					return "0" + strings.Trim(s, "\"")
				}
				sort.SliceStable(want, func(i, j int) bool { return key(want[i]) < key(want[j]) })
				got := strings.NewReplacer("\n", " ", ",)", ")").Replace(out)
				got = strings.Join(strings.Fields(got), " ")
				got = strings.NewReplacer("( ", "(", ", )", ")").Replace(got)
				if w := "load(\":x.bzl\", " + strings.Join(want, ", ") + ")"; got != w {
					return core.Failf("symbols", "%s becomes\n%swant %s", text, out, w)
				}
				c.NonTrivial(1)
				return nil
			}
			// Explicit repositories first, then packages in the order of their paths, relative labels last; ignoring case.
			key := func(m string) string {
				k := "1"
				if strings.HasPrefix(m, "@") {
					r, rest, _ := strings.Cut(m[1:], "//")
					k = "0" + r + "\x01"
					m = "//" + rest
				}
				if !strings.HasPrefix(m, "//") {
					return k + "\x7f" + strings.ToLower(m) + "\x01" + m
				}
				p, t, ok := strings.Cut(m[2:], ":")
				if !ok {
					t = p[strings.LastIndex(p, "/")+1:]
				}
				sl := strings.NewReplacer("/", "\x02")
				return k + strings.ToLower(sl.Replace(p)) + "\x01" + sl.Replace(p) + "\x01" + strings.ToLower(t) + "\x01" + t
			}
			want := append([]string{}, in.Modules...)
			sort.SliceStable(want, func(i, j int) bool { return key(want[i]) < key(want[j]) })
			var got []string
			for _, l := range strings.Split(out, "\n") {
				if strings.HasPrefix(l, "load(") {
					got = append(got, strings.Split(l, "\"")[1])
				}
			}
			c.NonTrivial(1)
			if strings.Join(got, " ") != strings.Join(want, " ") {
				return core.Failf("loads", "%s: the order is %v, want %v", in.Type, got, want)
			}
			return nil
		})

		type ctx struct{ typ, pre, post, mode string }
		var ctxs []ctx
		for _, ty := range []string{"build", "workspace", "module", "bzl", "default"} {
			buildLike := ty != "bzl" && ty != "default"
			m := func(s string) string {
				if buildLike {
					return s
				}
				return "none"
			}
			ctxs = append(ctxs,
				ctx{ty, "r(srcs = [", "])\n", m("sort")},
				ctx{ty, "r(name = \"n\", srcs = [", "], b = 1)\n", m("sort")},
				ctx{ty, "r(srcs = [", "] + x)\n", m("sort")},
				ctx{ty, "r(srcs = x + [", "])\n", m("sort")},
				ctx{ty, "r(srcs = select({\"//c\": [", "]}))\n", m("sort")},
				ctx{ty, "r(srcs = x + select({\"//c\": [", "]}) + y)\n", m("sort")},
				ctx{ty, "r(srcs = glob([", "]))\n", "none"},
				ctx{ty, "r(srcs = f([", "]))\n", "none"},
				ctx{ty, "r(srcs = x - [", "])\n", "none"},
				ctx{ty, "r(args = [", "])\n", "none"},
				ctx{ty, "r(copts = [", "])\n", "none"},
				ctx{ty, "genrule(srcs = [", "])\n", "genrule"},
				ctx{ty, "x = [", "]\n", "none"},
				ctx{ty, "f([", "])\n", "none"},
				ctx{ty, "# keep sorted\nx = [", "]\n", "sort"},
				ctx{ty, "# Keep Sorted, please\nx = [", "]\n", "sort"},
				ctx{ty, "x = [\n# keep sorted\n", "]\n", "force"},
				ctx{ty, "f([\n# keep sorted\n", "])\n", "force"},
				ctx{ty, "r(args = [\n# keep sorted\n", "])\n", "force"},
				ctx{ty, "r(srcs = [\n# keep sorted\n", "])\n", "force"},
				ctx{ty, "d = {\n# keep sorted\n\"k\": [", "]}\n", "sort"},
				ctx{ty, "r(\n# keep sorted\nargs = [", "])\n", "sort"},
				ctx{ty, "r(srcs = [\n# do not sort\n", "])\n", m("dedup")},
				ctx{ty, "r(\n# do not sort\nsrcs = [", "])\n", m("dedup")},
				ctx{ty, "# buildifier: leave-alone\nr(srcs = [", "])\n", "none"},
				ctx{ty, "r(\n# buildifier: leave-alone\nsrcs = [", "])\n", "none"},
				ctx{ty, "# about\nr(srcs = [", "])\n", m("sort")},
				ctx{ty, "r(\n# about\nsrcs = [", "])\n", m("sort")},
				ctx{ty, "r(srcs = [", "])  # about\n", m("sort")},
			)
			if ty == "module" {
				ctxs = append(ctxs, ctx{ty, "use_repo(ext, ", ")\n", "force"}, ctx{ty, "# do not sort\nuse_repo(ext, ", ")\n", "dedup"}, ctx{ty, "use_repo(ext,\n# do not sort\n", ")\n", "dedup"})
			}
		}
		for i := range ctxs {
			if ctxs[i].mode == "genrule" {
				ctxs[i].mode = "none"
				if ctxs[i].typ != "bzl" && ctxs[i].typ != "default" && tables.IsSortableListArg["srcs"] && !tables.SortableDenylist["genrule.srcs"] {
					ctxs[i].mode = "sort"
				}
			}
		}
		core.Stream(c, func(emit func(listCase) bool) {
			put := func(l []Elem) bool {
				for _, x := range ctxs {
					if strings.Contains(x.pre, "use_repo") {
						ok := true
						for i, e := range l {
							ok = ok && e.str() && (i > 0 || e.Sep == "")
						}
						if !ok {
							continue
						}
					}
					if !emit(listCase{x.typ, x.pre, x.post, x.mode, append([]Elem{}, l...)}) {
						return false
					}
				}
				return true
			}
			words := []string{`"b"`, `"a"`, `":b"`, `":a"`, `"//b"`, `"//a:c"`, `"@b"`, `"a.b"`, `"a-b"`, `"a/b"`, `"B"`, "x"}
			n := c.Pick(3, 4)
			var rec func(l []Elem) bool
			rec = func(l []Elem) bool {
				if len(l) > 1 && !put(l) {
					return false
				}
				if len(l) == n {
					return true
				}
				for _, w := range words {
					if !rec(append(l, Elem{w, ""})) {
						return false
					}
				}
				return true
			}
			if !rec(nil) {
				return
			}
			c.Bound("all lists of 2 to %d of %d elements in %d contexts", n, len(words), len(ctxs))
			few := []Elem{{`"b"`, ""}, {`"a"`, ""}, {`":a"`, ""}, {`"b"`, "blank"}, {`"a"`, "blank"}, {`"b"`, "comment"}, {`"a"`, "comment"}, {"x", ""}, {"f(1)", ""}}
			n = c.Pick(4, 5)
			var rec2 func(l []Elem) bool
			rec2 = func(l []Elem) bool {
				if len(l) > 1 && !put(l) {
					return false
				}
				if len(l) == n {
					return true
				}
				for _, e := range few {
					if len(l) == 0 && e.Sep != "" {
						continue
					}
					if !rec2(append(l, e)) {
						return false
					}
				}
				return true
			}
			if !rec2(nil) {
				return
			}
			c.Bound("all lists of 2 to %d of %d elements with blank lines and comments in %d contexts", n, len(few), len(ctxs))
			// long lists
			var long []Elem
			for _, i := range []int{7, 3, 11, 0, 5, 9, 1, 13, 2, 8, 12, 4, 10, 6} {
				long = append(long, Elem{"\"" + string(rune('a'+i)) + "\"", ""})
			}
			for i := range long {
				for j := range long {
					l := append([]Elem{}, long...)
					l[i] = Elem{long[j].Text, ""}
					for _, w := range []string{"x", `":a"`, `"//c"`} {
						l2 := append([]Elem{}, l...)
						l2[j] = Elem{w, ""}
						if !put(l2) {
							return
						}
					}
				}
			}
			c.Bound("lists of 14 elements with 2 changes")
		}, func(x listCase) { lists.Do(x) })
		core.Stream(c, func(emit func(argCase) bool) {
			names := []string{"name", "srcs", "deps", "b", "a", "visibility", "testonly", "version", "Z", "alwayslink", "size", "module_name"}
			var rec func(l []string) bool
			n := c.Pick(4, 5)
			rec = func(l []string) bool {
				if len(l) > 1 {
					for _, ty := range []string{"build", "module", "workspace", "bzl", "default"} {
						for _, kind := range []string{"r", "module", "bazel_dep", "a.b", "git_override"} {
							for _, fixed := range [][]string{nil, {"p"}, {"q", "p"}} {
								if (kind != "r" || len(l) > 3) && len(fixed) > 0 {
									continue
								}
								if !emit(argCase{ty, kind, fixed, append([]string{}, l...), false}) {
									return false
								}
							}
						}
						if !emit(argCase{ty, "r", nil, append([]string{}, l...), true}) {
							return false
						}
					}
				}
				if len(l) == n {
					return true
				}
			next:
				for _, w := range names {
					for _, x := range l {
						if x == w {
							continue next
						}
					}
					if !rec(append(l, w)) {
						return false
					}
				}
				return true
			}
			rec(nil)
			c.Bound("all sequences of 2 to %d of %d distinct named arguments in 5 kinds of calls and 5 file types", n, len(names))
		}, func(x argCase) { args.Do(x) })
		core.Stream(c, func(emit func(loadCase) bool) {
			mods := []string{":a.bzl", ":b.bzl", "//a:b.bzl", "//a/c:a.bzl", "//:z.bzl", "//a-b:a.bzl", "@r//a:a.bzl", "@q//:z.bzl", "@r//:z.bzl", "//A/b:a.bzl", "//a:B.bzl", "//a:a/c.bzl", "@@r//a:a.bzl"}
			mods = mods[:12]
			n := c.Pick(3, 4)
			var rec func(l []string) bool
			rec = func(l []string) bool {
				if len(l) > 1 {
					for _, ty := range []string{"build", "bzl", "workspace", "default"} {
						if !emit(loadCase{ty, append([]string{}, l...), nil}) {
							return false
						}
					}
				}
				if len(l) == n {
					return true
				}
			next:
				for _, w := range mods {
					for _, x := range l {
						if x == w {
							continue next
						}
					}
					if !rec(append(l, w)) {
						return false
					}
				}
				return true
			}
			if !rec(nil) {
				return
			}
			c.Bound("all sequences of 2 to %d of %d loads", n, len(mods))
			syms := []string{`"b"`, `"a"`, `"C"`, `d = "x"`, `c = "x"`, `"aa"`, `e = "a"`}
			var rec2 func(l []string) bool
			rec2 = func(l []string) bool {
				if len(l) > 0 {
					for _, ty := range []string{"build", "bzl"} {
						if !emit(loadCase{ty, nil, append([]string{}, l...)}) {
							return false
						}
					}
				}
				if len(l) == 5 {
					return true
				}
			next:
				for _, w := range syms {
					for _, x := range l {
						if x == w {
							continue next
						}
					}
					if !rec2(append(l, w)) {
						return false
					}
				}
				return true
			}
			rec2(nil)
			c.Bound("all sequences of <=5 of %d loaded symbols", len(syms))
		}, func(x loadCase) { loads.Do(x) })

	}}
