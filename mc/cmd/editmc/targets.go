package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"

	"go.starlark.net/syntax"

	"github.com/bazelbuild/buildtools/edit"

	"verif/mc/core"
)

// A call is an outermost call expression of a file (one that isn't an argument of another call).
type call struct {
	kind, name string
	line       int // where the callee starts
	fnEnd      int
	lparen     int
	top        bool // the call is a statement of the file
	strs       []string
	empty      bool
	zz         string // value of the marker attribute
}

func dotted(e syntax.Expr) string {
	switch e := e.(type) {
	case *syntax.Ident:
		return e.Name
	case *syntax.DotExpr:
		if x := dotted(e.X); x != "" {
			return x + "." + e.Name.Name
		}
	}
	return ""
}

func callsOf(text string) ([]call, error) {
	f, err := syntax.Parse("ref", text, 0)
	if err != nil {
		return nil, err
	}
	var r []call
	top := map[syntax.Node]bool{}
	for _, s := range f.Stmts {
		if e, ok := s.(*syntax.ExprStmt); ok {
			top[e.X] = true
		}
	}
	for _, s := range f.Stmts {
		syntax.Walk(s, func(n syntax.Node) bool {
			c, ok := n.(*syntax.CallExpr)
			if !ok {
				return true
			}
			st, en := c.Fn.Span()
			x := call{kind: dotted(c.Fn), line: int(st.Line), fnEnd: int(en.Line), lparen: int(c.Lparen.Line), top: top[c], empty: len(c.Args) == 0}
			for i, a := range c.Args {
				if b, ok := a.(*syntax.BinaryExpr); ok && b.Op == syntax.EQ {
					if id, ok := b.X.(*syntax.Ident); ok {
						if l, ok := b.Y.(*syntax.Literal); ok {
							if id.Name == "name" && l.Token == syntax.STRING {
								x.name = l.Value.(string)
							}
							if id.Name == "zz" {
								x.zz = l.Raw
							}
						}
					}
				} else if l, ok := a.(*syntax.ListExpr); ok && i == 0 {
					for _, e := range l.List {
						if s, ok := e.(*syntax.Literal); ok && s.Token == syntax.STRING {
							x.strs = append(x.strs, s.Value.(string))
						}
					}
				}
			}
			r = append(r, x)
			return false
		})
	}
	sort.SliceStable(r, func(i, j int) bool { return false })
	return r, nil
}

// resolve is the documented meaning of a target: indexes of calls, or synth if the package() declaration has to be created.
func resolve(cs []call, t, dir string) (idx []int, synth, found bool) {
	line, lerr := -1, error(nil)
	if strings.HasPrefix(t, "%") {
		line, lerr = strconv.Atoi(t[1:])
		if lerr != nil {
			line = -1
		}
	}
	if t == "__pkg__" {
		for i, c := range cs {
			if c.top && c.kind == "package" {
				return []int{i}, false, true
			}
		}
		return nil, true, true
	}
	// The only unnamed rule of a file is called like the directory, unless another rule has that name.
	unnamed, taken := -1, false
	for i, c := range cs {
		if !c.top {
			continue
		}
		if c.name == dir {
			taken = true
		}
		if c.kind != "" && c.name == "" {
			if unnamed >= 0 {
				unnamed = -2
			} else if unnamed == -1 {
				unnamed = i
			}
		}
	}
	if unnamed >= 0 && cs[unnamed].kind == "package" {
		unnamed = -1 // package() is never called like the directory
	}
	for i, c := range cs {
		if c.top && (c.name == t || c.line == line || t == dir && i == unnamed && !taken) {
			return []int{i}, false, true
		}
	}
	for i, c := range cs {
		if c.kind == "exports_files" {
			for _, s := range c.strs {
				if s == t {
					return []int{i}, false, true
				}
			}
		}
	}
	if t == "all" || t == "*" {
		for i := range cs {
			idx = append(idx, i)
		}
		return idx, false, true
	}
	if line >= 0 {
		for i, c := range cs {
			if c.line <= line && line <= c.fnEnd {
				idx = append(idx, i)
			}
		}
		return idx, false, len(idx) == 1
	}
	if strings.HasPrefix(t, "%") {
		for i, c := range cs {
			if t == "%" || c.kind == t[1:] {
				idx = append(idx, i)
			}
		}
		return idx, false, true
	}
	return nil, false, false
}

var c15 = &core.Check{ID: "C15", Level: "model_checking", Guard: true,
	Run: func(c *core.Ctx) {
		type In struct {
			Text, Target, Types string
		}
		ev := core.NewEval(c, "target", func(in In) error {
			cs, err := callsOf(in.Text)
			if err != nil {
				return nil
			}
			idx, synth, found := resolve(cs, in.Target, "pkg")
			var types []string
			if in.Types != "" {
				types = strings.Split(in.Types, ",")
			}
			keep := func(k string) bool {
				for _, t := range types {
					if t == k {
						return true
					}
				}
				return len(types) == 0
			}
			var want []int
			for _, i := range idx {
				if keep(cs[i].kind) {
					want = append(want, i)
				}
			}
			synth = synth && keep("package")
			opt := func(o *edit.Options) { o.FilterRuleTypes = types }
			files := map[string]string{buildFile: in.Text}
			r := buildozer(files, []string{"print kind startline", "//pkg:" + in.Target}, opt)
			if r.Files[buildFile] != in.Text || len(r.Writes) != 0 {
				return failf("print-writes", "print changed the file")
			}
			if !found {
				if r.RC != 2 || r.Out != "" || !strings.Contains(r.Err, "not found") {
					return failf("not-found", "an error is expected: exit code %d, stdout %q, stderr %q", r.RC, r.Out, r.Err)
				}
				return nil
			}
			var b strings.Builder
			for _, i := range want {
				fmt.Fprintf(&b, "%s %d\n", cs[i].kind, cs[i].lparen)
			}
			if synth {
				b.WriteString("package 0\n")
			}
			if r.RC != 0 || r.Out != b.String() || r.Err != "" {
				return failf("addressed", "the target addresses\n%swant\n%s(exit code %d, stderr %q)", r.Out, b.String(), r.RC, r.Err)
			}
			if len(want) > 0 {
				c.NonTrivial(1)
			}
			// A command changes exactly the addressed rules.
			r = buildozer(files, []string{"set zz 1", "//pkg:" + in.Target}, opt)
			now, err := callsOf(r.Files[buildFile])
			if err != nil {
				return failf("syntax", "the file does not parse any more: %v\n%s", err, r.Files[buildFile])
			}
			c.Outcome([]byte(r.Files[buildFile]))
			if synth {
				var rest []call
				n := 0
				for _, x := range now {
					if x.kind == "package" && x.top && x.zz == "1" {
						n++
						continue
					}
					rest = append(rest, x)
				}
				if n != 1 {
					return failf("pkg", "no package(zz = 1) declaration\n%s", r.Files[buildFile])
				}
				now = rest
			} else {
				// An empty package() is removed when a file is written.
				keepEmpty := cs[:0:0]
				renum := map[int]int{}
				for i, x := range cs {
					isWanted := false
					for _, w := range want {
						isWanted = isWanted || w == i
					}
					if x.kind == "package" && x.top && len(want) > 0 && !isWanted && x.empty {
						continue
					}
					renum[i] = len(keepEmpty)
					keepEmpty = append(keepEmpty, x)
				}
				if len(keepEmpty) != len(cs) {
					cs = keepEmpty
					for k := range want {
						want[k] = renum[want[k]]
					}
				}
			}
			if len(now) != len(cs) {
				return failf("changed", "%d calls before, %d afterwards\n%s", len(cs), len(now), r.Files[buildFile])
			}
			for i := range now {
				marked := now[i].zz == "1"
				should := false
				for _, w := range want {
					should = should || w == i
				}
				if marked != should || now[i].kind != cs[i].kind || now[i].name != cs[i].name {
					return failf("changed", "call %d (%s %s): changed %v, addressed %v\n%s", i, cs[i].kind, cs[i].name, marked, should, r.Files[buildFile])
				}
			}
			return nil
		})
		stmts := []string{
			"cc_library(name = \"a\")", "cc_library(\n    name = \"b\",\n    srcs = f(name = \"x\"),\n)", "m(\n    name = \"a\",\n)", "a.b(name = \"c\")", "m(name = \"pkg\")", "m(x = 1)", "m()", "package(v = [\"a\"])", "package()",
			"exports_files([\n    \"a\",\n    \"e.txt\",\n])", "[m(name = n) for n in [\"b\", \"c\"]]", "# comment\nm(name = \"d\")  # b", "x = m(name = \"b\")", "if x:\n    cc_library(name = \"i\")\nelse:\n    m(name = \"b\")", "def f():\n    m(name = \"b\")",
			"m(name = \"all\")", "m(name = \"*\")", "load(\":x.bzl\", \"y\")", "\"\"\"doc\"\"\"", "a.\\\n  b(name = \"l\")", "m(name = \"e.txt\", q = [\"a\"])", "m(name = n)", "[m, n][0](name = \"k\")", "workspace(name = \"w\")", "m(name = \"a\") ; cc_library(name = \"b\")", "m(name = \"__pkg__\")", "f(1)(name = \"g\")", "m(\"a\", name = \"%m\")",
		}
		targets := []string{"a", "b", "c", "all", "*", "%m", "%cc_library", "%a.b", "%package", "%", "__pkg__", "pkg", "e.txt", "%1", "%2", "%3", "%4", "nosuch", "%f", "w", "%99", "k", "%b", "i"}
		types := []string{"", "m", "cc_library,package", "nosuch"}
		n := c.Pick(2, 3)
		core.Stream(c, func(emit func(In) bool) {
			var rec func(k int, text string) bool
			rec = func(k int, text string) bool {
				if k > 0 {
					for _, t := range targets {
						for _, ty := range types {
							if k == 3 && ty != "" {
								continue
							}
							if !emit(In{text, t, ty}) {
								return false
							}
						}
					}
				}
				if k == n {
					return true
				}
				for _, s := range stmts {
					if !rec(k+1, text+s+"\n") {
						return false
					}
				}
				return true
			}
			if rec(0, "") {
				c.Bound("all files of <=%d of %d statements x %d targets x %d type filters", n, len(stmts), len(targets), len(types))
			}
		}, func(in In) { ev.Do(in) })
		external(c)
		spellings(c)
		paths(c)
	}}

// paths explores which file a package pattern addresses.
func paths(c *core.Ctx) {
	type In struct {
		Tree   map[string]string
		Target string
		Cwd    string
	}
	names := []string{"BUILD.bazel", "BUILD", "BUCK"}
	pick := func(t map[string]string, dir string) string {
		for _, n := range names {
			p := strings.TrimPrefix(dir+"/"+n, "/")
			if _, ok := t[p]; ok {
				return p
			}
		}
		return ""
	}
	ev := core.NewEval(c, "path", func(in In) error {
		want := map[string]bool{}
		fails := false
		t := strings.TrimSuffix(in.Target, ":t")
		if in.Cwd != "" && !strings.HasPrefix(t, "//") {
			t = "//" + strings.TrimPrefix(in.Cwd+"/"+t, "/")
		}
		dir := strings.TrimPrefix(t, "//")
		switch {
		case strings.HasSuffix(dir, "..."):
			dir = strings.TrimSuffix(strings.TrimSuffix(dir, "..."), "/")
			for _, d := range []string{"", "a", "a/b", "a/b/c"} {
				if dir == "" || d == dir || strings.HasPrefix(d, dir+"/") {
					if p := pick(in.Tree, d); p != "" {
						want[p] = true
					}
				}
			}
		case in.Tree[dir] != "":
			want[dir] = true
		default:
			if p := pick(in.Tree, dir); p != "" {
				want[p] = true
			} else {
				fails = true
			}
		}
		w := getWorld()
		w.set(in.Tree)
		if in.Cwd != "" {
			os.MkdirAll(w.root+"/"+in.Cwd, 0755)
			os.Chdir(w.root + "/" + in.Cwd)
		}
		r := w.run([]string{"new m fresh", "set zz 1", in.Target}, func(o *edit.Options) {
			if in.Cwd != "" {
				o.RootDir = ""
			}
		})
		pool <- w
		var fixed []string
		for _, l := range strings.Split(r.Err, "\n") {
			if s, ok := strings.CutPrefix(l, "fixed ROOT/"); ok {
				fixed = append(fixed, s)
			}
		}
		sort.Strings(fixed)
		wl := sortedKeys(want)
		ws := append([]string{}, r.Writes...)
		sort.Strings(ws)
		for p, text := range r.Files {
			if want[p] && (strings.Count(text, "fresh") != 1 || !strings.Contains(text, "zz") || r.RC != 0) {
				return failf("once", "the commands are not executed exactly once on %s: exit code %d, stderr %q\n%s", p, r.RC, r.Err, text)
			}
		}
		if fails {
			if r.RC != 2 || len(ws) > 0 {
				return failf("not-found", "an error is expected: exit code %d, writes %v", r.RC, ws)
			}
			return nil
		}
		if join(wl) != join(ws) || join(wl) != join(fixed) {
			return failf("files", "edits %v, reports %v, want %v (exit code %d, stderr %q)", ws, fixed, wl, r.RC, r.Err)
		}
		c.NonTrivial(1)
		return nil
	})
	var trees []map[string]string
	dirs := []string{"", "a/", "a/b/", "a/b/c/"}
	for bits := 0; bits < 1<<9; bits++ {
		t := map[string]string{}
		for d := 0; d < 3; d++ {
			for k, n := range names {
				if bits>>(d*3+k)&1 == 1 {
					t[dirs[d]+n] = "m(name = \"t\")\n"
				}
			}
		}
		trees = append(trees, t)
		if bits%8 == 1 {
			u := map[string]string{"a/b/c/BUILD": "m(name = \"t\")\n", "a/extra.bzl": "m(name = \"t\")\n"}
			for k, v := range t {
				u[k] = v
			}
			trees = append(trees, u)
		}
	}
	core.Stream(c, func(emit func(In) bool) {
		for _, tr := range trees {
			for _, t := range []string{"//:t", "//a:t", "//a/b:t", "//...:t", "//a/...:t", "//a/b/...:t", "//a/extra.bzl:t", "//nosuch:t"} {
				emit(In{tr, t, ""})
			}
		}
	}, func(in In) { ev.Do(in) })
	// Relative packages: one working directory at a time.
	if c.Replaying() {
		return
	}
	c.Par(1, func(int) {
		for _, tr := range trees {
			if c.Expired() {
				return
			}
			for _, t := range []string{"b:t", "//a/b:t", "b/...:t", "//...:t", "extra.bzl:t"} {
				ev.Do(In{tr, t, "a"})
			}
		}
		os.Chdir("/")
	})
	c.Bound("%d trees of BUILD.bazel, BUILD and BUCK files in 3-4 directories x 8 absolute and 5 relative package patterns", len(trees))
}
