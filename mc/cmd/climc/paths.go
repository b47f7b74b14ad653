package main

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/buildifier/utils"
	"github.com/bazelbuild/buildtools/wspace"
	"verif/mc/core"
)

// typeOf is the type of a file by its name.
func typeOf(name string) build.FileType {
	if name == "" {
		return build.TypeDefault
	}
	l := strings.Split(strings.ToLower(path.Base(name)), ".")
	n := len(l)
	if n > 1 && l[n-1] == "oss" {
		n--
		l = l[:n]
	}
	if n > 1 && l[n-2] == "module" && l[n-1] == "bazel" {
		return build.TypeModule
	}
	if n > 1 {
		switch l[n-1] {
		case "bzl":
			return build.TypeBzl
		case "sky":
			return build.TypeDefault
		case "build":
			return build.TypeBuild
		}
	}
	if l[0] == "build" {
		return build.TypeBuild
	}
	if n > 1 && l[n-1] == "workspace" || l[0] == "workspace" {
		return build.TypeWorkspace
	}
	return build.TypeDefault
}

// what may be in a directory
type marker struct {
	ws, pkg bool     // makes it the root of a workspace or package
	files   []string // dir: /, executable: *, link: @
}

var markers = []marker{
	{},
	{true, false, []string{"WORKSPACE"}},
	{true, false, []string{"WORKSPACE.bazel"}},
	{true, false, []string{"MODULE.bazel"}},
	{true, false, []string{"REPO.bazel"}},
	{true, false, []string{".buckconfig"}},
	{true, false, []string{"*pants"}},
	{false, false, []string{"pants"}},
	{false, true, []string{"BUILD"}},
	{false, true, []string{"BUILD.bazel"}},
	{false, false, []string{"/WORKSPACE", "/BUILD"}},
	{true, true, []string{"/WORKSPACE", "@MODULE.bazel", "/BUILD", "@BUILD.bazel"}},
	{true, true, []string{"WORKSPACE", "BUILD.bazel"}},
	{true, true, []string{"MODULE.bazel", "BUILD"}},
	{false, false, []string{"BUILD.foo", "workspace", "build", "WORKSPACE.oss", "module.bazel"}},
}

func makeMarker(dir string, m marker) error {
	for _, f := range m.files {
		p := filepath.Join(dir, strings.TrimLeft(f, "/*@"))
		var err error
		switch f[0] {
		case '/':
			err = os.Mkdir(p, 0777)
		case '*':
			err = os.WriteFile(p, nil, 0755)
		case '@':
			err = os.Symlink("/dev/null", p+".target")
			if err == nil {
				os.Remove(p + ".target")
				if err = os.WriteFile(p+".target", nil, 0644); err == nil {
					err = os.Symlink(p+".target", p)
				}
			}
		default:
			err = os.WriteFile(p, nil, 0644)
		}
		if err != nil {
			return err
		}
	}
	return nil
}

type splitCase struct {
	Dirs []int // markers of d0, d0/d1, ...
	CLI  string
}

var stray sync.Once

func split(c *core.Ctx, in splitCase) error {
	s, err := newScratch()
	if err != nil {
		return err
	}
	defer s.remove()
	if w, _, _ := wspace.SplitFilePath(s.path("x.bzl")); w != "" {
		stray.Do(func() { fmt.Fprintf(os.Stderr, "there is a workspace around the scratch directory: %s\n", w) })
		return nil
	}
	dir := s.path("")
	ws, pkg := "", ""
	for i, m := range in.Dirs {
		dir = filepath.Join(dir, fmt.Sprintf("d%d", i))
		if err := os.Mkdir(dir, 0777); err != nil {
			return err
		}
		if err := makeMarker(dir, markers[m]); err != nil {
			return err
		}
		if markers[m].ws {
			ws = dir
			pkg = ""
		}
		if markers[m].pkg {
			pkg = dir
		}
	}
	file := filepath.Join(dir, "f.bzl")
	wantPkg, wantLabel, rest := "", "", ""
	if ws != "" {
		if pkg == "" {
			pkg = ws
		}
		if pkg != ws {
			wantPkg = pkg[len(ws)+1:]
		}
		wantLabel = file[len(pkg)+1:]
		if dir != ws {
			rest = dir[len(ws)+1:]
		}
	}
	c.NonTrivial(1)
	if in.CLI == "" {
		if a, b, l := wspace.SplitFilePath(file); a != ws || b != wantPkg || l != wantLabel {
			return core.Failf("split", "%v: got %q %q %q, want %q %q %q", in.Dirs, a, b, l, ws, wantPkg, wantLabel)
		}
		if a, b := wspace.FindWorkspaceRoot(dir); a != ws || b != rest {
			return core.Failf("root", "%v: got %q %q, want %q %q", in.Dirs, a, b, ws, rest)
		}
		if a, b := wspace.FindWorkspaceRoot(filepath.Join(dir, "missing")); ws != "" && (a != ws || b != strings.TrimPrefix(rest+"/missing", "/")) {
			return core.Failf("root", "%v: got %q %q, want %q %q", in.Dirs, a, b, ws, rest)
		}
		return nil
	}
	// the file as the linter sees it
	if err := os.WriteFile(file, []byte("load(\"//foo/internal:x.bzl\", \"x\")\n\nx()\n"), 0644); err != nil {
		return err
	}
	sub, _ := filepath.Rel(s.path(""), dir)
	arg := "f.bzl"
	stdin := ""
	var extra []string
	switch in.CLI {
	case "absolute":
		arg = file
	case "parent":
		arg, sub = filepath.Join(filepath.Base(dir), "f.bzl"), filepath.Dir(sub)
	case "dots":
		arg = "./../" + filepath.Base(dir) + "//f.bzl"
	case "path":
		arg, stdin = "", "load(\"//foo/internal:x.bzl\", \"x\")\n\nx()\n"
		extra = []string{"-path=f.bzl"}
	case "other":
		arg = "f.bzl"
		sub = "."
		extra = []string{"-path=" + file}
		if err := s.write("f.bzl", "load(\"//foo/internal:x.bzl\", \"x\")\n\nx()\n"); err != nil {
			return err
		}
	}
	args := append([]string{"-config=off", "-mode=check", "-lint=warn", "-warnings=bzl-visibility"}, extra...)
	if arg != "" {
		args = append(args, arg)
	}
	r, err := s.run("buildifier", sub, stdin, nil, args...)
	if err != nil {
		return err
	}
	from := "//" + wantPkg + "/" + wantLabel
	if wantPkg == "" {
		from = "//" + wantLabel
	}
	if r.Code != 4 || !strings.Contains(r.Err, "not from \""+from+"\"") {
		return core.Failf("cli", "%v: buildifier %q in %s: want %q, got %d %q", in.Dirs, args, sub, from, r.Code, r.Err)
	}
	return nil
}

func filetype(c *core.Ctx, name string) error {
	f, err := build.Parse(name, []byte("x = 1\n"))
	if err != nil {
		return core.Failf("parse", "%q: %v", name, err)
	}
	c.NonTrivial(1)
	if want := typeOf(name); f.Type != want || f.Path != name {
		return core.Failf("type", "%q: got %v, want %v", name, f.Type, want)
	}
	return nil
}

var c25 = &core.Check{ID: "C25", Level: "model_checking",
	Run: func(c *core.Ctx) {
		tool("buildifier")
		ft := core.NewEval(c, "type", func(in string) error { return filetype(c, in) })
		sp := core.NewEval(c, "split", func(in splitCase) error { return split(c, in) })
		words := []string{"build", "BUILD", "Build", "workspace", "WORKSPACE", "module", "MODULE", "bazel", "BAZEL", "oss", "bzl", "sky", "star", "foo", "", "build_defs", "xbuild", "bzlx"}
		core.Stream(c, func(emit func(string) bool) {
			var rec func(p string, n int) bool
			rec = func(p string, n int) bool {
				for _, d := range []string{"", "p/", "/BUILD/", "x.bzl/"} {
					if p != "" && p != "." && p != ".." && !emit(d+p) {
						return false
					}
				}
				if n == 0 {
					return true
				}
				for _, w := range words {
					q := w
					if p != "" {
						q = p + "." + w
					}
					if !rec(q, n-1) {
						return false
					}
				}
				return true
			}
			emit("")
			rec("", c.Pick(3, 4))
		}, func(x string) { ft.Do(x) })
		core.Stream(c, func(emit func(splitCase) bool) {
			var rec func(l []int, n int) bool
			rec = func(l []int, n int) bool {
				if len(l) > 0 && !emit(splitCase{Dirs: l}) {
					return false
				}
				for i := range markers {
					if n > 0 && !rec(append(l[:len(l):len(l)], i), n-1) {
						return false
					}
				}
				return true
			}
			if !rec(nil, c.Pick(3, 4)) {
				return
			}
			for a := range markers {
				for b := range markers {
					for _, x := range []string{"relative", "absolute", "parent", "dots", "path", "other"} {
						if (markers[a].ws || markers[b].ws) && !emit(splitCase{Dirs: []int{a, b}, CLI: x}) {
							return
						}
						for d := range markers {
							if c.Thorough() && (markers[a].ws || markers[b].ws || markers[d].ws) && !emit(splitCase{Dirs: []int{a, b, d}, CLI: x}) {
								return
							}
						}
					}
				}
			}
		}, func(x splitCase) { sp.Do(x) })
		c.Bound("names of <= %d of %d words in 4 directories; chains of <= %d directories with %d kinds of contents; buildifier with 6 ways to name the file in chains of %d", c.Pick(3, 4), len(words), c.Pick(3, 4), len(markers), c.Pick(2, 3))
	}}

// An entry of a directory.
type entry struct {
	Name string
	Kind string // file, dir, link, linkdir, git
	Sub  []entry
}

var entryNames = []string{"BUILD", "BUILD.bazel", "BUILD.oss", "BUILD.x.bazel", "WORKSPACE", "WORKSPACE.bazel", "WORKSPACE.y.oss", "MODULE.bazel", "MODULE.oss", "a.bzl", "a.sky", "b.star", "a.bazel", "BUILD.txt", "build", "build.bzl", ".bzl", "c.BZL", "x.build", "WORKSPACEX", "BUILDX.bazel", "a.bzl.oss", "BUILD.gn"}

func starlark(name string) bool {
	l := strings.Split(name, ".")
	last := l[len(l)-1]
	if len(l) > 1 && (last == "bzl" || last == "sky" || last == "star") {
		return true
	}
	if len(l) == 1 {
		return name == "BUILD" || name == "WORKSPACE"
	}
	return (last == "bazel" || last == "oss") && (l[0] == "BUILD" || l[0] == "WORKSPACE" || l[0] == "MODULE")
}

type treeCase struct {
	L    []entry
	Args []string
	CLI  bool
}

func makeTree(dir string, l []entry) error {
	for _, e := range l {
		p := filepath.Join(dir, e.Name)
		var err error
		switch e.Kind {
		case "file":
			err = os.WriteFile(p, []byte("x=1\n"), 0644)
		case "dir":
			if err = os.Mkdir(p, 0777); err == nil {
				err = makeTree(p, e.Sub)
			}
		case "linkdir":
			err = os.Symlink(".", p)
		}
		if err != nil {
			return err
		}
	}
	return nil
}

// expand lists the files in the order of their names.
func expand(dir string, l []entry) []string {
	l = append([]entry{}, l...)
	sort.Slice(l, func(i, j int) bool { return l[i].Name < l[j].Name })
	var r []string
	for _, e := range l {
		p := filepath.Join(dir, e.Name)
		switch {
		case e.Kind == "dir" && e.Name != ".git":
			r = append(r, expand(p, e.Sub)...)
		case e.Kind == "file" && starlark(e.Name):
			r = append(r, p)
		}
	}
	return r
}

func find(l []entry, p string) (*entry, bool) {
	if p == "" || p == "." {
		return &entry{Name: "", Kind: "dir", Sub: l}, true
	}
	part, rest, _ := strings.Cut(p, "/")
	for i, e := range l {
		if e.Name == part {
			if rest == "" {
				return &l[i], true
			}
			if e.Kind == "dir" {
				return find(e.Sub, rest)
			}
		}
	}
	return nil, false
}

func tree(c *core.Ctx, in treeCase) error {
	s, err := newScratch()
	if err != nil {
		return err
	}
	defer s.remove()
	if err := makeTree(s.path(""), in.L); err != nil {
		return err
	}
	var want []string
	bad := false
	root := s.path("")
	var args []string
	for _, a := range in.Args {
		base := a
		if !in.CLI {
			base = filepath.Join(root, a)
		}
		args = append(args, base)
		e, ok := find(in.L, strings.Trim(strings.TrimPrefix(a, "./"), "/"))
		if !ok {
			bad = true
			break
		}
		if e.Kind == "dir" {
			if filepath.Base(base) == ".git" {
				continue
			}
			want = append(want, expand(base, e.Sub)...)
		} else {
			want = append(want, base)
		}
	}
	c.NonTrivial(1)
	if !in.CLI {
		got, err := utils.ExpandDirectories(&args)
		if bad != (err != nil) {
			return core.Failf("error", "%+v: %v", in, err)
		}
		if !bad && strings.Join(got, " ") != strings.Join(want, " ") {
			return core.Failf("expand", "%+v: got %q, want %q", in, got, want)
		}
		return nil
	}
	before := s.files()
	r, err := s.run("buildifier", "", "", nil, append([]string{"-r", "-config=off", "-mode=check"}, args...)...)
	if err != nil {
		return err
	}
	var lines string
	for _, x := range want {
		lines += x + " # reformat\n"
	}
	code := 4
	if len(want) == 0 {
		code = 0
	}
	if bad {
		if r.Code != 3 || r.Out != "" {
			return core.Failf("cli-error", "%+v: %d %q %q", in, r.Code, r.Out, r.Err)
		}
	} else if r.Code != code || r.Err != lines || r.Out != "" {
		return core.Failf("cli", "%+v: got %d %q, want %d %q", in, r.Code, r.Err, code, lines)
	}
	if d := diffFiles(before, s.files()); d != "" {
		return core.Failf("cli-files", "%+v: %s", in, d)
	}
	r, err = s.run("buildifier", "", "", nil, append([]string{"-r", "-config=off"}, args...)...)
	if err != nil {
		return err
	}
	if bad {
		want = nil
	} else if r.Code != 0 || r.Err != "" || r.Out != "" {
		return core.Failf("cli-fix", "%+v: %d %q %q", in, r.Code, r.Out, r.Err)
	}
	for _, x := range want {
		before[filepath.Clean(x)] = "x = 1\n"
	}
	if d := diffFiles(before, s.files()); d != "" {
		return core.Failf("cli-fix", "%+v: %s", in, d)
	}
	return nil
}

var c26 = &core.Check{ID: "C26", Level: "model_checking",
	Run: func(c *core.Ctx) {
		tool("buildifier")
		ev := core.NewEval(c, "tree", func(in treeCase) error { return tree(c, in) })
		core.Stream(c, func(emit func(treeCase) bool) {
			var some []entry
			for _, n := range entryNames {
				some = append(some, entry{n, "file", nil})
			}
			in := []entry{{"a.bzl", "file", nil}, {"BUILD", "file", nil}, {"c", "file", nil}}
			for _, n := range []string{"d", "BUILD", "x.bzl", ".git", ".d", "git", "d.git", "A"} {
				some = append(some, entry{n, "dir", in}, entry{n, "dir", []entry{{"e", "dir", in}, {".git", "dir", in}, {"z.star", "file", nil}}})
			}
			some = append(some, entry{"l", "linkdir", nil}, entry{".git", "file", nil})
			argsOf := func(l []entry) [][]string {
				r := [][]string{{"."}, {"./"}, {".", "."}, {"missing"}}
				for _, e := range l {
					if e.Kind == "linkdir" {
						continue
					}
					r = append(r, []string{e.Name}, []string{e.Name, "."}, []string{".", "missing"})
					if e.Kind == "dir" {
						r = append(r, []string{e.Name + "/"}, []string{e.Name + "/a.bzl", e.Name}, []string{e.Name + "/e/c"})
					}
				}
				return r
			}
			clash := func(l []entry) bool {
				m := map[string]bool{}
				for _, e := range l {
					if m[e.Name] {
						return true
					}
					m[e.Name] = true
				}
				return false
			}
			var rec func(l []entry, from, n int) bool
			rec = func(l []entry, from, n int) bool {
				files := 0
				for _, e := range l {
					if e.Kind == "file" {
						files++
					}
				}
				if !clash(l) && (files < 3 || c.Thorough()) {
					for i, a := range argsOf(l) {
						if i > 3 && n == 0 && !c.Thorough() {
							break
						}
						if !emit(treeCase{L: l, Args: a}) {
							return false
						}
					}
					if len(l) < 2 || len(l) == 2 && (c.Thorough() || l[0].Kind != "file") {
						for i, a := range argsOf(l) {
							if a[0] != "./" && (i < 2 || len(l) < 2) && !emit(treeCase{L: l, Args: a, CLI: true}) {
								return false
							}
						}
					}
				}
				if n == 0 {
					return true
				}
				for i := from; i < len(some); i++ {
					if !rec(append(l[:len(l):len(l)], some[i]), i+1, n-1) {
						return false
					}
				}
				return true
			}
			rec(nil, 0, c.Pick(3, 3))
		}, func(x treeCase) { ev.Do(x) })
		c.Bound("all directories of <= 3 of %d kinds of entries x lists of arguments", len(entryNames)+18)
	}}
