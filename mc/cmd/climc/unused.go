package main

import (
	"archive/zip"
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	depspb "github.com/bazelbuild/buildtools/deps_proto"
	eapb "github.com/bazelbuild/buildtools/extra_actions_base_proto"
	"github.com/golang/protobuf/proto"

	"verif/mc/core"
)

// C37: unused_deps prints commands that remove exactly the direct dependencies the compiler didn't use. A stand-in for Bazel
// answers its queries from files.

// A depUse is an element of deps and what the build says about it.
type depUse struct {
	Elem string // source text of the element
	Jars []jarUse
}

// A jarUse is a jar that was passed to the compiler.
type jarUse struct {
	Manifest string // of the jar; "" if there is no jar
	Kind     int    // in the jdeps file; -1 if it isn't there
}

type unusedCase struct {
	Label   string
	Deps    []depUse
	Layout  int // of the deps attribute
	Naming  int // of the outputs
	Flags   []string
	Missing string // a file that is missing
	Params  int    // layout of the params file
}

const fakeBazel = `#!/bin/sh
D="$PWD/bz"
echo "$@" >> "$D/log"
case "$1" in
query|cquery) cat "$D/$1" ;;
info) cat "$D/info-$2" ;;
build)
  for a in "$@"; do
    case "$a" in
    --override_repository=unused_deps=*) d="${a#--override_repository=unused_deps=}"; test -f "$d/BUILD" && test -f "$d/WORKSPACE" && grep -q "javac_params = aspect" "$d/unused_deps.bzl" && echo "$d" > "$D/aspect" ;;
    esac
  done ;;
esac
`

// fakeTool writes the stand-in once, before anything runs it: a file that is executed just after it was written may still be
// open for writing in a process that is being started.
var fakeTool = sync.OnceValue(func() string {
	p := filepath.Join(filepath.Dir(tool("unused_deps")), "bazel")
	if err := os.WriteFile(p, []byte(fakeBazel), 0755); err != nil {
		panic(err)
	}
	return p
})

// manifestLabel reads a manifest as the jar specification says: lines end in CR LF, LF or CR, and a line that begins with a
// space continues the one before.
func manifestLabel(m string) string {
	m = strings.ReplaceAll(strings.ReplaceAll(m, "\r\n", "\n"), "\r", "\n")
	m = strings.ReplaceAll(m, "\n ", "")
	for _, l := range strings.Split(m, "\n") {
		if v, ok := strings.CutPrefix(l, "Target-Label: "); ok {
			return v
		}
	}
	return ""
}

// fullLabel is the absolute form of a label in the package p.
func fullLabel(l string) string {
	repo, rest := "", l
	if strings.HasPrefix(l, "@") {
		rest = strings.TrimLeft(l, "@")
		i := strings.Index(rest, "//")
		if i < 0 {
			return rest + "//:" + rest
		}
		repo, rest = rest[:i], rest[i:]
	}
	if !strings.HasPrefix(rest, "//") {
		return "//p:" + strings.TrimPrefix(rest, ":")
	}
	if !strings.Contains(rest, ":") {
		rest += ":" + rest[strings.LastIndex(rest, "/")+1:]
	}
	return repo + rest
}

func unusedRun(in unusedCase) error {
	s, err := newScratch()
	if err != nil {
		return err
	}
	defer s.remove()
	bz := s.path("bz")
	rule := strings.TrimPrefix(in.Label, "//p:")
	var elems []string
	for _, d := range in.Deps {
		elems = append(elems, d.Elem)
	}
	build := "java_library(\n    name = \"" + rule + "\",\n"
	l := "[\n" + strings.Join(elems, "\n") + "\n]"
	switch in.Layout {
	case 0:
		build += "deps = " + l
	case 1:
		build += "deps = X + " + l
	case 2:
		build += "deps = " + "[\n" + strings.Join(elems[:len(elems)-1], "\n") + "\n] + [\n" + elems[len(elems)-1] + "\n]"
	case 3:
		build += "deps = select({\"//c\": " + l + ", \"//d\": []})"
	case 4:
		build += "runtime_deps = " + l
	case 5:
		build += "deps = []"
	}
	build = "java_library(name = \"other\", deps = " + l + ")\n\n" + build + "\n)\n"
	deps := &depspb.Dependencies{}
	var params []string
	n := 0
	used := map[string]bool{}
	direct := map[string]bool{}
	for _, d := range in.Deps {
		for _, j := range d.Jars {
			n++
			p := fmt.Sprintf("bazel-out/k8/j%d.jar", n)
			params = append(params, p)
			if j.Manifest != "" {
				var b bytes.Buffer
				z := zip.NewWriter(&b)
				w, _ := z.Create("A.class")
				w.Write([]byte("Target-Label: //no\r\n"))
				if j.Manifest != "-" {
					w, _ = z.Create("META-INF/MANIFEST.MF")
					w.Write([]byte(j.Manifest))
				}
				z.Close()
				if err := s.write(fmt.Sprintf("out/k8/j%d.jar", n), b.String()); err != nil {
					return err
				}
				if m := manifestLabel(j.Manifest); m != "" {
					direct[fullLabel(m)] = true
					if j.Kind == 0 {
						used[fullLabel(m)] = true
					}
				}
			}
			if j.Kind >= 0 {
				k := depspb.Dependency_Kind(j.Kind)
				deps.Dependency = append(deps.Dependency, &depspb.Dependency{Path: proto.String(p), Kind: &k})
			}
		}
	}
	k := depspb.Dependency_EXPLICIT
	deps.Dependency = append(deps.Dependency, &depspb.Dependency{Path: proto.String("bazel-out/k8/indirect.jar"), Kind: &k})
	jdeps, err := proto.Marshal(deps)
	if err != nil {
		panic(err)
	}
	text := "--output\nx.jar\n--classpath\n" + strings.Repeat("bazel-out/k8/j1.jar:", 5000) + "\n"
	dd := "--direct_dependencies\n" + strings.Join(append(params, ""), "\n")
	switch in.Params {
	case 0:
		text += dd + "--next\nbazel-out/k8/j1.jar\n"
	case 1:
		text += dd
	case 2:
		text += strings.TrimSuffix(dd, "\n")
	case 3:
		text += "--direct_deps\n" + strings.Join(params, "\n")
		direct = map[string]bool{}
	case 4:
		text = dd + text
	case 5:
		text += "--direct_dependencies"
		direct = map[string]bool{}
	}
	pre := []string{"lib" + rule, rule}[in.Naming%2]
	pre2 := []string{"lib" + rule, rule}[in.Naming/2%2]
	files := map[string]string{"MODULE.bazel": "", "p/BUILD": build, "bin/p/" + pre + ".javac_params": text, "bin/p/" + pre2 + ".jdeps": string(jdeps),
		"bz/query": in.Label + "\n", "bz/cquery": in.Label + " (abc123)\n", "bz/info-bazel-bin": s.path("bin") + "\n", "bz/info-output_path": s.path("out") + "\n", "bz/info-output_base": s.path("base") + "\n", "bz/k": ""}
	switch in.Missing {
	case "params":
		delete(files, "bin/p/"+pre+".javac_params")
		direct = map[string]bool{}
	case "jdeps":
		delete(files, "bin/p/"+pre2+".jdeps")
		direct = map[string]bool{}
	case "badjdeps":
		files["bin/p/"+pre2+".jdeps"] = "\xff\xff"
		direct = map[string]bool{}
	case "BUILD":
		delete(files, "p/BUILD")
		direct = map[string]bool{}
	case "badBUILD":
		files["p/BUILD"] += ")"
		direct = map[string]bool{}
	case "rule":
		files["p/BUILD"] = "java_library(name = \"other\", deps = " + l + ")\n"
		direct = map[string]bool{}
	case "query":
		files["bz/query"], files["bz/cquery"] = "", ""
	}
	for p, t := range files {
		if err := s.write(p, t); err != nil {
			return err
		}
	}
	before := s.files()
	args := append([]string{"-build_tool=" + fakeTool()}, in.Flags...)
	args = append(args, in.Label)
	r, err := s.run("unused_deps", "", "", nil, args...)
	if err != nil {
		return err
	}
	after := s.files()
	log := after["bz/log"]
	for _, x := range []string{"bz/log", "bz/aspect"} {
		delete(after, x)
	}
	if d := diffFiles(before, after); d != "" {
		return core.Failf("files", "unused_deps changed %s", d)
	}
	if strings.Contains(r.Err, "panic:") {
		return core.Failf("panic", "%s", r.Err)
	}
	q := "query"
	if strings.Contains(strings.Join(in.Flags, " "), "cquery") {
		q = "cquery"
	}
	ll := strings.Split(log, "\n")
	if !strings.HasPrefix(ll[0], q+" ") || !strings.HasSuffix(ll[0], "kind('(kt|java|android)_*', "+in.Label+")") {
		return core.Failf("query", "the first command is %q", ll[0])
	}
	if in.Missing == "query" {
		if r.Code != 2 || r.Out != "" || len(ll) != 2 {
			return core.Failf("noquery", "no targets were found, exit code %d, output %s", r.Code, r.Out)
		}
		return nil
	}
	if !strings.HasPrefix(ll[1], "build ") || !strings.Contains(ll[1], " --aspects=@@unused_deps//:unused_deps.bzl%javac_params ") || !strings.Contains(ll[1], " --output_groups=+unused_deps_outputs ") || !strings.HasSuffix(ll[1], " "+in.Label) {
		return core.Failf("build", "the build command is %q", ll[1])
	}
	for _, f := range in.Flags {
		if v, ok := strings.CutPrefix(f, "-extra_build_flags="); ok {
			for _, x := range strings.Split(v, ",") {
				if !strings.Contains(ll[1], " "+strings.TrimSpace(x)+" ") {
					return core.Failf("build", "the build command %q lacks the option %s", ll[1], x)
				}
			}
		}
	}
	if _, err := os.Stat(filepath.Join(bz, "aspect")); err != nil {
		return core.Failf("aspect", "the aspect wasn't there during the build: %q", ll[1])
	}
	want := ""
	if in.Layout < 3 { // dependencies inside of select may be needed in other configurations
		for _, d := range in.Deps {
			e, cmt, _ := strings.Cut(d.Elem, "#")
			e = strings.TrimSpace(strings.TrimSuffix(strings.TrimSpace(e), ","))
			v := strings.Trim(e, `"`)
			if v == e || !direct[fullLabel(v)] || used[fullLabel(v)] {
				continue
			}
			if strings.Contains(strings.ToLower(cmt), "runtime") {
				want += "buildozer 'move deps runtime_deps " + v + "' " + in.Label + "\n"
			} else {
				want += "buildozer \"add deps $(" + fakeTool() + " query 'labels(exports, " + v + ")' | tr '\\n' ' ')\" " + in.Label + "\nbuildozer 'remove deps " + v + "' " + in.Label + "\n"
			}
		}
	}
	if r.Out != want || r.Code != 0 {
		return core.Failf("commands", "exit code %d, the commands are\n%s\nwant\n%s\n%s", r.Code, r.Out, want, r.Err)
	}
	if (want == "") != strings.Contains(r.Err, "No unused deps found.") {
		return core.Failf("message", "the commands are %q, the message is\n%s", want, r.Err)
	}
	return nil
}

// unusedExtra is the mode for extra actions.
func unusedExtra(in unusedCase) error {
	s, err := newScratch()
	if err != nil {
		return err
	}
	defer s.remove()
	deps := &depspb.Dependencies{}
	dd := "--direct_dependencies\n"
	labels, used := map[string]bool{}, map[string]bool{}
	n := 0
	for _, d := range in.Deps {
		for _, j := range d.Jars {
			n++
			p := fmt.Sprintf("bazel-out/k8/j%d.jar", n)
			dd += p + "\n"
			if l := manifestLabel(j.Manifest); l != "" {
				var b bytes.Buffer
				z := zip.NewWriter(&b)
				w, _ := z.Create("META-INF/MANIFEST.MF")
				w.Write([]byte(j.Manifest))
				z.Close()
				if err := s.write(p, b.String()); err != nil {
					return err
				}
				if strings.HasPrefix(l, "@@") || strings.HasPrefix(l, "@/") {
					l = l[1:]
				}
				labels[l] = true
				used[l] = used[l] || j.Kind == 0
			}
			if j.Kind >= 0 {
				k := depspb.Dependency_Kind(j.Kind)
				deps.Dependency = append(deps.Dependency, &depspb.Dependency{Path: proto.String(p), Kind: &k})
			}
		}
	}
	jdeps, _ := proto.Marshal(deps)
	base := []string{"bazel-out/k8/libr", "bazel-out/k8/x.jar.d/libr", "bazel-out/lib.jars/r", "bazel-out/k8/lib.jar-r"}[in.Naming]
	info := &eapb.ExtraActionInfo{}
	if err := proto.SetExtension(info, eapb.E_JavaCompileInfo_JavaCompileInfo, &eapb.JavaCompileInfo{Outputjar: proto.String(base + ".jar")}); err != nil {
		panic(err)
	}
	data, _ := proto.Marshal(info)
	for p, t := range map[string]string{base + ".jdeps": string(jdeps), base + ".jar-2.params": dd + "--next\n", "x.xa": string(data)} {
		if err := s.write(p, t); err != nil {
			return err
		}
	}
	before := s.files()
	r, err := s.run("unused_deps", "", "", nil, "-extra_action_file=x.xa", "-output_file=out.txt")
	if err != nil {
		return err
	}
	after := s.files()
	got := strings.Fields(after["out.txt"])
	delete(after, "out.txt")
	if d := diffFiles(before, after); d != "" || r.Code != 0 {
		return core.Failf("extra/files", "exit code %d, unused_deps changed %s", r.Code, d)
	}
	var want []string
	for l := range labels {
		if !used[l] {
			want = append(want, l)
		}
	}
	sort.Strings(got)
	sort.Strings(want)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		return core.Failf("extra/labels", "the output is %q, want %q", got, want)
	}
	return nil
}

var c37 = &core.Check{ID: "C37", Level: "model_checking", Run: func(c *core.Ctx) {
	ev := core.NewEval(c, "unused", unusedRun)
	ex := core.NewEval(c, "extra", unusedExtra)
	fakeTool()
	const m1 = "Manifest-Version: 1.0\r\n"
	man := func(l string) string { return m1 + "Target-Label: " + l + "\r\nCreated-By: x\r\n\r\n" }
	forms := [][2]string{{`":a"`, "//p:a"}, {`"//p:b"`, "@//p:b"}, {`"//q/d"`, "@@//q/d:d"}, {`"@r//x:y"`, "@@r//x:y"}, {`"c"`, "//p:c"}, {`"@s"`, "@s//:s"}, {`"//q:e"`, "//q:f"}}
	states := func(l string) [][]jarUse {
		long := l[:len(l)/2] + "\r\n " + l[len(l)/2:]
		return [][]jarUse{{{man(l), 0}}, {{man(l), 1}}, {{man(l), 2}}, {{man(l), 3}}, {{man(l), -1}}, nil, {{"", 0}}, {{m1, -1}}, {{"-", -1}}, {{man(l), 0}, {man(l), 2}}, {{man(l), 2}, {man(l), -1}}, {{man(l), -1}, {man(l), 0}},
			{{man(long), 2}}, {{strings.ReplaceAll(man(long), "\r\n", "\n"), -1}}, {{strings.ReplaceAll(man(long), "\r\n", "\r"), -1}}, {{m1 + "Target-Label: " + l + "\r\n", -1}}, {{m1 + "Target-Label: " + l, -1}}}
	}
	var uses []depUse
	for i, f := range forms {
		for j, st := range states(f[1]) {
			if j == 16 {
				continue // a manifest that doesn't end in a newline isn't valid
			}
			for k, cm := range []string{"", " # Runtime only", " # needed"} {
				if k > 0 && (i+j)%3 > 0 && !c.Thorough() {
					continue
				}
				uses = append(uses, depUse{f[0] + "," + cm, st})
			}
		}
	}
	uses = append(uses, depUse{"X,", nil}, depUse{"X, # runtime", []jarUse{{man("//p:X"), 2}}}, depUse{`"z",`, nil})
	core.Stream(c, func(emit func(unusedCase) bool) {
		do := func(u unusedCase) bool { u.Label = "//p:r"; return emit(u) }
		for i, u := range uses {
			for l := 0; l < 6; l++ {
				for n := 0; n < 4; n++ {
					if n > 0 && l > 0 {
						continue
					}
					for p := 0; p < 6; p++ {
						if (p == 0 || l == 0 && n == 0) && !do(unusedCase{Deps: []depUse{u}, Layout: l, Naming: n, Params: p}) {
							return
						}
					}
				}
			}
			for j, v := range uses {
				if (i*7+j)%c.Pick(16, 2) > 0 || u.Elem == v.Elem {
					continue
				}
				if !do(unusedCase{Deps: []depUse{u, v}, Layout: (i + j) % 4, Params: (i + j) / 4 % 3}) {
					return
				}
			}
			if i%5 == 0 {
				for _, m := range []string{"params", "jdeps", "badjdeps", "BUILD", "badBUILD", "rule", "query"} {
					if !do(unusedCase{Deps: []depUse{u}, Missing: m}) {
						return
					}
				}
				for _, f := range [][]string{{"-cquery"}, {"-extra_build_flags=--a,--b=c , --d"}, {"-cquery", "-extra_build_flags=--x"}} {
					if !do(unusedCase{Deps: []depUse{u}, Flags: f}) {
						return
					}
				}
			}
		}
	}, func(x unusedCase) {
		if ev.Do(x) {
			c.NonTrivial(1)
		}
		if x.Flags == nil && x.Missing == "" && x.Params == 0 {
			ex.Do(x)
		}
	})
	c.Bound("%d elements of deps (forms of labels x uses by the compiler x manifests x comments), each in 6 layouts of the attribute (one of them in a select, which is left alone), 4 namings of outputs, 6 layouts of params files, with missing or malformed files and options; pairs of them (%s)", len(uses), map[bool]string{true: "half", false: "one in 16, by a fixed stride"}[c.Thorough()])
}}
