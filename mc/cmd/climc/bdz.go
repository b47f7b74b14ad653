package main

import (
	"encoding/json"
	"fmt"
	"regexp"
	"sort"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"verif/mc/core"
)

// C24: the options and exit codes of the buildozer command.

type bItem struct{ Label, Suffix string }

// bRule is the rule t of a package; bFile is a BUILD file. The model of the commands works on these.
type bRule struct {
	Kind, Name, V string
	Before        []string
	Deps          []bItem
	DepsBefore    string
	DepsSuffix    string
	HasDeps       bool
	Hdrs          []string // own elements
	HdrsVar       bool     // starts with H
	HasHdrs       bool
}

type bFile struct {
	Broken bool
	Raw    string // unformatted text, if it is not what render gives
	Load   bool
	H      []string
	Rules  []bRule
	Tail   string
}

func (f bFile) clone() bFile {
	g := f
	g.H = append([]string(nil), f.H...)
	g.Rules = nil
	for _, r := range f.Rules {
		r.Before = append([]string{}, r.Before...)
		r.Deps = append([]bItem{}, r.Deps...)
		r.Hdrs = append([]string{}, r.Hdrs...)
		g.Rules = append(g.Rules, r)
	}
	return g
}

func quote(l []string) string {
	var r []string
	for _, x := range l {
		r = append(r, fmt.Sprintf("%q", x))
	}
	return "[" + strings.Join(r, ", ") + "]"
}

func (f bFile) render() string {
	if f.Broken {
		return "cc_library(name = \"t\",\n)) oops\n"
	}
	var b strings.Builder
	if f.Load {
		b.WriteString("load(\":x.bzl\", \"q\")\n\n")
	}
	if f.H != nil {
		fmt.Fprintf(&b, "H = %s\n\n", quote(f.H))
	}
	for _, r := range f.Rules {
		for _, c := range r.Before {
			b.WriteString("# " + c + "\n")
		}
		fmt.Fprintf(&b, "%s(\n    name = %q,\n", r.Kind, r.Name)
		if r.HasHdrs {
			switch {
			case r.HdrsVar && len(r.Hdrs) > 0:
				fmt.Fprintf(&b, "    hdrs = H + %s,\n", quote(r.Hdrs))
			case r.HdrsVar:
				b.WriteString("    hdrs = H,\n")
			default:
				fmt.Fprintf(&b, "    hdrs = %s,\n", quote(r.Hdrs))
			}
		}
		if r.V != "" {
			fmt.Fprintf(&b, "    v = %s,\n", r.V)
		}
		if r.HasDeps {
			if r.DepsBefore != "" {
				b.WriteString("    # " + r.DepsBefore + "\n")
			}
			b.WriteString("    deps = [")
			if len(r.Deps) > 1 || len(r.Deps) == 1 && r.Deps[0].Suffix != "" {
				b.WriteString("\n")
				for _, d := range r.Deps {
					fmt.Fprintf(&b, "        %q,", d.Label)
					if d.Suffix != "" {
						b.WriteString("  # " + d.Suffix)
					}
					b.WriteString("\n")
				}
				b.WriteString("    ],")
			} else if len(r.Deps) == 1 {
				fmt.Fprintf(&b, "%q],", r.Deps[0].Label)
			} else {
				b.WriteString("],")
			}
			if r.DepsSuffix != "" {
				b.WriteString("  # " + r.DepsSuffix)
			}
			b.WriteString("\n")
		}
		b.WriteString(")\n\n")
	}
	b.WriteString(f.Tail)
	return b.String()
}

var nameOnlyRE = regexp.MustCompile(`\(\n\s+name = ("[^"]*"),\n\)`)

// oneLine makes the layout of rules that only have a name unique: it depends on how they came to be.
func oneLine(text string) string { return nameOnlyRE.ReplaceAllString(text, "(name = $1)") }

// canonical is the formatted text, without the rewriting of labels if they are to be kept.
func canonical(text string) string {
	f, err := build.ParseBuild("BUILD", []byte(text))
	if err != nil {
		return text
	}
	return string(build.Format(f))
}

var bTemplates = []bFile{
	0: {H: []string{"a.h"}, Rules: []bRule{
		{Kind: "cc_library", Name: "t", V: "2", HasDeps: true, Deps: []bItem{{":y", "keep it"}, {"//o:x", ""}}, HasHdrs: true, HdrsVar: true},
		{Kind: "cc_test", Name: "u", HasDeps: true, Deps: []bItem{{":y", ""}}},
	}},
	1: {Rules: []bRule{{Kind: "cc_test", Name: "t", V: "1", Before: []string{"about t"}}}},
	2: {Broken: true},
	3: {Rules: []bRule{{Kind: "cc_library", Name: "u"}}},
	4: {Raw: "cc_library( name='t',v=1 )\n\n\n\n", Rules: []bRule{{Kind: "cc_library", Name: "t", V: "1"}}},
}

func (f bFile) text() string {
	if f.Raw != "" {
		return f.Raw
	}
	if f.Broken {
		return f.render()
	}
	return canonical(f.render())
}

var bCommands = []string{
	"set v 1", "add deps //a:z", "add deps :y", "remove deps :y", "add hdrs q.h", "comment deps why", "comment what", "comment deps :y old",
	"print name v", "print kind", "delete", "new cc_library n", "new cc_library t", "rename w x", "rename v x", "format", "new_load :x.bzl q", "remove nope",
}

var bPrint = map[string]bool{"print name v": true, "print kind": true}
var bPerFile = map[string]bool{"new cc_library n": true, "new cc_library t": true, "format": true, "new_load :x.bzl q": true}

type bOptions struct {
	Types    string
	Keep     bool
	NoEOL    bool
	Vars     bool
	NoShort  bool
	KeepCmts bool
}

type bResult struct {
	f       bFile
	acted   bool // some command may have touched the file
	failed  bool
	stopped bool // the file isn't written
	records [][]string
	misses  int
	undef   bool
}

func (f *bFile) index(name string) int {
	for i, r := range f.Rules {
		if r.Name == name {
			return i
		}
	}
	return -1
}

// bApply is the model: commands on a target of a file.
func bApply(f bFile, pkg, target string, cmds []string, o bOptions) bResult {
	res := bResult{f: f.clone()}
	if f.Broken {
		res.failed, res.stopped = true, true
		return res
	}
	g := &res.f
	var names []string
	switch target {
	case "*":
		for _, r := range g.Rules {
			names = append(names, r.Name)
		}
	case "%cc_test":
		for _, r := range g.Rules {
			if r.Kind == "cc_test" {
				names = append(names, r.Name)
			}
		}
	default:
		if g.index(target) < 0 {
			res.failed = true
			if !o.Keep {
				res.stopped = true
				return res
			}
		} else {
			names = []string{target}
		}
	}
	if o.Types != "" {
		var l []string
		for _, n := range names {
			if g.Rules[g.index(n)].Kind == o.Types {
				l = append(l, n)
			}
		}
		names = l
	}
	short := func(l string) string {
		if o.NoShort {
			return l
		}
		if p := "//" + pkg + ":"; strings.HasPrefix(l, p) {
			return ":" + l[len(p):]
		}
		return l
	}
	deleted := map[string]bool{}
	for _, cmd := range cmds {
		on := names
		if bPerFile[cmd] {
			on = []string{""}
		}
		for _, n := range on {
			if deleted[n] {
				res.undef = true
				return res
			}
			var r *bRule
			if n != "" {
				r = &g.Rules[g.index(n)]
			}
			fail := false
			switch cmd {
			case "set v 1":
				r.V = "1"
				res.acted = true
			case "add deps //a:z", "add deps :y":
				l := strings.TrimPrefix(cmd, "add deps ")
				have := false
				for _, d := range r.Deps {
					have = have || d.Label == l || d.Label == short(l) || pkg == "a" && d.Label == ":z" && l == "//a:z"
				}
				if !have {
					r.Deps = append(r.Deps, bItem{short(l), ""})
					r.HasDeps = true
				}
				res.acted = true
			case "remove deps :y":
				var l []bItem
				for _, d := range r.Deps {
					if d.Label == ":y" && !(o.KeepCmts && d.Suffix != "") {
						res.acted = true
						continue
					}
					l = append(l, d)
				}
				if len(l) != len(r.Deps) && len(l) == 0 {
					r.HasDeps = false
					r.DepsBefore, r.DepsSuffix = "", ""
				}
				if len(l) != len(r.Deps) {
					r.Deps = l
				}
				res.acted = true
			case "add hdrs q.h":
				have := false
				if r.HdrsVar && o.Vars {
					for _, h := range g.H {
						have = have || h == "q.h"
					}
					if !have {
						g.H = append(g.H, "q.h")
					}
				} else {
					for _, h := range r.Hdrs {
						have = have || h == "q.h"
					}
					if !have {
						r.Hdrs = append(r.Hdrs, "q.h")
					}
				}
				r.HasHdrs = true
				res.acted = true
			case "comment deps why":
				if r.HasDeps {
					if o.NoEOL {
						r.DepsBefore = "why"
					} else {
						r.DepsSuffix = "why"
					}
				}
				res.acted = true
			case "comment deps :y old":
				for i := range r.Deps {
					if r.Deps[i].Label == ":y" {
						if o.NoEOL {
							res.undef = true // own line and end of line at once
							return res
						}
						r.Deps[i].Suffix = "old"
					}
				}
				res.acted = true
			case "comment what":
				r.Before = []string{"what"}
				res.acted = true
			case "print name v":
				v := r.V
				if v == "" {
					v = "(missing)"
					res.misses++
				}
				res.records = append(res.records, []string{r.Name, v})
			case "print kind":
				res.records = append(res.records, []string{r.Kind})
			case "delete":
				i := g.index(n)
				g.Rules = append(g.Rules[:i:i], g.Rules[i+1:]...)
				deleted[n] = true
				res.acted = true
			case "new cc_library n", "new cc_library t":
				nm := strings.TrimPrefix(cmd, "new cc_library ")
				if g.index(nm) >= 0 {
					fail = true
					break
				}
				last := -1
				for i, r := range g.Rules {
					if r.Kind == "cc_library" {
						last = i
					}
				}
				if last < 0 {
					last = len(g.Rules) - 1
				}
				nr := bRule{Kind: "cc_library", Name: nm}
				g.Rules = append(g.Rules[:last+1:last+1], append([]bRule{nr}, g.Rules[last+1:]...)...)
				res.acted = true
			case "rename w x":
				fail = true
			case "rename v x":
				if r.V == "" || strings.Contains(g.Tail, "x") {
					fail = true
					break
				}
				res.undef = true
				return res
			case "format":
				res.acted = true
			case "new_load :x.bzl q":
				g.Load = true
				res.acted = true
			case "remove nope":
			}
			if fail {
				res.failed = true
				if !o.Keep {
					res.stopped = true
					res.f = f
					return res
				}
			}
		}
	}
	return res
}

type bdzCase struct {
	A, B    int // templates of a/BUILD and b/BUILD.bazel, -1: missing
	Target  string
	Cmds    []string
	Opts    bOptions
	Output  string // "", quiet, stdout, json, file, fstdin, stdin, root, numio, buildifier, nobuildifier
	Workdir string
}

func bdz(c *core.Ctx, in bdzCase) error {
	s, err := newScratch()
	if err != nil {
		return err
	}
	defer s.remove()
	s.write("WORKSPACE", "")
	files := map[string]bFile{}
	name := map[string]string{"a": "a/BUILD", "b": "b/BUILD.bazel"}
	for p, i := range map[string]int{"a": in.A, "b": in.B} {
		if i >= 0 {
			files[p] = bTemplates[i]
			if err := s.write(name[p], bTemplates[i].text()); err != nil {
				return err
			}
		} else {
			s.write(p+"/other.txt", "")
		}
	}
	// The model.
	var pkgs []string
	rule := in.Target[strings.LastIndexByte(in.Target, ':')+1:]
	missing := false
	switch {
	case strings.HasPrefix(in.Target, "//a:"), in.Target == ":t" || in.Target == "t":
		pkgs = []string{"a"}
	case strings.HasPrefix(in.Target, "//b:"):
		pkgs = []string{"b"}
	case strings.HasPrefix(in.Target, "//...:"):
		for p := range files {
			pkgs = append(pkgs, p)
		}
		sort.Strings(pkgs)
	}
	fails, modified := 0, 0
	acted := false
	results := map[string]bResult{}
	var records []string
	for _, p := range pkgs {
		f, ok := files[p]
		if !ok {
			fails++
			missing = true
			continue
		}
		pkg := p
		if in.Output == "stdin" {
			pkg = "-" // unknown
		}
		r := bApply(f, pkg, rule, in.Cmds, in.Opts)
		if r.undef {
			return nil
		}
		results[p] = r
		if r.failed {
			fails++
		}
		for _, x := range r.records {
			records = append(records, strings.Join(x, " "))
		}
		acted = acted || r.acted && !r.stopped
	}
	_ = missing
	c.NonTrivial(1)
	want := map[string]string{}
	newText := map[string]string{}
	for p := range files {
		want[name[p]] = bTemplates[map[string]int{"a": in.A, "b": in.B}[p]].text()
		r, ok := results[p]
		if !ok || r.stopped || !r.acted {
			continue
		}
		t := canonical(r.f.render())
		newText[p] = t
		if t != want[name[p]] {
			modified++
		}
	}
	changedPkgs := []string{}
	for _, p := range pkgs {
		if t, ok := newText[p]; ok && t != want[name[p]] {
			changedPkgs = append(changedPkgs, p)
		}
	}
	if in.Output != "stdout" && in.Output != "stdin" && in.Output != "nobuildifier" {
		for _, p := range changedPkgs {
			want[name[p]] = newText[p]
		}
	}
	if in.Output == "nobuildifier" {
		for _, p := range pkgs {
			if _, ok := newText[p]; ok {
				fails++
				modified = 0
			}
		}
	}
	// The run.
	var args []string
	flag := func(ok bool, f string) {
		if ok {
			args = append(args, f)
		}
	}
	o := in.Opts
	flag(o.Types != "", "-types="+o.Types)
	flag(o.Keep, "-k")
	flag(o.NoEOL, "-eol-comments=false")
	flag(o.Vars, "-edit-variables")
	flag(o.NoShort, "-shorten_labels=false")
	flag(o.KeepCmts, "-delete_with_comments=false")
	sub, stdin := ".", ""
	if in.Target == ":t" || in.Target == "t" {
		sub = "a"
	}
	cmdArgs := append(append([]string{}, in.Cmds...), in.Target)
	switch in.Output {
	case "quiet":
		args = append(args, "-quiet")
	case "stdout":
		args = append(args, "-stdout")
	case "json":
		args = append(args, "-output_json")
	case "numio":
		args = append(args, "-numio=1", "-P=2")
	case "root":
		args = append(args, "-root_dir="+s.path("."))
		sub = ".."
	case "file":
		if err := s.write("cmds", strings.Join(cmdArgs, "|")+"\n"); err != nil {
			return err
		}
		args = append(args, "-f", s.path("cmds"))
		cmdArgs = nil
	case "fstdin":
		stdin = "# comment\n\n" + strings.Join(in.Cmds, "|") + "|*\n"
		args = append(args, "-f", "-")
		cmdArgs = []string{in.Target}
	case "stdin":
		stdin = bTemplates[in.A].text()
		cmdArgs[len(cmdArgs)-1] = "-:" + rule
	case "buildifier":
		args = append(args, "-buildifier="+tool("buildifier"))
	case "nobuildifier":
		args = append(args, "-buildifier=/nonexistent/buildifier")
	}
	before := s.files()
	r, err := s.run("buildozer", sub, stdin, nil, append(args, cmdArgs...)...)
	if err != nil {
		return err
	}
	after := s.files()
	what := fmt.Sprintf("buildozer %s in %s, a=%d b=%d\n", strings.Join(append(args, cmdArgs...), " | "), sub, in.A, in.B)
	cl := func(x string) string {
		if in.Output != "" {
			return x + "/" + in.Output
		}
		return x
	}
	for f, t := range want {
		if after[f] != t && oneLine(after[f]) != oneLine(t) {
			return core.Failf(cl("content"), "%s%s is\n%s\ninstead of\n%s\n%s", what, f, after[f], t, r.Err)
		}
		delete(before, f)
		delete(after, f)
	}
	if d := diffFiles(before, after); d != "" {
		return core.Failf(cl("files"), "%s%s", what, d)
	}
	// Exit code.
	onlyPrints := true
	for _, x := range in.Cmds {
		onlyPrints = onlyPrints && bPrint[x]
	}
	code := 3
	switch {
	case fails > 0:
		code = 2
	case modified > 0 || onlyPrints || in.Output == "stdout":
		code = 0
	}
	if r.Code != code && !(len(pkgs) == 0 && len(files) == 0) {
		return core.Failf(cl(fmt.Sprintf("exit/%d-for-%d", r.Code, code)), "%sexit code %d instead of %d\n%s", what, r.Code, code, r.Err)
	}
	// Standard output: the texts, then the records.
	var sets [][]string // possible outputs
	switch in.Output {
	case "json":
		type field struct {
			Text   *string
			Number *int
			Error  *string
		}
		var v struct{ Records []struct{ Fields []field } }
		if err := json.Unmarshal([]byte(r.Out), &v); err != nil {
			return core.Failf("json/syntax", "%s%v\n%s", what, err, r.Out)
		}
		var got []string
		for _, x := range v.Records {
			var l []string
			for _, f := range x.Fields {
				switch {
				case f.Text != nil:
					l = append(l, *f.Text)
				case f.Error != nil:
					l = append(l, "("+strings.ToLower(*f.Error)+")")
				default:
					l = append(l, "?")
				}
			}
			got = append(got, strings.Join(l, " "))
		}
		sort.Strings(got)
		sort.Strings(records)
		if strings.Join(got, "\n") != strings.Join(records, "\n") {
			return core.Failf("json/records", "%s%q instead of %q", what, got, records)
		}
	default:
		rest := oneLine(r.Out)
		if in.Output == "stdout" || in.Output == "stdin" {
			texts := map[string]string{}
			for p, t := range newText {
				texts[p] = oneLine(t)
			}
			for len(texts) > 0 {
				hit := ""
				for _, p := range pkgs {
					if t, ok := texts[p]; ok && strings.HasPrefix(rest, t) && (hit == "" || len(t) > len(texts[hit])) {
						hit = p
					}
				}
				if hit == "" {
					break
				}
				rest = rest[len(texts[hit]):]
				delete(texts, hit)
			}
			for p := range texts {
				for _, q := range changedPkgs {
					if p == q {
						return core.Failf(cl("stdout/missing"), "%sthe new text of %s isn't written to the standard output\n%s", what, p, r.Out)
					}
				}
			}
		}
		got := strings.Split(strings.TrimSuffix(rest, "\n"), "\n")
		if rest == "" {
			got = nil
		}
		sort.Strings(got)
		sort.Strings(records)
		if strings.Join(got, "\n") != strings.Join(records, "\n") {
			return core.Failf(cl("stdout/records"), "%sprints %q instead of %q", what, got, records)
		}
	}
	_ = sets
	// Standard error: one line per modified file, errors, missing attributes.
	var fixed []string
	nerr, nmiss := 0, 0
	for _, l := range strings.Split(r.Err, "\n") {
		switch {
		case l == "":
		case strings.HasPrefix(l, "fixed "):
			fixed = append(fixed, strings.TrimPrefix(strings.TrimPrefix(l, "fixed "), s.path("")+"/"))
		case strings.Contains(l, "has no attribute \"v\"") && strings.HasPrefix(l, "rule "):
			nmiss++
		default:
			nerr++
		}
	}
	sort.Strings(fixed)
	var wf []string
	if in.Output != "stdout" && in.Output != "stdin" && in.Output != "quiet" && in.Output != "nobuildifier" {
		for _, p := range changedPkgs {
			wf = append(wf, name[p])
		}
	}
	misses := 0
	for _, x := range results {
		misses += x.misses
	}
	if strings.Join(fixed, " ") != strings.Join(wf, " ") {
		return core.Failf(cl("stderr/fixed"), "%sreports %q as fixed instead of %q\n%s", what, fixed, wf, r.Err)
	}
	if nmiss != misses {
		return core.Failf(cl("stderr/missing"), "%s%d missing attributes reported instead of %d\n%s", what, nmiss, misses, r.Err)
	}
	if (nerr > 0) != (fails > 0) || nerr < fails && in.Output != "nobuildifier" {
		return core.Failf(cl("stderr/errors"), "%s%d lines for %d failures\n%s", what, nerr, fails, r.Err)
	}
	return nil
}

// usage errors.
type usageCase struct {
	Args  []string
	Stdin string
	Code  int
}

var c24 = &core.Check{ID: "C24", Level: "model_checking",
	Run: func(c *core.Ctx) {
		tool("buildozer")
		tool("buildifier")
		ev := core.NewEval(c, "run", func(in bdzCase) error { return bdz(c, in) })
		us := core.NewEval(c, "usage", func(in usageCase) error {
			s, err := newScratch()
			if err != nil {
				return err
			}
			defer s.remove()
			s.write("WORKSPACE", "")
			s.write("a/BUILD", bTemplates[0].text())
			before := s.files()
			r, err := s.run("buildozer", ".", in.Stdin, nil, in.Args...)
			if err != nil {
				return err
			}
			c.NonTrivial(1)
			if d := diffFiles(before, s.files()); d != "" {
				return core.Failf("usage/files", "%q changes files: %s", in.Args, d)
			}
			if r.Code != in.Code {
				return core.Failf("usage/code", "%q %q: exit code %d instead of %d\n%s", in.Args, in.Stdin, r.Code, in.Code, r.Err)
			}
			if r.Err == "" && in.Code != 0 {
				return core.Failf("usage/silent", "%q fails without a message", in.Args)
			}
			return nil
		})
		var opts []bOptions
		for m := 0; m < 64; m++ {
			n := 0
			for i := 0; i < 6; i++ {
				n += m >> i & 1
			}
			if n > c.Pick(1, 3) {
				continue
			}
			o := bOptions{Keep: m&1 != 0, NoEOL: m&2 != 0, Vars: m&4 != 0, NoShort: m&8 != 0, KeepCmts: m&16 != 0}
			if m&32 != 0 {
				o.Types = "cc_library"
				opts = append(opts, o)
				o.Types = "cc_test"
			}
			opts = append(opts, o)
		}
		outputs := []string{"", "quiet", "stdout", "json", "file", "fstdin", "stdin", "root", "numio", "buildifier", "nobuildifier"}
		targets := []string{"//a:t", "//b:t", "//a:*", "//...:*", "//...:t", "//a:nope", "//a:%cc_test", ":t"}
		core.Stream(c, func(emit func(bdzCase) bool) {
			// all options on all single commands
			for _, cmd := range bCommands {
				for _, o := range opts {
					for _, t := range targets {
						for _, out := range outputs {
							for a := 0; a < len(bTemplates); a++ {
								b := []int{1, 0, -1, 2, 3}[a]
								if out == "stdin" && !strings.HasPrefix(t, "//a:") || out == "root" && t == ":t" {
									continue
								}
								if out != "" && !c.Thorough() && (o != bOptions{} && !o.Keep || a == 2 && t != "//...:*") {
									continue
								}
								if !emit(bdzCase{A: a, B: b, Target: t, Cmds: []string{cmd}, Opts: o, Output: out}) {
									return
								}
							}
						}
					}
				}
			}
			c.Bound("%d commands x %d targets x combinations of <=%d semantic options x %d ways to call x 5 pairs of files", len(bCommands), len(targets), c.Pick(1, 3), len(outputs))
			// pairs of commands
			for i, x := range bCommands {
				for j, y := range bCommands {
					for _, t := range []string{"//a:t", "//...:*", "//a:nope"} {
						for _, o := range []bOptions{{}, {Keep: true}} {
							for k, out := range outputs {
								if out == "stdin" && t == "//...:*" || !c.Thorough() && (i+j+k)%6 != 0 {
									continue
								}
								if !emit(bdzCase{A: 0, B: 1, Target: t, Cmds: []string{x, y}, Opts: o, Output: out}) {
									return
								}
							}
						}
					}
				}
			}
			c.Bound("all pairs of commands on 3 targets with and without -k (quick: a sixth of the ways to call)")
		}, func(x bdzCase) { ev.Do(x) })
		for _, u := range []usageCase{
			{[]string{"set"}, "", 1}, {[]string{"set", "//a:t"}, "", 1}, {[]string{"add deps", "//a:t"}, "", 1}, {[]string{"rename a b c", "//a:t"}, "", 1},
			{[]string{"delete x", "//a:t"}, "", 1}, {[]string{"print_comment a b c", "//a:t"}, "", 1}, {[]string{"  ", "//a:t"}, "", 1}, {[]string{"set v 1", ""}, "", 1},
			{[]string{"-f", "-", "//a:t"}, "rename a b c|*\n", 1}, {[]string{"-f", "-"}, "set v 1|\n", 1}, {[]string{"-numio=0", "set v 1", "//a:t"}, "", 1},
			{[]string{"-numio=-1", "set v 1", "//a:t"}, "", 1}, {[]string{"-nosuchflag", "set v 1", "//a:t"}, "", 2},
			{[]string{"-version"}, "", 0},
		} {
			us.Do(u)
		}
	}}
