package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/warn"
	"verif/mc/core"
)

// contents of files
var kinds = map[string]string{
	"F": "x = 1\n",                                                                                                                    // formatted
	"U": "x=1\n",                                                                                                                      // not formatted
	"S": "y = 1\nx = (\n",                                                                                                             // syntax error
	"W": "print(1)\n",                                                                                                                 // a finding that can't be fixed
	"D": "x = [1 / 2]\n",                                                                                                              // one that can be fixed
	"V": "x=[1 / 2]\nprint(x)",                                                                                                        // all of them
	"E": "",                                                                                                                           // empty
	"N": "x = 1",                                                                                                                      // no newline
	"O": "f(\n  b=1,a=2)\n",                                                                                                           // depends on the type of the file
	"M": "",                                                                                                                           // missing
	"X": "",                                                                                                                           // a directory
	"L": "x=1\n",                                                                                                                      // a link to a file
	"B": "bazel_dep(name = \"b\", version = \"1\")\nbazel_dep(name = \"a\",\n  dev_dependency = True)\nload(\"@b//:b.bzl\", \"b\")\n", // of a module
	"Z": "x = 1\n\n\n\n# end\n",                                                                                                       // blank lines
}

const kindOrder = "FUSWDVENOBMXLZ"

var fileNames = []string{"a.bzl", "sub/BUILD", "c.star", "WORKSPACE", "MODULE.bazel"}

// A modeCase is a run of buildifier.
type modeCase struct {
	Kinds  []string // of the files, no file is standard input
	Stdin  string   // kind
	Dash   bool     // the only argument is -
	Recurs bool     // -r, of standard input
	Verb   bool     // -v, with -format
	Mode   string
	DFlag  bool
	Lint   string
	Format string
	Cat    bool // with a command that prints both files
	Multi  bool // with a command that prints all pairs of files
	Path   string
	Type   string
	Many   int // number of files with these kinds in turn
}

const lintCats = "print,integer-division"

// ref is what the library does with a file.
type ref struct {
	syntax   string
	data     string
	found    []*warn.Finding
	missing  bool
	original string
	display  string
}

func parser(typ string) func(string, []byte) (*build.File, error) {
	switch typ {
	case "build":
		return build.ParseBuild
	case "bzl":
		return build.ParseBzl
	case "workspace":
		return build.ParseWorkspace
	case "module":
		return build.ParseModule
	case "default":
		return build.ParseDefault
	}
	return build.Parse
}

func library(name, kind, lint, typ string) ref {
	r := ref{original: kinds[kind], display: name}
	if name == "" {
		r.display = "<stdin>"
	}
	if kind == "M" || kind == "X" {
		r.missing = true
		return r
	}
	f, err := parser(typ)(name, []byte(kinds[kind]))
	if err != nil {
		r.syntax = err.Error()
		return r
	}
	cats := strings.Split(lintCats, ",")
	switch lint {
	case "warn":
		r.found = warn.FileWarnings(f, cats, nil, warn.ModeWarn, nil)
	case "fix":
		warn.FixWarnings(f, cats, false, nil)
	}
	r.data = string(build.Format(f))
	return r
}

type jsonPos struct{ Line, Column int }

type jsonWarning struct {
	Start, End              jsonPos
	Category                string
	Actionable, AutoFixable bool
	Message, URL            string
}

type jsonFile struct {
	Filename         string
	Formatted, Valid bool
	Warnings         []jsonWarning
}

type jsonDiag struct {
	Success bool
	Files   []jsonFile
}

func modes(c *core.Ctx, in modeCase) error {
	s, err := newScratch()
	if err != nil {
		return err
	}
	defer s.remove()
	ks := in.Kinds
	if in.Many > 0 {
		ks = nil
		for i := 0; i < in.Many; i++ {
			ks = append(ks, in.Kinds[i%len(in.Kinds)])
		}
	}
	name := func(i int) string {
		if in.Many > 0 {
			return fmt.Sprintf("f%02d.bzl", i)
		}
		return fileNames[i]
	}
	var args []string
	if in.Mode != "" {
		args = append(args, "-mode="+in.Mode)
	}
	if in.DFlag {
		args = append(args, "-d")
	}
	if in.Lint != "" {
		args = append(args, "-lint="+in.Lint)
	}
	if in.Format != "" {
		args = append(args, "-format="+in.Format)
	}
	if in.Cat {
		args = append(args, "-diff_command=f() { cat $1; echo ---; cat $2; }; f")
	}
	if in.Multi {
		args = append(args, "-multi_diff", "-diff_command=f() { echo run; while [ $# -gt 0 ]; do echo $1; cat $2; echo ---; cat $3; shift 3; done; }; f")
	}
	if in.Recurs {
		args = append(args, "-r")
	}
	if in.Verb {
		args = append(args, "-v")
	}
	if in.Path != "" {
		args = append(args, "-path="+in.Path)
	}
	if in.Type != "" {
		args = append(args, "-type="+in.Type)
	}
	args = append(args, "-warnings="+lintCats, "-config=off")
	var refs []ref
	display := func(n string) string {
		if in.Path != "" {
			return in.Path
		}
		return n
	}
	stdin := len(ks) == 0
	if stdin {
		if in.Dash {
			args = append(args, "-")
		}
		refs = append(refs, library(display(""), in.Stdin, in.Lint, in.Type))
	}
	for i, k := range ks {
		n := name(i)
		args = append(args, n)
		switch k {
		case "M":
		case "X":
			err = os.MkdirAll(s.path(n), 0777)
		case "L":
			if err = s.write("target"+n, kinds[k]); err == nil {
				os.MkdirAll(s.path("sub"), 0777)
				err = os.Symlink(s.path("target"+n), s.path(n))
			}
		default:
			err = s.write(n, kinds[k])
		}
		if err != nil {
			return err
		}
		refs = append(refs, library(display(n), k, in.Lint, in.Type))
	}
	os.MkdirAll(s.path("sub"), 0777)
	before := s.files()
	text := ""
	if stdin {
		text = kinds[in.Stdin]
	}
	got, err := s.run("buildifier", "", text, nil, args...)
	if err != nil {
		return err
	}
	after := s.files()
	what := fmt.Sprintf("buildifier %q on %q %q", args, ks, in.Stdin)
	c.Outcome([]byte(fmt.Sprint(got.Code, got.Out, got.Err, after)))

	mode := in.Mode
	usage := in.Format != "" && in.Mode != "check" || in.DFlag && in.Mode != ""
	if in.DFlag {
		mode = "diff"
	}
	if mode == "" {
		mode = "fix"
	}
	switch in.Lint {
	case "fix":
		usage = usage || mode != "fix"
	case "", "off", "warn":
	default:
		usage = true
	}
	switch mode {
	case "fix", "check", "diff", "print_if_changed":
	default:
		usage = true
	}
	switch in.Format {
	case "", "text", "json":
	default:
		usage = true
	}
	switch in.Type {
	case "", "auto", "build", "bzl", "workspace", "module", "default":
	default:
		usage = true
	}
	usage = usage || (mode == "print_if_changed" || in.Path != "") && len(ks) > 1
	if usage {
		if got.Code != 2 || got.Out != "" || !strings.Contains(got.Err, "buildifier: ") {
			return core.Failf("usage", "%s: exit code %d, %q, %q", what, got.Code, got.Out, got.Err)
		}
		if d := diffFiles(before, after); d != "" {
			return core.Failf("usage-files", "%s: %s", what, d)
		}
		return nil
	}

	want := map[string]string{}
	for k, v := range before {
		want[k] = v
	}
	codes := map[int]bool{}
	out, errText := "", ""
	diag := jsonDiag{Success: true}
	var mention []string // of errors in stderr
	changed := make([]bool, len(refs))
	for i, r := range refs {
		if r.missing {
			codes[3] = true
			mention = append(mention, name(i))
			continue
		}
		d := jsonFile{Filename: r.display, Formatted: true, Valid: true}
		if r.syntax != "" {
			codes[1] = true
			mention = append(mention, r.syntax)
			d.Valid, d.Formatted = false, false
			diag.Files = append(diag.Files, d)
			errText += d.Filename + " # reformat\n"
			diag.Success = false
			continue
		}
		for _, f := range r.found {
			d.Warnings = append(d.Warnings, jsonWarning{jsonPos{f.Start.Line, f.Start.LineRune}, jsonPos{f.End.Line, f.End.LineRune}, f.Category, f.Actionable, f.AutoFixable, f.Message, f.URL})
			errText += fmt.Sprintf("%s:%d: %s: %s (%s)\n", d.Filename, f.Start.Line, f.Category, f.Message, f.URL)
			codes[4] = true
			diag.Success = false
		}
		same := r.data == r.original
		changed[i] = !same
		switch mode {
		case "check":
			if !same {
				codes[4] = true
				d.Formatted = false
				diag.Success = false
				errText += d.Filename + " # reformat\n"
			}
		case "diff":
			if same {
				break
			}
			if len(ks) > 1 {
				mention = append(mention, d.Filename+":")
			}
			if in.Multi {
				if out == "" {
					out = "run\n"
				}
				out += ":\n" + r.original + "---\n" + r.data
			} else if in.Cat {
				out += r.original + "---\n" + r.data
			} else {
				codes[4] = true
				out += "\x00"
			}
		case "fix":
			if stdin {
				out += r.data
			} else if ks[i] == "L" {
				want["target"+name(i)] = r.data
			} else {
				want[name(i)] = r.data
			}
			if in.Verb && !stdin && !same {
				mention = append(mention, "fixed "+r.display+"\n")
			}
		case "print_if_changed":
			if !same {
				out += r.data
			}
		}
		diag.Files = append(diag.Files, d)
	}
	c.NonTrivial(1)
	if d := diffFiles(want, after); d != "" {
		return core.Failf("files", "%s: %s", what, d)
	}
	for i, k := range ks {
		if k == "M" || k == "X" || k == "L" || changed[i] && mode == "fix" {
			continue
		}
		if fi, err := os.Stat(s.path(name(i))); err != nil || !fi.ModTime().Equal(oldTime) {
			return core.Failf("rewritten", "%s: %s has been written", what, name(i))
		} else if fi.Mode().Perm() != 0644 {
			return core.Failf("rewritten", "%s: %s has the mode %v", what, name(i), fi.Mode())
		}
	}
	// exit codes
	if in.Format != "" {
		codes = map[int]bool{0: true}
	} else if len(codes) == 0 {
		codes[0] = true
	}
	if !codes[got.Code] {
		return core.Failf("exit", "%s: exit code %d, want one of %v", what, got.Code, codes)
	}
	// outputs
	errOut := got.Err
	switch {
	case in.Format == "json":
		var g jsonDiag
		dec := json.NewDecoder(strings.NewReader(got.Out))
		if err := dec.Decode(&g); err != nil {
			return core.Failf("json", "%s: %q: %v", what, got.Out, err)
		}
		for i := range g.Files {
			if g.Files[i].Warnings == nil {
				return core.Failf("json", "%s: no list of warnings in %q", what, got.Out)
			}
			if len(g.Files[i].Warnings) == 0 {
				g.Files[i].Warnings = nil
			}
		}
		if fmt.Sprintf("%+v", g) != fmt.Sprintf("%+v", diag) || dec.More() {
			return core.Failf("json", "%s: got %s, want %+v", what, got.Out, diag)
		}
	case in.Format == "text":
		if got.Out != errText {
			return core.Failf("text", "%s: got %q, want %q", what, got.Out, errText)
		}
	case mode == "diff" && !in.Cat && !in.Multi:
		// one diff per changed file
		if n := strings.Count(got.Out, "\n+++ ") + strings.Count("\n"+got.Out, "\n--- "); n != 2*strings.Count(out, "\x00") {
			return core.Failf("diff", "%s: got %q", what, got.Out)
		}
		for i, r := range refs {
			if !changed[i] {
				continue
			}
			for _, l := range diffLines(r.original, r.data) {
				if !strings.Contains(got.Out, l) {
					return core.Failf("diff", "%s: no %q in %q", what, l, got.Out)
				}
			}
		}
	default:
		if got.Out != out {
			return core.Failf("stdout", "%s: got %q, want %q", what, got.Out, out)
		}
	}
	for _, m := range mention {
		if !strings.Contains(errOut, m) {
			return core.Failf("stderr", "%s: no %q in %q", what, m, errOut)
		}
	}
	if in.Format == "" {
		// the diagnostics come last
		if !strings.HasSuffix(errOut, errText) {
			return core.Failf("diagnostics", "%s: stderr %q, want %q", what, errOut, errText)
		}
		errOut = strings.TrimSuffix(errOut, errText)
	}
	if len(mention) == 0 && errOut != "" && mode != "diff" {
		return core.Failf("noise", "%s: stderr %q", what, errOut)
	}
	return nil
}

// diffLines are lines that must be in a diff.
func diffLines(a, b string) []string {
	var r []string
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	in := func(l []string, x string) bool {
		for _, y := range l {
			if x == y {
				return true
			}
		}
		return false
	}
	for _, x := range la {
		if x != "" && !in(lb, x) {
			r = append(r, "\n-"+x+"\n")
		}
	}
	for _, x := range lb {
		if x != "" && !in(la, x) {
			r = append(r, "\n+"+x+"\n")
		}
	}
	return r
}

var c22 = &core.Check{ID: "C22", Level: "model_checking",
	Run: func(c *core.Ctx) {
		tool("buildifier")
		ev := core.NewEval(c, "modes", func(in modeCase) error { return modes(c, in) })
		modeList := []string{"", "fix", "check", "diff", "print_if_changed"}
		lints := []string{"", "off", "warn", "fix"}
		formats := []string{"", "text", "json"}
		core.Stream(c, func(emit func(modeCase) bool) {
			add := func(in modeCase) bool { return emit(in) }
			flags := func(in modeCase, bad bool) bool {
				for _, m := range modeList {
					for _, l := range lints {
						for _, f := range formats {
							in.Mode, in.Lint, in.Format = m, l, f
							if f != "" && m != "check" && !bad || l == "fix" && m != "" && m != "fix" && !bad {
								continue
							}
							if m == "print_if_changed" && len(in.Kinds) > 1 && !bad {
								continue
							}
							if !add(in) {
								return false
							}
							if m == "diff" && l != "fix" {
								x := in
								x.Cat = true
								if !add(x) {
									return false
								}
								x.Cat, x.Multi = false, true
								if !add(x) {
									return false
								}
							}
						}
						if m == "" && (l == "" || l == "warn") {
							x := in
							x.Mode, x.Lint, x.Format, x.DFlag = m, l, "", true
							if !add(x) {
								return false
							}
						}
					}
				}
				return true
			}
			// usage errors
			for _, k := range [][]string{nil, {"U"}, {"U", "V"}} {
				in := modeCase{Kinds: k, Stdin: "U"}
				if k != nil {
					in.Stdin = ""
				}
				if !flags(in, true) {
					return
				}
				for _, x := range []modeCase{{Mode: "foo"}, {Lint: "foo"}, {Format: "foo", Mode: "check"}, {Type: "foo"}, {Mode: "fix", DFlag: true}, {Mode: "diff", DFlag: true}, {DFlag: true, Lint: "fix"}, {DFlag: true, Format: "json"}, {Path: "p/BUILD"}, {Path: "p/BUILD", Mode: "check"}} {
					x.Kinds, x.Stdin = in.Kinds, in.Stdin
					if !add(x) {
						return
					}
				}
			}
			for _, k := range kindOrder {
				kind := string(k)
				if kind != "M" && kind != "X" && kind != "L" {
					for _, dash := range []bool{false, true} {
						if !flags(modeCase{Stdin: kind, Dash: dash}, false) || !flags(modeCase{Stdin: kind, Dash: dash, Recurs: true}, false) {
							return
						}
					}
					for _, p := range []string{"p/BUILD", "x/y.bzl", "WORKSPACE"} {
						if !flags(modeCase{Stdin: kind, Path: p}, false) {
							return
						}
					}
					for _, t := range []string{"auto", "build", "bzl", "workspace", "module", "default"} {
						for _, m := range []string{"", "check", "diff"} {
							if !add(modeCase{Stdin: kind, Type: t, Mode: m, Lint: "warn"}) || !add(modeCase{Kinds: []string{kind}, Type: t, Mode: m, Lint: "warn"}) {
								return
							}
						}
					}
				}
				for _, l := range []string{"", "warn"} {
					for _, f := range []string{"text", "json"} {
						if !add(modeCase{Kinds: []string{kind}, Mode: "check", Lint: l, Format: f, Verb: true}) {
							return
						}
					}
					if !add(modeCase{Kinds: []string{kind}, Lint: l, Verb: true}) || !add(modeCase{Kinds: []string{kind, "U"}, Lint: l, Verb: true}) {
						return
					}
				}
				if !flags(modeCase{Kinds: []string{kind}}, false) || !flags(modeCase{Kinds: []string{kind}, Path: "q/BUILD.bazel"}, false) {
					return
				}
			}
			for _, a := range kindOrder {
				for _, b := range kindOrder {
					if !flags(modeCase{Kinds: []string{string(a), string(b)}}, false) {
						return
					}
				}
			}
			if c.Thorough() {
				for _, a := range kindOrder {
					for _, b := range kindOrder {
						for _, d := range kindOrder {
							if !flags(modeCase{Kinds: []string{string(a), string(b), string(d)}}, false) {
								return
							}
						}
					}
				}
			}
			// several workers
			for n := 1; n <= c.Pick(31, 120); n++ {
				for _, k := range [][]string{{"U"}, {"F", "U", "S"}, {"V", "M", "F", "W", "N", "E", "D"}} {
					for _, m := range []modeCase{{Mode: "fix", Lint: "warn"}, {Mode: "check", Lint: "warn"}, {Mode: "check", Format: "json", Lint: "warn"}, {Mode: "diff", Cat: true}, {Lint: "fix"}} {
						m.Kinds, m.Many = k, n
						if !add(m) {
							return
						}
					}
				}
			}
		}, func(x modeCase) { ev.Do(x) })
		c.Bound("<= %d files of %d kinds of contents and standard input x modes x lint modes x formats x -path x -type; lists of 1..%d files", c.Pick(2, 3), len(kindOrder), c.Pick(31, 120))
	}}
