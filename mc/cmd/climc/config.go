package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"

	"github.com/bazelbuild/buildtools/buildifier/config"
	"github.com/bazelbuild/buildtools/warn"
	"verif/mc/core"
)

// settings with two values each; the files below behave differently for all of them
var settings = []struct{ json, flag, a, b string }{
	{"mode", "mode", `"check"`, `"diff"`},
	{"lint", "lint", `"warn"`, `"off"`},
	{"warnings", "warnings", `"print"`, `"-print,-module-docstring"`},
	{"type", "type", `"build"`, `"bzl"`},
	{"format", "format", `"json"`, `"text"`},
	{"verbose", "v", `true`, `false`},
	{"diffCommand", "diff_command", `"cat"`, `"echo"`},
	{"recursive", "r", `true`, `false`},
	{"path", "path", `"x/BUILD"`, `"y.bzl"`},
	{"diffMode", "d", `true`, `false`},
	{"tables", "tables", `"t1.json"`, `"t2.json"`},
	{"addTables", "add_tables", `"t1.json"`, `"t2.json"`},
	{"multiDiff", "multi_diff", `true`, `false`},
	{"buildifier_disable", "buildifier_disable", `["listsort"]`, `["callsort"]`},
	{"allowsort", "allowsort", `["g.other"]`, `["g.mydeps"]`},
}

type configCase struct {
	Flags  map[string]string // JSON values
	Named  map[string]string // the file of -config
	Env    map[string]string // of BUILDIFIER_CONFIG
	Parent map[string]string // .buildifier.json in the parent directory
	Here   map[string]string // .buildifier.json
	Off    bool              // -config=off
	Empty  bool              // BUILDIFIER_CONFIG is empty
}

func jsonOf(m map[string]string) string {
	var l []string
	for k, v := range m {
		l = append(l, fmt.Sprintf("%q: %s", k, v))
	}
	sort.Strings(l)
	return "{" + strings.Join(l, ", ") + "}"
}

func flagsOf(m map[string]string) []string {
	var l []string
	for _, s := range settings {
		v, ok := m[s.json]
		if !ok {
			continue
		}
		var x any
		json.Unmarshal([]byte(v), &x)
		if list, ok := x.([]any); ok {
			for _, y := range list {
				l = append(l, fmt.Sprintf("-%s=%v", s.flag, y))
			}
			continue
		}
		l = append(l, fmt.Sprintf("-%s=%v", s.flag, x))
	}
	return l
}

func configs(c *core.Ctx, in configCase) error {
	run := func(flags []string, file map[string]map[string]string, env []string) (result, map[string]string, error) {
		s, err := newScratch()
		if err != nil {
			return result{}, nil, err
		}
		defer s.remove()
		for _, f := range [][2]string{
			{"d/e/a.bzl", "foo(\n  b=1,a=2)\nprint(1)\n"},
			{"d/e/dir/BUILD", "g(\n name = 'x', deps=['b','a'], mydeps=['b','a'], other=['b','a'])\n"},
			{"d/e/t1.json", `{"IsLabelArg": {"mydeps": true}, "IsSortableListArg": {"mydeps": true}}`},
			{"d/e/t2.json", `{"IsLabelArg": {"other": true}, "IsSortableListArg": {"other": true}}`},
			{"WORKSPACE", ""},
		} {
			if err := s.write(f[0], f[1]); err != nil {
				return result{}, nil, err
			}
		}
		for n, m := range file {
			if m != nil {
				if err := s.write(n, jsonOf(m)); err != nil {
					return result{}, nil, err
				}
			}
		}
		args := append([]string{}, flags...)
		if r, ok := in.effective()["recursive"]; ok && r == "true" {
			args = append(args, "dir")
		} else if in.effective()["type"] == "" {
			args = append(args, "dir/BUILD")
		} else {
			args = append(args, "a.bzl")
		}
		r, err := s.run("buildifier", "d/e", "", env, args...)
		if err != nil {
			return r, nil, err
		}
		after := s.files()
		for _, n := range []string{"d/named.json", "d/env.json", "d/e/.buildifier.json", "d/.buildifier.json"} {
			delete(after, n)
		}
		tmp := strings.ReplaceAll
		r.Out = tmp(r.Out, s.dir, "T")
		r.Err = tmp(r.Err, s.dir, "T")
		return r, after, nil
	}
	var env []string
	flags := flagsOf(in.Flags)
	if in.Named != nil {
		flags = append(flags, "-config=../named.json")
	}
	if in.Off {
		flags = append(flags, "-config=off")
	}
	if in.Env != nil {
		env = append(env, "BUILDIFIER_CONFIG=../env.json")
	}
	if in.Empty {
		env = append(env, "BUILDIFIER_CONFIG=")
	}
	got, files, err := run(flags, map[string]map[string]string{"d/named.json": in.Named, "d/env.json": in.Env, "d/e/.buildifier.json": in.Here, "d/.buildifier.json": in.Parent}, env)
	if err != nil {
		return err
	}
	want, wantFiles, err := run(append(flagsOf(in.effective()), "-config=off"), nil, nil)
	if err != nil {
		return err
	}
	// temporary names are random
	norm := func(r result) result {
		for _, p := range []*string{&r.Out, &r.Err} {
			l := strings.Split(*p, "\n")
			for i := range l {
				if j := strings.Index(l[i], "buildifier-tmp-"); j >= 0 {
					l[i] = l[i][:j]
				}
			}
			*p = strings.Join(l, "\n")
		}
		return r
	}
	got, want = norm(got), norm(want)
	c.NonTrivial(1)
	if got != want {
		return core.Failf("config", "%s: got %+v, with flags %q %+v", show(in), got, flagsOf(in.effective()), want)
	}
	if d := diffFiles(wantFiles, files); d != "" {
		return core.Failf("files", "%s: %s", show(in), d)
	}
	return nil
}

func show(in configCase) string {
	b, _ := json.Marshal(in)
	return string(b)
}

// effective are the settings that should be used: flags, then one configuration file.
func (in configCase) effective() map[string]string {
	m := map[string]string{}
	var file map[string]string
	switch {
	case in.Off || in.Empty:
	case in.Named != nil:
		file = in.Named
	case in.Env != nil:
		file = in.Env
	case in.Here != nil:
		file = in.Here
	default:
		file = in.Parent
	}
	if in.Empty && in.Named != nil {
		file = in.Named
	}
	for k, v := range file {
		m[k] = v
	}
	for k, v := range in.Flags {
		if old, ok := m[k]; ok && strings.HasPrefix(v, "[") {
			// lists accumulate
			v = strings.TrimSuffix(old, "]") + "," + v[1:]
		}
		m[k] = v
	}
	return m
}

// A warnCase selects warnings.
type warnCase struct {
	List []string // of the configuration
	Conf string
	Flag string
	Has  bool // with the flag
}

func selected(in warnCase) (map[string]bool, bool, bool) {
	words := append([]string{}, in.List...)
	if in.Has && in.Flag != "" {
		words = append(words, in.Flag)
	} else if in.Conf != "" {
		words = append(words, in.Conf)
	}
	all := strings.Join(words, ",")
	set := map[string]bool{}
	switch all {
	case "", "default":
		for _, x := range warn.AllWarnings {
			set[x] = x != "unsorted-dict-items"
		}
		return set, false, true
	case "all":
		for _, x := range warn.AllWarnings {
			set[x] = true
		}
		return set, false, true
	}
	raw, mod := false, false
	plus, minus := map[string]bool{}, map[string]bool{}
	for _, w := range strings.Split(all, ",") {
		switch {
		case w == "all" || w == "default" || w == "":
			return nil, false, false // not specified
		case w[0] == '+':
			mod = true
			plus[w[1:]] = true
		case w[0] == '-':
			mod = true
			minus[w[1:]] = true
		default:
			raw = true
			set[w] = true
		}
	}
	if raw && mod {
		return nil, true, true
	}
	if mod {
		for _, x := range warn.AllWarnings {
			set[x] = x != "unsorted-dict-items" && !minus[x]
		}
		for x := range plus {
			if minus[x] {
				return nil, false, false
			}
			set[x] = true
		}
	}
	return set, false, true
}

func selection(c *core.Ctx, in warnCase) error {
	want, bad, ok := selected(in)
	if !ok {
		return nil
	}
	conf := config.New()
	text := map[string]any{}
	if in.List != nil {
		text["warningsList"] = in.List
	}
	if in.Conf != "" {
		text["warnings"] = in.Conf
	}
	b, _ := json.Marshal(text)
	if err := conf.LoadReader(strings.NewReader(string(b))); err != nil {
		return core.Failf("load", "%s: %v", b, err)
	}
	var args []string
	if in.Has {
		args = []string{"-warnings=" + in.Flag}
	}
	fs := conf.FlagSet("buildifier", 0)
	if err := fs.Parse(append(args, "f")); err != nil {
		return core.Failf("flags", "%v", err)
	}
	if in.Has && in.Flag == "" {
		// an empty flag overrides the warnings of the configuration
		x := in
		x.Conf = ""
		want, bad, ok = selected(x)
		if !ok {
			return nil
		}
	}
	err := conf.Validate(fs.Args())
	what := fmt.Sprintf("%s %q", b, args)
	c.NonTrivial(1)
	if bad != (err != nil) {
		return core.Failf("validate", "%s: %v", what, err)
	}
	if bad {
		return nil
	}
	got := map[string]bool{}
	for _, x := range conf.LintWarnings {
		if got[x] {
			return core.Failf("duplicate", "%s: %s is enabled twice", what, x)
		}
		got[x] = true
	}
	for x := range got {
		if !want[x] {
			return core.Failf("extra", "%s: %s is enabled", what, x)
		}
	}
	for x, on := range want {
		if on && !got[x] {
			return core.Failf("missing", "%s: %s isn't enabled", what, x)
		}
	}
	return nil
}

var c23 = &core.Check{ID: "C23", Level: "model_checking",
	Run: func(c *core.Ctx) {
		tool("buildifier")
		ev := core.NewEval(c, "config", func(in configCase) error { return configs(c, in) })
		sel := core.NewEval(c, "selection", func(in warnCase) error { return selection(c, in) })
		bad := core.NewEval(c, "broken", func(in string) error { return broken(c, in) })
		words := []string{"print", "+print", "-print", "unsorted-dict-items", "+unsorted-dict-items", "-unsorted-dict-items", "all", "default", "load", "-load", "+load"}
		var lists []string
		var rec func(l []string, n int)
		rec = func(l []string, n int) {
			lists = append(lists, strings.Join(l, ","))
			if n == 0 {
				return
			}
			for _, w := range words {
				rec(append(l[:len(l):len(l)], w), n-1)
			}
		}
		rec(nil, c.Pick(2, 3))
		core.Stream(c, func(emit func(warnCase) bool) {
			for _, a := range lists {
				for _, b := range lists {
					for _, has := range []bool{false, true} {
						if !has && b != "" {
							continue
						}
						if !emit(warnCase{Conf: a, Flag: b, Has: has}) {
							return
						}
						if a != "" {
							if !emit(warnCase{List: strings.Split(a, ","), Flag: b, Has: has}) || !emit(warnCase{List: []string{a}, Conf: "print", Flag: b, Has: has}) {
								return
							}
						}
					}
				}
			}
		}, func(x warnCase) { sel.Do(x) })
		core.Stream(c, func(emit func(configCase) bool) {
			base := func(i int) map[string]string {
				// what makes the setting observable
				switch settings[i].json {
				case "warnings":
					return map[string]string{"lint": `"warn"`, "mode": `"check"`}
				case "format", "type":
					return map[string]string{"mode": `"check"`}
				case "multiDiff":
					return map[string]string{"mode": `"diff"`, "diffCommand": `"echo"`}
				case "diffCommand":
					return map[string]string{"mode": `"diff"`}
				}
				return nil
			}
			for i, s := range settings {
				vals := []string{"", s.a, s.b}
				set := func(v string) map[string]string {
					if v == "" {
						return nil
					}
					return map[string]string{s.json: v}
				}
				for _, fl := range vals {
					for _, n := range vals {
						for _, e := range vals {
							for _, h := range vals {
								for _, p := range vals {
									for _, off := range []bool{false, true} {
										for _, empty := range []bool{false, true} {
											if off && n != "" || empty && e != "" {
												continue
											}
											if !c.Thorough() && (n != "" && e != "" && h != "" || e != "" && h != "" && p != "" || empty && off) {
												continue
											}
											in := configCase{set(fl), set(n), set(e), set(p), set(h), off, empty}
											for k, v := range base(i) {
												if in.Flags == nil {
													in.Flags = map[string]string{}
												}
												in.Flags[k] = v
											}
											if !emit(in) {
												return
											}
										}
									}
								}
							}
						}
					}
				}
			}
			// two settings from two sources
			for _, s := range settings {
				for _, t := range settings {
					for _, v := range []string{s.a, s.b} {
						for _, w := range []string{t.a, t.b} {
							both := map[string]string{s.json: v, t.json: w}
							if s.json == t.json {
								continue
							}
							if !emit(configCase{Flags: map[string]string{s.json: v}, Here: map[string]string{t.json: w}}) || !emit(configCase{Here: both}) || !emit(configCase{Named: both, Here: map[string]string{s.json: s.b}}) || !emit(configCase{Flags: map[string]string{s.json: v}, Env: both}) {
								return
							}
						}
					}
				}
			}
		}, func(x configCase) { ev.Do(x) })
		for _, x := range []string{"named-missing", "named-json", "env-missing", "env-json", "here-json", "off-json", "example", "here-dir"} {
			bad.Do(x)
		}
		c.Bound("%d settings x every combination of flag, -config, $BUILDIFIER_CONFIG, .buildifier.json in two directories and -config=off; all pairs of settings from two sources; all lists of <= %d of %d words for the configuration and the flag", len(settings), c.Pick(2, 3), len(words))
	}}

// broken are configurations that can't be used.
func broken(c *core.Ctx, in string) error {
	s, err := newScratch()
	if err != nil {
		return err
	}
	defer s.remove()
	s.write("a.bzl", "x=1\n")
	s.write("bad.json", "{\"mode\": 1")
	var args, env []string
	code, fixed := 2, false
	switch in {
	case "named-missing":
		args = []string{"-config=none.json"}
	case "named-json":
		args = []string{"-config=bad.json"}
	case "env-missing":
		env = []string{"BUILDIFIER_CONFIG=none.json"}
	case "env-json":
		env = []string{"BUILDIFIER_CONFIG=bad.json"}
	case "here-json":
		s.write(".buildifier.json", "{\"mode\": 1")
	case "off-json":
		s.write(".buildifier.json", "{\"mode\": 1")
		args, code, fixed = []string{"-config=off"}, 0, true
	case "here-dir":
		os.Mkdir(s.path(".buildifier.json"), 0777)
		code, fixed = 0, true
	case "example":
		args, code = []string{"-config=example"}, 0
	}
	r, err := s.run("buildifier", "", "", env, append(args, "a.bzl")...)
	if err != nil {
		return err
	}
	c.NonTrivial(1)
	b, _ := os.ReadFile(s.path("a.bzl"))
	want := "x=1\n"
	if fixed {
		want = "x = 1\n"
	}
	if r.Code != code || string(b) != want || code == 2 && !strings.Contains(r.Err, "buildifier: ") {
		return core.Failf("broken", "%s: exit code %d, file %q, %q", in, r.Code, b, r.Err)
	}
	if in == "example" {
		x := config.New()
		if err := x.LoadReader(strings.NewReader(r.Out)); err != nil {
			return core.Failf("example", "%q: %v", r.Out, err)
		}
		if err := x.Validate([]string{"f"}); err != nil {
			return core.Failf("example", "%q: %v", r.Out, err)
		}
	}
	return nil
}
