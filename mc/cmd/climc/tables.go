package main

import (
	"encoding/json"
	"fmt"
	"maps"
	"path"
	"sort"
	"strings"

	"verif/mc/core"
	"verif/mc/sem"
)

// C35: -tables replaces the built-in tables and -add_tables extends them; formatting and editing then follow the tables.

// Tables is a file of tables.
type Tables struct {
	IsLabelArg                      map[string]bool `json:",omitempty"`
	LabelDenylist                   map[string]bool `json:",omitempty"`
	IsListArg                       map[string]bool `json:",omitempty"`
	IsSortableListArg               map[string]bool `json:",omitempty"`
	SortableDenylist                map[string]bool `json:",omitempty"`
	SortableAllowlist               map[string]bool `json:",omitempty"`
	NamePriority                    map[string]int  `json:",omitempty"`
	StripLabelLeadingSlashes        bool            `json:",omitempty"`
	ShortenAbsoluteLabelsToRelative bool            `json:",omitempty"`
}

// builtin are the entries of the built-in tables for the names used here.
func builtin() Tables {
	t := func() map[string]bool { return map[string]bool{"deps": true, "srcs": true} }
	return Tables{IsLabelArg: t(), IsSortableListArg: t(), NamePriority: map[string]int{"name": -99, "size": -95, "srcs": -90, "deps": 4}}
}

// add merges tables into others.
func (t Tables) add(u Tables) Tables {
	m := func(a, b map[string]bool) map[string]bool {
		r := map[string]bool{}
		maps.Copy(r, a)
		maps.Copy(r, b)
		return r
	}
	r := Tables{m(t.IsLabelArg, u.IsLabelArg), m(t.LabelDenylist, u.LabelDenylist), m(t.IsListArg, u.IsListArg), m(t.IsSortableListArg, u.IsSortableListArg), m(t.SortableDenylist, u.SortableDenylist),
		m(t.SortableAllowlist, u.SortableAllowlist), map[string]int{}, t.StripLabelLeadingSlashes || u.StripLabelLeadingSlashes, t.ShortenAbsoluteLabelsToRelative || u.ShortenAbsoluteLabelsToRelative}
	maps.Copy(r.NamePriority, t.NamePriority)
	maps.Copy(r.NamePriority, u.NamePriority)
	return r
}

type tablesCase struct {
	Override, Add *Tables
	Tool          string
	Way           string // how the tables are given
	Raw           string // contents of the tables file, if not those of Override
}

// label shortens a label in a package.
func (t Tables) label(s, dir string) string {
	if strings.HasPrefix(s, "//") && t.StripLabelLeadingSlashes && (dir == "." || !strings.HasPrefix(s, "//:")) {
		s = s[2:]
	}
	if t.ShortenAbsoluteLabelsToRelative {
		own := "//" + dir
		if t.StripLabelLeadingSlashes {
			own = dir
		}
		if s == own {
			return ":" + path.Base(dir)
		}
		if rest, ok := strings.CutPrefix(s, own+":"); ok {
			return ":" + rest
		}
	}
	p, name, ok := strings.Cut(s, ":")
	switch {
	case !ok || name == "":
		return s
	case !strings.Contains(p, "//") && !t.StripLabelLeadingSlashes:
		return s
	case strings.HasSuffix(p, "/"+name) || p == name && t.StripLabelLeadingSlashes:
		return p
	case p == "@"+name+"//":
		return "@" + name
	}
	return s
}

// less is the order of sorted lists.
func (t Tables) less(a, b string) bool {
	phase := func(s string) int {
		switch {
		case strings.HasPrefix(s, ":"):
			return 1
		case strings.HasPrefix(s, "@"):
			return 3
		case strings.HasPrefix(s, "//") || t.StripLabelLeadingSlashes:
			return 2
		}
		return 0
	}
	if p, q := phase(a), phase(b); p != q {
		return p < q
	}
	x, y := strings.Split(strings.ReplaceAll(a, ":", "."), "."), strings.Split(strings.ReplaceAll(b, ":", "."), ".")
	for i := 0; i < len(x) && i < len(y); i++ {
		if x[i] != y[i] {
			return x[i] < y[i]
		}
	}
	if len(x) != len(y) {
		return len(x) < len(y)
	}
	return a < b
}

func (t Tables) isList(a string) bool {
	if v, ok := t.IsListArg[a]; ok {
		return v
	}
	return t.IsSortableListArg[a] || a == "deps" || a == "srcs"
}

// format applies the rules for BUILD files to a rule.
func (t Tables) format(call *sem.N, dir string) {
	kind := call.C[0].V
	if call.C[0].K == "dot" {
		kind = call.C[0].C[0].V + "." + kind
	}
	prio := func(a string) int {
		if p, ok := t.NamePriority[kind+"."+a]; ok {
			return p
		}
		return t.NamePriority[a]
	}
	args := call.C[1:]
	sort.SliceStable(args, func(i, j int) bool {
		a, b := args[i].C[0].V, args[j].C[0].V
		if p, q := prio(a), prio(b); p != q {
			return p < q
		}
		return a < b
	})
	for _, a := range args {
		attr := a.C[0].V
		lab := t.IsLabelArg[attr] && !t.LabelDenylist[kind+"."+attr]
		srt := (t.IsSortableListArg[attr] || t.SortableAllowlist[kind+"."+attr]) && !t.SortableDenylist[kind+"."+attr]
		var walk func(x *sem.N)
		walk = func(x *sem.N) {
			switch {
			case x.K == "bin":
				walk(x.C[0])
				walk(x.C[1])
			case x.K == "call" && x.C[0].V == "select":
				for _, kv := range x.C[1].C {
					walk(kv.C[1])
				}
			case x.K == "str" && lab:
				x.V = t.label(x.V, dir)
			case x.K == "list":
				if lab {
					for _, e := range x.C {
						if e.K == "str" {
							e.V = t.label(e.V, dir)
						}
					}
				}
				if srt {
					sort.SliceStable(x.C, func(i, j int) bool { return t.less(x.C[i].V, x.C[j].V) })
					var l []*sem.N
					for _, e := range x.C {
						if len(l) == 0 || l[len(l)-1].V != e.V {
							l = append(l, e)
						}
					}
					x.C = l
				}
			}
		}
		walk(a.C[1])
	}
}

var tableLists = []string{
	`["c", ":b", "//pkg:x", "@r//:r", "a.b", "//a/b:b", ":a", "//pkg", "@q", "//pkg:pkg", "b:b", "a", "a", "//:root", "//sub/pkg:x"]`,
	`["//b:b", "//a"] + ["d", "c"]`,
	`select({"//c:c": ["//b:b", "//a:a"], "//d": ["d", "//pkg:c"]})`,
	`"//b:b"`, `"//pkg:x"`,
}

func tableFile(kinds []string) string {
	var b strings.Builder
	n := 0
	for _, k := range kinds {
		for _, l := range tableLists {
			n++
			fmt.Fprintf(&b, "%s(\n    zz = %s,\n    name = \"t%d\",\n    yy = %s,\n    size = \"//b:b\",\n    deps = %s,\n)\n\n", k, l, n, l, l)
		}
	}
	return b.String()
}

func (x tablesCase) tables() Tables {
	t := builtin()
	if x.Override != nil {
		t = Tables{}.add(*x.Override)
	}
	if x.Add != nil {
		t = t.add(*x.Add)
	}
	return t
}

func tablesRun(in tablesCase) error {
	s, err := newScratch()
	if err != nil {
		return err
	}
	defer s.remove()
	text := tableFile([]string{"k", "m.k"})
	bzl := "k(\n    zz = [\"b\", \"//a:a\"],\n    name = \"x\",\n    deps = [\"b\", \"//a:a\"],\n)\n"
	in1 := map[string]string{"MODULE.bazel": "", "pkg/BUILD": text, "BUILD": text, "pkg/x.bzl": bzl}
	var args []string
	conf := map[string]string{}
	dir := ""
	raw := func(name, opt, key string, t *Tables) {
		if t == nil {
			return
		}
		data, _ := json.Marshal(t)
		if in.Raw != "" && opt == "-tables" || in.Raw != "" && in.Override == nil {
			data = []byte(in.Raw)
		}
		p := name
		switch in.Way {
		case "absolute":
			p = s.path(name)
		case "search":
			dir = "pkg"
		case "missing":
			p = "no/" + name
		}
		in1[name] = string(data)
		args = append(args, opt+"="+p)
		conf[key] = p
	}
	raw("t.json", "-tables", "tables", in.Override)
	raw("a.json", "-add_tables", "addTables", in.Add)
	if in.Way == "config" {
		data, _ := json.Marshal(conf)
		in1[".buildifier.json"] = string(data)
		args = nil
	}
	for p, x := range in1 {
		if err := s.write(p, x); err != nil {
			return err
		}
	}
	before := s.files()
	up := strings.Repeat("../", strings.Count(dir, "/")+1)
	if dir == "" {
		up = ""
	}
	var env []string
	if in.Tool == "buildozer" {
		args = append(args, "set zz q", "set deps q", "add yy q", "//pkg:t2", "//pkg:t7", "//:t1")
	} else {
		for _, p := range []string{"pkg/BUILD", "BUILD", "pkg/x.bzl"} {
			args = append(args, up+p)
		}
	}
	r, err := s.run(in.Tool, dir, "", env, args...)
	if err != nil {
		return err
	}
	after := s.files()
	var bad Tables
	if in.Way == "missing" || in.Raw != "" && json.Unmarshal([]byte(in.Raw), &bad) != nil {
		if r.Code == 0 || r.Code == 3 || !strings.Contains(r.Err, ".json") || strings.Contains(r.Err, "panic") {
			return core.Failf("error", "%s %q: exit code %d, %s", in.Tool, args, r.Code, r.Err)
		}
		if d := diffFiles(before, after); d != "" {
			return core.Failf("changed", "%s with bad tables changed %s", in.Tool, d)
		}
		return nil
	}
	if r.Code != 0 {
		return core.Failf("exit", "%s %q: exit code %d, %s", in.Tool, args, r.Code, r.Err)
	}
	t := in.tables()
	for p, dir := range map[string]string{"pkg/BUILD": "pkg", "BUILD": "."} {
		want, err := sem.FromStarlark(text)
		if err != nil {
			panic(err)
		}
		for _, c := range want.C {
			name := ""
			for _, a := range c.C[1:] {
				if a.C[0].V == "name" {
					name = a.C[1].V
				}
			}
			if in.Tool == "buildozer" && (dir == "pkg" && (name == "t2" || name == "t7") || dir == "." && name == "t1") {
				set := func(attr string) {
					v := &sem.N{K: "id", V: "q"}
					if t.isList(attr) {
						v = &sem.N{K: "list", C: []*sem.N{{K: "str", V: "q"}}}
					}
					for _, a := range c.C[1:] {
						if a.C[0].V == attr {
							a.C[1] = v
						}
					}
				}
				set("zz")
				set("deps")
			}
			if in.Tool == "buildozer" {
				t.format(c, s.path(dir)) // its files have absolute paths
			} else {
				t.format(c, path.Join(up, dir)) // the path as it was given
			}
		}
		got, err := sem.FromStarlark(after[p])
		if err != nil {
			return core.Failf("unparseable", "%s %q: %v\n%s", in.Tool, args, err, after[p])
		}
		if in.Tool == "buildozer" {
			dropQ(got)
			dropQ(want)
		}
		for i := range want.C {
			if i >= len(got.C) || got.C[i].String() != want.C[i].String() {
				return core.Failf("result", "%s %q: rule %d of %s is\n%s\nwant\n%s", in.Tool, args, i, p, got.C[i], want.C[i])
			}
		}
	}
	if in.Tool == "buildifier" {
		f, err := sem.FromStarlark(after["pkg/x.bzl"])
		if w, _ := sem.FromStarlark(bzl); err != nil || f.String() != w.String() {
			return core.Failf("bzl", "tables affect .bzl files\n%s", after["pkg/x.bzl"])
		}
	}
	for p := range before {
		if p != "pkg/BUILD" && p != "BUILD" && p != "pkg/x.bzl" && after[p] != before[p] {
			return core.Failf("other", "%s changed %s", in.Tool, p)
		}
	}
	return nil
}

// dropQ drops the item buildozer added to yy, the subject of another property.
func dropQ(f *sem.N) {
	for _, c := range f.C {
		for _, a := range c.C[1:] {
			if a.C[0].V == "yy" {
				a.C[1] = &sem.N{K: "id", V: "yy"}
			}
		}
	}
}

var c35 = &core.Check{ID: "C35", Level: "model_checking", Run: func(c *core.Ctx) {
	ev := core.NewEval(c, "tables", tablesRun)
	tool("buildifier")
	tool("buildozer")
	m := func(k string, v bool) map[string]bool { return map[string]bool{k: v} }
	var all []Tables
	none := map[string]bool(nil)
	for _, lab := range []map[string]bool{none, m("zz", true), m("deps", false), {"zz": true, "yy": true, "deps": true}} {
		for _, den := range []map[string]bool{none, m("k.zz", true), m("m.k.deps", true)} {
			for _, srt := range []map[string]bool{none, m("zz", true), m("deps", false)} {
				for _, sd := range []map[string]bool{none, m("k.deps", true), m("m.k.zz", true)} {
					for _, sa := range []map[string]bool{none, m("k.yy", true)} {
						for _, pr := range []map[string]int{nil, {"zz": -100, "k.yy": -101, "m.k.name": 9}} {
							for _, b := range []int{0, 1, 2, 3} {
								for _, il := range []map[string]bool{none, m("zz", true), m("deps", false)} {
									all = append(all, Tables{lab, den, il, srt, sd, sa, pr, b&1 > 0, b&2 > 0})
								}
							}
						}
					}
				}
			}
		}
	}
	weight := func(t Tables) int {
		n := len(t.IsLabelArg) + len(t.LabelDenylist) + len(t.IsListArg) + len(t.IsSortableListArg) + len(t.SortableDenylist) + len(t.SortableAllowlist) + len(t.NamePriority)
		if t.StripLabelLeadingSlashes {
			n++
		}
		if t.ShortenAbsoluteLabelsToRelative {
			n++
		}
		return n
	}
	var single []Tables
	for _, t := range all {
		if n := weight(t); n <= 1 || n == 3 && (len(t.NamePriority) == 3 || len(t.IsLabelArg) == 3) {
			single = append(single, t)
		}
	}
	core.Stream(c, func(emit func(tablesCase) bool) {
		for i := range all {
			for k, tl := range []string{"buildifier", "buildozer"} {
				if !c.Thorough() && weight(all[i]) > 3 && (i/3+i)%4 > 0 {
					continue
				}
				if !c.Thorough() && k == 0 && len(all[i].IsListArg) > 0 && weight(all[i]) > 1 {
					continue
				}
				if !emit(tablesCase{Override: &all[i], Tool: tl}) || !emit(tablesCase{Add: &all[i], Tool: tl}) {
					return
				}
			}
		}
		for i := range single {
			for j := range single {
				for _, tl := range []string{"buildifier", "buildozer"} {
					if !emit(tablesCase{Override: &single[i], Add: &single[j], Tool: tl}) {
						return
					}
				}
			}
			for _, w := range []string{"absolute", "search", "missing", "config"} {
				for _, tl := range []string{"buildifier", "buildozer"} {
					if tl == "buildozer" && w != "absolute" && w != "missing" {
						continue
					}
					if !emit(tablesCase{Override: &single[i], Tool: tl, Way: w}) || !emit(tablesCase{Add: &single[i], Tool: tl, Way: w}) {
						return
					}
				}
			}
		}
		for _, raw := range []string{"{", "[]", "1", `{"IsLabelArg": ["a"]}`, `{"NamePriority": {"a": "b"}}`, `{"StripLabelLeadingSlashes": 1}`, "\x00", "{}}"} {
			for _, tl := range []string{"buildifier", "buildozer"} {
				if !emit(tablesCase{Override: &single[0], Tool: tl, Raw: raw}) || !emit(tablesCase{Add: &single[0], Tool: tl, Raw: raw}) {
					return
				}
			}
		}
	}, func(x tablesCase) {
		if ev.Do(x) {
			c.NonTrivial(1)
		}
	})
	c.Bound("%d tables with any combination of entries of the 9 kinds, as -tables and as -add_tables (quick: those with more than 3 entries the quarter of a covering stride), all pairs of %d small tables, 4 ways to name the files, malformed files; 30 rules each; buildifier and buildozer", len(all), len(single))
}}
