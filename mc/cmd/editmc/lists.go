package main

import (
	"strings"

	"github.com/bazelbuild/buildtools/edit"

	"verif/mc/core"
	"verif/mc/sem"
)

// Values of list attributes.
var listShapes = []string{
	"", `[]`, `["a"]`, `[":a"]`, `["//pkg:a"]`, `["a", "//q:c", ":b"]`, `["//q/d:d", "@r//:e"]`, `VAR`, `["a"] + VAR`, `VAR + ["a", "b"]`, `["a"] + ["b"]`, `glob(["a"])`, `glob(["a"]) + ["b"]`,
	`select({"//x:1": ["a"], "//x:2": ["b"]})`, `select({"//x:1": ["a", "b"], "//x:2": ["c", "a"]})`, `["a"] + select({"//x:1": ["b"], "//x:2": []})`,
	`["z"] + select({"//x:1": ["b", "c"], "//x:2": ["c"]})`, `select({"//x:1": [], "//conditions:default": []})`, `["a"] + select({"//x:1": ["b"], "//x:2": ["c"]}) + select({"//y:1": ["b"], "//y:2": ["d", "b"]})`,
	`["a"] + select({"//x:1": VAR, "//x:2": ["b"]})`, `select({"//x:1": ["a"], "//x:2": ["a"]}) + ["c"]`, `["a", x]`, `["b"] + glob(["a"]) + ["a"]`, `[x for x in ["a"]]`, `[m("a"), "a"]`, `["a"] + select({"//x:1": ["b"]}, no_match_error = "a")`,
	`"a"`, `None`, `{"a": "b"}`, `["a"] + [] + select({"//x:1": ["a"], "//x:2": ["//pkg:a"]})`, `["a", "b", "//q/d", "@r//:e"]`, `["ab", "ba", "aab"]`,
}

func ruleFile(attrs ...string) string {
	var b strings.Builder
	b.WriteString("load(\":d.bzl\", \"m\")\n\nVAR = [\"v\"]\n\ncc_library(\n    name = \"before\",\n    deps = [\"a\"],\n)\n\n# about t\ncc_library(\n    name = \"t\",\n")
	for i := 0; i+1 < len(attrs); i += 2 {
		if attrs[i+1] != "" {
			b.WriteString("    " + attrs[i] + " = " + attrs[i+1] + ",\n")
		}
	}
	b.WriteString(")\n\nm(\n    name = \"after\",\n    deps = [\n        \"a\",\n        \"//q:c\",\n    ],\n)\n")
	return b.String()
}

// commented gives the variants of a file in which rule t has one element per line, with a comment before or after each or
// every other one.
func commented(text string) []string {
	i := strings.Index(text, "name = \"t\",\n")
	if i < 0 {
		return nil
	}
	i += len("name = \"t\",\n")
	j := i + strings.Index(text[i:], "\n)\n") + 1
	if j <= i {
		return nil
	}
	body := strings.NewReplacer("{}", "{}", "[]", "[]", "{", "{\n", "[", "[\n", ", ", ",\n", "}", "\n}", "]", "\n]").Replace(text[i:j])
	var r []string
	for k := 0; k < 4; k++ {
		out := ""
		for n, l := range strings.Split(strings.TrimSuffix(body, "\n"), "\n") {
			switch {
			case strings.Trim(l, " ]}),") == "" || k > 1 && n%2 == k%2:
			case k%2 == 0:
				out += "# before\n"
			default:
				l += "  # after"
			}
			out += l + "\n"
		}
		r = append(r, text[:i]+out+text[j:])
	}
	return r
}

var values = []string{"a", ":a", "//pkg:a", "b", "//q:c", "//q/d", "//q/d:d", "@r//:e", "new", `"b"`, "//pkg:new", "a b"}

func listCommands(attrs []string, vals []string, second []string) [][]string {
	var r [][]string
	for _, a := range attrs {
		for _, v := range vals {
			r = append(r, []string{"add", a, v}, []string{"remove", a, v})
			for _, w := range second {
				r = append(r, []string{"add", a, v, w}, []string{"remove", a, v, w}, []string{"replace", a, v, w})
			}
		}
		for _, s := range [][2]string{{"a", "b"}, {"^a$", "z"}, {"^//q/(.*)$", "//s/${1}"}, {"(.)(b)?", "$2$1"}, {"^", "p"}, {"b$", "x"}, {":", "_${0}_"}} {
			r = append(r, []string{"substitute", a, s[0], s[1]})
		}
	}
	for _, a := range attrs {
		for _, b := range attrs {
			if a == b {
				r = append(r, []string{"move", a, b, "*"})
			} else {
				for _, v := range vals {
					r = append(r, []string{"move", a, b, v})
				}
				r = append(r, []string{"move", a, b, "a", "//q:c"}, []string{"move", a, b, "*"})
			}
		}
	}
	return r
}

func star(vals []string) [][]string {
	var r [][]string
	for _, v := range vals {
		r = append(r, []string{"remove", "*", v}, []string{"replace", "*", v, "w"})
	}
	return append(r, []string{"substitute", "*", "a", "o"})
}

// A VarStep is a command with -edit-variables.
type VarStep struct {
	Step
}

// doVars judges a command with -edit-variables: if the attribute is a variable that the file assigns before, the values are
// added to that assignment, otherwise as usual.
func doVars(in VarStep) error {
	pre, err := sem.FromStarlark(in.Text)
	if err != nil {
		return nil
	}
	r := buildozer(map[string]string{buildFile: in.Text}, []string{escape(in.Cmd), "//pkg:" + in.Target}, func(o *edit.Options) { o.EditVariables = true })
	text := r.Files[buildFile]
	post, err := sem.FromStarlark(text)
	if err != nil {
		return failf("vars/syntax", "the file does not parse any more: %v\n%s", err, text)
	}
	expect := map[int]map[string]Expect{} // by statement and attribute ("" for a variable)
	attr := in.Cmd[1]
	vals := map[int][]string{}
	for _, i := range targets(pre, in.Target) {
		rule := asRule(pre.C[i])
		add := in.Cmd[2:]
		if in.Cmd[0] == "move" {
			attr = in.Cmd[2]
			src := rule.Attrs[in.Cmd[1]]
			if src == nil || !occurs(src, in.Cmd[3]) {
				continue
			}
			add = in.Cmd[3:]
			expect[i] = map[string]Expect{in.Cmd[1]: removeLaw(in.Cmd[1], add)}
		}
		if expect[i] == nil {
			expect[i] = map[string]Expect{}
		}
		at := -1
		if v := rule.Attrs[attr]; v != nil && v.K == "id" {
			for k, s := range pre.C {
				if s.K == "assign" && s.C[0].K == "id" && s.C[0].V == v.V {
					at = k
				}
			}
		}
		if at < 0 {
			expect[i][attr] = addLaw(attr, add)
			continue
		}
		vals[at] = append(vals[at], add...)
		expect[at] = map[string]Expect{"": addLaw("deps", vals[at])}
	}
	if len(pre.C) != len(post.C) || r.RC != 0 && r.RC != 3 || (r.RC == 0) != (text != in.Text) {
		return failf("vars/exit", "exit code %d, changed %v: %s\n%s", r.RC, text != in.Text, r.Err, text)
	}
	for i := range pre.C {
		e := expect[i]
		if e == nil {
			if !eq(pre.C[i], post.C[i]) {
				return failf("vars/frame", "another statement changed: %s -> %s", pre.C[i], post.C[i])
			}
			continue
		}
		if pre.C[i].K == "assign" {
			if !eq(pre.C[i].C[0], post.C[i].C[0]) {
				return failf("vars/frame", "another statement changed: %s -> %s", pre.C[i], post.C[i])
			}
			if err := e[""](pre.C[i].C[1], post.C[i].C[1]); err != nil {
				return err
			}
			continue
		}
		a, b := asRule(pre.C[i]), asRule(post.C[i])
		names := map[string]bool{}
		for k := range a.Attrs {
			names[k] = true
		}
		for k := range b.Attrs {
			names[k] = true
		}
		for k := range names {
			x := e[k]
			if x == nil {
				x = unchanged
			}
			if err := x(a.Attrs[k], b.Attrs[k]); err != nil {
				return err
			}
		}
	}
	return nil
}

func exploreVars(c *core.Ctx) {
	ev := core.NewEval(c, "vars", doVars)
	assigns := []string{`V = [":u"]`, `V = ["a", ":x"]`, `W = V`, `V = V + ["b"]`, `V = glob(["a"])`, `W = ["w"]`, `V = select({"//c:1": ["a"], "//c:2": []})`, `V = []`, `V, W = [], []`, `V += ["c"]`}
	deps := []string{"", "V", "W", `V + ["c"]`, `["c"]`, "U", `["c"] + V`, "[V]"}
	n := c.Pick(2, 3)
	core.Stream(c, func(emit func(VarStep) bool) {
		var rec func(k int, text string) bool
		rec = func(k int, text string) bool {
			for _, d := range deps {
				for _, o := range deps[:4] {
					t := text
					for _, r := range [][2]string{{"t", d}, {"o", o}} {
						t += "\ncc_library(\n    name = \"" + r[0] + "\",\n    srcs = [\"s\", \"x\"],\n"
						if r[1] != "" {
							t += "    deps = " + r[1] + ",\n"
						}
						t += ")\n"
					}
					t = formatted(t)
					for _, tg := range []string{"t", "*"} {
						if tg == "*" && (strings.Contains(text, "= glob") || strings.Contains(text, "= select")) {
							continue // outermost calls are rules, wherever they are
						}
						for _, cmd := range [][]string{{"add", "deps", "x"}, {"add", "deps", "b", "a"}, {"add", "srcs", "y"}, {"move", "srcs", "deps", "x"}, {"move", "srcs", "deps", "q"}} {
							if !emit(VarStep{Step{t, tg, cmd}}) {
								return false
							}
						}
					}
				}
			}
			if k == n {
				return true
			}
			for _, a := range assigns {
				if !rec(k+1, text+a+"\n") {
					return false
				}
			}
			return true
		}
		rec(0, "")
	}, func(x VarStep) {
		if ev.Do(x) {
			c.NonTrivial(1)
		}
	})
	c.Bound("-edit-variables: all files of <=%d of %d assignments and two rules with %d values", n, len(assigns), len(deps))
}

var c10 = &core.Check{ID: "C10", Level: "model_checking", Guard: true,
	Run: func(c *core.Ctx) {
		var starts []string
		for _, s := range listShapes {
			for _, a := range []string{"deps", "args"} {
				starts = append(starts, ruleFile(a, s))
			}
			for _, s2 := range listShapes[:c.Pick(14, len(listShapes))] {
				starts = append(starts, ruleFile("deps", s, "srcs", s2))
			}
		}
		for _, s := range listShapes {
			for _, a := range []string{"deps", "args"} {
				starts = append(starts, commented(ruleFile(a, s))...)
			}
		}
		explore(c, starts, []string{"t"}, append(listCommands([]string{"deps", "args", "srcs"}, values, []string{"b", "//q:c", "new"}), star(values)...), 1)
		hist := []string{ruleFile("deps", `["a", "//q:c"]`), ruleFile("deps", `["a"] + select({"//x:1": ["b"], "//x:2": ["c"]})`, "args", `["b", "a"]`), ruleFile("deps", "VAR"), ruleFile("deps", `["a"] + VAR`, "srcs", `glob(["a"])`), ruleFile("deps", `select({"//x:1": ["b"], "//x:2": []})`)}
		explore(c, hist, []string{"t", "before", "*", "%m"}, append(listCommands([]string{"deps", "args"}, []string{"a", "//pkg:a", "b", "//q:c"}, []string{"b"}), star([]string{"a", "b"})...), c.Pick(2, 3))
		exploreVars(c)
	}}
