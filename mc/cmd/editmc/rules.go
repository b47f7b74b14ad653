package main

import "verif/mc/core"

var attrShapes = []string{"", `"a"`, `":a"`, `"//pkg:a"`, `"x y"`, "None", "True", "1", "VAR", `["a"]`, `["b", "a"]`, `select({"//x:1": "a", "//x:2": "b"})`, `{"k": "v"}`, `m("a")`, `"a" + VAR`, `[]`, "-1", `"//q/d:d"`}

func attrCommands(attrs []string) [][]string {
	r := [][]string{{"set", "kind", "m"}, {"set", "kind", "a.b"}, {"set_if_absent", "kind", "m"}, {"remove", "*"}, {"remove", "nothing"}, {"format"}}
	for _, a := range attrs {
		for _, v := range []string{"a", "//pkg:a", `"a"`, "1", "True", "//q/d:d", "None", "f(1)"} {
			if v == "f(1)" && (listAttrs[a] || stringAttrs[a]) {
				continue
			}
			if (v == "//pkg:a" || v == "//q/d:d" || v == "//q/d") && !listAttrs[a] && !stringAttrs[a] {
				continue // not an expression
			}
			r = append(r, []string{"set", a, v}, []string{"set_if_absent", a, v}, []string{"remove_if_equal", a, v})
		}
		r = append(r, []string{"set", a, "b", "a"}, []string{"set", a}, []string{"set_if_absent", a}, []string{"remove", a})
		if listAttrs[a] {
			r = append(r, []string{"set", a, "glob([\"b\"])"}, []string{"set", a, "a", "a", "//pkg:a"}, []string{"set", a, "a b"})
		}
		for _, b := range attrs {
			r = append(r, []string{"rename", a, b})
		}
		for _, n := range []string{"before", "after", "t", "missing", "other"} {
			r = append(r, []string{"copy", a, n}, []string{"copy_no_overwrite", a, n})
		}
	}
	return r
}

var c11 = &core.Check{ID: "C11", Level: "model_checking", Guard: true,
	Run: func(c *core.Ctx) {
		attrs := []string{"size", "deps", "x", "testonly", "args", "main"}
		var starts []string
		for _, a := range attrs {
			for _, s := range attrShapes {
				starts = append(starts, ruleFile(a, s))
				for _, o := range attrShapes[:c.Pick(6, len(attrShapes))] {
					starts = append(starts, ruleFile(a, s)+"\nfoo(\n    name = \"other\",\n    "+a+" = "+orNone(o)+",\n)\n")
				}
			}
		}
		for _, s := range attrShapes {
			starts = append(starts, commented(ruleFile("size", s, "deps", `["a"]`))...)
		}
		explore(c, starts, []string{"t"}, attrCommands(attrs), 1)
		hist := []string{ruleFile("size", `"a"`, "deps", `["a"]`), ruleFile()}
		explore(c, hist, []string{"t", "before", "*", "%cc_library"}, attrCommands([]string{"size", "deps", "x"}), c.Pick(2, 3))
		newRules(c)
	}}

func orNone(s string) string {
	if s == "" {
		return "None"
	}
	return s
}

var dictShapes = []string{"", "{}", `{"k": "a"}`, `{"k": "a", "l": "//pkg:b"}`, `{"k": ["a"], "l": "b"}`, `{"k": ["a"] + VAR, "l": ["b"]}`, `{K: "a", "k": "b"}`, `{"k": X}`, `{":k": "a", "k": None}`, "VAR", `["a"]`, `{1: "a"}`, `{"k": "a", "k": "b"}`, `{"k": select({"//x:1": ["a"], "//x:2": ["b"]})}`, `{"a b": "c d"}`}

func dictCommands(attrs []string) [][]string {
	var r [][]string
	for _, a := range attrs {
		for _, kv := range []string{"k:a", "k:b", "n:a", "l://pkg:b", "k:", ":v", "k", `k:"q"`, "a b:c d", "k:a:b", "k: a b ", " k:v"} {
			r = append(r, []string{"dict_add", a, kv}, []string{"dict_set", a, kv}, []string{"dict_add", a, kv, "n:z"}, []string{"dict_set", a, "n:y", kv, "n:z"})
		}
		for _, k := range []string{"k", "l", "n", `"k"`, "K", ":k", "1", "a b"} {
			r = append(r, []string{"dict_remove", a, k}, []string{"dict_remove", a, k, "l"})
			for _, v := range []string{"a", "//pkg:a", "b", "X", `"a"`} {
				r = append(r, []string{"dict_replace_if_equal", a, k, v, "z"})
			}
		}
		for _, k := range []string{"k", "l", "n"} {
			for _, v := range []string{"a", "//pkg:a", "z"} {
				r = append(r, []string{"dict_list_add", a, k, v}, []string{"dict_list_add", a, k, v, "b"})
			}
		}
	}
	for _, a := range append([]string{"size", "deps"}, attrs...) {
		r = append(r, []string{"set_select", a, "//x:1", "a"}, []string{"set_select", a, "//x:1", "a", "//x:2", "b"}, []string{"set_select", a, "//x:1", "a", "//x:1", "b", "//conditions:default", "//pkg:c"},
			[]string{"set_select", a, "//x:1"}, []string{"set_select", a, "//x:1", "a", "//x:1", "//pkg:a"}, []string{"set_select", a, "//x:1", "b", "//x:2", "c", "//x:1", "a"}, []string{"set_select", a, "//x:1", "x", "//x:1", "y", "//x:1", "z", "//x:1", "b"})
	}
	return r
}

var c12 = &core.Check{ID: "C12", Level: "model_checking", Guard: true,
	Run: func(c *core.Ctx) {
		var starts []string
		for _, s := range dictShapes {
			starts = append(starts, ruleFile("env", s), ruleFile("env", s, "x", `{"k": "v"}`), ruleFile("deps", s))
			starts = append(starts, commented(ruleFile("env", s))...)
		}
		explore(c, starts, []string{"t"}, dictCommands([]string{"env", "x", "deps"}), 1)
		hist := []string{ruleFile("env", `{"k": "a", "l": ["b"], K: "c"}`), ruleFile()}
		explore(c, hist, []string{"t", "*"}, dictCommands([]string{"env"}), c.Pick(2, 3))
	}}
