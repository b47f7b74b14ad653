package main

import (
	"regexp"
	"strings"

	"github.com/bazelbuild/buildtools/edit"
	"go.starlark.net/syntax"

	"verif/mc/core"
)

// A chunk is a top-level statement with everything between it and the previous one.
type chunk struct {
	lead []string // comment and blank lines before
	code []string
}

func chunks(text string) (cs []chunk, tail []string, err error) {
	f, err := syntax.Parse("ref", text, 0)
	if err != nil {
		return nil, nil, err
	}
	lines := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	at := 0
	for _, s := range f.Stmts {
		st, en := s.Span()
		e := int(en.Line)
		if e > len(lines) {
			e = len(lines)
		}
		if int(st.Line)-1 < at {
			continue // the second statement of a line
		}
		cs = append(cs, chunk{lines[at : st.Line-1], lines[st.Line-1 : e]})
		at = e
	}
	return cs, lines[at:], nil
}

var (
	attrLine    = regexp.MustCompile(`^    (\w+) = `)
	commentMark = regexp.MustCompile(`# c\d+`)
)

// anchors says to what each comment of a rule is attached: the rule (""), an attribute or an element of an attribute.
func anchors(code []string, all map[string]bool) map[string]string {
	r := map[string]string{}
	attr := ""
	var pending []string
	for i, l := range code {
		t := strings.TrimSpace(l)
		c := commentMark.FindString(t)
		codePart := t
		if k := strings.Index(t, "#"); k >= 0 {
			codePart = strings.TrimSpace(t[:k])
		}
		if codePart == "" {
			if c != "" {
				pending = append(pending, c)
			}
			continue
		}
		id := ""
		if m := attrLine.FindStringSubmatch(l); m != nil {
			attr = m[1]
			id = attr
			// elements of a list on one line
			for _, e := range regexp.MustCompile(`"[^"]*"`).FindAllString(codePart, -1) {
				all[attr+" "+e] = true
			}
		} else if i > 0 && !strings.HasPrefix(l, ")") {
			id = attr + " end"
			if strings.HasPrefix(codePart, "]") || strings.HasPrefix(codePart, "}") || strings.HasPrefix(codePart, ")") {
				if strings.HasPrefix(l, "      ") || codePart != "]," {
					id = attr + " inner end"
				}
			} else {
				id = attr + " " + strings.TrimSuffix(codePart, ",")
			}
		}
		all[id] = true
		if c != "" {
			r[c] = id
		}
		for _, p := range pending {
			r[p] = id
		}
		pending = nil
	}
	for _, p := range pending {
		r[p] = ""
	}
	return r
}

func addressedAttrs(cmd []string) []string {
	switch cmd[0] {
	case "move", "rename":
		return cmd[1:3]
	case "delete":
		return nil
	}
	return cmd[1:2]
}

// Commands that give attributes new values.
var replaces = map[string]bool{"set": true, "copy": true, "set_select": true, "rename": true}

var c16 = &core.Check{ID: "C16", Level: "model_checking", Guard: true,
	Run: func(c *core.Ctx) {
		type In struct {
			Text string
			Cmd  []string
		}
		ev := core.NewEval(c, "frame", func(in In) error {
			r := one(in.Text, escape(in.Cmd), "//pkg:t")
			text := r.Files[buildFile]
			if r.RC != 0 {
				if text != in.Text {
					return failf("error-changes", "exit code %d (%s), but the file changed\n%s", r.RC, r.Err, text)
				}
				return nil
			}
			c.NonTrivial(1)
			c.Outcome([]byte(text))
			pre, ptail, err := chunks(in.Text)
			if err != nil {
				return nil
			}
			post, tail, err := chunks(text)
			if err != nil {
				return failf("syntax", "the file does not parse any more: %v\n%s", err, text)
			}
			k := -1
			for i, p := range pre {
				if strings.Contains(strings.Join(p.code, "\n"), `name = "t"`) {
					k = i
					break
				}
			}
			if k < 0 {
				return nil
			}
			del := in.Cmd[0] == "delete"
			if del {
				if len(post) != len(pre)-1 {
					return failf("frame", "%d statements, want %d\n%s", len(post), len(pre)-1, text)
				}
				post = append(append(append([]chunk{}, post[:k]...), pre[k]), post[k:]...)
			}
			if len(post) != len(pre) {
				return failf("frame", "%d statements, want %d\n%s", len(post), len(pre), text)
			}
			for i := range pre {
				if i != k && strings.Join(pre[i].code, "\n") != strings.Join(post[i].code, "\n") {
					return failf("frame", "another statement changed:\n%s\n---\n%s", strings.Join(pre[i].code, "\n"), strings.Join(post[i].code, "\n"))
				}
				if strings.TrimSpace(strings.Join(pre[i].lead, "\n")) != strings.TrimSpace(strings.Join(post[i].lead, "\n")) && !del {
					return failf("frame", "the comments before statement %d changed\n%s", i, text)
				}
			}
			if strings.TrimSpace(strings.Join(ptail, "\n")) != strings.TrimSpace(strings.Join(tail, "\n")) {
				return failf("frame", "the comments at the end of the file changed\n%s", text)
			}
			if del {
				return nil
			}
			have, now := map[string]bool{}, map[string]bool{}
			a, b := anchors(pre[k].code, have), anchors(post[k].code, now)
			for cm, id := range a {
				if strings.HasSuffix(id, " inner end") || strings.HasSuffix(id, " end") && replaces[in.Cmd[0]] {
					continue // the end of a list in an expression; the end of a list that is replaced as a whole
				}
				x, ok := b[cm]
				if !ok && now[id] {
					return failf("comment-lost", "the comment %q of %q is lost\n%s", cm, id, text)
				}
				if ok && now[id] && x != id && x != id+" end" {
					return failf("comment-moved", "the comment %q of %q now belongs to %q\n%s", cm, id, x, text)
				}
				if strings.Count(text, cm+"\n") > 1 {
					return failf("comment-duplicated", "the comment %q occurs several times\n%s", cm, text)
				}
			}
			// Attributes that are not addressed stay as they are.
			cut := func(code []string, attrs []string) string {
				var out []string
				attr := ""
				var pend []string
				for _, l := range code {
					if m := attrLine.FindStringSubmatch(l); m != nil {
						attr = m[1]
					} else if strings.HasPrefix(l, ")") {
						attr = ""
					} else if strings.HasPrefix(l, "    #") {
						pend = append(pend, l)
						continue
					}
					skip := false
					for _, x := range attrs {
						skip = skip || x == attr || x == "*"
					}
					if !skip {
						out = append(out, pend...)
						out = append(out, l)
					}
					pend = nil
				}
				return strings.Join(out, "\n")
			}
			attrs := addressedAttrs(in.Cmd)
			if attrs[0] == "kind" {
				attrs = nil
				pre[k].code, post[k].code = pre[k].code[1:], post[k].code[1:]
			}
			if x, y := cut(pre[k].code, attrs), cut(post[k].code, attrs); x != y {
				return failf("attributes", "something other than %v changed:\n%s\n---\n%s", attrs, x, y)
			}
			return nil
		})
		// With -delete_with_comments=false, elements that have comments stay.
		keep := core.NewEval(c, "keep", func(in In) error {
			pre, _, err := chunks(in.Text)
			if err != nil {
				return nil
			}
			edit.DeleteWithComments = false // nothing else runs any more
			r := one(in.Text, escape(in.Cmd), "//pkg:t")
			text := r.Files[buildFile]
			for _, p := range pre {
				if !strings.Contains(strings.Join(p.code, "\n"), `name = "t"`) {
					continue
				}
				for cm, id := range anchors(p.code, map[string]bool{}) {
					if _, e, ok := strings.Cut(id, " "); ok && strings.HasPrefix(e, `"`) && strings.HasSuffix(e, `"`) && !strings.Contains(e, ":1") && !strings.Contains(e, ":2") && (!strings.Contains(text, cm+"\n") || !strings.Contains(text, e)) {
						return failf("keep", "the element %s or its comment %q is lost\n%s", e, cm, text)
					}
				}
			}
			return nil
		})
		bases := []string{
			"# file comment\n\nload(\":d.bzl\", \"m\")\n\nm(\n    name = \"before\",\n    deps = [\"a\"],\n)\n\ncc_library(\n    name = \"t\",\n    srcs = [\n        \"s1\",\n        \"s2\",\n    ],\n    args = [\n        \"z\",\n        \"b\",\n    ],\n    dd = {\n        \"k\": \"v\",\n        \"l\": \"w\",\n    },\n    deps = [\n        \":a\",\n        \":b\",\n        \"//q:c\",\n    ],\n)\n\nm(\n    name = \"after\",\n    deps = [\n        \"a\",\n        \"b\",\n    ],\n)\n\n# last comment\n",
			"X = [\"a\"]\n\ncc_library(\n    name = \"t\",\n    alwayslink = True,\n    deps = [\n        \":a\",\n    ] + select({\n        \"//x:1\": [\n            \":b\",\n            \":e\",\n        ],\n        \"//x:2\": [\":c\"],\n    }),\n)\n\nm(\n    name = \"after\",\n    q = f(1),\n)\n",
			"m(name = \"one\")\n\ncc_library(\n    name = \"t\",\n    testonly = 1,\n    deps = [\":a\"],\n    zz = 1,\n)\n\nm(name = \"two\")\n",
		}
		var cmds [][]string
		for _, s := range []string{"add deps n", "add deps b n z", "add deps :a", "add srcs s0", "add args y", "add new v", "remove deps", "remove deps a", "remove deps a b", "remove deps b //q:c", "remove deps e", "remove deps a b //q:c", "remove args z", "remove * b", "remove *", "remove alwayslink", "remove deps nosuch",
			"replace deps a n", "replace deps b //r", "replace * b y", "substitute deps ^:(.*)$ :p$1", "substitute * b c", "move deps srcs a", "move srcs deps s1", "move deps new a b", "move deps srcs *", "set deps x y", "set alwayslink 1", "set name t", "set kind m", "set new v", "set_if_absent deps q", "set_if_absent new q",
			"rename deps rdeps", "rename args args2", "rename deps srcs", "copy deps after", "copy new_copy after", "copy_no_overwrite deps after", "copy_no_overwrite srcs after", "dict_add dd a:b", "dict_set dd k:x", "dict_remove dd k", "dict_remove dd k l", "dict_list_add dl k v", "dict_replace_if_equal dd k v z", "remove_if_equal alwayslink True", "set_select sel k v l w", "delete", "format", "fix"} {
			if f := strings.Fields(s); len(f) > 1 || f[0] == "delete" {
				cmds = append(cmds, f)
			}
		}
		all := func(emit func(In) bool) {
			for _, base := range bases {
				lines := strings.Split(strings.TrimSuffix(base, "\n"), "\n")
				n := len(lines)
				// Placement p: p < n: at the end of line p, otherwise on its own before line p-n.
				put := func(ps ...int) string {
					var out []string
					for i, l := range lines {
						for j, p := range ps {
							if p == n+i {
								out = append(out, strings.Repeat(" ", len(l)-len(strings.TrimLeft(l, " ")))+"# c"+string(rune('1'+j)))
							}
						}
						for j, p := range ps {
							if p == i && l != "" && !strings.Contains(l, "#") {
								l += "  # c" + string(rune('1'+j))
							}
						}
						out = append(out, l)
					}
					return formatted(strings.Join(out, "\n") + "\n")
				}
				seen := map[string]bool{}
				try := func(text string) bool {
					if seen[text] {
						return true
					}
					seen[text] = true
					for _, cmd := range cmds {
						if !emit(In{text, cmd}) {
							return false
						}
					}
					return true
				}
				try(formatted(base))
				for p := 0; p < 2*n; p++ {
					if !try(put(p)) {
						return
					}
				}
				for p := 0; p < 2*n; p++ {
					for q := p + 1; q < 2*n; q++ {
						if !c.Thorough() && (p+q)%7 != 0 && q != p+1 && q != p+n && q != p+n+1 {
							continue
						}
						if !try(put(p, q)) {
							return
						}
					}
				}
			}
		}
		c.Bound("%d files with every single comment placement and %s pairs of placements x %d commands; those that remove elements also with -delete_with_comments=false", len(bases), map[bool]string{true: "all", false: "the adjacent and a seventh of the other"}[c.Thorough()], len(cmds))
		core.Stream(c, all, func(in In) { ev.Do(in) })
		core.Stream(c, func(emit func(In) bool) {
			all(func(in In) bool { return in.Cmd[0] != "remove" || len(in.Cmd) < 3 || emit(in) })
		}, func(in In) { keep.Do(in) })
	}}
