package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/bazelbuild/buildtools/warn"
	"verif/mc/core"
	"verif/mc/gen"
)

// C41: the docstring lints agree with the documented structure of docstrings.

type docCase struct {
	Name   string   // function name
	Params []string // as they are written
	Doc    []string // lines of the docstring; nil: no docstring
	Body   string   // the rest of the body
	Nested bool     // in another function
	CRLF   bool
}

// paramNames are the names as they have to be documented.
func paramNames(ps []string) []string {
	var r []string
	for _, p := range ps {
		for _, sep := range []string{":", " ", "="} {
			if i := strings.Index(p, sep); i >= 0 {
				p = p[:i]
			}
		}
		if p != "*" {
			r = append(r, p)
		}
	}
	return r
}

// docText is the file and the lines of the function and the docstring.
func (d docCase) text() (string, int, int) {
	t, line, ind := "\"\"\"Module.\"\"\"\n\n", 3, ""
	if d.Nested {
		t += "def outer():\n"
		line, ind = 4, "    "
	}
	t += ind + "def " + d.Name + "(" + strings.Join(d.Params, ", ") + "):\n"
	if d.Doc != nil {
		t += ind + "    \"\"\"" + d.Doc[0]
		for _, l := range d.Doc[1:] {
			t += "\n"
			if l != "" {
				t += ind + l
			}
		}
		t += "\"\"\"\n"
	}
	for _, l := range strings.Split(d.Body, "\n") {
		if l != "" {
			l = ind + "    " + l
		}
		t += l + "\n"
	}
	if d.CRLF {
		t = strings.ReplaceAll(t, "\n", "\r\n")
	}
	return t, line, line + 1
}

// docArg recognises the line of a description of an argument.
func docArg(l string) (string, bool) {
	l = strings.TrimLeft(l, " ")
	i := strings.IndexAny(l, ": (")
	if i < 0 {
		return "", false
	}
	name, rest := l[:i], l[i:]
	for _, c := range strings.TrimPrefix(strings.TrimPrefix(name, "*"), "*") {
		if !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9') {
			return "", false
		}
	}
	if t := strings.TrimLeft(rest, " "); strings.HasPrefix(t, "(") {
		j := strings.Index(t, ")")
		if j < 0 {
			return "", false
		}
		rest = t[j+1:]
	}
	return name, name != "" && strings.HasPrefix(rest, ":")
}

// docModel returns the expected findings.
func docModel(d docCase, stmts int, returns bool) map[string][]int {
	r := map[string][]int{}
	_, def, doc := d.text()
	required := !d.Nested && d.Name[0] != '_' && stmts >= 5
	if d.Doc == nil {
		if required {
			r["function-docstring"] = []int{def}
		}
		return r
	}
	var ls []string
	for _, l := range d.Doc {
		ls = append(ls, strings.TrimRight(l, " "))
	}
	// The first line that isn't empty is followed by an empty one or by nothing.
	header := false
	for i, l := range ls {
		if l != "" {
			header = i+1 == len(ls) || ls[i+1] == ""
			break
		}
	}
	if !header {
		r["function-docstring-header"] = []int{doc}
	}
	args := map[string]int{}
	ret := false
	section := ""
	level := 0 // indentation of the descriptions of arguments
	for i, l := range ls {
		ind := len(l) - len(strings.TrimLeft(l, " "))
		head := strings.TrimLeft(l, " ")
		if ind == 4 && (head == "Args:" || head == "Arguments:" || head == "Returns:" || head == "Deprecated:") {
			section = head
			if head == "Returns:" {
				ret = true
			}
			if head == "Arguments:" {
				r["function-docstring-args"] = append(r["function-docstring-args"], doc+i)
				section = "Args:"
			}
			continue
		}
		if section != "Args:" || l == "" {
			continue
		}
		if ind <= 4 {
			section = ""
			continue
		}
		if level > 0 && ind > level {
			continue
		}
		if n, ok := docArg(l); ok {
			level = ind
			args[n] = doc + i
		}
	}
	if len(r["function-docstring-args"]) > 1 {
		// Only the last one is reported.
		r["function-docstring-args"] = r["function-docstring-args"][len(r["function-docstring-args"])-1:]
	}
	if required && returns && !ret {
		r["function-docstring-return"] = []int{doc}
	}
	if required || len(args) > 0 {
		missing := false
		known := map[string]bool{}
		for _, p := range paramNames(d.Params) {
			known[p] = true
			if args[p] == 0 {
				missing = true
			}
		}
		if missing {
			r["function-docstring-args"] = append(r["function-docstring-args"], doc)
		}
		for n, l := range args {
			if !known[n] {
				r["function-docstring-args"] = append(r["function-docstring-args"], l)
			}
		}
	}
	return r
}

var docCats = []string{"function-docstring", "function-docstring-header", "function-docstring-args", "function-docstring-return"}

type docBody struct {
	text    string
	stmts   int
	returns bool
}

var docBodies = []docBody{
	{"pass", 1, false},
	{"return 1", 1, true},
	{"x1()\nx2()\nx3()\nx4()\nreturn", 5, false},
	{"x1()\nif x:\n    x2()\nelse:\n    x3()\nreturn 1", 5, true},
	{"x1()\nfor i in y:\n    return i", 3, true},
	{"x1()\nfor i in y:\n    if i:\n        return i", 4, true},
	{"# c\n\nx1()\n\n# d\n\nx2()", 2, false},
	{"x1()\n# c\nx2()\n\n# d\n\nx3()\n\n# e\n\nx4()", 4, false},
	{"x1()\nx2()\nx3()\ndef g():\n    return 1", 4, false},
	{"x1()\nx2()\nx3()\nx4()\ndef g():\n    return 1", 5, false},
	{"x1()\nif x:\n    pass\nelif y:\n    return 1", 5, true},
	{"x1()\nif x:\n    pass\nelif y:\n    pass\nelse:\n    return 1", 6, true},
}

type docEval struct {
	D docCase
	B int
}

var c41 = &core.Check{ID: "C41", Level: "model_checking", Guard: true,
	Run: func(c *core.Ctx) {
		ev := core.NewEval(c, "doc", func(in docEval) error {
			in.D.Body = docBodies[in.B].text
			stmts := docBodies[in.B].stmts
			if in.D.Doc != nil {
				stmts++ // the docstring is a statement
			}
			text, _, _ := in.D.text()
			f, err := parse("bzl", text)
			if err != nil {
				return core.Failf("model", "%v\n%s", err, text)
			}
			got := map[string][]int{}
			n := 1 + strings.Count(text, "\n")
			fs := warn.FileWarnings(f, docCats, nil, warn.ModeWarn, nil)
			for _, x := range fs {
				got[x.Category] = append(got[x.Category], x.Start.Line)
				if x.Start.Line > n || x.End.Line < x.Start.Line {
					return core.Failf("position", "%s%v at %v-%v", text, x.Category, x.Start, x.End)
				}
			}
			want := docModel(in.D, stmts, docBodies[in.B].returns)
			if len(want) > 0 {
				c.NonTrivial(1)
			}
			for _, k := range docCats {
				sort.Ints(got[k])
				sort.Ints(want[k])
				if fmt.Sprint(got[k]) != fmt.Sprint(want[k]) {
					return core.Failf(k, "%s: %sgot %v, want %v", k, text, got[k], want[k])
				}
			}
			// The names in the messages.
			if len(want["function-docstring-args"]) > 0 {
				for _, x := range fs {
					if x.Category == "function-docstring-args" && strings.Contains(x.Message, "is documented but") {
						line := strings.Split(text, "\n")[x.Start.Line-1]
						name, _ := docArg(line)
						if !strings.Contains(x.Message, fmt.Sprintf("Argument %q", name)) {
							return core.Failf("message", "%s%s", text, x.Message)
						}
					}
				}
			}
			return nil
		})
		lines := []string{"", "    Text.", "    Args:", "    Arguments:", "    Returns:", "    Deprecated:", "      x: d", "      y (a, b): d", "        x: cont", "      *args: d", "    x: no", "      text", "     z: d", "  x: less", "   Args:", "      args: d", "      Args:", "      **kwargs : d", "    Args: x", "      x y: d", "    Returns: x", "      x(a): d", "    args:"}
		params := [][]string{nil, {"x"}, {"x", "y = 1"}, {"x", "*args", "**kwargs"}, {"x: int", "*", "y"}, {"args"}, {"x: int = 1", "*args: str", "y"}}
		max := c.Pick(3, 4)
		core.Stream(c, func(emit func(docEval) bool) {
			for b := range docBodies {
				for _, name := range []string{"f", "_f"} {
					for _, nested := range []bool{false, true} {
						for _, p := range params {
							if !emit(docEval{docCase{Name: name, Params: p, Nested: nested}, b}) {
								return
							}
						}
						for _, first := range []string{"Summary.", "", " ", "Args:"} {
							ok := gen.Words(lines, max, "\x00", func(s string) bool {
								doc := append([]string{first}, strings.Split(s, "\x00")...)
								long := len(doc) > 3
								if long && (first != "Summary." || b > 3 || name != "f" || nested) || len(doc) > 2 && b > 3 && first != "Summary." {
									return true
								}
								for i, p := range params {
									if long && !c.Thorough() && i > 0 && i != 3 && i != 2 {
										continue
									}
									for k, end := range []string{"", "    "} {
										if k == 0 && long {
											continue
										}
										d := doc
										if k > 0 {
											d = append(doc[:len(doc):len(doc)], end)
										}
										if !emit(docEval{docCase{Name: name, Params: p, Doc: d, Nested: nested}, b}) {
											return false
										}
										if !long && b < 2 && !emit(docEval{docCase{Name: name, Params: p, Doc: d, Nested: nested, CRLF: true}, b}) {
											return false
										}
									}
								}
								return true
							})
							if !ok {
								return
							}
							for _, p := range params {
								if !emit(docEval{docCase{Name: name, Params: p, Doc: []string{first}, Nested: nested}, b}) {
									return
								}
							}
						}
					}
				}
			}
		}, func(x docEval) { ev.Do(x) })
		c.Bound("all docstrings of <= %d lines of %d kinds (4 first lines, 2 ends, CRLF) x %d parameter lists x %d bodies x public, private, nested", max+1, len(lines), len(params), len(docBodies))
	}}
