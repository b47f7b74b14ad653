package main

import (
	"encoding/json"
	"strconv"
	"strings"

	"github.com/golang/protobuf/proto"

	apipb "github.com/bazelbuild/buildtools/api_proto"
	"github.com/bazelbuild/buildtools/edit"

	"verif/mc/core"
	"verif/mc/sem"
)

// printed is what print has to show of an attribute: a text, a list or an expression (compared as a syntax tree).
type printed struct {
	kind string // "text", "str", "list", "expr", "num", "missing"
	text string
	list []string
	tree *N
}

func printModel(f *N, cl call, q *Rule, span [2]int, src string, field string) printed {
	switch field {
	case "kind":
		return printed{kind: "text", text: cl.kind}
	case "name":
		return printed{kind: "text", text: cl.name}
	case "label":
		if cl.name == "pkg" {
			return printed{kind: "text", text: "//pkg"}
		}
		return printed{kind: "text", text: "//pkg:" + cl.name}
	case "startline":
		return printed{kind: "num", text: strconv.Itoa(span[0])}
	case "endline":
		return printed{kind: "num", text: strconv.Itoa(span[1])}
	case "path":
		return printed{kind: "text", text: "ROOT/" + buildFile}
	case "attrs":
		return printed{kind: "list", list: q.Order}
	case "rule":
		return printed{kind: "expr", text: "rule"}
	}
	v := q.Attrs[field]
	switch {
	case v == nil:
		return printed{kind: "missing"}
	case v.K == "str":
		return printed{kind: "str", text: v.V}
	case v.K == "id" || v.K == "num" || v.K == "int":
		return printed{kind: "expr", tree: v}
	case v.K == "list":
		l := []string{}
		for _, e := range v.C {
			if !isStr(e) {
				return printed{kind: "expr", tree: v}
			}
			l = append(l, e.V)
		}
		return printed{kind: "list", list: l}
	}
	return printed{kind: "expr", tree: v}
}

type pfield struct {
	Text   *string
	Number *int
	Error  *string
	List   *struct{ Strings []string }
}

func (p printed) matchField(f pfield, stmt *N, comments []string) error {
	exprOK := func(text string, want *N) error {
		t, err := sem.FromStarlark("v = " + text + "\n")
		if p.text == "rule" {
			t, err = sem.FromStarlark(text + "\n")
		}
		if err != nil || len(t.C) != 1 {
			return failf("expr", "the printed expression does not parse: %q", text)
		}
		got := t.C[0]
		if p.text != "rule" {
			got = got.C[1]
		}
		if got.String() != want.String() {
			return failf("expr", "printed %q, want %v", text, want)
		}
		return nil
	}
	switch p.kind {
	case "text", "str":
		if f.Text == nil || *f.Text != p.text {
			return failf("text", "printed %v, want the text %q", show2(f), p.text)
		}
	case "num":
		if f.Number == nil || strconv.Itoa(*f.Number) != p.text {
			return failf("number", "printed %v, want the number %s", show2(f), p.text)
		}
	case "missing":
		if f.Error == nil || *f.Error != "MISSING" {
			return failf("missing", "printed %v, want the error MISSING", show2(f))
		}
	case "list":
		if f.List == nil || join(f.List.Strings) != join(p.list) || len(f.List.Strings) != len(p.list) {
			return failf("list", "printed %v, want the list %q", show2(f), p.list)
		}
	case "expr":
		if f.Text == nil {
			return failf("expr", "printed %v, want an expression", show2(f))
		}
		if p.text == "rule" {
			for _, c := range comments {
				if !strings.Contains(*f.Text, c) {
					return failf("rule-comment", "the comment %q is missing in %s", c, *f.Text)
				}
			}
			return exprOK(*f.Text, stmt)
		}
		return exprOK(*f.Text, p.tree)
	}
	return nil
}

func show2(f pfield) string { b, _ := json.Marshal(f); return string(b) }

var c20 = &core.Check{ID: "C20", Level: "model_checking", Guard: true,
	Run: func(c *core.Ctx) {
		type In struct {
			Text, Name, Fields string
		}
		ev := core.NewEval(c, "print", func(in In) error {
			f, err := sem.FromStarlark(in.Text)
			if err != nil {
				return nil
			}
			cs, _ := callsOf(in.Text)
			if len(cs) != len(f.C) {
				panic("a file of this check consists of calls")
			}
			ch, _, _ := chunks(in.Text)
			fields := strings.Fields(in.Fields)
			names := fields
			if len(names) == 0 {
				names = []string{"name", "kind"}
			}
			var want [][]printed
			var stmts []*N
			var comments [][]string
			line := 0
			idx, _, _ := resolve(cs, in.Name, "pkg")
			anon, taken := 0, false
			for _, cl := range cs {
				taken = taken || cl.name == "pkg"
				if cl.name == "" {
					anon++
				}
			}
			missing := 0
			for i, cl := range cs {
				span := [2]int{line + len(ch[i].lead) + 1, line + len(ch[i].lead) + len(ch[i].code)}
				line = span[1]
				addressed := false
				for _, k := range idx {
					addressed = addressed || k == i
				}
				if !addressed {
					continue
				}
				if cl.name == "" && anon == 1 && !taken {
					cl.name = "pkg"
				}
				var l []printed
				skip := false
				for _, n := range names {
					if n == "label" && cl.name == "" {
						skip = true
						break
					}
					p := printModel(f, cl, asRule(f.C[i]), span, in.Text, n)
					l = append(l, p)
				}
				for _, p := range l {
					if p.kind == "missing" {
						missing++
					}
				}
				if skip {
					continue
				}
				want = append(want, l)
				stmts = append(stmts, f.C[i])
				var cc []string
				for _, s := range append(append([]string{}, ch[i].lead...), ch[i].code...) {
					if k := strings.Index(s, "# about"); k >= 0 {
						cc = append(cc, s[k:])
					}
				}
				comments = append(comments, cc)
			}
			files := map[string]string{buildFile: in.Text}
			args := []string{strings.TrimSpace("print " + in.Fields), "//pkg:" + in.Name}
			var outs [3]Result
			for i := range outs {
				outs[i] = buildozer(files, args, func(o *edit.Options) { o.IsPrintingJSON, o.IsPrintingProto = i == 1, i == 2 })
				if outs[i].RC != 0 || outs[i].Files[buildFile] != in.Text {
					return failf("exit", "exit code %d, stderr %q", outs[i].RC, outs[i].Err)
				}
				if n := strings.Count(outs[i].Err, "has no attribute"); n < missing || (missing == 0) != (outs[i].Err == "") {
					return failf("missing", "%d attributes are missing, stderr %q", missing, outs[i].Err)
				}
			}
			// A missing target doesn't keep the others from being printed.
			if k := (func(o *edit.Options) { o.KeepGoing = true }); true {
				for _, a := range [][]string{{args[0], args[1], "//pkg:nosuch"}, {args[0], "//pkg:nosuch", args[1]}} {
					if r := buildozer(files, a, k); r.RC != 2 || r.Out != outs[0].Out {
						return failf("keepgoing", "with another, missing target: exit code %d, printed %q, want %q", r.RC, r.Out, outs[0].Out)
					}
				}
			}
			// JSON and proto records.
			var j struct {
				Records []struct{ Fields []pfield }
			}
			if err := json.Unmarshal([]byte(outs[1].Out), &j); err != nil {
				return failf("json", "the output isn't JSON: %v: %q", err, outs[1].Out)
			}
			var pb apipb.Output
			if err := proto.Unmarshal([]byte(outs[2].Out), &pb); err != nil && !strings.Contains(in.Fields, "path") {
				return failf("proto", "the output isn't a message: %v", err)
			}
			if len(j.Records) != len(want) || !strings.Contains(in.Fields, "path") && len(pb.Records) != len(want) {
				return failf("records", "%d JSON and %d proto records, want %d", len(j.Records), len(pb.Records), len(want))
			}
			for i, l := range want {
				if len(j.Records[i].Fields) != len(l) {
					return failf("records", "%d fields, want %d", len(j.Records[i].Fields), len(l))
				}
				for k, p := range l {
					fs := []pfield{j.Records[i].Fields[k]}
					if len(pb.Records) == len(want) {
						var x pfield
						switch v := pb.Records[i].Fields[k].Value.(type) {
						case *apipb.Output_Record_Field_Text:
							x.Text = &v.Text
						case *apipb.Output_Record_Field_Number:
							n := int(v.Number)
							x.Number = &n
						case *apipb.Output_Record_Field_Error:
							s := v.Error.String()
							x.Error = &s
						case *apipb.Output_Record_Field_List:
							x.List = &struct{ Strings []string }{v.List.Strings}
						}
						fs = append(fs, x)
					}
					for _, x := range fs {
						if x.Error == nil && x.Text == nil && x.Number == nil && x.List == nil {
							z := "MISSING?"
							x.Error = &z
						}
						if err := p.matchField(x, stmts[i], comments[i]); err != nil {
							return err
						}
					}
				}
			}
			// Text: one line for each rule.
			var b strings.Builder
			for i, l := range want {
				var parts []string
				for k, p := range l {
					switch p.kind {
					case "str":
						if strings.Contains(p.text, " ") {
							parts = append(parts, strconv.Quote(p.text))
						} else {
							parts = append(parts, p.text)
						}
					case "list":
						parts = append(parts, "["+strings.Join(p.list, " ")+"]")
					case "missing":
						parts = append(parts, "(missing)")
					case "expr":
						parts = append(parts, *j.Records[i].Fields[k].Text)
					default:
						parts = append(parts, p.text)
					}
				}
				b.WriteString(strings.Join(parts, " ") + "\n")
			}
			if outs[0].Out != b.String() {
				return failf("output", "printed %q, want %q", outs[0].Out, b.String())
			}
			if len(want) > 0 {
				c.NonTrivial(1)
			}
			c.Outcome([]byte(outs[0].Out))
			return nil
		})
		vals := []string{`"s"`, `"a b"`, `""`, `'q"q'`, `"x\ny z"`, `"t\tu"`, `"é"`, `1`, `-1`, `0x10`, `1.5`, `True`, `None`, `VAR`, `[]`, `["a"]`, `["a b", "c"]`, `["a", b]`, `[["a"], []]`, `("a", "b")`, `{"k": "v", "l": ["m"]}`, `select({"//x:1": ["a"], "//x:2": []})`, `["a"] + VAR`, `["a"] + ["b"]`, `glob(["*.c"], exclude = ["a"])`, `[x for x in ["a"]]`, `a.b.c`, `a[1]`, `f(x)(y)`, `lambda x: x`, `not a`, `"a" + "b"`, `"%s" % x`, `a if b else c`, `"""tri"""`, `r"\d"`, `["a",  # about
        "b"]`}
		fields := []string{"name", "kind", "label", "rule", "startline", "endline", "path", "attrs", "v", "deps", "nosuch", "tags"}
		var files []string
		for _, v := range vals {
			files = append(files, formatted("# about t\ncc_library(\n    name = \"t\",\n    v = "+v+",\n    tags = [\"a\", \"b\"],\n)\n"))
			files = append(files, formatted("\n# about x\nm(v = \"w\")\n\na.b(name = \"t\", deps = "+v+", v = "+v+")\n\n# about t\nm(\n    # about v\n    v = "+v+",  # about v2\n    name = \"t\",\n)  # about after\n\nm(name = \"pkg\", tags = "+v+")\n"))
		}
		// unformatted files: line numbers are those of the file
		files = append(files, "\n\nm(\n\nname=\"t\",v=1)\n\n\n\ncc_library(name = \"pkg\", v = \"x y\", deps = [\n\"a\"])\n", "m(name=\"t\")\nm(name=\"u\",\n  v = \"a\")\nm()\n", "m(name=\"t\", v = \" x\", deps = \"x \", tags = \" \")\n")
		core.Stream(c, func(emit func(In) bool) {
			for _, f := range files {
				for _, n := range []string{"t", "all", "pkg", "u"} {
					if n != "all" && !strings.Contains(f, "\""+n+"\"") {
						continue
					}
					emit(In{f, n, ""})
					for _, a := range fields {
						emit(In{f, n, a})
						for _, b := range fields {
							emit(In{f, n, a + " " + b})
							if c.Thorough() || n == "t" && len(f) < 90 {
								for _, d := range fields {
									if !emit(In{f, n, a + " " + b + " " + d}) {
										return
									}
								}
							}
						}
					}
				}
			}
			c.Bound("%d files with %d value shapes x all lists of <=3 of %d fields, as text, JSON and proto", len(files), len(vals), len(fields))
		}, func(in In) { ev.Do(in) })
	}}
