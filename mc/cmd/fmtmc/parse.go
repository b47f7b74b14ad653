package main

import (
	"bytes"
	"fmt"
	"strings"
	"sync/atomic"

	"github.com/bazelbuild/buildtools/build"
	"verif/mc/core"
	"verif/mc/gen"
)

// C04: totality of the parser and the printer.

var tokens04 = []string{"a", "1", "\"s\"", "'", "\"\"\"", "(", ")", "[", "]", "{", "}", ",", ":", "=", "+", "*", ".", "\n", "\n    ", "#c", "#c\n", "def ", "if ", "else", "for ", " in ", "lambda ", "return ", "load(", "not ",
	"\\\n", "\\", ";", "->", "\t", "\r\n", "\x00", "\xff", "é", "-", "pass", "r'", "**", "+=", "!", "0x", "1.", "e", " ", "\n  ", "elif ", "|", "==", "!="}

func unwrapPos(err error) (build.ParseError, bool) {
	switch e := err.(type) {
	case build.ParseError:
		return e, true
	case *build.ParseError:
		return *e, true
	}
	return build.ParseError{}, false
}

func checkTotal(c *core.Ctx, in Case) error {
	const sentinel = "\x01SENTINEL\x01"
	buf := []byte(in.Text + sentinel)
	data := buf[:len(in.Text)]
	orig := string(buf)
	var f *build.File
	var err error
	switch in.Type {
	case "build":
		f, err = build.ParseBuild(fileNames[in.Type], data)
	case "bzl":
		f, err = build.ParseBzl(fileNames[in.Type], data)
	case "workspace":
		f, err = build.ParseWorkspace(fileNames[in.Type], data)
	case "module":
		f, err = build.ParseModule(fileNames[in.Type], data)
	default:
		f, err = build.ParseDefault(fileNames[in.Type], data)
	}
	if string(buf) != orig {
		return core.Failf("input-modified", "parsing changes the caller's buffer (text %q): %q", in.Text, string(buf))
	}
	if err != nil {
		pe, ok := unwrapPos(err)
		if !ok {
			return core.Failf("error-type", "the error of %q has no position: %T %v", in.Text, err, err)
		}
		if strings.Contains(pe.Message, "internal") || strings.Contains(pe.Message, "runtime error") {
			return core.Failf("internal-error", "internal error instead of a diagnosis for %q: %v", in.Text, err)
		}
		lines := strings.Split(in.Text+"\n", "\n")
		if pe.Filename != fileNames[in.Type] || pe.Pos.Line < 1 || pe.Pos.Line > len(lines) {
			return core.Failf("error-position", "the error of %q is reported at %s:%d, the text has %d lines", in.Text, pe.Filename, pe.Pos.Line, len(lines)-1)
		}
		if n := len([]rune(lines[pe.Pos.Line-1])); pe.Pos.LineRune < 1 || pe.Pos.LineRune > n+2 {
			return core.Failf("error-position", "the error of %q is reported at line %d column %d, the line has %d characters", in.Text, pe.Pos.Line, pe.Pos.LineRune, n)
		}
		if want := fmt.Sprintf("%s:%d:%d: %s", pe.Filename, pe.Pos.Line, pe.Pos.LineRune, pe.Message); err.Error() != want || pe.Message == "" {
			return core.Failf("error-text", "the error of %q reads %q, want %q", in.Text, err.Error(), want)
		}
		if f != nil {
			return core.Failf("file-and-error", "parsing %q returns both a file and an error", in.Text)
		}
		return nil
	}
	if f == nil {
		return core.Failf("no-file", "parsing %q returns neither a file nor an error", in.Text)
	}
	c.NonTrivial(1)
	plain := build.FormatWithoutRewriting(f)
	out := build.Format(f)
	if string(buf) != orig {
		return core.Failf("input-modified", "formatting changes the caller's buffer (text %q)", in.Text)
	}
	for _, o := range [][]byte{plain, out} {
		if len(o) > 0 && o[len(o)-1] != '\n' || bytes.Contains(o, []byte(" \n")) && !strings.ContainsAny(in.Text, "'\"\\") {
			return core.Failf("output-shape", "formatting %q gives trailing whitespace or no final newline: %q", in.Text, o)
		}
	}
	return nil
}

var c04 = &core.Check{ID: "C04", Level: "model_checking",
	Run: func(c *core.Ctx) {
		trans := c.Counter("transitions")
		ev := core.NewEval(c, "total", func(in Case) error {
			atomic.AddInt64(trans, 1)
			c.Outcome([]byte(in.Type + in.Text))
			return checkTotal(c, in)
		})
		core.Stream(c, func(emit func(Case) bool) {
			each := func(types []string) func(string) bool {
				return func(t string) bool {
					for _, ty := range types {
						if !emit(Case{ty, t}) {
							return false
						}
					}
					return true
				}
			}
			if !each(allTypes)("") || !gen.Words(tokens04, 3, "", each(allTypes)) {
				return
			}
			c.Bound("all strings of <=3 of %d tokens as every file type", len(tokens04))
			// Towers: every pair of nesting constructs alternated up to a depth at which exponential work would not end.
			type tower struct{ l, r string }
			towers := []tower{{"(", ")"}, {"[", "]"}, {"{", "}"}, {"f(", ")"}, {"-", ""}, {"not ", ""}, {"(a+", ")"}, {"{1:", "}"}, {"[", " for x in y]"}, {"(lambda:", ")"}, {"a[", "]"}, {"(", ").b"},
				{"(b if ", " else c)"}, {"[", "]+[b]"}, {"glob([", "])"}, {"select({1:[", "]})"}, {"f(x=", ")"}, {"(\n", "\n)"}, {"[\n#c\n", "\n]"}, {"(", ",)"}, {"a+", ""}, {"", "+a"}, {"", "(b)"}, {"", "[c]"}}
			for _, t1 := range towers {
				for _, t2 := range towers {
					for _, n := range []int{1, 2, 3, 10, 40} {
						if !each([]string{"build", "bzl"})("x = " + strings.Repeat(t1.l+t2.l, n) + "a" + strings.Repeat(t2.r+t1.r, n) + "\n") {
							return
						}
					}
				}
			}
			for _, b := range []string{"if a:\n", "for a in b:\n", "def f():\n", "if a:\n%sb\n%selse:\n"} {
				for n := 1; n <= 40; n++ {
					t := ""
					for i := 0; i < n; i++ {
						t += strings.Repeat(" ", i) + strings.ReplaceAll(b, "%s", strings.Repeat(" ", i))
						if strings.Contains(b, "%s") {
							t = strings.Replace(t, strings.Repeat(" ", i)+"b", strings.Repeat(" ", i+1)+"b", 1)
						}
					}
					if !each([]string{"build", "bzl"})(t + strings.Repeat(" ", n) + "pass\n") {
						return
					}
				}
			}
			c.Bound("towers of all pairs of %d nesting constructs up to depth 80", len(towers))
			short := tokens04[:c.Pick(40, len(tokens04))]
			if !gen.Words(short, 4, "", each([]string{"default"})) {
				return
			}
			c.Bound("all strings of 4 of %d tokens", len(short))
			if c.Thorough() {
				if !gen.Words(tokens04[:30], 5, "", each([]string{"build"})) {
					return
				}
				c.Bound("all strings of 5 of 30 tokens")
			}
			// Damaged programs: every prefix, every token deleted, doubled, swapped with its neighbour, replaced with another.
			repl := []string{"(", ")", ":", "\n", ",", "=", "\"", "\\", "#", "\n  ", "*", "if ", ""}
			for _, s := range gen.Seeds() {
				for i := range s.Text {
					if !each([]string{"build", "default"})(s.Text[:i]) {
						return
					}
				}
				d := gen.Lex(s.Text)
				for i := range d.Toks {
					orig := d.Toks[i].Text
					for _, r := range append(repl, orig+" "+orig, orig+orig) {
						d.Toks[i].Text = r
						if !each([]string{"build", "default"})(d.Text()) {
							return
						}
						for j := i + 1; c.Thorough() && j < len(d.Toks) && j < i+6; j++ {
							o2 := d.Toks[j].Text
							for _, r2 := range repl {
								d.Toks[j].Text = r2
								if !each([]string{"build"})(d.Text()) {
									return
								}
							}
							d.Toks[j].Text = o2
						}
					}
					d.Toks[i].Text = orig
					if i > 0 {
						d.Toks[i].Text, d.Toks[i-1].Text = d.Toks[i-1].Text, d.Toks[i].Text
						ok := each([]string{"default"})(d.Text())
						d.Toks[i].Text, d.Toks[i-1].Text = d.Toks[i-1].Text, d.Toks[i].Text
						if !ok {
							return
						}
					}
				}
			}
			c.Bound("%d seed programs: every prefix, every token deleted, doubled, swapped, replaced with %d others%s", len(gen.Seeds()), len(repl), map[bool]string{true: ", pairs of replacements within 5 tokens"}[c.Thorough()])
		}, func(x Case) { ev.Do(x) })
	}}
