package main

import (
	"regexp"
	"strings"
	"sync/atomic"
	"unicode/utf8"

	"github.com/bazelbuild/buildtools/build"
	"go.starlark.net/syntax"
	"verif/mc/core"
	"verif/mc/gen"
)

// C05: the value of string literals.

var bodySyms = []string{"a", "'", "\"", "\\", "\n", "n", "0", "7", "9", "x41", "xg", "u00e9", "U0001f600", "é", "世", "\t", "\r", "{", "ud800", "\xff"}

// refString is the value of the literal assigned in text according to the reference parser. It doesn't answer for
// carriage returns (the reference treats them as line ends) and octal escapes of non-ASCII bytes (the reference rejects
// them; Bazel reads files as bytes, so that they mean the bytes of the UTF-8 encoded character).
func refString(text string) (string, bool) {
	if strings.Contains(text, "\r") || !utf8.ValidString(text) {
		return "", false
	}
	f, err := syntax.Parse("ref", text, 0)
	if err != nil || len(f.Stmts) != 1 {
		return "", false
	}
	a, ok := f.Stmts[0].(*syntax.AssignStmt)
	if !ok {
		return "", false
	}
	l, ok := a.RHS.(*syntax.Literal)
	if !ok || l.Token != syntax.STRING {
		return "", false
	}
	return l.Value.(string), true
}

func ownString(f *build.File) *build.StringExpr {
	if len(f.Stmt) != 1 {
		return nil
	}
	a, ok := f.Stmt[0].(*build.AssignExpr)
	if !ok {
		return nil
	}
	s, _ := a.RHS.(*build.StringExpr)
	return s
}

var byteEscape = regexp.MustCompile(`\\[23][0-7][0-7]`)

type strCase struct {
	Prefix, Quote, Body string
	Type                string
}

type valCase struct {
	Value  string
	Triple bool
	Type   string
}

var c05 = &core.Check{ID: "C05", Level: "model_checking",
	Run: func(c *core.Ctx) {
		trans := c.Counter("transitions")
		ref := c.Counter("compared_with_reference_parser")
		lit := core.NewEval(c, "literal", func(in strCase) error {
			text := "x = " + in.Prefix + in.Quote + in.Body + in.Quote + "\n"
			f, err := parseAs(in.Type, text)
			want, refOK := refString(text)
			if err != nil {
				if refOK {
					return core.Failf("rejected", "a valid string literal is rejected: %q: %v", text, err)
				}
				return nil
			}
			s := ownString(f)
			if s == nil {
				return nil
			}
			c.NonTrivial(1)
			c.Outcome([]byte(text))
			atomic.AddInt64(trans, 1)
			if refOK {
				atomic.AddInt64(ref, 1)
				if s.Value != want {
					return core.Failf("value", "the value of %q is read as %q, the reference parser reads %q", text, s.Value, want)
				}
			}
			if s.TripleQuote != (len(in.Quote) == 3) && len(in.Quote) == 3 {
				return core.Failf("triple", "%q: TripleQuote = %v", text, s.TripleQuote)
			}
			v, triple := s.Value, s.TripleQuote
			if u, t, err := build.Unquote(s.Token); err != nil || u != v || t != triple {
				return core.Failf("token", "%q: Value %q TripleQuote %v but Unquote(Token) = %q, %v, %v", text, v, triple, u, t, err)
			}
			out := string(build.Format(f))
			f2, err := parseAs(in.Type, out)
			if err != nil {
				return core.Failf("reparse", "%q is formatted to %q: %v", text, out, err)
			}
			s2 := ownString(f2)
			if s2 == nil || s2.Value != v || s2.TripleQuote != triple {
				return core.Failf("printed-value", "formatting changes the string %q to %q", text, out)
			}
			if want2, ok := refString(out); refOK && (!ok || want2 != want) && !byteEscape.MatchString(out) {
				return core.Failf("printed-value-ref", "formatting changes the string %q to %q: the reference parser reads %q instead of %q", text, out, want2, want)
			}
			return nil
		})
		val := core.NewEval(c, "value", func(in valCase) error {
			atomic.AddInt64(trans, 1)
			c.NonTrivial(1)
			f, _ := parseAs(in.Type, "x = y\n")
			f.Stmt[0].(*build.AssignExpr).RHS = &build.StringExpr{Value: in.Value, TripleQuote: in.Triple}
			out := string(build.Format(f))
			f2, err := parseAs(in.Type, out)
			if err != nil {
				return core.Failf("quote-reparse", "the string value %q is printed as %q: %v", in.Value, out, err)
			}
			if s2 := ownString(f2); s2 == nil || s2.Value != in.Value {
				return core.Failf("quote-value", "the string value %q is printed as %q", in.Value, out)
			}
			if w, ok := refString(out); utf8.ValidString(in.Value) && (!ok || w != in.Value) && !byteEscape.MatchString(out) {
				return core.Failf("quote-value-ref", "the string value %q is printed as %q: the reference parser reads %q (%v)", in.Value, out, w, ok)
			}
			if out2, err := format(in.Type, out); err != nil || out2 != out {
				return core.Failf("quote-stable", "the printed string %q is reformatted as %q", out, out2)
			}
			return nil
		})
		n := c.Pick(4, 5)
		core.Stream(c, func(emit func(strCase) bool) {
			for _, pre := range []string{"", "r"} {
				for _, q := range []string{`"`, "'", `"""`, "'''"} {
					for _, ty := range []string{"build", "bzl"} {
						k := n
						if ty == "bzl" {
							k = n - 1
						}
						if !emit(strCase{pre, q, "", ty}) || !gen.Words(bodySyms, k, "", func(b string) bool { return emit(strCase{pre, q, b, ty}) }) {
							return
						}
					}
				}
			}
		}, func(x strCase) { lit.Do(x) })
		c.Bound("string literals of <=%d of %d symbols, raw and not, with 4 quotes", n, len(bodySyms))
		m := c.Pick(4, 5)
		vals := []string{"a", "'", "\"", "\\", "\n", "\r", "\t", "\x00", "\x7f", "\x01", "é", "世", "\U0001f600", "\xff", "0", "n", "x", " ", "\x1b", "\a"}
		core.Stream(c, func(emit func(valCase) bool) {
			for _, t := range []bool{false, true} {
				if !gen.Words(vals, m, "", func(v string) bool { return emit(valCase{v, t, "build"}) }) {
					return
				}
			}
		}, func(x valCase) { val.Do(x) })
		c.Bound("printed values of <=%d of %d characters", m, len(vals))
	}}
