package main

import (
	"regexp"
	"strings"
	"sync/atomic"
	"unicode/utf8"

	"verif/mc/core"
	"verif/mc/gen"
	"verif/mc/sem"
)

// C38: the parser agrees with an independent Starlark parser.

var (
	numRE    = regexp.MustCompile(`[0-9][0-9a-zA-Z_\x80-\xff]*\.?`)
	validRE  = regexp.MustCompile(`^([0-9]+([eE][0-9]*)?\.?|0[oO][0-7]+|0[xX][0-9a-fA-F]+)$`)
	wordRE   = regexp.MustCompile(`[a-zA-Z_\x80-\xff][0-9a-zA-Z_\x80-\xff]*`)
	bytesRE  = regexp.MustCompile(`(^|[^0-9a-zA-Z_])(b|rb|br)["']`)
	numDotRE = regexp.MustCompile(`(0[xX][0-9a-fA-F]+|[0-9])(e[0-9]+)?([ \t\n]|\\\n)*\.([ \t\n]|\\\n)*[a-zA-Z_\x80-\xff]`) // an attribute of a number: not a meaningful program
	contRE   = regexp.MustCompile(`(?m)^[ \t]*\\\r?\n`)
	dotERE   = regexp.MustCompile(`[0-9]\.[eE]`)
)

// outside38 tells the texts whose treatment the two parsers may legitimately disagree about: NUL bytes, invalid UTF-8, carriage
// returns inside strings, bytes literals (unknown to Bazel), and numbers glued to a word.
func outside38(t string) bool {
	if strings.Contains(t, "\x00") || !utf8.ValidString(t) || bytesRE.MatchString(t) {
		return true
	}
	if strings.Contains(t, "\r") && (strings.ContainsAny(t, "\"'") || strings.Contains(strings.ReplaceAll(t, "\r\n", ""), "\r")) {
		return true
	}
	return gluedNumber(t) || numDotRE.MatchString(t) && !dotERE.MatchString(t)
}

// gluedNumber reports a number that is directly followed by letters that are not part of it.
func gluedNumber(t string) bool {
	for i := 0; i < len(t); {
		c := t[i]
		switch {
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80:
			i += len(wordRE.FindString(t[i:]))
		case c >= '0' && c <= '9':
			m := numRE.FindString(t[i:])
			if !validRE.MatchString(m) {
				return true
			}
			i += len(m)
		default:
			i++
		}
	}
	return false
}

var c38 = &core.Check{ID: "C38", Level: "model_checking",
	Run: func(c *core.Ctx) {
		trans := c.Counter("transitions")
		both := c.Counter("accepted_by_both_parsers")
		ev := core.NewEval(c, "agree", func(in Case) error {
			if outside38(in.Text) {
				return nil
			}
			r, err := sem.FromStarlark(in.Text)
			atomic.AddInt64(trans, 1)
			if err != nil {
				return nil
			}
			f, err := parseAs(in.Type, in.Text)
			if err != nil {
				if dotERE.MatchString(in.Text) {
					return core.Failf("rejected/exponent-after-dot", "a valid Starlark file is rejected: %v\n%s", err, in.Text)
				}
				if contRE.MatchString(in.Text) {
					return core.Failf("rejected/continuation-at-line-start", "a valid Starlark file is rejected: %v\n%s", err, in.Text)
				}
				return core.Failf("rejected", "a valid Starlark file is rejected: %v\n%s", err, in.Text)
			}
			c.NonTrivial(1)
			c.Outcome([]byte(in.Text))
			atomic.AddInt64(both, 1)
			if x, y := r.String(), sem.FromBuild(f, false).String(); x != y {
				return core.Failf("tree", "the syntax tree differs from the reference parser's: %s\n%s", firstDiff(sem.FromBuild(f, false).Indented(), r.Indented()), in.Text)
			}
			return nil
		})
		core.Stream(c, func(emit func(Case) bool) {
			one := func(t string) bool { return emit(Case{"bzl", t}) }
			if !gen.Words(tokens04, 3, "", one) || !gen.Words(tokens04[:c.Pick(34, len(tokens04))], 4, "", one) {
				return
			}
			c.Bound("all strings of <=3 of %d tokens and of 4 of %d", len(tokens04), c.Pick(34, len(tokens04)))
			for _, s := range gen.Seeds() {
				d := gen.Lex(s.Text)
				if !d.Deviate(c.Pick(1, 2), one) {
					return
				}
			}
			c.Bound("%d seeds with <=%d layout deviations", len(gen.Seeds()), c.Pick(1, 2))
			exprs := gen.Exprs(1, gen.ExprCtx, gen.Atoms)
			for _, sc := range gen.StmtCtx {
				for _, e := range exprs {
					if !one(gen.Fill(sc, e)) {
						return
					}
				}
			}
			deep := gen.Exprs(2, gen.ExprCtx, gen.Atoms[:2])
			for _, e := range deep {
				if !one("v = "+e+"\n") || !one(e+"\n") || !one("if "+e+":\n  pass\n") || !one("x = [i for i in y if "+e+"]\n") || !one("x = [i for i in "+e+"]\n") || !one("f(k = "+e+", *z)\n") {
					return
				}
			}
			c.Bound("%d statements x %d expressions of nesting 1, %d expressions of nesting 2 in 6 contexts", len(gen.StmtCtx), len(exprs), len(deep))
			// operators without parentheses: all words of operands and operators
			ops := []string{"+", "*", "-", "|", "==", "in", "not in", "and", "or", "not", "if", "else", ".x", "(y)", "[z]", "lambda:", ",", "for i in"}
			var rec func(text string, k int) bool
			rec = func(text string, k int) bool {
				if k == 0 {
					return true
				}
				for _, o := range ops {
					t := text + " " + o + " a"
					if o == ".x" || o == "(y)" || o == "[z]" {
						t = text + o
					}
					if !one("v = "+t+"\n") || k > 1 && !one("v = ["+t+"]\n") || !one("v = "+o+" "+t+"\n") {
						return false
					}
					if !rec(t, k-1) {
						return false
					}
					if !rec(text+" "+o, k-1) {
						return false
					}
				}
				return true
			}
			if !rec("a", c.Pick(3, 4)) {
				return
			}
			c.Bound("all operator words with <=%d of %d operators, with and without operands", c.Pick(3, 4), len(ops))
			if !gen.Sequences(gen.Stmts, gen.Seps, 2, "", one) || !gen.Sequences(gen.Stmts, gen.Seps, 2, "def f():", one) || !gen.Sequences(gen.Stmts, gen.Seps, 2, "if a:", one) {
				return
			}
			c.Bound("all pairs of %d statements with %d separators at top level and in blocks", len(gen.Stmts), len(gen.Seps))
		}, func(x Case) { ev.Do(x) })
	}}
