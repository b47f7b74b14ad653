package main

import (
	"fmt"
	"regexp"
	"strings"
	"sync/atomic"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/tables"
	"verif/mc/core"
	"verif/mc/gen"
	"verif/mc/sem"
)

// Case is a text parsed and formatted as a file of the given type.
type Case struct {
	Type string
	Text string
}

var fileNames = map[string]string{"build": "pkg/BUILD.bazel", "bzl": "pkg/x.bzl", "default": "pkg/x.star", "workspace": "WORKSPACE", "module": "MODULE.bazel"}
var allTypes = []string{"build", "bzl", "default", "workspace", "module"}

func parseAs(typ, text string) (*build.File, error) {
	switch typ {
	case "build":
		return build.ParseBuild(fileNames[typ], []byte(text))
	case "bzl":
		return build.ParseBzl(fileNames[typ], []byte(text))
	case "workspace":
		return build.ParseWorkspace(fileNames[typ], []byte(text))
	case "module":
		return build.ParseModule(fileNames[typ], []byte(text))
	}
	return build.ParseDefault(fileNames[typ], []byte(text))
}

// format is what buildifier does to a file: parse, rewrite, print.
func format(typ, text string) (string, error) {
	f, err := parseAs(typ, text)
	if err != nil {
		return "", err
	}
	return string(build.Format(f)), nil
}

func specFor(typ string) *sem.Spec {
	return &sem.Spec{BuildLike: typ == "build" || typ == "workspace" || typ == "module", Module: typ == "module",
		LabelArg: tables.IsLabelArg, LabelDeny: tables.LabelDenylist, SortArg: tables.IsSortableListArg,
		SortDeny: tables.SortableDenylist, SortAllow: tables.SortableAllowlist}
}

func firstDiff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) || i < len(lb); i++ {
		x, y := "<end>", "<end>"
		if i < len(la) {
			x = la[i]
		}
		if i < len(lb) {
			y = lb[i]
		}
		if x != y {
			return fmt.Sprintf("line %d: %q vs %q", i+1, x, y)
		}
	}
	return "equal"
}

// source enumerates the case texts of the formatter checks (shared by C01, C02, C03).
func source(c *core.Ctx, emit func(Case) bool) { sources(c, true, emit) }

// sources leaves out the spaces of layouts if layout is false.
func sources(c *core.Ctx, layout bool, emit func(Case) bool) {
	n := 0
	each := func(types []string) func(string) bool {
		return func(t string) bool {
			for _, ty := range types {
				n++
				if !emit(Case{ty, t}) {
					return false
				}
			}
			return true
		}
	}
	typesFor := func(name string) []string {
		return allTypes
	}
	// Space 1: seeds with at most k layout deviations.
	k := c.Pick(1, 2)
	for _, s := range gen.Seeds() {
		d := gen.Lex(s.Text)
		if d == nil || d.Text() != s.Text {
			panic("seed not lexed: " + s.Name)
		}
		kk := k
		if !layout {
			kk = 0
		} else if len(d.Toks) <= c.Pick(9, 30) {
			kk = 2
		}
		if !d.Deviate(kk, each(typesFor(s.Name))) {
			return
		}
	}
	c.Bound("%d seed programs, all file types, every choice of <=%d layout deviations (<=2 for short seeds)", len(gen.Seeds()), k)
	// Space 2: expression shapes in statement contexts.
	exprs := gen.Exprs(1, gen.ExprCtx, gen.Atoms)
	for _, sc := range gen.StmtCtx {
		for _, e := range exprs {
			if !each([]string{"build", "default"})(gen.Fill(sc, e)) {
				return
			}
		}
	}
	c.Bound("%d statement contexts x %d expressions (nesting 1)", len(gen.StmtCtx), len(exprs))
	deep := gen.Exprs(2, gen.ExprCtx, gen.Atoms[:c.Pick(1, len(gen.Atoms))])
	for _, e := range deep {
		if !each([]string{"build", "default"})("v = " + e + "\n") {
			return
		}
	}
	c.Bound("%d expressions (nesting 2)", len(deep))
	// Space 3: expression shapes of nesting 1 with every single layout deviation.
	for _, e := range gen.Exprs(1, gen.ExprCtx, gen.Atoms[:c.Pick(3, 11)]) {
		if !layout {
			break
		}
		for _, pre := range []string{"v = ", "r(x = ", "return_(name, ["} {
			t := pre + e
			if strings.Contains(pre, "(") {
				t += ","
				for _, ch := range []string{"[", "("} {
					if strings.Contains(pre, ch) {
						t += map[string]string{"[": "]", "(": ")"}[ch]
					}
				}
			}
			t += "\n"
			d := gen.Lex(t)
			if d == nil {
				continue
			}
			if !d.Deviate(1, each([]string{"build", "default"})) {
				return
			}
		}
	}
	c.Bound("expressions of nesting 1 in 3 contexts with every single layout deviation")
	// Space 4: number literals.
	for _, m := range []string{"0", "1", "00", "01", "07", "012", "10", "100", "0.", "1.", ".0", ".5", "0.5", "1.0", "1.50", "01.5", "00.5", "10.01"} {
		for _, ex := range []string{"", "e0", "e00", "E0", "e+0", "e-0", "E+00", "e5", "E5", "e05", "E+5", "e+05", "e-5", "E-05", "e10", "e+10", "e-010"} {
			for _, ctx := range []string{"x = $\n", "x = -$\n", "x = [$, 1]\n", "x = ($).y\n", "f(a = $)\n", "x = a[$:]\n"} {
				if !each(allTypes)(gen.Fill(ctx, m+ex)) {
					return
				}
			}
		}
	}
	for _, m := range []string{"0x0", "0X1f", "0xABC", "0o7", "0O17", "0o0", "0b1", "0B10", "0x1e5", "0o17", "1_000", "1e", "1.e", "0x"} {
		if !each(allTypes)("x = " + m + "\n") {
			return
		}
	}
	c.Bound("18 mantissas x 17 exponents x 6 contexts and 15 integer spellings")
	// Space 5: sequences of statements with every separator.
	some := func(all []string, n int) []string { return all[:min(n, len(all))] }
	type seqs struct {
		stmts, seps []string
		n           int
		header      string
		types       []string
	}
	mod := []string{"module", "workspace", "build"}
	spaces := []seqs{
		{gen.Stmts, gen.Seps, 2, "", allTypes},
		{gen.Stmts, gen.Seps, 2, "def f():", []string{"build", "default"}},
		{gen.Stmts, gen.Seps, 2, "if x:", []string{"build", "default"}},
		{gen.ModuleStmts, gen.Seps, 2, "", mod},
		{some(gen.Stmts, 6), gen.Seps[:4], 3, "", []string{"build", "default"}},
		{gen.ModuleStmts, gen.Seps[:2], 3, "", []string{"module"}},
	}
	if c.Thorough() {
		spaces = append(spaces, seqs{gen.Stmts, gen.Seps, 3, "", []string{"build", "default"}}, seqs{gen.ModuleStmts, gen.Seps[:6], 3, "", []string{"module", "workspace"}},
			seqs{gen.Stmts, gen.Seps[:4], 3, "def f():", []string{"default"}})
	}
	for _, sp := range spaces {
		if !gen.Sequences(sp.stmts, sp.seps, sp.n, sp.header, each(sp.types)) {
			return
		}
		c.Bound("sequences of %d of %d statements with %d separators under %q as %v", sp.n, len(sp.stmts), len(sp.seps), sp.header, sp.types)
	}
	// Space 6: argument lists, load arguments, string lists.
	wrap := func(types []string, pre, post string) func(string) bool {
		return func(w string) bool { return each(types)(pre + w + post) }
	}
	args := []string{"a", "b = 1", "c = d", "*e", "**g", "name = \"n\"", "srcs = []"}
	if !gen.Words(args, c.Pick(4, 5), ", ", wrap([]string{"build", "default"}, "f(", ")\n")) ||
		!gen.Long([]string{"%", "k% = 1", "*%", "**%", "name = \"%\""}, 14, c.Pick(2, 3), ", ", wrap([]string{"build", "default"}, "f(", ")\n")) {
		return
	}
	c.Bound("calls with <=%d arguments of 7 kinds; calls with 14 arguments, <=%d of them not positional", c.Pick(4, 5), c.Pick(2, 3))
	syms := []string{`"a"`, `"b"`, `c = "a"`, `a = "b"`, `b = "b"`, `a = "x"`}
	var lists []string
	gen.Words(syms, 2, ", ", func(w string) bool { lists = append(lists, w); return true })
	for _, l1 := range lists {
		for _, l2 := range lists {
			for _, m := range []string{":a.bzl", ":b.bzl", "//a:a.bzl"} {
				if !each([]string{"bzl", "workspace"})("load(\":a.bzl\", " + l1 + ")  # one\n\nload(\"" + m + "\", " + l2 + ")  # two\n") {
					return
				}
			}
		}
	}
	if !gen.Words(syms, c.Pick(4, 5), ", ", wrap([]string{"bzl"}, "load(\":a.bzl\", ", ")\n")) ||
		!gen.Long([]string{`"%"`, `a = "%"`, `b = "%"`, `z = "%"`}, 14, c.Pick(2, 3), ", ", wrap([]string{"bzl"}, "load(\":a.bzl\", ", ")\n")) {
		return
	}
	c.Bound("loads with <=%d of 6 symbols, pairs of loads with <=2 symbols, loads of 14 symbols with <=%d duplicates", c.Pick(4, 5), c.Pick(2, 3))
	strs := []string{`"b"`, `":a"`, `"a"`, `"//b"`, `"//a:b"`, `"@r//:r"`, "x", "\n# c\n\"a\"", "\n\n\"b\""}
	for _, pre := range []string{"r(deps = [", "x = [", "r(deps = [  # keep sorted\n", "r(srcs = y + [", "r(deps = [  # do not sort\n", "r(deps = select({\"//c\": ["} {
		post := "])\n"
		if strings.HasPrefix(pre, "x") {
			post = "]\n"
		} else if strings.Contains(pre, "{") {
			post = "]}))\n"
		}
		if !gen.Words(strs, c.Pick(3, 5), ", ", wrap([]string{"build", "bzl"}, pre, post)) {
			return
		}
	}
	if !gen.Long([]string{`"%"`, `"a"`, `":a"`, "x", "\n# c%\n\"a\""}, 14, 2, ", ", wrap([]string{"build"}, "r(deps = [", "])\n")) {
		return
	}
	c.Bound("string lists of <=%d of 9 elements in 6 contexts, of 14 elements with <=2 deviations", c.Pick(3, 5))
	c.Add("texts", int64(n))
}

var c01 = &core.Check{ID: "C01", Level: "model_checking",
	Rule: "states are file texts, the transition is 'format'; every text of the enumerated layout/expression space is an initial state; non-trivial = accepted by the parser and changed by formatting",
	Run: func(c *core.Ctx) {
		trans := c.Counter("transitions")
		ev := core.NewEval(c, "idempotent", func(in Case) error {
			o1, err := format(in.Type, in.Text)
			if err != nil {
				return nil
			}
			atomic.AddInt64(trans, 1)
			if c.Outcome([]byte(in.Type + o1)) {
				c.Sample(in.Type, in.Text)
			}
			o2, err := format(in.Type, o1)
			if err != nil {
				return core.Failf("reparse", "formatted output does not parse as %s: %v\n--- input\n%s\n--- output\n%s", in.Type, err, in.Text, o1)
			}
			atomic.AddInt64(trans, 1)
			c.NonTrivial(1)
			if o1 != o2 && twoSuffix.MatchString(in.Text) && onlyDedup(o1, o2) {
				return core.Failf("dedup-after-two-suffix-comments", "second formatting removes a duplicate string: %s\n--- input\n%s", firstDiff(o1, o2), in.Text)
			}
			if o1 != o2 {
				return core.Failf("not-idempotent", "second formatting changes the %s file: %s\n--- input\n%s\n--- once\n%s\n--- twice\n%s", in.Type, firstDiff(o1, o2), in.Text, o1, o2)
			}
			return nil
		})
		core.Stream(c, func(emit func(Case) bool) { source(c, emit) }, func(x Case) { ev.Do(x) })
	}}

// twoSuffix matches two end-of-line comments between which there is only punctuation: both belong to one node.
var twoSuffix = regexp.MustCompile(`# ?c1\n\s*[,=]\s*# ?c2\n`)

// onlyDedup reports whether b is a with some lines that duplicate earlier ones removed.
func onlyDedup(a, b string) bool {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	seen := map[string]bool{}
	j := 0
	for _, l := range la {
		code, _, _ := strings.Cut(l, "#")
		code = strings.Trim(code, " ,")
		if j < len(lb) && lb[j] == l {
			j++
		} else if !seen[code] || !strings.HasPrefix(code, "\"") {
			return false
		}
		seen[code] = true
	}
	return j == len(lb)
}

var c02 = &core.Check{ID: "C02", Level: "model_checking",
	Run: func(c *core.Ctx) {
		trans := c.Counter("transitions")
		byRef, byOwn := c.Counter("compared_with_reference_parser"), c.Counter("compared_with_own_parser")
		ev := core.NewEval(c, "meaning", func(in Case) error {
			o, err := format(in.Type, in.Text)
			if err != nil {
				return nil
			}
			atomic.AddInt64(trans, 1)
			c.Outcome([]byte(in.Type + in.Text))
			sp := specFor(in.Type)
			low := strings.ToLower(in.Text)
			sp.ListsAsSet = strings.Contains(low, "keep sorted")
			a, err := sem.FromStarlark(in.Text)
			var b *sem.N
			if err == nil {
				b, err = sem.FromStarlark(o)
				if err != nil {
					return core.Failf("ref-reject", "the reference parser accepts the input but not the output: %v\n--- input\n%s\n--- output\n%s", err, in.Text, o)
				}
				atomic.AddInt64(byRef, 1)
			} else {
				fa, err := parseAs(in.Type, in.Text)
				if err != nil {
					return nil
				}
				fb, err := parseAs(in.Type, o)
				if err != nil {
					return core.Failf("reject", "output does not parse: %v\n--- input\n%s\n--- output\n%s", err, in.Text, o)
				}
				a, b = sem.FromBuild(fa, false), sem.FromBuild(fb, false)
				atomic.AddInt64(byOwn, 1)
			}
			c.NonTrivial(1)
			sp.SkipLoads = sem.AmbiguousLoads(a)
			ca, cb := sem.Canon(a, sp), sem.Canon(b, sp)
			if x, y := ca.String(), cb.String(); x != y {
				return core.Failf("meaning", "formatting changes the meaning of a %s file: %s\n--- input\n%s\n--- output\n%s", in.Type, firstDiff(ca.Indented(), cb.Indented()), in.Text, o)
			}
			return nil
		})
		core.Stream(c, func(emit func(Case) bool) { source(c, emit) }, func(x Case) { ev.Do(x) })
	}}

var c03 = &core.Check{ID: "C03", Level: "model_checking",
	Run: func(c *core.Ctx) {
		ev := core.NewEval(c, "comments", func(in Case) error {
			o, err := format(in.Type, in.Text)
			if err != nil {
				return nil
			}
			c.Outcome([]byte(in.Type + in.Text))
			a, b := gen.Comments(in.Text), gen.Comments(o)
			m := map[string]int{}
			for _, x := range a {
				m[x]++
			}
			for _, x := range b {
				m[x]--
			}
			for k, v := range m {
				if v > 0 && dupSuffix(in.Text, k) {
					continue // documented: the suffix comment of a removed duplicate string is dropped
				}
				if v != 0 {
					return core.Failf("comments", "comment %q: %+d after formatting (%s)\n--- input\n%s\n--- output\n%s", k, -v, in.Type, in.Text, o)
				}
			}
			if msg := gen.CheckAssoc(in.Text, o, strings.Contains(strings.ToLower(in.Text), "keep sorted") || in.Type == "module" && strings.Contains(in.Text, "use_repo")); msg != "" {
				return core.Failf("association", "%s (%s)\n--- input\n%s\n--- output\n%s", msg, in.Type, in.Text, o)
			}
			return nil
		})
		core.Stream(c, func(emit func(Case) bool) { source(c, emit) }, func(x Case) { ev.Do(x) })
	}}

// dupSuffix reports whether comment com is the suffix comment of a string that occurs earlier in the text.
func dupSuffix(text, com string) bool {
	d := gen.Lex(text)
	if d == nil {
		return false
	}
	gapAfter := func(i int) string {
		if i+1 < len(d.Toks) {
			return d.Toks[i+1].Gap
		}
		return d.Tail
	}
	seen := map[string]bool{}
	for i, t := range d.Toks {
		if t.Text[0] != '"' && t.Text[0] != '\'' {
			continue
		}
		v := strings.Trim(t.Text, "\"'")
		if seen[v] {
			for _, g := range []string{gapAfter(i), gapAfter(i + 1)} {
				line, _, _ := strings.Cut(g, "\n")
				if strings.TrimSpace(line) == com {
					return true
				}
				if i+1 >= len(d.Toks) || d.Toks[i+1].Text != "," {
					break
				}
			}
		}
		seen[v] = true
	}
	return false
}
