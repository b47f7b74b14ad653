package main

import (
	"fmt"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/warn"
	"verif/mc/core"
)

// A stmtSpan are the lines of a statement with the comments before it.
type stmtSpan struct{ from, start, end int }

func stmtSpans(f *build.File) []stmtSpan {
	var r []stmtSpan
	var rec func(l []build.Expr)
	rec = func(l []build.Expr) {
		for _, s := range l {
			if s == nil {
				continue
			}
			start, end := s.Span()
			x := stmtSpan{start.Line, start.Line, end.Line}
			for _, c := range s.Comment().Before {
				if c.Start.Line < x.from {
					x.from = c.Start.Line
				}
			}
			if _, ok := s.(*build.CommentBlock); !ok {
				r = append(r, x)
			}
			switch s := s.(type) {
			case *build.DefStmt:
				rec(s.Body)
			case *build.ForStmt:
				rec(s.Body)
			case *build.IfStmt:
				rec(s.True)
				rec(s.False)
			}
		}
	}
	rec(f.Stmt)
	return r
}

// stringLines are the lines that start inside of a string.
func stringLines(f *build.File) map[int]bool {
	r := map[int]bool{}
	build.Walk(f, func(x build.Expr, _ []build.Expr) {
		if s, ok := x.(*build.StringExpr); ok {
			start, end := s.Span()
			for i := start.Line + 1; i <= end.Line; i++ {
				r[i] = true
			}
		}
	})
	return r
}

type disCase struct {
	Type string
	L    []int
	Line int  // line of the comment
	Own  bool // on its own line before Line, otherwise at its end
	Form int
}

// forms of disabling comments; $ is a category, those of the second list don't disable it
var disForms = []string{"# buildifier: disable=$", "# buildozer: disable=$", "#buildifier: disable=$", "# Buildifier: Disable=$", "# why buildifier: disable=$ because", "# buildifier: disable=none buildifier: disable=$", "# buildozer: disable=$, buildozer: disable=none", "# buildifier: disable=$."}
var offForms = []string{"# buildifier: disable=none", "# $", "# disable=$", "# buildifier: disable=$-more", "# buildifier: disable=$x", "# buildifier: disable=$_x", "# buildifier: $", "# buildifier: enable=$", "# buildifier: disable=x-$", "# buildifier: disable=x$"}

func place(text string, in disCase, comment string) string {
	l := strings.Split(text, "\n")
	i := in.Line - 1
	if in.Own {
		ind := l[i][:len(l[i])-len(strings.TrimLeft(l[i], " "))]
		l[i] = ind + comment + "\n" + l[i]
	} else {
		l[i] += "  " + comment
	}
	return strings.Join(l, "\n")
}

func disable(c *core.Ctx, in disCase) error {
	text := strings.Join(fwCase{in.Type, in.L}.parts(), "\n")
	f, err := parse(in.Type, text)
	if err != nil {
		return core.Failf("parse", "%q: %v", text, err)
	}
	all := warn.AllWarnings
	base := warn.FileWarnings(f, all, nil, warn.ModeWarn, fwReader())
	var cats []string
	seen := map[string]bool{}
	for _, x := range base {
		if !seen[x.Category] {
			seen[x.Category] = true
			cats = append(cats, x.Category)
		}
	}
	// what the comment is for
	var self *stmtSpan
	spans := stmtSpans(f)
	inner := stmtSpan{0, 0, 1 << 30}
	for i, s := range spans {
		if s.start == in.Line && self == nil {
			self = &spans[i]
		}
		if s.from <= in.Line && in.Line <= s.end && s.end-s.from <= inner.end-inner.from {
			inner = s
		}
	}
	if in.Form == detached {
		// a comment that is not attached to the statement
		for _, cat := range cats {
			if strings.HasPrefix(cat, "skylark") {
				continue
			}
			l := strings.Split(text, "\n")
			l[in.Line-1] = strings.ReplaceAll(disForms[0], "$", cat) + "\n\n" + l[in.Line-1]
			t := strings.Join(l, "\n")
			g, err := parse(in.Type, t)
			if err != nil {
				return core.Failf("parse", "%q: %v", t, err)
			}
			var b []string
			for _, x := range warn.FileWarnings(g, all, nil, warn.ModeWarn, fwReader()) {
				n := x.Start.Line
				if n > in.Line {
					n -= 2
				}
				if x.Category != "module-docstring" {
					b = append(b, fmt.Sprintf("%d %s", n, x.Category))
				}
			}
			var a []string
			for _, x := range base {
				if x.Category != "module-docstring" {
					a = append(a, fmt.Sprintf("%d %s", x.Start.Line, x.Category))
				}
			}
			if !same(sorted(a), sorted(b)) {
				return core.Failf("detached", "%q: %s", t, diffStr(sorted(a), sorted(b)))
			}
		}
		return nil
	}
	lint := func(comment string) ([]*warn.Finding, string, error) {
		t := place(text, in, comment)
		g, err := parse(in.Type, t)
		if err != nil {
			return nil, t, core.Failf("parse", "%q: %v", t, err)
		}
		l := warn.FileWarnings(g, all, nil, warn.ModeWarn, fwReader())
		for _, x := range l {
			if in.Own {
				if x.Start.Line > in.Line {
					x.Start.Line--
				}
				if x.End.Line > in.Line {
					x.End.Line--
				}
			}
		}
		return l, t, nil
	}
	line := func(l []*warn.Finding, skip func(*warn.Finding) bool) []string {
		var r []string
		for _, x := range l {
			if !skip(x) && x.Category != "module-docstring" {
				r = append(r, fmt.Sprintf("%d %s", x.Start.Line, x.Category))
			}
		}
		return sorted(r)
	}
	none := func(*warn.Finding) bool { return false }
	own := func(x *warn.Finding) bool { return x.Category == "skylark-comment" }
	for _, cat := range append(cats, "print") {
		if in.Form >= len(disForms) {
			got, t, err := lint(strings.ReplaceAll(offForms[in.Form-len(disForms)], "$", cat))
			if err != nil {
				return err
			}
			skip := none
			if strings.HasPrefix(cat, "skylark") {
				skip = own // the comment is one itself
			}
			if a, b := line(base, skip), line(got, skip); !same(a, b) {
				return core.Failf("other", "%q: %s", t, diffStr(a, b))
			}
			continue
		}
		none, base := none, base
		if strings.HasPrefix(cat, "skylark") {
			// the comment is a finding itself
			base, none = drop(base, "skylark-comment"), own
		}
		got, t, err := lint(strings.ReplaceAll(disForms[in.Form], "$", cat))
		if err != nil {
			return err
		}
		c.NonTrivial(1)
		// nothing but findings of the category in the statement may be missing
		out := func(x *warn.Finding) bool {
			return none(x) || x.Category == cat && inner.from <= x.Start.Line && x.Start.Line <= inner.end
		}
		if a, b := line(base, out), line(got, out); !same(a, b) {
			return core.Failf("others", "%q: disabled other findings: %s", t, diffStr(a, b))
		}
		left := func(x *warn.Finding) bool { return none(x) || x.Category != cat }
		from, to := in.Line, in.Line
		if in.Own {
			if self == nil {
				if a, b := line(base, left), line(got, left); len(b) > len(a) {
					return core.Failf("more", "%q: %s", t, diffStr(a, b))
				}
				continue
			}
			from, to = self.from, self.end
		}
		for _, x := range got {
			if x.Category == cat && from <= x.Start.Line && x.Start.Line <= to && cat != "module-docstring" {
				return core.Failf("enabled", "%q: not disabled: %s", t, show(x))
			}
		}
		if in.Form > 0 || strings.HasPrefix(cat, "skylark") || fileWide[cat] {
			continue
		}
		// disabled findings aren't fixed, other ones are
		want, fixed := 0, 0
		for _, x := range base {
			if x.Category == cat {
				want++
			}
		}
		for _, x := range got {
			if x.Category == cat && x.AutoFixable {
				fixed++
			}
		}
		if cat == "load" || cat == "keyword-positional-params" || fixed > 0 && isNative[cat] {
			// One fix is for several findings.
			continue
		}
		want -= fixed
		g, _ := parse(in.Type, t)
		warn.FixWarnings(g, []string{cat}, false, fwReader())
		out2 := strings.ReplaceAll(string(build.Format(g)), strings.ReplaceAll(disForms[in.Form], "$", cat), "# x")
		h, err := parse(in.Type, out2)
		if err != nil {
			return core.Failf("fix", "%q: fixed %q: %v", t, out2, err)
		}
		if l := warn.FileWarnings(h, []string{cat}, nil, warn.ModeWarn, fwReader()); len(l) != want {
			return core.Failf("fix", "%q: %s: %d findings should stay, after fixing %q: %s", t, cat, want, out2, strings.Join(showAll(l), "\n"))
		}
	}
	return nil
}

var isNative = func() map[string]bool {
	m := map[string]bool{}
	for _, x := range nativeCats {
		m[x] = true
	}
	return m
}()

const detached = 100

func drop(l []*warn.Finding, cat string) []*warn.Finding {
	var r []*warn.Finding
	for _, x := range l {
		if x.Category != cat {
			r = append(r, x)
		}
	}
	return r
}

var c29 = &core.Check{ID: "C29", Level: "model_checking", Guard: true,
	Run: func(c *core.Ctx) {
		ev := core.NewEval(c, "disable", func(in disCase) error { return disable(c, in) })
		core.Stream(c, func(emit func(disCase) bool) {
			one := func(typ string, l []int, forms int) bool {
				text := strings.Join(fwCase{typ, l}.parts(), "\n")
				f, err := parse(typ, text)
				if err != nil {
					return emit(disCase{typ, l, 1, true, 0})
				}
				skip := stringLines(f)
				for i, s := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
					t := strings.TrimSpace(s)
					if t == "" {
						continue
					}
					if i > 0 && strings.Split(text, "\n")[i-1] == "" && t == s && !skip[i+1] && !emit(disCase{typ, l, i + 1, true, detached}) {
						return false
					}
					for form := 0; form < len(disForms)+len(offForms); form++ {
						if form >= forms && form != len(disForms) {
							continue
						}
						if !skip[i+1] && !strings.HasPrefix(t, "else") && !strings.HasPrefix(t, "elif") && !emit(disCase{typ, l, i + 1, true, form}) {
							return false
						}
						if !skip[i+2] && !strings.Contains(t, "#") && !strings.HasSuffix(t, "\\") && !emit(disCase{typ, l, i + 1, false, form}) {
							return false
						}
					}
				}
				return true
			}
			for _, typ := range types {
				l := triggersOf(typ)
				for i := range l {
					if !one(typ, []int{i}, 100) {
						return
					}
				}
				for i := range l {
					for j := range l {
						// in quick runs every statement in combination with a few other ones
						if d := (j - i + len(l)) % len(l); !c.Thorough() && d != 1 && d != 7 && d != len(l)-2 {
							continue
						}
						if (typ == "bzl" || typ == "build") && !one(typ, []int{i, j}, 1) {
							return
						}
					}
				}
			}
		}, func(x disCase) { ev.Do(x) })
		c.Bound("all places of a comment (on its own line or at the end of a line) in all files of <= 2 of %d/%d snippets x every category of a finding x %d forms of comments", len(bzlTriggers), len(buildTriggers), len(disForms)+len(offForms))
	}}
