package main

import (
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/warn"
	"verif/mc/core"
)

// lintFile calls a lint function directly.
func lintFile(f *build.File, cat string, fr *warn.FileReader) []*warn.LinterFinding {
	if fn, ok := warn.FileWarningMap[cat]; ok {
		return fn(f)
	}
	if fn, ok := warn.MultiFileWarningMap[cat]; ok {
		return fn(f, fr)
	}
	return nil
}

func suggest(c *core.Ctx, in fwCase) error {
	text := strings.Join(in.parts(), "\n")
	if _, err := parse(in.Type, text); err != nil {
		return core.Failf("parse", "%q: %v", text, err)
	}
	fresh := func() *build.File { f, _ := parse(in.Type, text); return f }
	ff := fresh()
	formatted := build.Format(ff)
	var union []string
	for _, cat := range warn.AllWarnings {
		g := fresh()
		build.Format(g)
		w := warn.FileWarnings(g, []string{cat}, nil, warn.ModeWarn, fwReader())
		if len(w) == 0 {
			continue
		}
		f := fresh()
		s := warn.FileWarnings(f, []string{cat}, nil, warn.ModeSuggest, fwReader())
		union = append(union, showAll(s)...)
		if out := build.Format(f); string(out) != string(formatted) {
			return core.Failf("rollback", "%q: %s: the file after suggesting fixes: %q", text, cat, out)
		}
		if len(s) != len(w) {
			return core.Failf("findings", "%q: %s: %d findings, %d in suggest mode", text, cat, len(w), len(s))
		}
		if again := showAll(warn.FileWarnings(f, []string{cat}, &formatted, warn.ModeSuggest, fwReader())); !same(again, showAll(s)) {
			return core.Failf("again", "%q: %s: suggested again: %s", text, cat, diffStr(showAll(s), again))
		}
		var rest []string
		for i, x := range s {
			y := *x
			y.Replacement = nil
			if show(&y) != show(w[i]) {
				return core.Failf("findings", "%q: %s: %s in suggest mode: %s", text, cat, show(w[i]), show(x))
			}
			if x.AutoFixable != (x.Replacement != nil) {
				return core.Failf("replacement", "%q: %s: fixable %v, replacement %v", text, cat, x.AutoFixable, x.Replacement)
			}
			if !x.AutoFixable {
				rest = append(rest, x.Message)
				continue
			}
			c.NonTrivial(1)
			r := x.Replacement
			if r.Start < 0 || r.End < r.Start || r.End > len(formatted) || r.Description != x.Message {
				return core.Failf("range", "%q: %s: %+v", text, cat, *r)
			}
			got := string(formatted[:r.Start]) + r.Content + string(formatted[r.End:])
			// the fix alone
			h := fresh()
			build.Format(h)
			want := ""
			for _, y := range lintFile(h, cat, fwReader()) {
				if y.Start == x.Start && y.End == x.End && y.Message == x.Message && len(y.Replacement) > 0 {
					for _, p := range y.Replacement {
						*p.Old = p.New
					}
					var l []build.Expr
					for _, st := range h.Stmt {
						if st != nil {
							l = append(l, st)
						}
					}
					h.Stmt = l
					want = string(build.Format(h))
					break
				}
			}
			if got != want {
				return core.Failf("suggestion", "%q: %s at %d: with the suggestion %q, with the fix %q", text, cat, x.Start.Line, got, want)
			}
			if p, err := parse(in.Type, got); err != nil {
				return core.Failf("syntax", "%q: %s at %d: suggested %q: %v", text, cat, x.Start.Line, got, err)
			} else if out := build.Format(p); string(out) != got {
				return core.Failf("format", "%q: %s at %d: suggested %q, reformatted %q", text, cat, x.Start.Line, got, out)
			}
		}
		// what is left after fixing
		k := fresh()
		build.Format(k)
		var left []string
		for _, x := range warn.FileWarnings(k, []string{cat}, nil, warn.ModeFix, fwReader()) {
			if x.AutoFixable || x.Replacement != nil {
				return core.Failf("fix", "%q: %s: left after fixing: %s", text, cat, show(x))
			}
			left = append(left, x.Message)
		}
		// One fix is for all arguments of a call or symbols of a load, the other ones aren't marked as fixable.
		if (cat == "keyword-positional-params" || cat == "load") && len(left) < len(rest) {
			continue
		}
		if !same(sorted(left), sorted(rest)) {
			return core.Failf("fix", "%q: %s: left after fixing: %s", text, cat, diffStr(sorted(rest), sorted(left)))
		}
	}
	f := fresh()
	all := showAll(warn.FileWarnings(f, warn.AllWarnings, nil, warn.ModeSuggest, fwReader()))
	if !same(sorted(all), sorted(union)) {
		return core.Failf("union", "%q: all suggestions at once vs. by category: %s", text, diffStr(sorted(union), sorted(all)))
	}
	return nil
}

var c34 = &core.Check{ID: "C34", Level: "model_checking", Guard: true,
	Run: func(c *core.Ctx) {
		ev := core.NewEval(c, "suggest", func(in fwCase) error { return suggest(c, in) })
		core.Stream(c, func(emit func(fwCase) bool) {
			for _, typ := range types {
				l := triggersOf(typ)
				for i := range l {
					if !emit(fwCase{typ, []int{i}}) {
						return
					}
				}
				for i := range l {
					for j := range l {
						if !c.Thorough() && typ == "default" {
							continue // like .bzl files
						}
						if !emit(fwCase{typ, []int{i, j}}) {
							return
						}
						for k := range l {
							if c.Thorough() && (typ == "build") && !emit(fwCase{typ, []int{i, j, k}}) {
								return
							}
						}
					}
				}
			}
		}, func(x fwCase) { ev.Do(x) })
		c.Bound("all files of <= %d of %d/%d snippets", c.Pick(2, 3), len(bzlTriggers), len(buildTriggers))
	}}
