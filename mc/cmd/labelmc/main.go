// labelmc checks that labels keep their meaning: all strings over a label alphabet up to a length go through the labels
// package and through the formatter's label rewriting, against an independent reading of the label syntax.
package main

import (
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/edit"
	"github.com/bazelbuild/buildtools/labels"

	"verif/mc/core"
)

func main() { core.Main([]*core.Check{c09}) }

// A ref is what a label refers to.
type ref struct{ repo, pkg, target string }

func refOf(l labels.Label) ref {
	r := ref{l.Repository, l.Package, l.Target}
	if l.Canonical {
		r.repo = "@" + r.repo
	}
	return r
}

func segments(s string) bool {
	for _, x := range strings.Split(s, "/") {
		if x == "" || x == "." || x == ".." || x == "..." || strings.ContainsAny(x, ":") {
			return false
		}
	}
	return true
}

// denote reads a label as Bazel does; ok is false if it isn't a valid label.
func denote(s, pkg string) (r ref, ok bool) {
	abs := false
	if strings.HasPrefix(s, "@") {
		abs = true
		canonical := strings.HasPrefix(s, "@@")
		s = strings.TrimPrefix(s[1:], "@")
		i := strings.Index(s, "//")
		repo := s
		if i >= 0 {
			repo = s[:i]
		}
		if strings.ContainsAny(repo, "@/:") || strings.HasPrefix(repo, ".") || repo == "" && i < 0 {
			return r, false
		}
		r.repo = repo
		if canonical && repo != "" {
			r.repo = "@" + repo
		}
		if i < 0 {
			return ref{r.repo, "", repo}, true
		}
		s = s[i:]
	}
	if strings.HasPrefix(s, "//") {
		abs = true
		s = s[2:]
	}
	p, t, colon := strings.Cut(s, ":")
	switch {
	case abs && !colon:
		if !segments(p) || strings.Contains(p, "@") {
			return r, false
		}
		r.pkg = p
		r.target = p[strings.LastIndex(p, "/")+1:]
		return r, true
	case abs:
		if p != "" && !segments(p) || strings.Contains(p, "@") {
			return r, false
		}
		r.pkg = p
	case colon:
		if p != "" {
			return r, false
		}
		r.pkg = pkg
	default:
		t = s
		r.pkg = pkg
	}
	if !segments(t) {
		return r, false
	}
	r.target = t
	return r, true
}

func all(alphabet []string, n int, fn func(s string) bool) {
	var rec func(s string, k int) bool
	rec = func(s string, k int) bool {
		if !fn(s) {
			return false
		}
		if k == n {
			return true
		}
		for _, a := range alphabet {
			if !rec(s+a, k+1) {
				return false
			}
		}
		return true
	}
	rec("", 0)
}

var c09 = &core.Check{ID: "C09", Level: "model_checking", Guard: true,
	Run: func(c *core.Ctx) {
		type In struct{ S, Pkg string }
		pkgs := []string{"", "a", "b", "a/b", "b/a", "a/b/a"}
		one := core.NewEval(c, "label", func(in In) error {
			// totality
			l := labels.Parse(in.S)
			rel := labels.ParseRelative(in.S, in.Pkg)
			short := labels.Shorten(in.S, in.Pkg)
			f := l.Format()
			fr := rel.FormatRelative(in.Pkg)
			if !labels.Equal(in.S, in.S, in.Pkg) {
				return core.Failf("reflexive", "%q isn't equal to itself", in.S)
			}
			d, ok := denote(in.S, in.Pkg)
			if !ok {
				return nil
			}
			c.NonTrivial(1)
			if strings.HasPrefix(in.S, "//") || strings.HasPrefix(in.S, "@") {
				if got := refOf(l); got != d {
					return core.Failf("parse", "Parse(%q) = %q, want %q", in.S, got, d)
				}
				if g, ok := denote(f, "elsewhere"); !ok || g != d {
					return core.Failf("format", "%q is formatted as %q, which is %q", in.S, f, g)
				}
				if labels.Parse(f).Format() != f {
					return core.Failf("format-idempotent", "%q is formatted as %q and then as %q", in.S, f, labels.Parse(f).Format())
				}
			}
			if got := refOf(rel); got != d {
				return core.Failf("relative", "ParseRelative(%q, %q) = %q, want %q", in.S, in.Pkg, got, d)
			}
			for what, s := range map[string]string{"shorten": short, "formatrelative": fr} {
				if g, ok := denote(s, in.Pkg); !ok || g != d {
					return core.Failf(what, "%q in %q becomes %q, which is %q, want %q", in.S, in.Pkg, s, g, d)
				}
				if s2 := labels.Shorten(s, in.Pkg); s2 != s {
					return core.Failf(what+"-idempotent", "%q becomes %q becomes %q", in.S, s, s2)
				}
				if len(s) > len(in.S)+1 {
					return core.Failf(what+"-longer", "%q in %q becomes %q", in.S, in.Pkg, s)
				}
				if d.repo == "" && d.pkg == in.Pkg && strings.HasPrefix(s, "//") {
					return core.Failf(what+"-long", "%q in %q remains %q", in.S, in.Pkg, s)
				}
			}
			if g := edit.ShortenLabel(in.S, in.Pkg); g != in.S && g != short {
				return core.Failf("edit", "edit.ShortenLabel(%q, %q) = %q", in.S, in.Pkg, g)
			}
			return nil
		})
		type Pair struct{ A, B, Pkg string }
		pair := core.NewEval(c, "equal", func(in Pair) error {
			a, _ := denote(in.A, in.Pkg)
			b, _ := denote(in.B, in.Pkg)
			if got := labels.Equal(in.A, in.B, in.Pkg); got != (a == b) {
				return core.Failf("equal", "Equal(%q, %q, %q) = %v but they are %q and %q", in.A, in.B, in.Pkg, got, a, b)
			}
			if a == b {
				c.NonTrivial(1)
			}
			return nil
		})
		type Format struct {
			S, Dir  string
			Shorten bool
			Strip   bool
		}
		format := core.NewEval(c, "formatter", func(in Format) error {
			file := "BUILD"
			if in.Dir != "" {
				file = in.Dir + "/BUILD"
			}
			out := []string{in.S}
			rw := build.Rewriter{IsLabelArg: map[string]bool{"x": true}, ShortenAbsoluteLabelsToRelative: in.Shorten, StripLabelLeadingSlashes: in.Strip}
			for range 2 {
				f, err := build.ParseBuild(file, []byte("m(x = \""+out[len(out)-1]+"\")\n"))
				if err != nil {
					return nil
				}
				rw.Rewrite(f)
				out = append(out, f.Stmt[0].(*build.CallExpr).List[0].(*build.AssignExpr).RHS.(*build.StringExpr).Value)
			}
			if out[1] != out[2] && !in.Strip {
				return core.Failf("idempotent", "%q", out)
			}
			if in.Strip && !strings.HasPrefix(in.S, "//") && !strings.HasPrefix(in.S, "@") && !strings.HasPrefix(in.S, ":") {
				return nil // a label without its slashes or a file
			}
			d, ok := denote(in.S, in.Dir)
			if !ok {
				return nil
			}
			got := out[1]
			if in.Strip && strings.HasPrefix(in.S, "//") && !strings.HasPrefix(got, ":") && !strings.HasPrefix(got, "//") {
				got = "//" + got
			}
			if g, ok := denote(got, in.Dir); !ok || g != d {
				return core.Failf("meaning", "%q in %s becomes %q, which is %q, want %q", in.S, file, out[1], g, d)
			}
			if out[1] != in.S {
				c.NonTrivial(1)
			}
			return nil
		})
		abc := []string{"a", "b", "/", ":", "@", ".", "//"}
		n := c.Pick(6, 8)
		core.Stream(c, func(emit func(In) bool) {
			all(abc, n, func(s string) bool {
				if len(s) > n {
					return true
				}
				for _, p := range pkgs {
					if !emit(In{s, p}) {
						return false
					}
				}
				return true
			})
			all([]string{"a", "a/b", "//", ":", "@", "@@"}, n, func(s string) bool {
				for _, p := range pkgs {
					if !emit(In{s, p}) {
						return false
					}
				}
				return true
			})
			c.Bound("all strings of <=%d of {a b / : @ .} and of <=%d tokens of {a a/b // : @ @@} in %d packages", n, n, len(pkgs))
		}, func(in In) { one.Do(in) })
		core.Stream(c, func(emit func(Pair) bool) {
			var ls []string
			seen := map[string]bool{}
			all([]string{"a", "b", "/", ":", "@", "//"}, c.Pick(4, 5), func(s string) bool {
				if !seen[s] {
					seen[s] = true
					if _, ok := denote(s, ""); ok {
						ls = append(ls, s)
					}
				}
				return true
			})
			for _, a := range ls {
				for _, b := range ls {
					for _, p := range pkgs[:4] {
						if !emit(Pair{a, b, p}) {
							return
						}
					}
				}
			}
			c.Bound("all pairs of %d labels in 4 packages", len(ls))
		}, func(in Pair) { pair.Do(in) })
		core.Stream(c, func(emit func(Format) bool) {
			seen := map[string]bool{}
			all([]string{"a", "b", "/", ":", "@", "//"}, c.Pick(6, 7), func(s string) bool {
				if seen[s] {
					return true
				}
				seen[s] = true
				for _, p := range pkgs[:4] {
					for i := range 4 {
						if !emit(Format{s, p, i&1 > 0, i&2 > 0}) {
							return false
						}
					}
				}
				return true
			})
			c.Bound("all strings of <=%d label tokens as an attribute value in 4 packages x shortening x stripping", c.Pick(6, 7))
		}, func(in Format) { format.Do(in) })
	}}
