package main

import (
	"sort"
	"strings"
	"sync"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/tables"
	"verif/mc/core"
	"verif/mc/sem"
)

// rewriteNames are the rewrites in the order in which they are applied, with the types of files they are for.
var rewriteNames = []struct{ name, types string }{
	{"removeParens", "build workspace module"},
	{"reorderarguments", "build workspace module bzl default"},
	{"callsort", "build workspace module"},
	{"label", "build workspace module"},
	{"listsort", "build workspace module bzl default"},
	{"multiplus", "build workspace module"},
	{"loadTop", "build workspace module bzl default"},
	{"sameOriginLoad", "build workspace module bzl default"},
	{"sortLoadStatements", "build workspace module bzl default"},
	{"loadsort", "build workspace module bzl default"},
	{"useRepoPositionalsSort", "module"},
	{"formatdocstrings", "build workspace module bzl default"},
	{"editoctal", "build workspace module bzl default"},
	{"editfloat", "build workspace module bzl default"},
	{"collapseEmpty", "build workspace module bzl default"},
}

func inScope(typ string) []string {
	var r []string
	for _, x := range rewriteNames {
		for _, t := range strings.Fields(x.types) {
			if t == typ {
				r = append(r, x.name)
			}
		}
	}
	return r
}

func rewriterWith(set []string) *build.Rewriter {
	return &build.Rewriter{
		RewriteSet:        set,
		IsLabelArg:        tables.IsLabelArg,
		LabelDenyList:     tables.LabelDenylist,
		IsSortableListArg: tables.IsSortableListArg,
		SortableDenylist:  tables.SortableDenylist,
		SortableAllowlist: tables.SortableAllowlist,
		NamePriority:      tables.NamePriority,
	}
}

// numbers is the multiset of the number literals of a file, octal and float ones normalised where allowed.
func numbers(f *build.File, octal, float bool) string {
	var l []string
	build.Walk(f, func(e build.Expr, _ []build.Expr) {
		x, ok := e.(*build.LiteralExpr)
		if !ok {
			return
		}
		t := x.Token
		isFloat := strings.Contains(t, ".") || strings.ContainsAny(t, "eE") && !strings.HasPrefix(strings.ToLower(t), "0x")
		switch {
		case isFloat && float && strings.Contains(t, "."):
			m, ex := strings.ToLower(t), ""
			if i := strings.Index(m, "e"); i >= 0 {
				m, ex = m[:i], m[i+1:]
				neg := strings.HasPrefix(ex, "-")
				ex = strings.TrimLeft(strings.TrimLeft(ex, "+-"), "0")
				if ex == "" {
					ex = "0"
				}
				if neg {
					ex = "-" + ex
				}
				ex = "e" + ex
			}
			if strings.HasPrefix(m, ".") {
				m = "0" + m
			}
			t = m + ex
		case !isFloat && octal && len(t) > 1 && t[0] == '0' && t[1] >= '0' && t[1] <= '9':
			t = "0o" + t[1:]
		}
		l = append(l, t)
	})
	sort.Strings(l)
	return strings.Join(l, " ")
}

// rewritten parses the text, applies the rewrites of the set and returns the tree and how it is printed.
func rewritten(in Case, set []string) (*build.File, string, error) {
	f, err := parseAs(in.Type, in.Text)
	if err != nil {
		return nil, "", err
	}
	rewriterWith(set).Rewrite(f)
	return f, string(build.FormatWithoutRewriting(f)), nil
}

func without(l []string, x string) []string {
	r := []string{}
	for _, y := range l {
		if y != x {
			r = append(r, y)
		}
	}
	return r
}

// only checks that a file to which the rewrites of a set have been applied differs from the original in nothing else.
func only(in Case, set []string) error {
	f, out, err := rewritten(in, set)
	if err != nil {
		return nil
	}
	orig, _ := parseAs(in.Type, in.Text)
	sp := specFor(in.Type)
	sp.Only = map[string]bool{}
	for _, s := range set {
		sp.Only[s] = true
	}
	if len(set) == 1 {
		// asked for explicitly: the type of the file doesn't matter
		sp.Module = true
		sp.BuildLike = sp.BuildLike || set[0] == "callsort" || set[0] == "label"
	}
	if in.Type == "workspace" {
		sp.Only["loadTop"] = false
	}
	sp.ListsAsSet = strings.Contains(strings.ToLower(in.Text), "keep sorted")
	keep := !sp.Only["removeParens"]
	a, b := sem.FromBuild(orig, keep), sem.FromBuild(f, keep)
	if sp.Only["loadsort"] {
		sp.SkipLoads = sem.AmbiguousLoads(a)
	}
	ca, cb := sem.Canon(a, sp), sem.Canon(b, sp)
	if ca.String() != cb.String() {
		return core.Failf("does-more", "the rewrites %v of a %s file do more than that: %s\n--- input\n%s\n--- output\n%s", set, in.Type, firstDiff(ca.Indented(), cb.Indented()), in.Text, out)
	}
	if x, y := numbers(orig, sp.Only["editoctal"], sp.Only["editfloat"]), numbers(f, sp.Only["editoctal"], sp.Only["editfloat"]); x != y {
		return core.Failf("numbers", "the rewrites %v of a %s file change numbers from %q to %q\n--- input\n%s", set, in.Type, x, y, in.Text)
	}
	return nil
}

var c49 = &core.Check{ID: "C49", Level: "model_checking",
	Run: func(c *core.Ctx) {
		ev := core.NewEval(c, "rewrites", func(in Case) error {
			plain, err := parseAs(in.Type, in.Text)
			if err != nil {
				return nil
			}
			before := string(build.FormatWithoutRewriting(plain))
			// all of them, one after another, is what formatting does
			scope := inScope(in.Type)
			_, out, err := rewritten(in, scope)
			if err != nil {
				return err
			}
			full, err := format(in.Type, in.Text)
			if err != nil {
				return err
			}
			if out != full {
				return core.Failf("scope", "formatting a %s file is not %v: %s\n--- input\n%s\n--- formatted\n%s\n--- these rewrites\n%s", in.Type, scope, firstDiff(full, out), in.Text, full, out)
			}
			f, _ := parseAs(in.Type, in.Text)
			for _, s := range scope {
				rewriterWith([]string{s}).Rewrite(f)
			}
			if x := string(build.FormatWithoutRewriting(f)); x != full {
				return core.Failf("order", "formatting a %s file is not one of %v after another: %s\n--- input\n%s", in.Type, scope, firstDiff(full, x), in.Text)
			}
			// none of them
			_, none, err := rewritten(in, []string{})
			if err != nil {
				return err
			}
			if none != before {
				return core.Failf("empty", "the empty set of rewrites changes a %s file: %s\n--- input\n%s", in.Type, firstDiff(before, none), in.Text)
			}
			c.Outcome([]byte(in.Type + full))
			if full != before {
				c.NonTrivial(1)
			}
			for _, x := range rewriteNames {
				if err := only(in, []string{x.name}); err != nil {
					return err
				}
				if full == before && !c.Thorough() {
					continue
				}
				if err := only(in, without(scope, x.name)); err != nil {
					return err
				}
			}
			return nil
		})
		// The options are global: one at a time.
		dis := core.NewEval(c, "options", func(in optCase) error { return options(in) })
		core.Stream(c, func(emit func(optCase) bool) {
			for _, t := range optTexts {
				for _, typ := range allTypes {
					for i := -1; i <= len(rewriteNames); i++ {
						for j := -1; j <= len(rewriteNames); j++ {
							for _, allow := range [][]string{nil, {"r.x"}, {"r.y", "s.x"}, {"x"}} {
								if i > j || i >= 0 && i == j {
									continue
								}
								in := optCase{Type: typ, Text: t, Allow: allow}
								for _, k := range []int{i, j} {
									switch {
									case k == len(rewriteNames):
										in.Disable = append(in.Disable, "unsafesort")
									case k >= 0:
										in.Disable = append(in.Disable, rewriteNames[k].name)
									}
								}
								if !emit(in) {
									return
								}
							}
						}
					}
				}
			}
		}, func(x optCase) { dis.Do(x) })
		c.Bound("%d texts x 5 types x <= 2 of %d disabled rewrites x 4 choices of -allowsort", len(optTexts), len(rewriteNames)+1)
		core.Stream(c, func(emit func(Case) bool) {
			sources(c, c.Thorough(), emit)
		}, func(x Case) { ev.Do(x) })
		c.Bound("%d rewrites, alone, all but one, all, none", len(rewriteNames))
	}}

// An optCase is a file formatted with -buildifier_disable and -allowsort.
type optCase struct {
	Type, Text     string
	Disable, Allow []string
}

var optTexts = []string{
	"load(\":b.bzl\", \"d\", \"c\")\n\nr(\n    y = [\"b\", \"a\"],\n    x = [\"d\", \"c\", \"c\"],\n    srcs = [\"z\", \"y\"],\n)\n\ns(x = [\"b\", \"a\"], deps = [\"//a:a\", \":z\"])\n\nload(\":a.bzl\", \"z\", \"y\")\nload(\":b.bzl\", \"b\")\n\nv = [\n    # keep sorted\n    \"b\",\n    \"a\",\n]\n",
	"z = (1)\n\nw = f(*a, b = 0644, c = .5E+07)\n\n# keep sorted\nx = [\"b\", \"a\"]\n\nm = {\n    # keep sorted\n    \"k\": [\"b\", \"a\"],\n}\n\nr(x = [\"b\", \"a\"] + select({\"//c\": [\"d\", \"c\"]}), name = \"n\")\n\nuse_repo(e, \"z\", \"y\")\n\nf(\n)\n",
	"r(\n    # do not sort\n    x = [\"b\", \"a\", \"b\"],\n    # do not sort\n    srcs = [\"z\", \"y\", \"z\"],\n)\n\nq.r(x = [\"b\", \"a\"])\n\ng(a)(x = [\"b\", \"a\"])\n\ndef h():\n    \"\"\"Doc.\n\n      More.\n    \"\"\"\n    r(x = [\"b\", \"a\"], srcs = [\"z\", \"y\"])\n",
}

// optMu: while the options of the library are set nothing else is formatted.
var optMu sync.Mutex

// options compares formatting with the options and explicit rewrites with tables that say the same.
func options(in optCase) error {
	optMu.Lock()
	defer optMu.Unlock()
	f, err := parseAs(in.Type, in.Text)
	if err != nil {
		return nil
	}
	disabled := map[string]bool{}
	for _, d := range in.Disable {
		disabled[d] = true
	}
	set := []string{}
	for _, s := range inScope(in.Type) {
		if !disabled[s] {
			set = append(set, s)
		}
	}
	w := rewriterWith(set)
	text := in.Text
	if disabled["unsafesort"] {
		// "keep sorted" has no effect, nor has -allowsort
		text = strings.ReplaceAll(text, "# keep sorted", "# leave unsorted")
	} else {
		w.SortableAllowlist = map[string]bool{}
		for k, v := range tables.SortableAllowlist {
			w.SortableAllowlist[k] = v
		}
		for _, a := range in.Allow {
			w.SortableAllowlist[a] = true
		}
	}
	g, err := parseAs(in.Type, text)
	if err != nil {
		return err
	}
	w.Rewrite(g)
	want := strings.ReplaceAll(string(build.FormatWithoutRewriting(g)), "# leave unsorted", "# keep sorted")
	build.DisableRewrites, build.AllowSort = in.Disable, in.Allow
	defer func() { build.DisableRewrites, build.AllowSort = nil, nil }()
	got := string(build.Format(f))
	if got != want {
		return core.Failf("options", "-buildifier_disable=%v -allowsort=%v of a %s file: %s\n--- input\n%s\n--- output\n%s\n--- expected\n%s", in.Disable, in.Allow, in.Type, firstDiff(want, got), in.Text, got, want)
	}
	return nil
}
