package main

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"verif/mc/core"
	"verif/mc/sem"
)

// Independent models of files, rules and list values on the neutral tree of the reference parser.

type N = sem.N

func str(v string) *N { return &N{K: "str", V: v} }
func id(v string) *N  { return &N{K: "id", V: v} }
func list(c ...*N) *N { return &N{K: "list", C: c} }
func isStr(x *N) bool { return x != nil && x.K == "str" }
func eq(a, b *N) bool {
	return a == nil && b == nil || a != nil && b != nil && a.String() == b.String()
}
func show(x *N) string {
	if x == nil {
		return "(absent)"
	}
	return x.String()
}
func mustParse(t string) *N {
	f, err := sem.FromStarlark(t)
	if err != nil {
		panic(fmt.Sprintf("harness: seed does not parse: %v\n%s", err, t))
	}
	return f
}

// labelKey is the identity of a label as seen from a package.
func labelKey(s, pkg string) string {
	repo, rest := "", s
	if strings.HasPrefix(s, "@") {
		rest = strings.TrimLeft(s, "@")
		i := strings.Index(rest, "/")
		if i < 0 {
			return "@" + rest + "//:" + rest
		}
		repo, rest = "@"+rest[:i], "/"+rest[i+1:]
	}
	if !strings.HasPrefix(rest, "//") {
		if repo != "" {
			return "odd:" + s
		}
		return "//" + pkg + ":" + strings.TrimLeft(s, ":")
	}
	p, t, ok := strings.Cut(rest[2:], ":")
	if !ok || t == "" {
		t = path.Base(p)
	}
	return repo + "//" + p + ":" + t
}

func sameLabel(a, b string) bool { return labelKey(a, pkg) == labelKey(b, pkg) }

// short is the documented shortening of labels that are added.
func short(s string) string {
	if !strings.HasPrefix(s, "//") && !strings.HasPrefix(s, "@") {
		return s
	}
	k := labelKey(s, pkg)
	if rest, ok := strings.CutPrefix(k, "//"+pkg+":"); ok {
		return ":" + rest
	}
	repo, rest, _ := strings.Cut(k, "//")
	p, t, _ := strings.Cut(rest, ":")
	if p == "" && repo == "@"+t {
		return repo
	}
	if path.Base(p) == t {
		return repo + "//" + p
	}
	return k
}

// A Rule is a call statement.
type Rule struct {
	Kind  string
	Pos   []*N
	Attrs map[string]*N
	Order []string
}

func asRule(s *N) *Rule {
	if s.K == "expr" && len(s.C) == 1 {
		s = s.C[0]
	}
	if s.K != "call" {
		return nil
	}
	x := s.C[0]
	name := ""
	for x.K == "dot" {
		name = "." + x.V + name
		x = x.C[0]
	}
	if x.K != "id" {
		return nil
	}
	r := &Rule{Kind: x.V + name, Attrs: map[string]*N{}}
	for _, a := range s.C[1:] {
		if a.K == "assign" && a.C[0].K == "id" {
			r.Attrs[a.C[0].V] = a.C[1]
			r.Order = append(r.Order, a.C[0].V)
		} else {
			r.Pos = append(r.Pos, a)
		}
	}
	return r
}

func (r *Rule) name() string {
	if v := r.Attrs["name"]; isStr(v) {
		return v.V
	}
	return ""
}

// choices enumerates the branches of the selects of some values: selects with the same keys are decided together.
func choices(vs ...*N) []map[string]int {
	sizes := map[string]int{}
	var walk func(x *N)
	walk = func(x *N) {
		if x == nil {
			return
		}
		if d := selectDict(x); d != nil {
			if len(d.C) > 0 {
				sizes[keysOf(d)] = len(d.C)
			}
			for _, kv := range d.C {
				walk(kv.C[1])
			}
			return
		}
		if x.K == "bin" && x.V == "+" {
			walk(x.C[0])
			walk(x.C[1])
		}
	}
	for _, v := range vs {
		walk(v)
	}
	out := []map[string]int{{}}
	for _, k := range sortedKeys(sizes) {
		var next []map[string]int
		for _, c := range out {
			for i := 0; i < sizes[k]; i++ {
				m := map[string]int{k: i}
				for a, b := range c {
					m[a] = b
				}
				next = append(next, m)
			}
		}
		out = next
	}
	return out
}

func selectDict(x *N) *N {
	if x.K == "call" && len(x.C) >= 2 && x.C[0].K == "id" && x.C[0].V == "select" && x.C[1].K == "dict" {
		return x.C[1]
	}
	return nil
}

func keysOf(d *N) string {
	var l []string
	for _, kv := range d.C {
		l = append(l, kv.C[0].String())
	}
	return strings.Join(l, " ")
}

// eval lists the elements of a list value under a choice of select branches. Strings are prefixed with "s", everything
// else is opaque.
func eval(x *N, c map[string]int) []string {
	switch {
	case x == nil:
		return nil
	case x.K == "list":
		var r []string
		for _, e := range x.C {
			if e.K == "str" {
				r = append(r, "s"+e.V)
			} else {
				r = append(r, "o"+e.String())
			}
		}
		return r
	case x.K == "bin" && x.V == "+":
		return append(eval(x.C[0], c), eval(x.C[1], c)...)
	}
	if d := selectDict(x); d != nil {
		if len(d.C) == 0 {
			return nil
		}
		return eval(d.C[c[keysOf(d)]].C[1], c)
	}
	return []string{"O" + x.String()}
}

// listLike tells values that are lists as far as one can see: literal lists, selects of them, and concatenations with opaque
// operands.
func listLike(x *N) bool {
	switch {
	case x == nil:
		return true
	case x.K == "list":
		return true
	case x.K == "bin" && x.V == "+":
		return listLike(x.C[0]) && listLike(x.C[1])
	case x.K == "id" && x.V != "None" && x.V != "True" && x.V != "False":
		return true
	case x.K == "call":
		if d := selectDict(x); d != nil {
			for _, kv := range d.C {
				if !listLike(kv.C[1]) {
					return false
				}
			}
		}
		return true
	}
	return false
}

func hasSelect(x *N) bool { return x != nil && strings.Contains(x.String(), `"select"`) }

func set(l []string) []string {
	seen := map[string]bool{}
	var r []string
	for _, s := range l {
		if s[0] == 's' {
			s = "s" + labelKey(s[1:], pkg)
		}
		if !seen[s] {
			seen[s] = true
			r = append(r, s)
		}
	}
	sort.Strings(r)
	return r
}

func join(l []string) string { return strings.Join(l, " | ") }

// Expect judges the new value of an attribute (nil: the attribute is absent).
type Expect func(old, now *N) error

func unchanged(old, now *N) error {
	if !eq(old, now) {
		return core.Failf("changed", "the value changed: %s -> %s", show(old), show(now))
	}
	return nil
}

func exactly(v *N) Expect {
	return func(_, now *N) error {
		if !eq(v, now) {
			return core.Failf("value", "want %s, have %s", show(v), show(now))
		}
		return nil
	}
}

// listLaw expects, for every choice of select branches, the elements f(old elements) as a set of labels.
func listLaw(f func([]string) []string) Expect {
	return func(old, now *N) error {
		for _, c := range choices(old, now) {
			want, have := f(eval(old, c)), eval(now, c)
			if a, b := join(set(want)), join(set(have)); a != b {
				return core.Failf("elements", "for the select branches %v: want %s, have %s\n old %s\n new %s", c, a, b, show(old), show(now))
			}
			if len(have) > len(want) && len(have) > len(set(have)) && !hasSelect(old) {
				return core.Failf("duplicates", "elements are duplicated: %v -> %v", want, have)
			}
		}
		return nil
	}
}

// ordered additionally expects the elements in exactly this order (attributes that are never sorted, no selects).
func ordered(f func([]string) []string) Expect {
	l := listLaw(f)
	return func(old, now *N) error {
		if err := l(old, now); err != nil || hasSelect(old) {
			return err
		}
		if a, b := join(f(eval(old, nil))), join(eval(now, nil)); a != b {
			return core.Failf("order", "want %s, have %s", a, b)
		}
		return nil
	}
}

// An outcome is what a command is expected to do to one rule.
type outcome struct {
	attrs map[string]Expect // attributes that may change
	kind  string            // new kind
	fails bool              // the command reports an error
	free  bool              // the value is outside of the model: only the frame is checked
}

// compare judges the file after a command that concerns the statements idx.
func compare(pre, post *N, idx map[int]outcome) error {
	if len(pre.C) != len(post.C) {
		return core.Failf("statements", "the number of statements changed from %d to %d", len(pre.C), len(post.C))
	}
	for i := range pre.C {
		o, ok := idx[i]
		if !ok || o.fails {
			if !eq(pre.C[i], post.C[i]) {
				return core.Failf("frame", "a statement that the command does not concern changed: %s -> %s", pre.C[i], post.C[i])
			}
			continue
		}
		a, b := asRule(pre.C[i]), asRule(post.C[i])
		if b == nil {
			return core.Failf("frame", "no rule any more: %s", post.C[i])
		}
		kind := a.Kind
		if o.kind != "" {
			kind = o.kind
		}
		if b.Kind != kind {
			return core.Failf("kind", "the kind is %s, want %s", b.Kind, kind)
		}
		if join(strs(a.Pos)) != join(strs(b.Pos)) {
			return core.Failf("frame", "positional arguments changed: %v -> %v", strs(a.Pos), strs(b.Pos))
		}
		if len(b.Order) != len(b.Attrs) {
			return core.Failf("twice", "an attribute occurs twice: %v", b.Order)
		}
		names := map[string]bool{}
		for k := range a.Attrs {
			names[k] = true
		}
		for k := range b.Attrs {
			names[k] = true
		}
		for k := range o.attrs {
			names[k] = true
		}
		for _, k := range sortedKeys(names) {
			e := o.attrs[k]
			if e == nil {
				e = unchanged
				if o.free {
					continue
				}
			}
			if err := e(a.Attrs[k], b.Attrs[k]); err != nil {
				if ce, ok := err.(*core.ClassError); ok {
					ce.Msg = "attribute " + k + ": " + ce.Msg
				}
				return err
			}
		}
	}
	return nil
}

func strs(l []*N) []string {
	var r []string
	for _, x := range l {
		r = append(r, x.String())
	}
	return r
}
