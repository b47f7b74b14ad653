package main

import (
	"regexp"
	"strings"
)

// Types of the attributes that the exploration uses (Bazel's rule documentation).
var (
	listAttrs   = map[string]bool{"deps": true, "srcs": true, "data": true, "copts": true, "args": true, "tags": true, "visibility": true, "hdrs": true, "default_visibility": true}
	stringAttrs = map[string]bool{"name": true, "size": true, "main": true, "cmd": true, "timeout": true}
	intLists    = map[string]bool{}
	neverSorted = map[string]bool{"args": true}
)

func unquote(v string) string {
	if len(v) >= 2 && (v[0] == '"' || v[0] == '\'') && v[len(v)-1] == v[0] && !strings.Contains(v[1:len(v)-1], string(v[0])) && !strings.Contains(v, "\\") {
		return v[1 : len(v)-1]
	}
	return v
}

// strVal is the string that a command argument denotes in a file of //pkg.
func strVal(arg string) *N { return str(short(unquote(arg))) }

func attrValue(attr string, args []string) *N {
	switch {
	case listAttrs[attr] && !(len(args) == 1 && strings.HasPrefix(args[0], "glob(")):
		l := list()
		for _, a := range args {
			l.C = append(l.C, strVal(a))
		}
		return l
	case len(args) == 0:
		return id("None")
	case stringAttrs[attr]:
		return strVal(args[0])
	}
	f := mustParse(args[0])
	return f.C[0]
}

// sortedValue compares literal lists at positions where the formatter sorts and deduplicates.
func valueLike(attr string, v *N) Expect {
	if v.K == "list" {
		var l []string
		for _, e := range v.C {
			l = append(l, "s"+e.V)
		}
		want := func([]string) []string { return l }
		if neverSorted[attr] || attr == "copts" {
			return ordered(want)
		}
		return listLaw(want)
	}
	return exactly(v)
}

func contains(l []string, v string) bool {
	for _, e := range l {
		if e[0] == 's' && sameLabel(e[1:], v) {
			return true
		}
	}
	return false
}

func without(l []string, v string) []string {
	var r []string
	for _, e := range l {
		if !(e[0] == 's' && sameLabel(e[1:], v)) {
			r = append(r, e)
		}
	}
	return r
}

// everywhere reports whether a value is in the list whatever the selects choose (so that adding it changes nothing).
func topLevel(x *N, v string) bool {
	switch {
	case x == nil:
		return false
	case x.K == "list":
		for _, e := range x.C {
			if e.K == "str" && sameLabel(e.V, v) {
				return true
			}
		}
	case x.K == "bin" && x.V == "+":
		return topLevel(x.C[0], v) || topLevel(x.C[1], v)
	}
	return false
}

func occurs(x *N, v string) bool {
	for _, c := range choices(x) {
		if contains(eval(x, c), v) {
			return true
		}
	}
	return false
}

// hasEmptyParts tells values that removal commands are allowed to simplify although their elements stay the same.
func addLaw(attr string, vals []string) Expect {
	f := func(l []string) []string {
		r := append([]string{}, l...)
		for _, v := range vals {
			if !contains(r, v) {
				r = append(r, "s"+short(v))
			}
		}
		return r
	}
	if neverSorted[attr] {
		return func(old, now *N) error {
			// New values go to the end of the first literal list.
			if old != nil && old.K != "list" {
				return listLaw(f)(old, now)
			}
			return ordered(f)(old, now)
		}
	}
	return listLaw(f)
}

func removeLaw(attr string, vals []string) Expect {
	f := func(l []string) []string {
		for _, v := range vals {
			l = without(l, v)
		}
		return l
	}
	return func(old, now *N) error {
		hit := false
		for _, v := range vals {
			hit = hit || occurs(old, v)
		}
		if !hit {
			return unchanged(old, now)
		}
		if now != nil && now.K == "list" && len(now.C) == 0 {
			return failf("empty", "an empty list is left behind")
		}
		if neverSorted[attr] || attr == "copts" {
			return ordered(f)(old, now)
		}
		return listLaw(f)(old, now)
	}
}

func mapLaw(attr string, g func(string) string) Expect {
	f := func(l []string) []string {
		r := make([]string, len(l))
		for i, e := range l {
			r[i] = e
			if e[0] == 's' {
				r[i] = "s" + g(e[1:])
			}
		}
		return r
	}
	return func(old, now *N) error {
		if old == nil {
			return unchanged(old, now)
		}
		if neverSorted[attr] || attr == "copts" {
			return ordered(f)(old, now)
		}
		return listLaw(f)(old, now)
	}
}

// substitute replaces the first match of re in s by the expanded template.
func substitute(s string, re *regexp.Regexp, tmpl string) string {
	m := re.FindStringSubmatchIndex(s)
	if m == nil {
		return s
	}
	group := func(k int) string {
		if 2*k+1 < len(m) && m[2*k] >= 0 {
			return s[m[2*k]:m[2*k+1]]
		}
		return ""
	}
	var b strings.Builder
	for i := 0; i < len(tmpl); i++ {
		if tmpl[i] == '$' && i+1 < len(tmpl) {
			j := i + 1
			brace := tmpl[j] == '{'
			if brace {
				j++
			}
			if tmpl[j] >= '0' && tmpl[j] <= '9' {
				b.WriteString(group(int(tmpl[j] - '0')))
				i = j
				if brace {
					i++
				}
				continue
			}
		}
		b.WriteByte(tmpl[i])
	}
	return s[:m[0]] + b.String() + s[m[1]:]
}

func keysFor(r *Rule, pattern string) []string {
	if pattern == "*" {
		return sortedKeys(r.Attrs)
	}
	return []string{pattern}
}

// predict says what a rule command does to a rule.
func predict(f *N, r *Rule, cmd []string) outcome {
	o := outcome{attrs: map[string]Expect{}}
	args := cmd[1:]
	switch cmd[0] {
	case "add":
		o.attrs[args[0]] = addLaw(args[0], unq(args[1:]))
		o.free = !listLike(r.Attrs[args[0]])
	case "remove":
		if len(args) == 1 {
			for _, k := range keysFor(r, args[0]) {
				if args[0] != "*" || k != "name" {
					o.attrs[k] = exactly(nil)
				}
			}
			break
		}
		for _, k := range keysFor(r, args[0]) {
			if v := r.Attrs[k]; v != nil && listLike(v) {
				o.attrs[k] = removeLaw(k, unq(args[1:]))
			}
		}
	case "move":
		a, b := args[0], args[1]
		va, vb := r.Attrs[a], r.Attrs[b]
		if len(args) == 3 && args[2] == "*" {
			switch {
			case va == nil:
				o.fails = true
			case vb == nil:
				o.attrs[a], o.attrs[b] = exactly(nil), exactlyMoved(b, va)
			case a == b:
				o.attrs[a] = unchanged
			case va.K == "list":
				if !listLike(vb) {
					o.free = true
				}
				o.attrs[a] = exactly(nil)
				o.attrs[b] = addElements(b, va.C)
			default:
				o.fails = true
			}
			break
		}
		if !listLike(vb) {
			o.free = true
		}
		if a == b {
			o.free = true
			break
		}
		var moved []string
		if listLike(va) {
			for _, v := range unq(args[2:]) {
				if occurs(va, v) {
					moved = append(moved, v)
				}
			}
		}
		if len(moved) > 0 {
			o.attrs[a] = removeMoved(a, moved)
			// The moved strings keep their spelling: compared as labels.
			o.attrs[b] = func(old, now *N) error {
				if !neverSorted[b] || old != nil && old.K != "list" {
					return addLaw(b, moved)(old, now)
				}
				l := eval(old, nil)
				for _, v := range moved {
					if !contains(l, v) {
						l = append(l, "s"+v)
					}
				}
				if a, b := join(keysInOrder(l)), join(keysInOrder(eval(now, nil))); a != b {
					return failf("order", "want %s, have %s", a, b)
				}
				return nil
			}
		}
	case "replace":
		oldV, newV := unquote(args[1]), unquote(args[2])
		g := func(s string) string {
			if sameLabel(s, oldV) {
				return short(newV)
			}
			return s
		}
		for _, k := range keysFor(r, args[0]) {
			v := r.Attrs[k]
			switch {
			case v == nil:
			case v.K == "str":
				if sameLabel(v.V, oldV) {
					o.attrs[k] = exactly(attrValue(k, []string{newV}))
					if listAttrs[k] || !stringAttrs[k] {
						o.attrs[k] = nil
						o.free = true
					}
				}
			case listLike(v):
				o.attrs[k] = mapLaw(k, g)
			}
		}
	case "substitute":
		re, err := regexp.Compile(args[1])
		if err != nil {
			o.fails = true
			break
		}
		for _, k := range keysFor(r, args[0]) {
			v := r.Attrs[k]
			switch {
			case v == nil:
			case v.K == "str":
				if n := substitute(v.V, re, args[2]); n != v.V {
					o.attrs[k] = exactly(str(short(n)))
				}
			case listLike(v):
				o.attrs[k] = mapLaw(k, func(s string) string { return substitute(s, re, args[2]) })
			}
		}
	case "set":
		if args[0] == "kind" {
			o.kind = args[1]
			break
		}
		o.attrs[args[0]] = valueLike(args[0], attrValue(args[0], args[1:]))
	case "set_if_absent":
		if args[0] == "kind" {
			o.fails = true
		} else if r.Attrs[args[0]] == nil {
			o.attrs[args[0]] = valueLike(args[0], attrValue(args[0], args[1:]))
		}
	case "rename":
		v := r.Attrs[args[0]]
		if v == nil || r.Attrs[args[1]] != nil {
			o.fails = true
			break
		}
		o.attrs[args[0]], o.attrs[args[1]] = exactly(nil), exactlyMoved(args[1], v)
	case "copy", "copy_no_overwrite":
		if cmd[0] == "copy_no_overwrite" && r.Attrs[args[0]] != nil {
			break
		}
		var from *Rule
		for _, s := range f.C {
			if q := asRule(s); q != nil && q.name() == args[1] && from == nil {
				from = q
			}
		}
		if from == nil || from.Attrs[args[0]] == nil {
			o.fails = true
			break
		}
		o.attrs[args[0]] = exactly(from.Attrs[args[0]])
	case "remove_if_equal":
		v := r.Attrs[args[0]]
		if v != nil && (v.K == "str" && sameLabel(v.V, args[1]) || v.K == "id" && v.V == args[1]) {
			o.attrs[args[0]] = exactly(nil)
		}
	case "dict_add", "dict_set":
		d, bad := dictOf(r.Attrs[args[0]]), false
		for _, kv := range args[1:] {
			k, v, ok := strings.Cut(kv, ":")
			if !ok {
				bad = true
				break
			}
			if e := find(d, k); e == nil {
				d.C = append(d.C, &N{K: "kv", C: []*N{str(k), strVal(v)}})
			} else if cmd[0] == "dict_set" {
				e.C[1] = strVal(v)
			}
		}
		o.fails = bad
		o.attrs[args[0]] = exactly(d)
	case "dict_remove":
		v := r.Attrs[args[0]]
		if v == nil || v.K != "dict" {
			break
		}
		d := &N{K: "dict"}
		for _, kv := range v.C {
			hit := false
			for _, a := range args[1:] {
				hit = hit || kv.C[0].K == "str" && kv.C[0].V == unquote(a)
			}
			if !hit {
				d.C = append(d.C, kv)
			}
		}
		o.attrs[args[0]] = exactly(d)
		if len(d.C) == 0 {
			o.attrs[args[0]] = exactly(nil)
		}
	case "dict_replace_if_equal":
		v := r.Attrs[args[0]]
		if v == nil || v.K != "dict" {
			break
		}
		d := dictOf(v)
		e := find(d, args[1])
		if e == nil {
			o.fails = true
			break
		}
		x := e.C[1]
		if x.K == "str" && sameLabel(x.V, unquote(args[2])) || x.K == "id" && x.V == unquote(args[2]) {
			e.C[1] = strVal(unquote(args[3]))
		}
		o.attrs[args[0]] = exactly(d)
	case "dict_list_add":
		d := dictOf(r.Attrs[args[0]])
		e := find(d, args[1])
		if e == nil {
			e = &N{K: "kv", C: []*N{str(args[1]), list()}}
			d.C = append(d.C, e)
		}
		if !listLike(e.C[1]) {
			o.free = true
		}
		old := e.C[1]
		o.attrs[args[0]] = func(_, now *N) error {
			if now == nil || now.K != "dict" || len(now.C) != len(d.C) {
				return failf("dict", "want the entries of %s, have %s", d, show(now))
			}
			for i, kv := range now.C {
				if !eq(kv.C[0], d.C[i].C[0]) {
					return failf("dict", "keys differ: %s, %s", kv.C[0], d.C[i].C[0])
				}
				if d.C[i] == e {
					if listLike(old) {
						if err := addLaw(args[0], unq(args[2:]))(old, kv.C[1]); err != nil {
							return err
						}
					}
				} else if !eq(kv.C[1], d.C[i].C[1]) {
					return failf("dict", "the value of another key changed")
				}
			}
			return nil
		}
	case "set_select":
		rest := args[1:]
		if len(rest)%2 != 0 {
			o.fails = true
			break
		}
		type ent struct {
			k string
			v []string
		}
		var ents []*ent
		for i := 0; i < len(rest); i += 2 {
			var hit *ent
			for _, e := range ents {
				if e.k == rest[i] {
					hit = e
				}
			}
			if hit == nil {
				hit = &ent{k: rest[i]}
				ents = append(ents, hit)
			}
			v := short(unquote(rest[i+1]))
			if listAttrs[args[0]] {
				dup := false
				for _, w := range hit.v {
					dup = dup || sameLabel(w, v)
				}
				if !dup {
					hit.v = append(hit.v, v)
				}
			} else {
				hit.v = []string{v}
			}
		}
		o.attrs[args[0]] = func(_, now *N) error {
			var d *N
			if now != nil {
				d = selectDict(now)
			}
			if d == nil || len(d.C) != len(ents) {
				return failf("select", "want a select of %v, have %s", rest, show(now))
			}
			for i, e := range ents {
				if !eq(d.C[i].C[0], str(e.k)) {
					return failf("select", "key %d is %s, want %s", i, d.C[i].C[0], e.k)
				}
				if !listAttrs[args[0]] {
					if !eq(d.C[i].C[1], str(e.v[0])) {
						return failf("select", "value %d is %s, want %s", i, d.C[i].C[1], e.v[0])
					}
					continue
				}
				var l []string
				for _, v := range e.v {
					l = append(l, "s"+v)
				}
				if d.C[i].C[1].K != "list" || join(set(eval(d.C[i].C[1], nil))) != join(set(l)) || len(d.C[i].C[1].C) != len(l) {
					return failf("select", "value %d is %s, want %v", i, d.C[i].C[1], e.v)
				}
			}
			return nil
		}
	case "format", "print", "print_comment", "comment", "remove_comment":
	default:
		panic("harness: no model for " + cmd[0])
	}
	return o
}

// removeMoved: like removal, but an empty remainder may stay when the value was not a plain list.
func removeMoved(attr string, vals []string) Expect {
	law := removeLaw(attr, vals)
	return func(old, now *N) error {
		if old != nil && old.K != "list" && now != nil {
			f := func(l []string) []string {
				for _, v := range vals {
					l = without(l, v)
				}
				return l
			}
			return listLaw(f)(old, now)
		}
		return law(old, now)
	}
}

// exactlyMoved: the value under another attribute name, where the formatter may treat it differently (sorting).
func exactlyMoved(attr string, v *N) Expect {
	return func(_, now *N) error {
		if now == nil {
			return failf("lost", "the value is lost: %s", v)
		}
		if v.K == "list" || hasSelect(v) || v.K == "bin" {
			return listLaw(func(l []string) []string { return l })(v, now)
		}
		if v.K == "str" && now.K == "str" && sameLabel(v.V, now.V) {
			return nil // the formatter shortens labels of label attributes
		}
		return exactly(v)(nil, now)
	}
}

func addElements(attr string, els []*N) Expect {
	f := func(l []string) []string {
		r := append([]string{}, l...)
		for _, e := range els {
			if e.K == "str" {
				if !contains(r, e.V) {
					r = append(r, "s"+e.V)
				}
			} else {
				r = append(r, "o"+e.String())
			}
		}
		return r
	}
	return listLaw(f)
}

func keysInOrder(l []string) []string {
	var r []string
	for _, e := range l {
		if e[0] == 's' {
			e = "s" + labelKey(e[1:], pkg)
		}
		r = append(r, e)
	}
	return r
}

func unq(l []string) []string {
	var r []string
	for _, s := range l {
		r = append(r, unquote(s))
	}
	return r
}

func dictOf(v *N) *N {
	d := &N{K: "dict"}
	if v != nil && v.K == "dict" {
		for _, kv := range v.C {
			d.C = append(d.C, &N{K: "kv", C: append([]*N{}, kv.C...)})
		}
	}
	return d
}

func find(d *N, key string) *N {
	for _, kv := range d.C {
		if kv.C[0].K == "str" && kv.C[0].V == key {
			return kv
		}
	}
	return nil
}
