package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/bazelbuild/buildtools/warn"
	"verif/mc/core"
)

// C31: the lints of control flow agree with the set of all executions.

// A Stmt is a statement of a generated function; its text has one line per statement.
type Stmt struct {
	K    string
	Body []*Stmt `json:",omitempty"`
	Else []*Stmt `json:",omitempty"` // of ifelse, elif
}

type kind struct {
	head   string   // its line
	uses   []string // variables that are read, in this order before
	sets   []string // the variables it assigns
	ends   string   // return, value, break, continue
	block  bool
	loop   bool
	branch bool // has an else block
}

var kinds = map[string]kind{
	"s":     {head: "g()"},
	"p":     {head: "pass"},
	"ret":   {head: "return", ends: "return"},
	"val":   {head: "return 1", ends: "value"},
	"none":  {head: "return None", ends: "value"},
	"valx":  {head: "return x", ends: "value", uses: []string{"x"}},
	"fail":  {head: "fail(\"x\")", ends: "fail"},
	"failx": {head: "fail(x)", ends: "fail", uses: []string{"x"}},
	"brk":   {head: "break", ends: "break"},
	"cont":  {head: "continue", ends: "continue"},
	"if":    {head: "if c:", block: true},
	"ifx":   {head: "if x:", block: true, uses: []string{"x"}},
	"ife":   {head: "if c:", block: true, branch: true},
	"for":   {head: "for i in l:", block: true, loop: true, sets: []string{"i"}},
	"forx":  {head: "for x in l:", block: true, loop: true, sets: []string{"x"}},
	"forxx": {head: "for x in x:", block: true, loop: true, sets: []string{"x"}, uses: []string{"x"}},
	"fori":  {head: "for i in x:", block: true, loop: true, sets: []string{"i"}, uses: []string{"x"}},
	"fort":  {head: "for i, x in l:", block: true, loop: true, sets: []string{"i", "x"}},
	"set":   {head: "x = 1", sets: []string{"x"}},
	"setxy": {head: "x, y = 1, 2", sets: []string{"x", "y"}},
	"setp":  {head: "(x), (y) = l", sets: []string{"x", "y"}},
	"setl":  {head: "[x, (y, z)] = l", sets: []string{"x", "y"}},
	"inc":   {head: "x += 1", sets: []string{"x"}, uses: []string{"x"}},
	"setxx": {head: "x = x", sets: []string{"x"}, uses: []string{"x"}},
	"setix": {head: "l[x] = 1", uses: []string{"x"}},
	"setxi": {head: "x[1] = 1", uses: []string{"x"}},
	"setat": {head: "x.a = 1", uses: []string{"x"}},
	"use":   {head: "g(x)", uses: []string{"x"}},
	"usey":  {head: "g(y)", uses: []string{"y"}},
	"usei":  {head: "g(i)", uses: []string{"i"}},
	"kw":    {head: "g(x = 1)"},
	"kwx":   {head: "g(x = x)", uses: []string{"x"}},
	"dot":   {head: "g.x()"},
	"comp":  {head: "g([x for x in l])"},
	"compx": {head: "g([y for z in x])", uses: []string{"x", "y"}},
	"compb": {head: "g([x for z in l if z])", uses: []string{"x"}},
	"lam":   {head: "g(lambda x: x)"},
	"lamd":  {head: "g(lambda a = x: a)", uses: []string{"x"}},
	"defd":  {head: "def h(a = x):", block: true, uses: []string{"x"}},
	"defx":  {head: "def h(x):", block: true},
}

type flowState uint8 // the assigned variables

var bits = map[string]flowState{"x": 1, "y": 2, "i": 4}

type flowSet map[flowState]bool

func (a flowSet) add(b flowSet) bool {
	n := len(a)
	for k := range b {
		a[k] = true
	}
	return len(a) != n
}

// A flow explores all executions of a function: its states are the sets of assigned variables.
type flow struct {
	b       strings.Builder
	line    int
	at      map[*Stmt]int
	reached map[*Stmt]bool
	unset   map[int]bool // lines that may read a variable that isn't assigned
	local   flowState
	end     map[string]flowSet
}

func (f *flow) print(l []*Stmt, ind string) {
	for _, s := range l {
		k := kinds[s.K]
		if s.K == "elif" {
			k = kinds["ife"]
		}
		f.line++
		f.at[s] = f.line
		f.b.WriteString(ind + k.head + "\n")
		if !strings.HasPrefix(s.K, "def") {
			for _, v := range k.sets {
				f.local |= bits[v]
			}
		}
		if strings.HasPrefix(s.K, "def") {
			f.line++
			f.b.WriteString(ind + "    return a\n")
			continue
		}
		if k.block {
			f.print(s.Body, ind+"    ")
		}
		f.elses(s, ind)
	}
}

func (f *flow) elses(s *Stmt, ind string) {
	k := kinds[s.K]
	if s.K == "elif" {
		k = kinds["ife"]
	}
	if !k.branch {
		return
	}
	if s.K == "elif" { // the else block is a single if
		e := s.Else[0]
		f.line++
		f.at[e] = f.line
		h := kinds[e.K].head
		if e.K == "elif" {
			h = kinds["ife"].head
		}
		f.b.WriteString(ind + "el" + h + "\n")
		f.print(e.Body, ind+"    ")
		f.elses(e, ind)
		return
	}
	f.line++
	f.b.WriteString(ind + "else:\n")
	f.print(s.Else, ind+"    ")
}

// run returns the states at the end of a block; the others are collected by kind in f.end.
func (f *flow) run(l []*Stmt, in flowSet) flowSet {
	for _, s := range l {
		if len(in) == 0 {
			return in
		}
		f.reached[s] = true
		id := s.K
		if id == "elif" {
			id = "ife"
		}
		k := kinds[id]
		for _, v := range k.uses {
			for st := range in {
				if f.local&bits[v] != 0 && st&bits[v] == 0 {
					f.unset[f.at[s]] = true
				}
			}
		}
		switch {
		case k.ends != "":
			if f.end[k.ends] == nil {
				f.end[k.ends] = flowSet{}
			}
			f.end[k.ends].add(in)
			in = flowSet{}
		case k.loop:
			outer := f.end
			f.end = map[string]flowSet{}
			all := flowSet{}
			all.add(in)
			head := flowSet{}
			head.add(in)
			for {
				start := flowSet{}
				for st := range head {
					for _, v := range k.sets {
						st |= bits[v]
					}
					start[st] = true
				}
				out := f.run(s.Body, start)
				changed := head.add(out)
				if head.add(f.end["continue"]) {
					changed = true
				}
				if !changed {
					break
				}
			}
			all.add(head)
			all.add(f.end["break"])
			for _, e := range []string{"return", "value", "fail"} {
				if f.end[e] != nil {
					if outer[e] == nil {
						outer[e] = flowSet{}
					}
					outer[e].add(f.end[e])
				}
			}
			f.end = outer
			in = all
		case strings.HasPrefix(s.K, "def"):
		case k.block:
			out := flowSet{}
			out.add(f.run(s.Body, in))
			if k.branch {
				out.add(f.run(s.Else, in))
			} else {
				out.add(in)
			}
			in = out
		default:
			out := flowSet{}
			for st := range in {
				for _, v := range k.sets {
					st |= bits[v]
				}
				out[st] = true
			}
			in = out
		}
	}
	return in
}

// dead collects the first unreachable statement of every block.
func (f *flow) dead(l []*Stmt, r *[]string) {
	for _, s := range l {
		if !f.reached[s] {
			*r = append(*r, fmt.Sprintf("%d unreachable", f.at[s]))
			return
		}
		f.dead(s.Body, r)
		f.dead(s.Else, r)
	}
}

func hasValue(l []*Stmt) bool {
	for _, s := range l {
		if kinds[s.K].ends == "value" || hasValue(s.Body) || hasValue(s.Else) {
			return true
		}
	}
	return false
}

func returns(l []*Stmt, f *flow, r *[]string) {
	for _, s := range l {
		if s.K == "ret" {
			*r = append(*r, fmt.Sprintf("%d return-value", f.at[s]))
		}
		returns(s.Body, f, r)
		returns(s.Else, f, r)
	}
}

// bodies enumerates the blocks of exactly n statements of the given kinds.
func bodies(n int, ks []string, loop bool, emit func([]*Stmt) bool) bool {
	if n == 0 {
		return emit(nil)
	}
	for _, id := range ks {
		if (id == "brk" || id == "cont") && !loop {
			continue
		}
		k := kinds[id]
		if id == "elif" {
			k = kinds["ife"]
		}
		if !k.block || strings.HasPrefix(id, "def") {
			if !bodies(n-1, ks, loop, func(rest []*Stmt) bool {
				return emit(append([]*Stmt{{K: id}}, rest...))
			}) {
				return false
			}
			continue
		}
		for m := 1; m < n; m++ {
			inner := loop || k.loop
			if !bodies(m, ks, inner, func(body []*Stmt) bool {
				if !k.branch {
					return bodies(n-1-m, ks, loop, func(rest []*Stmt) bool {
						return emit(append([]*Stmt{{K: id, Body: body}}, rest...))
					})
				}
				for e := 1; e < n-m; e++ {
					if !bodies(e, ks, inner, func(els []*Stmt) bool {
						if id == "elif" && (len(els) != 1 || !strings.HasPrefix(els[0].K, "if") && els[0].K != "elif") {
							return true
						}
						return bodies(n-1-m-e, ks, loop, func(rest []*Stmt) bool {
							return emit(append([]*Stmt{{K: id, Body: body, Else: els}}, rest...))
						})
					}) {
						return false
					}
				}
				return true
			}) {
				return false
			}
		}
	}
	return true
}

type flowCase struct {
	Type, Head string
	Body       []*Stmt
}

// clone makes the statements of a body distinct.
func clone(l []*Stmt) []*Stmt {
	var r []*Stmt
	for _, s := range l {
		r = append(r, &Stmt{s.K, clone(s.Body), clone(s.Else)})
	}
	return r
}

var c31 = &core.Check{ID: "C31", Level: "model_checking", Guard: true,
	Run: func(c *core.Ctx) {
		ev := core.NewEval(c, "flow", func(in flowCase) error {
			body := clone(in.Body)
			f := &flow{at: map[*Stmt]int{}, reached: map[*Stmt]bool{}, unset: map[int]bool{}, end: map[string]flowSet{}}
			head := in.Head
			if head == "" {
				head = "def f(c, l):\n"
			}
			defLine := strings.Count(head, "\n")
			f.line = defLine
			f.b.WriteString(head)
			ind := head[strings.LastIndex(strings.TrimSuffix(head, "\n"), "\n")+1:]
			ind = ind[:len(ind)-len(strings.TrimLeft(ind, " "))] + "    "
			f.print(body, ind)
			if strings.Contains(head, "f(x") {
				f.local &^= bits["x"]
			}
			out := f.run(body, flowSet{0: true})
			var want []string
			f.dead(body, &want)
			unreachable := len(want) > 0
			for l := range f.unset {
				want = append(want, fmt.Sprintf("%d uninitialized", l))
			}
			if hasValue(body) && !unreachable {
				returns(body, f, &want)
				if len(out) > 0 {
					want = append(want, fmt.Sprintf("%d return-value", defLine))
				}
			}
			sort.Strings(want)
			text := f.b.String()
			file, err := parse(in.Type, text)
			if err != nil {
				return core.Failf("parse", "%v\n%s", err, text)
			}
			w := []string{"uninitialized", "unreachable"}
			if !unreachable {
				w = append(w, "return-value")
			}
			got := lines(warn.FileWarnings(file, w, nil, warn.ModeWarn, nil))
			// one line may have several reads
			var uniq []string
			for i, g := range got {
				if i == 0 || g != got[i-1] || !strings.HasSuffix(g, " uninitialized") {
					uniq = append(uniq, g)
				}
			}
			if len(want) > 0 {
				c.NonTrivial(1)
			}
			if !same(uniq, want) {
				class := "flow"
				for _, w := range []string{"return-value", "uninitialized", "unreachable"} {
					if !same(only(uniq, w), only(want, w)) {
						class = w
					}
				}
				return core.Failf(class, "%s:\n%sgot %v, want %v", in.Type, text, uniq, want)
			}
			return nil
		})
		core.Stream(c, func(emit func(flowCase) bool) {
			sets := []struct {
				what  string
				kinds []string
				n     int
			}{
				{"returns and branches", []string{"s", "ret", "val", "fail", "brk", "cont", "if", "ife", "elif", "for"}, c.Pick(6, 7)},
				{"assignments and branches", []string{"set", "use", "ret", "brk", "cont", "if", "ife", "for", "forx"}, c.Pick(6, 7)},
				{"all statements", []string{"s", "p", "ret", "val", "none", "valx", "fail", "failx", "brk", "cont", "if", "ifx", "ife", "elif", "for", "forx", "forxx", "fori", "fort", "set", "setxy", "setl", "setp", "inc", "setxx", "setix", "setxi", "setat", "use", "usey", "usei", "kw", "kwx", "dot", "comp", "compx", "compb", "lam", "lamd", "defd", "defx"}, c.Pick(3, 4)},
			}
			for _, s := range sets {
				for n := 1; n <= s.n; n++ {
					if !bodies(n, s.kinds, false, func(b []*Stmt) bool {
						return emit(flowCase{"bzl", "", b})
					}) {
						return
					}
				}
				c.Bound("%s: all bodies of <=%d statements of %d kinds", s.what, s.n, len(s.kinds))
			}
			all := sets[2].kinds
			heads := []string{"def f(x, c = 1, *l):\n", "def f(x = 1):\n", "def f(x: int):\n", "def f(*, c, l):\n", "x = 1\n\ndef f(c, l):\n", "def k(c, l):\n    g()\n    def f():\n", "def k(x):\n    if x:\n        g(x)\n\ndef f(c, l):\n"}
			for _, ty := range types {
				for _, h := range append(heads, "") {
					for n := 1; n <= c.Pick(2, 3); n++ {
						if !bodies(n, all, false, func(b []*Stmt) bool {
							return emit(flowCase{ty, h, b})
						}) {
							return
						}
					}
				}
			}
			c.Bound("all file types x %d surroundings: all bodies of <=%d statements", len(heads)+1, c.Pick(2, 3))
		}, func(x flowCase) { ev.Do(x) })
	}}

func only(l []string, cat string) []string {
	var r []string
	for _, x := range l {
		if strings.HasSuffix(x, " "+cat) {
			r = append(r, x)
		}
	}
	return r
}
