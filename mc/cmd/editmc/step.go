package main

import (
	"strings"
	"sync/atomic"

	"github.com/bazelbuild/buildtools/build"

	"verif/mc/core"
	"verif/mc/sem"
)

func failf(class, f string, a ...any) error { return core.Failf(class, f, a...) }

var checks = []*core.Check{c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, c21, c44}

// A Step is one transition: a command on a target in a state.
type Step struct {
	Text   string
	Target string
	Cmd    []string
}

func escape(cmd []string) string {
	var l []string
	for _, a := range cmd {
		a = strings.ReplaceAll(a, "\n", "\\\n")
		l = append(l, strings.ReplaceAll(a, " ", "\\ "))
	}
	return strings.Join(l, " ")
}

// targets are the statements that a target names ("t", "*", "%kind").
func targets(f *N, t string) []int {
	var r []int
	for i, s := range f.C {
		if q := asRule(s); q != nil && (q.name() == t && t != "" || t == "*" || "%"+q.Kind == t) {
			r = append(r, i)
			if t != "*" && t[0] != '%' {
				break
			}
		}
	}
	return r
}

// doStep executes a step, judges it against the model and returns the next state.
func doStep(st Step) (string, error) {
	pre, err := sem.FromStarlark(st.Text)
	if err != nil {
		return "", nil
	}
	idx := map[int]outcome{}
	fails := false
	for _, i := range targets(pre, st.Target) {
		o := predict(pre, asRule(pre.C[i]), st.Cmd)
		fails = fails || o.fails
		idx[i] = o
	}
	if fails && len(idx) > 1 {
		return "", nil // where the command stops is the subject of another property
	}
	r := one(st.Text, escape(st.Cmd), "//pkg:"+st.Target)
	text := r.Files[buildFile]
	if fails {
		if r.RC != 2 || text != st.Text || r.Err == "" {
			return "", failf("error", "an error is expected: exit code %d, stderr %q, changed %v", r.RC, r.Err, text != st.Text)
		}
		return "", nil
	}
	post, err := sem.FromStarlark(text)
	if err != nil {
		return "", failf("syntax", "the file does not parse any more: %v\n%s", err, text)
	}
	if err := compare(pre, post, idx); err != nil {
		if ce, ok := err.(*core.ClassError); ok {
			ce.Class = st.Cmd[0] + "/" + ce.Class
			ce.Msg += "\n--- after\n" + text
		}
		return "", err
	}
	switch {
	case text != st.Text && (r.RC != 0 || len(r.Writes) != 1):
		return "", failf("exit", "the file changed, but the exit code is %d, writes %v", r.RC, r.Writes)
	case text == st.Text && (r.RC != 3 || len(r.Writes) != 0):
		return "", failf("exit", "the file did not change, but the exit code is %d, writes %v: %s", r.RC, r.Writes, r.Err)
	}
	f, err := build.ParseBuild("BUILD", []byte(text))
	if err == nil {
		err = nil
		if string(build.Format(f)) != text {
			return "", failf("format", "the file is not left formatted")
		}
	}
	return text, nil
}

// formatted is the start state made of a text.
func formatted(text string) string {
	r := one(text, "format", "//pkg:all")
	return r.Files[buildFile]
}

// explore runs every command on every start state and, breadth first, on all states reached up to the given depth.
func explore(c *core.Ctx, starts []string, targets []string, cmds [][]string, depth int) {
	trans := c.Counter("transitions")
	states := c.Counter("states")
	type found struct{ text string }
	var mu = make(chan struct{}, 1)
	mu <- struct{}{}
	var next []string
	ev := core.NewEval(c, "step", func(st Step) error {
		atomic.AddInt64(trans, 1)
		text, err := doStep(st)
		if err != nil {
			return err
		}
		if text != "" && text != st.Text {
			c.NonTrivial(1)
			if c.Outcome([]byte(text)) {
				atomic.AddInt64(states, 1)
				<-mu
				next = append(next, text)
				mu <- struct{}{}
			}
		}
		return nil
	})
	seen := map[string]bool{}
	var level []string
	for _, s := range starts {
		s = formatted(s)
		if !seen[s] {
			seen[s] = true
			level = append(level, s)
			c.Outcome([]byte(s))
			atomic.AddInt64(states, 1)
		}
	}
	c.Bound("%d start states, %d commands, %d targets", len(level), len(cmds), len(targets))
	for d := 1; d <= depth && len(level) > 0 && !c.Expired(); d++ {
		next = nil
		core.Stream(c, func(emit func(Step) bool) {
			for _, s := range level {
				for _, t := range targets {
					for _, cmd := range cmds {
						if !emit(Step{s, t, cmd}) {
							return
						}
					}
				}
			}
		}, func(st Step) { ev.Do(st) })
		c.Bound("depth %d: %d states expanded, %d new states", d, len(level), len(next))
		level = append([]string{}, next...)
	}
}
