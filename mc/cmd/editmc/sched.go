package main

import (
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/edit"

	"verif/mc/core"
)

// A sched runs the file workers of one buildozer invocation one at a time: a worker stops at each gate (before it reads its
// file, before each command, before it writes) until the explorer lets it pass.
type sched struct {
	mu      sync.Mutex
	waiting map[string]chan struct{} // by file and gate sequence
}

func (s *sched) gate(rel, what string) {
	ch := make(chan struct{})
	s.mu.Lock()
	k := rel
	for s.waiting[k] != nil {
		k += "'"
	}
	s.waiting[k] = ch
	s.mu.Unlock()
	<-ch
}

func (s *sched) list() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return sortedKeys(s.waiting)
}

func (s *sched) release(k string) {
	s.mu.Lock()
	ch := s.waiting[k]
	delete(s.waiting, k)
	s.mu.Unlock()
	close(ch)
}

func init() {
	for name, info := range edit.AllCommands {
		fn := info.Fn
		info.Fn = func(o *edit.Options, env edit.CmdEnvironment) (*build.File, error) {
			if w, rel := worldOf(env.File.Path); w != nil && w.sched != nil {
				w.sched.gate(rel, "command")
			}
			return fn(o, env)
		}
		edit.AllCommands[name] = info
	}
}

var goBase int

// quiesce waits until the workers of earlier invocations are gone.
func quiesce() int {
	if goBase == 0 {
		time.Sleep(50 * time.Millisecond)
		goBase = runtime.NumGoroutine()
	}
	for runtime.NumGoroutine() > goBase {
		runtime.Gosched()
	}
	return goBase
}

// scheduled runs one invocation under the schedule given by choices (0 beyond its end) and returns the number of
// alternatives at each step.
func (w *world) scheduled(choices []int, arrivals int, args []string, opt optFn) (r Result, widths []int, stuck bool) {
	s := &sched{waiting: map[string]chan struct{}{}}
	w.sched = s
	defer func() { w.sched = nil }()
	base := quiesce()
	done := make(chan Result, 1)
	go func() { done <- w.run(args, func(o *edit.Options) { o.NumIO = 8; opt(o) }) }()
	for n := 0; ; n++ {
		// Wait until every worker stands at a gate or is gone.
		for spins := 0; ; spins++ {
			select {
			case r = <-done:
				return r, widths, false
			default:
			}
			l := len(s.list())
			if (n > 0 || l >= arrivals) && l > 0 && runtime.NumGoroutine()-base-1 == l {
				break
			}
			runtime.Gosched()
			if spins > 2000000 {
				return r, widths, true
			}
		}
		l := s.list()
		k := 0
		if n < len(choices) {
			k = choices[n]
		}
		if k >= len(l) {
			k = 0
		}
		widths = append(widths, len(l))
		s.release(l[k])
	}
}

// schedules enumerates all schedules of an invocation.
func schedules(files map[string]string, arrivals int, args []string, opt optFn, prep func(w *world), visit func(Result, []int) error) (int, error) {
	w := getWorld()
	defer func() { pool <- w }()
	var choices []int
	n := 0
	for {
		w.set(files)
		if prep != nil {
			prep(w)
		}
		r, widths, stuck := w.scheduled(choices, arrivals, args, opt)
		if stuck {
			return n, failf("stuck", "the invocation does not make progress under schedule %v", choices)
		}
		n++
		full := make([]int, len(widths))
		copy(full, choices)
		if err := visit(r, full); err != nil {
			return n, err
		}
		// next schedule
		i := len(widths) - 1
		for ; i >= 0; i-- {
			if full[i]+1 < widths[i] {
				break
			}
		}
		if i < 0 {
			return n, nil
		}
		choices = append(full[:i:i], full[i]+1)
	}
}

func sortedLines(s string) string {
	l := strings.Split(strings.TrimSuffix(s, "\n"), "\n")
	sort.Strings(l)
	return strings.TrimSpace(strings.Join(l, "\n"))
}

const schedBase = `load(":d.bzl", "m")

# about b
m(
    name = "b",
    deps = ["x"],
    dd = {"k": "v"},
)

cc_library(
    name = "t",
    srcs = ["s.c"],
    deps = [
        ":a",
        "//q:c",
    ],
    dd = {"k": "v"},
    v = 1,
)
`

var schedCommands = []string{"add deps n :a", "add deps //pkg:n", "new_load :e.bzl q=p r", "replace_load :e.bzl x=m", "substitute_load ^:(.*)$ //z:$1", "comment deps hello", `comment a\ b`, "print_comment", "delete", "fix", "move deps srcs a", "new m fresh before t", "print name deps", "remove deps a", "remove srcs",
	"remove_comment", "remove_if_equal v 1", "rename v w", "replace deps a n", "substitute deps a(.*) b$1", "set v 2", "set deps u v", "set_if_absent z 1", "set_select sel k1 a k2 b", "copy deps b", "copy_no_overwrite new b", "dict_add dd a:b", "dict_set dd k:w", "dict_remove dd k", "dict_replace_if_equal dd k v w", "dict_list_add dl k v", "format", "rename deps srcs", "copy deps nosuch"}

var c17 = &core.Check{ID: "C17", Level: "model_checking", Guard: true,
	Run: func(c *core.Ctx) {
		type In struct {
			Files     map[string]string
			Targets   []string
			Commands  []string
			KeepGoing bool
		}
		scheds := c.Counter("schedules")
		ev := core.NewEval(c, "schedule", func(in In) error {
			opt := func(o *edit.Options) { o.KeepGoing = in.KeepGoing }
			// What each file becomes on its own.
			want := map[string]string{}
			var out, errs string
			rc, modified := 0, false
			seen := map[string]bool{}
			for _, t := range in.Targets {
				f := strings.Split(strings.TrimPrefix(t, "//"), ":")[0] + "/BUILD"
				if seen[f] {
					continue
				}
				seen[f] = true
				var ts []string
				for _, u := range in.Targets {
					if strings.Split(strings.TrimPrefix(u, "//"), ":")[0]+"/BUILD" == f {
						ts = append(ts, u)
					}
				}
				for i, u := range ts {
					if !strings.HasPrefix(u, "//") {
						ts[i] = "//" + u
					}
				}
				r := buildozer(map[string]string{f: in.Files[f]}, append(append([]string{}, in.Commands...), ts...), opt)
				want[f] = r.Files[f]
				out += r.Out
				errs += r.Err
				if r.RC == 2 {
					rc = 2
				}
				modified = modified || strings.Contains(r.Err, "fixed ")
				if rc == 0 && r.RC == 3 {
					rc = 3
				}
			}
			if rc == 3 && modified {
				rc = 0
			}
			n, err := schedules(in.Files, 1, append(append([]string{}, in.Commands...), in.Targets...), opt, nil, func(r Result, s []int) error {
				for f, t := range want {
					if r.Files[f] != t {
						return failf("file", "schedule %v: %s is\n%swant\n%s(stderr %s)", s, f, r.Files[f], t, r.Err)
					}
				}
				if sortedLines(r.Out) != sortedLines(out) {
					return failf("output", "schedule %v: stdout\n%swant\n%s", s, r.Out, out)
				}
				norm := func(s string) string { return strings.ReplaceAll(s, "target //", "target ") }
				if sortedLines(norm(r.Err)) != sortedLines(norm(errs)) {
					return failf("errors", "schedule %v: stderr\n%swant\n%s", s, r.Err, errs)
				}
				if r.RC != rc {
					return failf("exit", "schedule %v: exit code %d, want %d", s, r.RC, rc)
				}
				c.Outcome([]byte(fmt.Sprint(r.Files)))
				return nil
			})
			atomic.AddInt64(scheds, int64(n))
			c.NonTrivial(1)
			return err
		})
		runtime.GOMAXPROCS(1)
		c.Par(1, func(int) {
			x := strings.Replace(schedBase, "v = 1", "v = 7", 1)
			bad := "m(\n"
			do := func(in In) bool {
				if !c.Expired() {
					ev.Do(in)
				}
				return !c.Expired()
			}
			w := getWorld()
			os.Chdir(w.root)
			pool <- w
			defer os.Chdir("/")
			two := map[string]string{"a/BUILD": schedBase, "b/BUILD": schedBase}
			for _, c1 := range schedCommands {
				do(In{two, []string{"//a:t", "//b:t"}, []string{c1}, false})
				do(In{map[string]string{"a/BUILD": schedBase, "b/BUILD": x}, []string{"//b:t", "//a:b", "//b:b"}, []string{c1}, true})
				do(In{two, []string{"//a:t", "a:b", "//b:t"}, []string{c1}, false})
				do(In{map[string]string{"a/BUILD": schedBase, "b/BUILD": bad}, []string{"//a:*", "//b:t"}, []string{c1}, false})
			}
			c.Bound("%d commands on 2 files and 2-3 targets, all schedules of {read, command, write} steps", len(schedCommands))
			for i, c1 := range schedCommands {
				for j, c2 := range schedCommands {
					if !c.Thorough() && (i+j)%3 != 0 {
						continue
					}
					if !do(In{two, []string{"//a:t", "//b:t"}, []string{c1, c2}, (i+j)%2 == 0}) {
						return
					}
				}
			}
			c.Bound("%s pairs of commands on 2 files", map[bool]string{true: "all", false: "a third of the"}[c.Thorough()])
			if c.Thorough() {
				for _, c1 := range schedCommands {
					if !do(In{map[string]string{"a/BUILD": schedBase, "b/BUILD": x, "c/BUILD": schedBase}, []string{"//a:t", "//b:t", "//c:b"}, []string{c1}, false}) {
						return
					}
				}
				c.Bound("every command on 3 files")
			}
		})
	}}
