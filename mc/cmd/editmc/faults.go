package main

import (
	"errors"
	"os"
	"runtime"
	"strings"
	"sync/atomic"

	"github.com/bazelbuild/buildtools/edit"

	"verif/mc/core"
)

func init() {
	edit.EditFile = func(fi os.FileInfo, name string) error {
		w, rel := worldOf(name)
		if w != nil {
			w.mu.Lock()
			defer w.mu.Unlock()
			if w.failEdit[rel] {
				return errors.New("injected edit failure")
			}
		}
		return nil
	}
}

// fileModel is what becomes of one file: its text and the number of errors that are reported for it.
func fileModel(text, fault string, targets, cmds []string, keepGoing bool) (string, int) {
	switch fault {
	case "missing", "syntax", "read":
		return text, 1
	}
	orig := text
	failed := 0
	for _, t := range targets {
		if one(text, "print kind", "//pkg:"+t).RC == 2 {
			// the target doesn't exist
			failed++
			if !keepGoing {
				return orig, 1
			}
			continue
		}
		for _, cmd := range cmds {
			r := one(text, cmd, "//pkg:"+t)
			if r.RC == 2 {
				failed++
				if !keepGoing {
					return orig, 1
				}
				continue
			}
			text = r.Files[buildFile]
		}
	}
	if text != orig && (fault == "write" || fault == "edit") {
		return orig, failed + 1
	}
	return text, failed
}

var c18 = &core.Check{ID: "C18", Level: "model_checking", Guard: true,
	Run: func(c *core.Ctx) {
		type In struct {
			Faults    []string // of a/BUILD, b/BUILD, ...
			Commands  []string
			Bad       int // a target that doesn't exist comes first (1), last (2) or both (3)
			KeepGoing bool
			All       bool // all schedules
		}
		scheds := c.Counter("schedules")
		ev := core.NewEval(c, "fault", func(in In) error {
			files := map[string]string{}
			want := map[string]string{}
			bad := map[string]int{}
			var args []string
			args = append(args, in.Commands...)
			anyBad, anyMod := false, false
			for i, fault := range in.Faults {
				d := string(rune('a' + i))
				rel := d + "/BUILD"
				text := schedBase
				if fault == "syntax" {
					text = "m(\n"
				}
				var ts []string
				if in.Bad&1 != 0 {
					ts = append(ts, "nosuch")
				}
				ts = append(ts, "t")
				if in.Bad&2 != 0 {
					ts = append(ts, "nosuch2")
				}
				for _, t := range ts {
					args = append(args, "//"+d+":"+t)
				}
				if fault != "missing" {
					files[rel] = text
				}
				w, b := fileModel(text, fault, ts, in.Commands, in.KeepGoing)
				if fault != "missing" {
					want[rel] = w
				}
				bad[rel] = b
				anyBad = anyBad || b > 0
				anyMod = anyMod || w != text
			}
			prep := func(w *world) {
				w.failRead, w.failWrite, w.failEdit = map[string]bool{}, map[string]bool{}, map[string]bool{}
				for i, fault := range in.Faults {
					rel := string(rune('a'+i)) + "/BUILD"
					switch fault {
					case "read":
						w.failRead[rel] = true
					case "write":
						w.failWrite[rel] = true
					case "edit":
						w.failEdit[rel] = true
					}
				}
			}
			judge := func(r Result, s []int) error {
				if len(r.Files) != len(files) {
					return failf("created", "files %v, want %v", sortedKeys(r.Files), sortedKeys(files))
				}
				for f, t := range want {
					if r.Files[f] != t {
						return failf("file", "schedule %v: %s is\n%swant\n%s(exit code %d, stderr %s)", s, f, r.Files[f], t, r.RC, r.Err)
					}
				}
				for f := range bad {
					reported, fixed := 0, false
					for _, l := range strings.Split(r.Err, "\n") {
						if strings.HasPrefix(l, "ROOT/"+f+":") {
							reported++
						}
						fixed = fixed || l == "fixed ROOT/"+f
					}
					if reported > bad[f] && bad[f] > 0 && in.Bad > 0 && in.KeepGoing && strings.Contains(strings.Join(in.Commands, " "), "new") {
						// Whether commands for the file are executed if their target doesn't exist isn't specified.
						reported = bad[f]
					}
					if reported != bad[f] {
						return failf("reported", "%s: %d errors are reported, want %d: %s", f, reported, bad[f], r.Err)
					}
					if orig, ok := files[f]; ok && fixed != (want[f] != orig) {
						return failf("fixed", "%s: reported as fixed: %v: %s", f, fixed, r.Err)
					}
				}
				if anyBad != (r.RC == 2) || !anyBad && anyMod != (r.RC == 0) && !onlyPrints(in.Commands) {
					return failf("exit", "exit code %d, errors %v, modified %v: %s", r.RC, anyBad, anyMod, r.Err)
				}
				return nil
			}
			c.NonTrivial(1)
			opt := func(o *edit.Options) { o.KeepGoing = in.KeepGoing }
			if in.All {
				n, err := schedules(files, len(files), args, opt, prep, judge)
				atomic.AddInt64(scheds, int64(n))
				return err
			}
			w := getWorld()
			w.set(files)
			prep(w)
			r := w.run(args, func(o *edit.Options) { o.KeepGoing = in.KeepGoing; o.NumIO = 3 })
			pool <- w
			return judge(r, nil)
		})
		faults := []string{"ok", "missing", "read", "syntax", "write", "edit"}
		cmds := []string{"set v 2", "add deps n", "remove nosuch", "rename v deps", "copy x nosuch", "print name", "dict_add dd a:b bad", "new m b", "delete", "new_load :e.bzl q=p r", "dict_set dd k:x bad", "substitute deps ( x", "move srcs deps *", "move nosuch deps *", "copy deps b"}
		n := c.Pick(2, 3)
		core.Stream(c, func(emit func(In) bool) {
			for f1 := range faults {
				for f2 := range faults {
					for _, k := range []bool{false, true} {
						for bad := range 4 {
							var rec func(l []string) bool
							rec = func(l []string) bool {
								if len(l) > 0 && !emit(In{[]string{faults[f1], faults[f2]}, append([]string{}, l...), bad, k, false}) {
									return false
								}
								if len(l) == n || len(l) == 2 && (f1+f2 > 0 || bad > 0) {
									return true
								}
								for _, cmd := range cmds {
									if len(l) > 0 && l[len(l)-1] == "delete" {
										// commands for a rule that has been deleted by the same invocation are
										// ineffective, but no errors
										break
									}
									if !rec(append(l, cmd)) {
										return false
									}
								}
								return true
							}
							if !rec(nil) {
								return
							}
						}
					}
				}
			}
			c.Bound("all pairs of %d faults of two files x all sequences of <=%d of %d commands x -k x missing targets", len(faults), n, len(cmds))
		}, func(in In) { ev.Do(in) })
		if c.Replaying() {
			return
		}
		old := runtime.GOMAXPROCS(1)
		c.Par(1, func(int) {
			for _, f1 := range faults {
				for _, f2 := range faults {
					for _, k := range []bool{false, true} {
						for _, cmd := range [][]string{{"set v 2"}, {"rename v deps"}, {"set v 2", "copy x nosuch"}} {
							if c.Expired() {
								return
							}
							ev.Do(In{[]string{f1, f2}, cmd, 0, k, true})
						}
						if c.Thorough() {
							for _, f3 := range faults {
								if c.Expired() {
									return
								}
								ev.Do(In{[]string{f1, f2, f3}, []string{"set v 2"}, 0, k, true})
							}
						}
					}
				}
			}
			c.Bound("all schedules of 3 command lists (thorough: also of three files) under all faults")
		})
		runtime.GOMAXPROCS(old)
	}}

func onlyPrints(cmds []string) bool {
	for _, c := range cmds {
		if !strings.HasPrefix(c, "print") {
			return false
		}
	}
	return true
}
