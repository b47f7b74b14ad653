package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/mc/core"
)

func main() { core.Main(checks) }

var checks = []*core.Check{c22, c23, c24, c25, c26, c35, c37}

var tools struct {
	sync.Mutex
	bin map[string]string
}

// tool builds a command of the repository.
func tool(name string) string {
	tools.Lock()
	defer tools.Unlock()
	if p := tools.bin[name]; p != "" {
		return p
	}
	dir := os.Getenv("VERIF_TMP")
	if dir == "" {
		dir = os.TempDir()
	}
	p := filepath.Join(dir, "bin-"+name)
	cmd := exec.Command("go", "build", "-o", p, "github.com/bazelbuild/buildtools/"+name)
	cmd.Dir = filepath.Join(core.Root(), "mc")
	if out, err := cmd.CombinedOutput(); err != nil {
		fmt.Fprintf(os.Stderr, "building %s: %v\n%s", name, err, out)
		os.Exit(3)
	}
	if tools.bin == nil {
		tools.bin = map[string]string{}
	}
	tools.bin[name] = p
	return p
}

// A scratch is a directory that is removed after a case.
type scratch struct{ dir string }

func newScratch() (*scratch, error) {
	base := os.Getenv("VERIF_TMP")
	d, err := os.MkdirTemp(base, "case")
	if err != nil {
		return nil, err
	}
	d, err = filepath.EvalSymlinks(d)
	if err != nil {
		return nil, err
	}
	for _, x := range []string{"w", "tmp", "home"} {
		if err := os.Mkdir(filepath.Join(d, x), 0777); err != nil {
			return nil, err
		}
	}
	return &scratch{d}, nil
}

func (s *scratch) remove() { os.RemoveAll(s.dir) }

func (s *scratch) path(p string) string { return filepath.Join(s.dir, "w", p) }

var oldTime = time.Date(2001, 2, 3, 4, 5, 6, 0, time.UTC)

// write makes a file with an old modification time.
func (s *scratch) write(p, text string) error {
	p = s.path(p)
	if err := os.MkdirAll(filepath.Dir(p), 0777); err != nil {
		return err
	}
	if err := os.WriteFile(p, []byte(text), 0644); err != nil {
		return err
	}
	return os.Chtimes(p, oldTime, oldTime)
}

type result struct {
	Out, Err string
	Code     int
}

// run runs a tool in a subdirectory of w.
func (s *scratch) run(name, sub, stdin string, env []string, args ...string) (result, error) {
	cmd := exec.Command(tool(name), args...)
	cmd.Dir = s.path(sub)
	cmd.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=" + filepath.Join(s.dir, "home"), "TMPDIR=" + filepath.Join(s.dir, "tmp"), "PWD=" + cmd.Dir}, env...)
	cmd.Stdin = strings.NewReader(stdin)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Start(); err != nil {
		return result{}, err
	}
	timer := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	timer.Stop()
	r := result{out.String(), errb.String(), 0}
	if x, ok := err.(*exec.ExitError); ok {
		r.Code = x.ExitCode()
	} else if err != nil {
		return r, err
	}
	if l, err := os.ReadDir(filepath.Join(s.dir, "tmp")); err != nil {
		return r, err
	} else if len(l) > 0 {
		return r, core.Failf("tempfiles", "%s %q leaves temporary files: %s", name, args, l[0].Name())
	}
	if l, _ := os.ReadDir(filepath.Join(s.dir, "home")); len(l) > 0 {
		return r, core.Failf("home", "%s %q writes into $HOME: %s", name, args, l[0].Name())
	}
	return r, nil
}

// files are all files below w with their contents.
func (s *scratch) files() map[string]string {
	r := map[string]string{}
	root := s.path("")
	filepath.Walk(root, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		switch {
		case info.IsDir():
			r[rel] = "<dir>"
		case info.Mode()&os.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			r[rel] = "<link " + t + ">"
		default:
			b, _ := os.ReadFile(p)
			r[rel] = string(b)
		}
		return nil
	})
	return r
}

func diffFiles(a, b map[string]string) string {
	var r []string
	for k, v := range a {
		if w, ok := b[k]; !ok {
			r = append(r, fmt.Sprintf("%s is missing", k))
		} else if v != w {
			r = append(r, fmt.Sprintf("%s: want %q, got %q", k, v, w))
		}
	}
	for k, v := range b {
		if _, ok := a[k]; !ok {
			r = append(r, fmt.Sprintf("%s is new: %q", k, v))
		}
	}
	sort.Strings(r)
	return strings.Join(r, "; ")
}
