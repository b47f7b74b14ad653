// editmc explores what buildozer does: files, commands and targets are enumerated, every transition is executed by the real
// edit.Buildozer entry point on an in-memory file layer and judged against independent models of the commands.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/bazelbuild/buildtools/edit"
	"github.com/bazelbuild/buildtools/file"

	"verif/mc/core"
)

func main() { core.Main(checks) }

// A world is a workspace directory on disk (for the workspace root lookup and the existence tests of the tool) whose
// file contents are kept in memory.
type world struct {
	root   string
	files  map[string]string
	mu     sync.Mutex
	dirs   map[string]bool
	onDisk map[string]bool
	// fault injection
	failRead, failWrite, failEdit map[string]bool
	writes                        []string
	sched                         *sched
}

func (w *world) has(rel string) bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	_, ok := w.files[rel]
	return ok
}

var (
	worldsMu sync.Mutex
	worlds   = map[string]*world{} // by the name of the root directory
	pool     = make(chan *world, 64)
	made     int
)

func worldOf(name string) (*world, string) {
	base := os.Getenv("VERIF_TMP") + "/w/"
	if abs, err := filepath.Abs(name); err == nil {
		name = abs
	}
	if !strings.HasPrefix(name, base) {
		return nil, ""
	}
	rest := name[len(base):]
	id, rel, _ := strings.Cut(rest, "/")
	worldsMu.Lock()
	defer worldsMu.Unlock()
	return worlds[id], rel
}

type memInfo struct{ name string }

func (m memInfo) Name() string       { return m.name }
func (m memInfo) Size() int64        { return 0 }
func (m memInfo) Mode() os.FileMode  { return 0644 }
func (m memInfo) ModTime() time.Time { return time.Time{} }
func (m memInfo) IsDir() bool        { return false }
func (m memInfo) Sys() any           { return nil }

var errNoFile = errors.New("no such file in this world")

func init() {
	edit.Usage = func() { panic("buildozer rejects the usage of a command") }
	file.ReadFile = func(name string) ([]byte, os.FileInfo, error) {
		w, rel := worldOf(name)
		if w == nil {
			return nil, nil, errNoFile
		}
		if w.sched != nil && w.has(rel) {
			w.sched.gate(rel, "read")
		}
		w.mu.Lock()
		defer w.mu.Unlock()
		t, ok := w.files[rel]
		if !ok || w.failRead[rel] {
			return nil, nil, errNoFile
		}
		return []byte(t), memInfo{filepath.Base(name)}, nil
	}
	file.WriteFile = func(name string, data []byte) error {
		w, rel := worldOf(name)
		if w == nil {
			return errNoFile
		}
		if w.sched != nil {
			w.sched.gate(rel, "write")
		}
		w.mu.Lock()
		defer w.mu.Unlock()
		if w.failWrite[rel] {
			return errors.New("injected write failure")
		}
		w.writes = append(w.writes, rel)
		w.files[rel] = string(data)
		return nil
	}
	file.OpenReadFile = func(name string) io.ReadCloser {
		w, rel := worldOf(name)
		if w == nil {
			return io.NopCloser(strings.NewReader(""))
		}
		w.mu.Lock()
		defer w.mu.Unlock()
		return io.NopCloser(strings.NewReader(w.files[rel]))
	}
}

func getWorld() *world {
	select {
	case w := <-pool:
		return w
	default:
	}
	worldsMu.Lock()
	made++
	id := fmt.Sprintf("w%d", made)
	w := &world{root: os.Getenv("VERIF_TMP") + "/w/" + id, dirs: map[string]bool{}, onDisk: map[string]bool{}}
	worlds[id] = w
	worldsMu.Unlock()
	os.MkdirAll(w.root, 0755)
	os.WriteFile(w.root+"/WORKSPACE", nil, 0644)
	return w
}

// set puts the files of a state into the world: the contents in memory, empty placeholders on disk.
func (w *world) set(files map[string]string) {
	w.files = map[string]string{}
	w.writes = nil
	w.failRead, w.failWrite, w.failEdit = nil, nil, nil
	for k, v := range files {
		w.files[k] = v
		if !w.onDisk[k] {
			os.MkdirAll(filepath.Join(w.root, filepath.Dir(k)), 0755)
			os.WriteFile(filepath.Join(w.root, k), nil, 0644)
			w.onDisk[k] = true
		}
	}
	for k := range w.onDisk {
		if _, ok := files[k]; !ok {
			os.Remove(filepath.Join(w.root, k))
			delete(w.onDisk, k)
		}
	}
}

// Result is what one invocation of buildozer did.
type Result struct {
	Files    map[string]string
	Out, Err string
	RC       int
	Writes   []string
}

type optFn func(*edit.Options)

// runIn runs one invocation in the world.
func (w *world) run(args []string, fns ...optFn) Result {
	opts := edit.NewOpts()
	opts.NumIO = 1
	opts.RootDir = w.root
	var out, errb bytes.Buffer
	opts.OutWriter, opts.ErrWriter = &out, &errb
	for _, f := range fns {
		f(opts)
	}
	rc := edit.Buildozer(opts, args)
	r := Result{Files: map[string]string{}, Out: strings.ReplaceAll(out.String(), w.root, "ROOT"), Err: strings.ReplaceAll(errb.String(), w.root, "ROOT"), RC: rc, Writes: w.writes}
	for k, v := range w.files {
		r.Files[k] = v
	}
	return r
}

// buildozer runs one invocation on a state.
func buildozer(files map[string]string, args []string, fns ...optFn) Result {
	w := getWorld()
	w.set(files)
	r := w.run(args, fns...)
	pool <- w
	return r
}

const pkg = "pkg"
const buildFile = "pkg/BUILD"

// one runs commands on the text of //pkg.
func one(text string, args ...string) Result {
	return buildozer(map[string]string{buildFile: text}, args)
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
