package core

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"syscall"
	"time"
)

// Guarded checks run in a child process: a panic in a goroutine of the code under test, a fatal error or an os.Exit ends the
// child only, and the cases that were being evaluated at that moment are found in a shared memory map and tried one by one.

const (
	guardSlots = 64
	guardSize  = 1 << 16
)

var (
	guardMem  []byte
	guardFree chan int
)

func guardOpen() {
	p := os.Getenv("VERIF_GUARD")
	if p == "" {
		return
	}
	f, err := os.OpenFile(p, os.O_RDWR, 0)
	if err != nil {
		return
	}
	defer f.Close()
	m, err := syscall.Mmap(int(f.Fd()), 0, guardSlots*guardSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return
	}
	guardMem = m
	guardFree = make(chan int, guardSlots)
	for i := 0; i < guardSlots; i++ {
		guardFree <- i
	}
}

// guardEnter notes a case as being evaluated; the returned function removes the note.
func guardEnter(kind string, in any) func() {
	if guardMem == nil {
		return func() {}
	}
	raw, err := json.Marshal(map[string]any{"Kind": kind, "Input": in})
	if err != nil || len(raw) > guardSize-8 {
		return func() {}
	}
	i := <-guardFree
	s := guardMem[i*guardSize:]
	copy(s[8:], raw)
	binary.LittleEndian.PutUint64(s, uint64(len(raw)))
	return func() {
		binary.LittleEndian.PutUint64(s, 0)
		guardFree <- i
	}
}

type teeBuf struct {
	w io.Writer
	b bytes.Buffer
}

func (t *teeBuf) Write(p []byte) (int, error) {
	if t.b.Len() < 1<<22 {
		t.b.Write(p)
	}
	return t.w.Write(p)
}

// guardRun runs the check in a child process; it does not return.
func guardRun(chk *Check, tier string) {
	p := filepath.Join(os.Getenv("VERIF_TMP"), "guard")
	if err := os.WriteFile(p, make([]byte, guardSlots*guardSize), 0o600); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	child := func(args []string, out, errw io.Writer, limit time.Duration) int {
		cmd := exec.Command(os.Args[0], args...)
		cmd.Env = append(os.Environ(), "VERIF_CHILD=1", "VERIF_GUARD="+p)
		cmd.Stdout, cmd.Stderr = out, errw
		if err := cmd.Start(); err != nil {
			return 3
		}
		if limit > 0 {
			t := time.AfterFunc(limit, func() { cmd.Process.Kill() })
			defer t.Stop()
		}
		cmd.Wait()
		return cmd.ProcessState.ExitCode()
	}
	out, errb := &teeBuf{w: os.Stdout}, &teeBuf{w: os.Stderr}
	rc := child(os.Args[1:], out, errb, 0)
	done := bytes.Contains(out.b.Bytes(), []byte(chk.ID+" "+tier+": evaluations="))
	if rc == 3 || tier == "replay" && rc <= 1 || done && (rc == 0 || rc == 1) {
		os.Exit(rc)
	}
	if tier == "replay" {
		fmt.Printf("the process ended with exit code %d\nVIOLATION property=%s replay=%s\n", rc, chk.ID, os.Args[3])
		os.Exit(1)
	}
	// The child did not finish: which of the cases in flight ends the process?
	mem, _ := os.ReadFile(p)
	for i := 0; i < guardSlots && len(mem) == guardSlots*guardSize; i++ {
		s := mem[i*guardSize:]
		n := binary.LittleEndian.Uint64(s)
		if n == 0 || n > guardSize-8 {
			continue
		}
		rf := filepath.Join(os.Getenv("VERIF_TMP"), fmt.Sprintf("inflight%d.json", i))
		os.WriteFile(rf, s[8:8+n], 0o600)
		var eb bytes.Buffer
		r := child([]string{chk.ID, "replay", rf}, &eb, &eb, 100*time.Second)
		if r == 0 {
			continue
		}
		c := &Ctx{Check: chk, Tier: tier, start: time.Now(), violations: map[string]*violation{}, counters: map[string]*int64{}}
		c.loadKnown()
		var in struct {
			Kind  string
			Input json.RawMessage
		}
		json.Unmarshal(s[8:8+n], &in)
		c.violations["crash"] = &violation{Key: in.Kind + "/crash", Kind: in.Kind, Input: in.Input,
			Msg: fmt.Sprintf("the process ended (exit code %d) while evaluating this case: %s", r, trunc(eb.String(), 600))}
		c.evals = 1
		c.finish()
	}
	fmt.Fprintf(os.Stderr, "harness error: the check ended with exit code %d, none of the cases in flight reproduces that\n", rc)
	os.Exit(3)
}
