// Package core is the shared driver of the bounded-exhaustive checks: parallel enumeration of a finite
// space of cases, violation confirmation and replay files, known findings, deadlines and evidence.
package core

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"hash/maphash"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Check is one registered property check.
type Check struct {
	ID    string
	Level string // "model_checking", "exploration", "fault_enumeration"
	Rule  string // how the cases are made and what makes one non-trivial
	Run   func(*Ctx)
	// Assumptions recorded in the evidence.
	Assumptions []string
	// Floor is the minimal number of evaluations a complete quick run must have made (vacuity guard).
	Floor int64
	// Guard runs the check in a child process, so that crashes of the process are attributed to a case.
	Guard bool
	// QuickSec/ThoroughSec are the internal deadlines (seconds); 0 = defaults.
	QuickSec, ThoroughSec int
}

type violation struct {
	Key, Kind, Msg string
	Input          json.RawMessage
	size           int
}

// Ctx is one run of a check.
type Ctx struct {
	Check    *Check
	Tier     string
	Seed     int
	start    time.Time
	deadline time.Time

	mu         sync.Mutex
	violations map[string]*violation
	nviol      int64
	unrepro    int64
	samples    []any
	nsamples   map[string]int
	counters   map[string]*int64
	outcomes   [256]struct {
		sync.Mutex
		m map[[16]byte]struct{}
	}
	inputs [256]struct {
		sync.Mutex
		m map[uint64]struct{}
	}
	haveOutcome atomic.Bool
	evals       int64
	nontrivial  int64
	capped      int32
	capNote     []string
	bounds      []string
	replayers   map[string]func(json.RawMessage) error
	replayFile  string
	known       []knownFinding
	slots       []slot
	slotMu      sync.Mutex
	WallLimit   time.Duration
}

type slot struct {
	mu    sync.Mutex
	since time.Time
	what  func() (string, any)
}

type knownFinding struct {
	Property, Match, Desc string
}

// Root is /verif (the directory holding mc/).
func Root() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

// Repo is the path of the code under test.
func Repo() string {
	if r := os.Getenv("VERIF_REPO"); r != "" {
		return r
	}
	return "/repo"
}

// Main runs the check named on the command line: <bin> ID quick|thorough|replay [FILE].
func Main(checks []*Check) {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: ID quick|thorough|replay [file]")
		os.Exit(2)
	}
	id, tier := os.Args[1], os.Args[2]
	for _, c := range checks {
		if c.ID == id {
			run(c, tier)
			return
		}
	}
	fmt.Fprintf(os.Stderr, "unknown check %s\n", id)
	os.Exit(2)
}

func run(chk *Check, tier string) {
	if chk.Guard && os.Getenv("VERIF_CHILD") == "" {
		guardRun(chk, tier)
	}
	guardOpen()
	c := &Ctx{Check: chk, Tier: tier, start: time.Now(), violations: map[string]*violation{},
		nsamples: map[string]int{}, counters: map[string]*int64{}, replayers: map[string]func(json.RawMessage) error{}}
	c.Seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	q, t := chk.QuickSec, chk.ThoroughSec
	if q == 0 {
		q = 400
	}
	if t == 0 {
		t = 780
	}
	if tier == "thorough" {
		c.WallLimit = time.Duration(t) * time.Second
	} else {
		c.WallLimit = time.Duration(q) * time.Second
	}
	c.deadline = c.start.Add(c.WallLimit)
	for i := range c.outcomes {
		c.outcomes[i].m = map[[16]byte]struct{}{}
		c.inputs[i].m = map[uint64]struct{}{}
	}
	c.loadKnown()
	if tier == "replay" {
		c.replayFile = os.Args[3]
	}
	debug.SetGCPercent(400)
	if p := os.Getenv("VERIF_PROF"); p != "" { // a development aid
		if f, err := os.Create(p); err == nil {
			pprof.StartCPUProfile(f)
			go func() { time.Sleep(10 * time.Second); pprof.StopCPUProfile(); f.Close() }()
		}
	}
	go c.watchdog()
	defer func() {
		if r := recover(); r != nil {
			fmt.Fprintf(os.Stderr, "harness error in %s: %v\n%s\n", chk.ID, r, debug.Stack())
			os.Exit(3)
		}
	}()
	chk.Run(c)
	c.finish()
}

// Thorough reports whether the deep tier was requested.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough tier.
func (c *Ctx) Pick(q, t int) int {
	if c.Thorough() {
		return t
	}
	return q
}

// Replaying reports whether a stored case is being replayed (the enumeration must then not run).
func (c *Ctx) Replaying() bool { return c.replayFile != "" }

// Expired reports (and records) that the internal deadline has passed.
func (c *Ctx) Expired() bool {
	if time.Now().After(c.deadline) {
		atomic.StoreInt32(&c.capped, 1)
		return true
	}
	return false
}

// Bound records, in words, a bound that this run explored.
func (c *Ctx) Bound(format string, a ...any) {
	c.mu.Lock()
	c.bounds = append(c.bounds, fmt.Sprintf(format, a...))
	c.mu.Unlock()
}

// Add bumps a named counter.
func (c *Ctx) Add(name string, n int64) {
	c.mu.Lock()
	p := c.counters[name]
	if p == nil {
		p = new(int64)
		c.counters[name] = p
	}
	c.mu.Unlock()
	atomic.AddInt64(p, n)
}

// Counter returns a pointer for hot paths (use atomic.AddInt64).
func (c *Ctx) Counter(name string) *int64 {
	c.mu.Lock()
	defer c.mu.Unlock()
	p := c.counters[name]
	if p == nil {
		p = new(int64)
		c.counters[name] = p
	}
	return p
}

// Outcome records an observed state (deduplicated by hash) and reports whether it is new.
func (c *Ctx) Outcome(b []byte) bool {
	c.haveOutcome.Store(true)
	h := sha256.Sum256(b)
	var k [16]byte
	copy(k[:], h[:16])
	s := &c.outcomes[h[16]]
	s.Lock()
	_, ok := s.m[k]
	if !ok {
		s.m[k] = struct{}{}
	}
	s.Unlock()
	return !ok
}

func (c *Ctx) distinct() int64 {
	var n int64
	for i := range c.outcomes {
		n += int64(len(c.outcomes[i].m))
	}
	if n == 0 { // the states are the distinct cases
		for i := range c.inputs {
			n += int64(len(c.inputs[i].m))
		}
	}
	return n
}

var hashSeed = maphash.MakeSeed()

// input counts distinct cases and keeps a few of them as samples.
func (c *Ctx) input(kind string, n int64, in any) {
	sample := n == 1 || n == 1000 || n == 50000
	if !sample && c.haveOutcome.Load() {
		return
	}
	raw, err := json.Marshal(in)
	if err != nil {
		return
	}
	if sample && len(raw) < 3000 {
		c.mu.Lock()
		if len(c.samples) < 12 {
			c.samples = append(c.samples, map[string]any{"group": kind, "case": json.RawMessage(raw)})
		}
		c.mu.Unlock()
	}
	var h maphash.Hash
	h.SetSeed(hashSeed)
	h.WriteString(kind)
	h.Write(raw)
	k := h.Sum64()
	s := &c.inputs[k&255]
	s.Lock()
	s.m[k] = struct{}{}
	s.Unlock()
}

// Sample keeps a few written-out cases per group.
func (c *Ctx) Sample(group string, v any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.nsamples[group] >= 2 || len(c.samples) >= 12 {
		return
	}
	c.nsamples[group]++
	c.samples = append(c.samples, map[string]any{"group": group, "case": v})
}

// Eval is a replayable evaluation of one kind of case.
type Eval[T any] struct {
	c    *Ctx
	kind string
	fn   func(T) error
	n    atomic.Int64
}

// NewEval registers the evaluation function of one kind of case. fn returns nil if the property holds
// for the case; a panic inside fn is a violation too.
func NewEval[T any](c *Ctx, kind string, fn func(T) error) *Eval[T] {
	e := &Eval[T]{c: c, kind: kind, fn: fn}
	c.mu.Lock()
	c.replayers[kind] = func(raw json.RawMessage) error {
		var in T
		if err := json.Unmarshal(raw, &in); err != nil {
			return fmt.Errorf("bad replay file: %v", err)
		}
		return e.safe(in)
	}
	c.mu.Unlock()
	if c.replayFile != "" {
		c.tryReplay(kind)
	}
	return e
}

// ClassError is an error with a class: violations are grouped by class.
type ClassError struct {
	Class string
	Msg   string
}

func (e *ClassError) Error() string { return e.Class + ": " + e.Msg }

// Failf builds a classified failure.
func Failf(class, format string, a ...any) error {
	return &ClassError{class, fmt.Sprintf(format, a...)}
}

func (e *Eval[T]) safe(in T) (err error) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			err = &ClassError{"panic:" + panicSite(st), fmt.Sprintf("panic: %v at %s", r, panicSite(st))}
		}
	}()
	return e.fn(in)
}

func panicSite(st string) string {
	lines := strings.Split(st, "\n")
	seen := false
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if seen && strings.Contains(l, "buildtools/") && !strings.HasPrefix(l, "\t") {
			if k := strings.LastIndex(l, "("); k > 0 {
				l = l[:k]
			}
			_ = i
			return l
		}
	}
	return "?"
}

// Do evaluates one case. nontrivial says whether the case counts as non-trivial by the check's rule.
func (e *Eval[T]) Do(in T) bool {
	atomic.AddInt64(&e.c.evals, 1)
	e.c.input(e.kind, e.n.Add(1), in)
	leave := guardEnter(e.kind, in)
	err := e.safe(in)
	if err == nil {
		leave()
		return true
	}
	defer leave()
	e.c.report(e.kind, in, err, func() error { return e.safe(in) })
	return false
}

func (c *Ctx) report(kind string, in any, err error, again func() error) {
	class := err.Error()
	if ce, ok := err.(*ClassError); ok {
		class = ce.Class
	} else if i := strings.Index(class, ":"); i > 0 {
		class = class[:i]
	}
	raw, jerr := json.Marshal(in)
	if jerr != nil {
		raw, _ = json.Marshal(fmt.Sprint(in))
	}
	key := kind + "/" + class
	c.mu.Lock()
	old := c.violations[key]
	c.mu.Unlock()
	atomic.AddInt64(&c.nviol, 1)
	if dumpFile != nil {
		c.mu.Lock()
		json.NewEncoder(dumpFile).Encode(map[string]any{"key": key, "input": in, "msg": err.Error()})
		c.mu.Unlock()
	}
	if old != nil && old.size <= len(raw) {
		return
	}
	if again != nil {
		for i := 0; i < 5; i++ {
			if again() == nil {
				// The evaluations are deterministic, what changes is the code: two more failures count.
				fails := 0
				for j := 0; j < 60 && fails < 2; j++ {
					if again() != nil {
						fails++
					}
				}
				if fails == 2 {
					break
				}
				atomic.AddInt64(&c.unrepro, 1)
				fmt.Fprintf(os.Stderr, "note: %s: not reproduced on re-run: %s: %v\n", c.Check.ID, raw, err)
				return
			}
		}
	}
	c.mu.Lock()
	if old := c.violations[key]; old == nil || old.size > len(raw) {
		c.violations[key] = &violation{Key: key, Kind: kind, Msg: err.Error(), Input: raw, size: len(raw)}
	}
	c.mu.Unlock()
}

// NonTrivial counts n cases as non-trivial.
func (c *Ctx) NonTrivial(n int64) { atomic.AddInt64(&c.nontrivial, n) }

// Par runs fn(i) for i in [0,n) on all cores; it stops handing out work at the deadline.
func (c *Ctx) Par(n int, fn func(i int)) {
	if c.Replaying() {
		return
	}
	w := runtime.NumCPU()
	if w > n {
		w = n
	}
	chunk := n / (w*64 + 1)
	if chunk < 1 {
		chunk = 1
	}
	if chunk > 256 {
		chunk = 256
	}
	var next int64
	var wg sync.WaitGroup
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sl := c.newSlot()
			for {
				if c.Expired() {
					return
				}
				lo := int(atomic.AddInt64(&next, int64(chunk))) - chunk
				if lo >= n {
					return
				}
				hi := lo + chunk
				if hi > n {
					hi = n
				}
				for i := lo; i < hi; i++ {
					sl.set(i)
					fn(i)
				}
				sl.clear()
			}
		}()
	}
	wg.Wait()
	if c.Expired() && int(next) < n {
		c.mu.Lock()
		c.capNote = append(c.capNote, fmt.Sprintf("deadline after %d of %d work items", next, n))
		c.mu.Unlock()
	}
}

// Stream feeds cases produced by gen (which calls emit) to worker goroutines.
func Stream[T any](c *Ctx, gen func(emit func(T) bool), fn func(T)) {
	if c.Replaying() {
		return
	}
	ch := make(chan []T, 64)
	var wg sync.WaitGroup
	for k := 0; k < runtime.NumCPU(); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sl := c.newSlot()
			for b := range ch {
				for _, x := range b {
					sl.set(x)
					fn(x)
				}
				sl.clear()
			}
		}()
	}
	var buf []T
	stop := false
	n := 0
	gen(func(x T) bool {
		if stop {
			return false
		}
		buf = append(buf, x)
		n++
		if len(buf) >= 128 {
			ch <- buf
			buf = nil
			if c.Expired() {
				stop = true
				c.mu.Lock()
				c.capNote = append(c.capNote, fmt.Sprintf("deadline after %d cases of a stream", n))
				c.mu.Unlock()
				return false
			}
		}
		return true
	})
	if len(buf) > 0 {
		ch <- buf
	}
	close(ch)
	wg.Wait()
}

type slotRef struct{ s *slot }

func (c *Ctx) newSlot() slotRef {
	s := &slot{}
	c.slotMu.Lock()
	allSlots = append(allSlots, s)
	c.slotMu.Unlock()
	return slotRef{s}
}

var allSlots []*slot

// dumpFile (VERIF_DUMP) receives every failing case; a development aid.
var dumpFile = func() *os.File {
	if p := os.Getenv("VERIF_DUMP"); p != "" {
		f, _ := os.Create(p)
		return f
	}
	return nil
}()

func (r slotRef) set(v any) {
	r.s.mu.Lock()
	r.s.since = time.Now()
	r.s.what = func() (string, any) { return "", v }
	r.s.mu.Unlock()
}
func (r slotRef) clear() { r.s.mu.Lock(); r.s.what = nil; r.s.mu.Unlock() }

// HangLimit is how long one work item may take before it is reported as a hang.
var HangLimit = 100 * time.Second

func (c *Ctx) watchdog() {
	for {
		time.Sleep(2 * time.Second)
		c.slotMu.Lock()
		ss := append([]*slot{}, allSlots...)
		c.slotMu.Unlock()
		for _, s := range ss {
			s.mu.Lock()
			if s.what != nil && time.Since(s.since) > HangLimit {
				_, v := s.what()
				s.mu.Unlock()
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				c.report("hang", fmt.Sprint(v), Failf("hang", "work item ran for more than %v (non-terminating call)", HangLimit), nil)
				os.Stderr.Write(buf)
				c.finish()
			}
			s.mu.Unlock()
		}
	}
}

func (c *Ctx) tryReplay(kind string) {
	data, err := os.ReadFile(c.replayFile)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var r struct {
		Kind  string
		Input json.RawMessage
	}
	if err := json.Unmarshal(data, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if r.Kind != kind {
		return
	}
	err = c.replayers[kind](r.Input)
	for i := 0; i < 60 && err == nil; i++ { // some failures are not deterministic
		err = c.replayers[kind](r.Input)
	}
	if err != nil {
		fmt.Println(err)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.Check.ID, c.replayFile)
		os.Exit(1)
	}
	fmt.Println("replay: property holds on this case")
	os.Exit(0)
}

// loadKnown reads /verif/known_findings.txt. Lines:
//
//	known: property=C05 match=<exact class key> <description>
//	fixed: property=C05 <commit> <description>     (suppresses nothing)
func (c *Ctx) loadKnown() {
	data, err := os.ReadFile(filepath.Join(Root(), "known_findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(data), "\n") {
		if !strings.HasPrefix(l, "known: property="+c.Check.ID+" ") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property="+c.Check.ID+" ")
		m, d, _ := strings.Cut(l, " ")
		m = strings.TrimPrefix(m, "match=")
		c.known = append(c.known, knownFinding{c.Check.ID, m, d})
	}
}

// KnownMatch lets a check ask whether a specific failing site is a recorded finding.
func (c *Ctx) KnownMatch(site string) bool {
	for _, k := range c.known {
		if k.Match == site {
			return true
		}
	}
	return false
}

var finishOnce sync.Mutex

func (c *Ctx) finish() {
	finishOnce.Lock()
	if c.Replaying() {
		fmt.Fprintln(os.Stderr, "replay: no evaluation of that kind")
		os.Exit(2)
	}
	wall := time.Since(c.start).Seconds()
	var bad []*violation
	for _, v := range c.violations {
		kn := false
		for _, k := range c.known {
			if k.Match == v.Key {
				kn = true
			}
		}
		if !kn {
			bad = append(bad, v)
		}
	}
	for _, k := range c.known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.Check.ID, k.Desc)
	}
	sort.Slice(bad, func(i, j int) bool { return bad[i].Key < bad[j].Key })
	tier := c.Tier
	if tier != "thorough" {
		tier = "quick"
	}
	cov := map[string]any{
		"exhaustive": c.capped == 0,
		"samples":    c.samples,
		"bounds":     c.bounds,
	}
	if len(c.samples) == 0 {
		cov["samples"] = []any{"(none)"}
	}
	if len(c.capNote) > 0 {
		cov["caps_hit"] = c.capNote
	}
	for k, v := range c.counters {
		cov[k] = *v
	}
	if c.unrepro > 0 {
		cov["unreproduced"] = c.unrepro
	}
	if c.Check.Level == "model_checking" {
		cov["states"] = c.distinct()
		if _, ok := cov["transitions"]; !ok {
			cov["transitions"] = c.evals
		} else {
			cov["evaluations"] = c.evals
		}
		if _, ok := cov["traces_validated_against_impl"]; !ok {
			cov["traces_validated_against_impl"] = c.nontrivial
		}
	} else {
		cov["evaluations"] = c.evals
		cov["distinct_nontrivial"] = c.distinct()
	}
	cov["rule"] = c.Check.Rule
	if c.Check.Rule == "" {
		cov["rule"] = "every case of the spaces listed under bounds is executed on the real code and judged by an independent model; a case is non-trivial if the model predicts an effect (a finding, an edit, an error)"
	}
	ev := map[string]any{"property": c.Check.ID, "tier": tier, "seed": c.Seed, "level": c.Check.Level,
		"coverage": cov, "wall_s": wall, "violations": len(bad)}
	if len(c.Check.Assumptions) > 0 {
		ev["assumptions"] = c.Check.Assumptions
	}
	var buf bytes.Buffer
	enc := json.NewEncoder(&buf)
	enc.SetEscapeHTML(false)
	enc.SetIndent("", " ")
	if err := enc.Encode(ev); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		os.Exit(3)
	}
	os.MkdirAll(filepath.Join(Root(), "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(Root(), "evidence", c.Check.ID+".json"), buf.Bytes(), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		os.Exit(3)
	}
	fmt.Printf("%s %s: evaluations=%d distinct=%d exhaustive=%v violations=%d wall=%.1fs\n", c.Check.ID, tier, c.evals, c.distinct(), c.capped == 0, len(bad), wall)
	if len(bad) > 0 {
		dir := filepath.Join(Root(), "replays", c.Check.ID)
		os.MkdirAll(dir, 0o755)
		for i, v := range bad {
			h := sha256.Sum256([]byte(v.Key + string(v.Input)))
			p := filepath.Join(dir, fmt.Sprintf("%x.json", h[:6]))
			var rb bytes.Buffer
			re := json.NewEncoder(&rb)
			re.SetEscapeHTML(false)
			re.SetIndent("", " ")
			re.Encode(map[string]any{"property": c.Check.ID, "Kind": v.Kind, "Input": v.Input, "message": v.Msg,
				"replay_cmd": "bash /verif/run.sh " + c.Check.ID + " replay " + p})
			os.WriteFile(p, rb.Bytes(), 0o644)
			if i < 8 {
				fmt.Printf("%s\n", trunc(v.Msg, 1500))
				fmt.Printf("VIOLATION property=%s replay=%s\n", c.Check.ID, p)
			}
		}
		os.Exit(1)
	}
	if c.Check.Floor > 0 && c.evals < c.Check.Floor && c.capped == 0 {
		fmt.Fprintf(os.Stderr, "harness error: only %d evaluations, expected at least %d (vacuous run)\n", c.evals, c.Check.Floor)
		os.Exit(3)
	}
	os.Exit(0)
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}
