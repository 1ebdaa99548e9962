package main

// Core of the monitoring harness: parts (workload + oracle), cases, verdicts,
// result records.  A child process executes cases and appends records to a
// result file; the parent (parent.go) turns records, crashes, race reports and
// hangs into verdicts and evidence.

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	log "github.com/sirupsen/logrus"
)

// Part is one workload with its oracle.
type Part struct {
	Prop, Name      string
	Race            bool // executed in the race-detector build
	Quick, Thorough int  // number of cases
	Workers         int  // parallel cases, 0: number of CPUs
	Need            []string
	Run             func(c *C)
}

var parts []*Part

func reg(p Part) { pp := p; parts = append(parts, &pp) }

// rules says, per property, how cases are made and what makes one non-trivial.
var rules = map[string]string{}

// assumptions per property
var assumptions = map[string][]string{}

// C is the context of one case.
type C struct {
	P    *Part
	N    int
	R    *rand.Rand
	Tier string
	rec  *recorder
	mu   sync.Mutex
	logb []string
	dir  string
	bad  bool
	wg   sync.WaitGroup
}

// caseAbort unwinds a case after a fatal violation.
type caseAbort struct{}

// Logf records a step of the case's history; the history is written out with a violation.
func (c *C) Logf(f string, a ...interface{}) {
	c.mu.Lock()
	if len(c.logb) < 4000 {
		c.logb = append(c.logb, fmt.Sprintf(f, a...))
	}
	c.mu.Unlock()
}

// Fail reports a violation of the property and ends the case.
func (c *C) Fail(sig, f string, a ...interface{}) {
	c.Report(sig, f, a...)
	panic(caseAbort{})
}

// Report reports a violation without ending the case.
func (c *C) Report(sig, f string, a ...interface{}) {
	c.mu.Lock()
	hist := append([]string{}, c.logb...)
	c.bad = true
	c.mu.Unlock()
	c.rec.violation(c.P, c.N, sig, fmt.Sprintf(f, a...), hist)
}

// Assert reports a violation if cond does not hold.
func (c *C) Assert(cond bool, sig, f string, a ...interface{}) {
	if !cond {
		c.Fail(sig, f, a...)
	}
}

// Harness error: the harness could not do its job (inconclusive).
func (c *C) Broken(f string, a ...interface{}) {
	c.rec.herr(c.P, c.N, fmt.Sprintf(f, a...))
	panic(caseAbort{})
}

// Must is for steps of the harness itself that cannot fail.
func (c *C) Must(err error, what string) {
	if err != nil {
		c.Broken("%s: %v", what, err)
	}
}

func (c *C) Count(name string, n int) { c.rec.count(name, n) }

// Distinct records a case description; different descriptions count once each.
func (c *C) Distinct(f string, a ...interface{}) {
	h := fnv.New64a()
	fmt.Fprintf(h, c.P.Name+"|"+f, a...)
	c.rec.distinct(h.Sum64())
}

// Sample keeps a few actual cases for the evidence file.
func (c *C) Sample(f string, a ...interface{}) { c.rec.sample(c.P, c.N, f, a...) }

// Go starts a goroutine of the workload; panics are judged like those of the case.
func (c *C) Go(f func()) {
	c.wg.Add(1)
	go func() {
		defer c.wg.Done()
		c.guard(f)
	}()
}

// Bad says whether something was reported for this case already.
func (c *C) Bad() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.bad
}

// tally counts events of one goroutine without ordering it with others.
type tally map[string]int

func (t tally) flush(c *C) {
	for k, n := range t {
		c.Count(k, n)
	}
}

// Wait waits for the goroutines started with Go.
func (c *C) Wait() { c.wg.Wait() }

// Dir is a scratch directory removed after the case.
func (c *C) Dir() string {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.dir == "" {
		d, err := ioutil.TempDir(scratchRoot, "case")
		if err != nil {
			panic(err)
		}
		c.dir = d
	}
	return c.dir
}

func (c *C) guard(f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(caseAbort); ok {
				return
			}
			st := string(debug.Stack())
			c.mu.Lock()
			c.bad = true
			c.mu.Unlock()
			c.rec.panicked(c, r, st)
		}
	}()
	f()
}

// Catch runs f and returns a panic value other than the harness' own, with its stack.
func (c *C) Catch(f func()) (p interface{}, stack string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(caseAbort); ok {
				panic(r)
			}
			p = r
			stack = string(debug.Stack())
		}
	}()
	f()
	return nil, ""
}

const modPath = "github.com/iden3/go-iden3-core"

// blame says whether a panic stack (debug.Stack of the recovering goroutine)
// was raised inside the code under test: the first frame of either the harness
// or the code under test above the panic belongs to the latter.
func blame(stack string) (fn string, inRepo bool) {
	lines := strings.Split(stack, "\n")
	i := 0
	for i = range lines {
		if strings.HasPrefix(lines[i], "panic(") {
			break
		}
	}
	for ; i < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.Contains(l, modPath) {
			return frameFunc(l), true
		}
		if strings.HasPrefix(l, "main.") {
			return frameFunc(l), false
		}
	}
	return "?", false
}

func frameFunc(l string) string {
	l = strings.TrimSpace(l)
	l = strings.TrimPrefix(l, modPath+"/")
	if i := strings.LastIndex(l, "("); i > 0 {
		// keep receiver parens
		l = l[:i]
	}
	return l
}

// ---------------------------------------------------------------- recorder

type record struct {
	T     string         `json:"t"`
	Part  string         `json:"part,omitempty"`
	Case  int            `json:"case"`
	Sig   string         `json:"sig,omitempty"`
	Msg   string         `json:"msg,omitempty"`
	Hist  []string       `json:"hist,omitempty"`
	Cnt   map[string]int `json:"cnt,omitempty"`
	Dist  int            `json:"dist,omitempty"`
	Cases int            `json:"cases,omitempty"`
	Samp  []string       `json:"samp,omitempty"`
	Secs  float64        `json:"secs,omitempty"`
}

type recorder struct {
	mu    sync.Mutex
	f     *os.File
	cnt   map[string]int
	dist  map[uint64]struct{}
	samp  []string
	sigN  map[string]int
	cases int
}

func newRecorder(path string) (*recorder, error) {
	f, err := os.OpenFile(path, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0600)
	if err != nil {
		return nil, err
	}
	return &recorder{f: f, cnt: map[string]int{}, dist: map[uint64]struct{}{}, sigN: map[string]int{}}, nil
}

func (r *recorder) put(x record) {
	b, _ := json.Marshal(x)
	r.mu.Lock()
	defer r.mu.Unlock()
	r.f.Write(append(b, '\n'))
}

func (r *recorder) violation(p *Part, n int, sig, msg string, hist []string) {
	r.mu.Lock()
	r.sigN[sig]++
	k := r.sigN[sig]
	r.mu.Unlock()
	if k > 3 {
		return
	}
	r.put(record{T: "viol", Part: p.Name, Case: n, Sig: sig, Msg: msg, Hist: hist})
}

func (r *recorder) herr(p *Part, n int, msg string) {
	r.put(record{T: "herr", Part: p.Name, Case: n, Msg: msg})
}

func (r *recorder) panicked(c *C, v interface{}, stack string) {
	fn, in := blame(stack)
	if in {
		c.mu.Lock()
		hist := append([]string{}, c.logb...)
		c.mu.Unlock()
		r.violation(c.P, c.N, "panic:"+fn, fmt.Sprintf("panic in %s: %v\n%s", fn, v, stack), hist)
		return
	}
	r.herr(c.P, c.N, fmt.Sprintf("harness panic: %v\n%s", v, stack))
}

func (r *recorder) count(name string, n int) {
	r.mu.Lock()
	r.cnt[name] += n
	r.mu.Unlock()
}

func (r *recorder) distinct(h uint64) {
	r.mu.Lock()
	r.dist[h] = struct{}{}
	r.mu.Unlock()
}

func (r *recorder) sample(p *Part, n int, f string, a ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.samp) < 3 {
		s := fmt.Sprintf(f, a...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		r.samp = append(r.samp, fmt.Sprintf("%s#%d: %s", p.Name, n, s))
	}
}

// ---------------------------------------------------------------- child

var scratchRoot string

// runSeed is the seed of the run.
var runSeed int64

func caseSeed(seed int64, p *Part, n int) int64 {
	h := fnv.New64a()
	var b [16]byte
	binary.LittleEndian.PutUint64(b[:8], uint64(seed))
	binary.LittleEndian.PutUint64(b[8:], uint64(n))
	h.Write(b[:])
	h.Write([]byte(p.Prop + "/" + p.Name))
	return int64(h.Sum64() & 0x7fffffffffffffff)
}

type running struct {
	part  *Part
	n     int
	start time.Time
}

var (
	runMu   sync.Mutex
	runSet  = map[*C]running{}
	hangAge = 150 * time.Second
)

func childMain(prop, partName, tier string, seed int64, race bool, out string, only int) int {
	log.SetOutput(ioutil.Discard)
	log.SetLevel(log.PanicLevel)
	rec, err := newRecorder(out)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	scratchRoot = filepath.Dir(out)
	runSeed = seed
	go watchdog(rec)
	for _, p := range parts {
		if p.Prop != prop || p.Race != race || (partName != "" && p.Name != partName) {
			continue
		}
		runPart(rec, p, tier, seed, only)
	}
	rec.put(record{T: "done"})
	return 0
}

func runPart(rec *recorder, p *Part, tier string, seed int64, only int) {
	n := p.Quick
	if tier == "thorough" {
		n = p.Thorough
	}
	workers := p.Workers
	if workers == 0 {
		workers = runtime.NumCPU()
	}
	t0 := time.Now()
	rec.mu.Lock()
	rec.cnt = map[string]int{}
	rec.dist = map[uint64]struct{}{}
	rec.samp = nil
	rec.mu.Unlock()
	rec.put(record{T: "part", Part: p.Name})
	var next int64 = -1
	var done int64
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				if only >= 0 && i != only {
					continue
				}
				c := &C{P: p, N: i, Tier: tier, rec: rec, R: rand.New(rand.NewSource(caseSeed(seed, p, i)))}
				runMu.Lock()
				runSet[c] = running{p, i, time.Now()}
				runMu.Unlock()
				c.guard(func() { p.Run(c) })
				c.Wait()
				runMu.Lock()
				delete(runSet, c)
				runMu.Unlock()
				if c.dir != "" {
					os.RemoveAll(c.dir)
				}
				atomic.AddInt64(&done, 1)
			}
		}()
	}
	wg.Wait()
	if only < 0 {
		for _, k := range p.Need {
			rec.mu.Lock()
			v := rec.cnt[k]
			viol := len(rec.sigN)
			rec.mu.Unlock()
			if v == 0 && viol == 0 {
				rec.herr(p, -1, "nothing observed for required event "+k)
			}
		}
	}
	rec.mu.Lock()
	cnt := map[string]int{}
	for k, v := range rec.cnt {
		cnt[k] = v
	}
	d := len(rec.dist)
	samp := append([]string{}, rec.samp...)
	rec.mu.Unlock()
	rec.put(record{T: "stat", Part: p.Name, Cnt: cnt, Dist: d, Cases: int(done), Samp: samp, Secs: time.Since(t0).Seconds()})
}

// watchdog ends the process when a case makes no progress for a long time.
// The verdict is taken from the goroutine states (see judgeHang), not from the
// clock.
func watchdog(rec *recorder) {
	for {
		time.Sleep(5 * time.Second)
		runMu.Lock()
		var worst running
		for _, r := range runSet {
			if worst.part == nil || r.start.Before(worst.start) {
				worst = r
			}
		}
		runMu.Unlock()
		if worst.part != nil && time.Since(worst.start) > hangAge {
			buf := make([]byte, 16<<20)
			buf = buf[:runtime.Stack(buf, true)]
			sig, dump := judgeHang(string(buf))
			if sig != "" {
				rec.put(record{T: "viol", Part: worst.part.Name, Case: worst.n, Sig: sig,
					Msg: "deadlock: every goroutine inside the code under test waits on a lock or channel\n" + dump})
			} else if fn, why := judgeSpin(); fn != "" {
				rec.put(record{T: "viol", Part: worst.part.Name, Case: worst.n, Sig: "hang:" + fn,
					Msg: fmt.Sprintf("a call into the code under test does not come back: it kept running for %v (cases take seconds)\n", hangAge) + why})
			} else {
				rec.put(record{T: "herr", Part: worst.part.Name, Case: worst.n, Msg: "case exceeded the watchdog (inconclusive)\n" + dump})
			}
			os.Exit(9)
		}
	}
}

// judgeHang looks for goroutines that are inside the code under test.  If all
// of them have been blocked on a lock/channel for at least a minute, nothing can wake them:
// a deadlock.  Anything else is inconclusive.
func judgeHang(dump string) (string, string) {
	var stuck []string
	fns := map[string]bool{}
	for _, g := range strings.Split(dump, "\n\n") {
		if !strings.Contains(g, modPath) {
			continue
		}
		head := g
		if i := strings.Index(g, "\n"); i >= 0 {
			head = g[:i]
		}
		blocked := false
		for _, s := range []string{"sync.Mutex.Lock", "sync.RWMutex", "semacquire", "chan receive", "chan send", "sync.WaitGroup", "sync.Cond"} {
			if strings.Contains(head, s) {
				blocked = true
			}
		}
		if !blocked || !strings.Contains(head, "minutes") {
			return "", dumpCut(dump)
		}
		stuck = append(stuck, g)
		for _, l := range strings.Split(g, "\n") {
			if strings.Contains(l, modPath) && !strings.HasPrefix(l, "\t") {
				fns[frameFunc(l)] = true
				break
			}
		}
	}
	if len(stuck) == 0 {
		return "", dumpCut(dump)
	}
	var names []string
	for f := range fns {
		names = append(names, f)
	}
	sort.Strings(names)
	return "deadlock:" + strings.Join(names, "|"), dumpCut(strings.Join(stuck, "\n\n"))
}

// judgeSpin finds the call from the harness into the code under test during
// which a goroutine was seen busy in the same call over several samples.
func judgeSpin() (fn, stack string) {
	var cand map[string]string
	for i := 0; i < 6; i++ {
		buf := make([]byte, 16<<20)
		buf = buf[:runtime.Stack(buf, true)]
		now := map[string]string{}
		for _, g := range strings.Split(string(buf), "\n\n") {
			ls := strings.Split(g, "\n")
			if !strings.Contains(ls[0], "[runnable") && !strings.Contains(ls[0], "[running") || len(ls) < 2 {
				continue
			}
			id := strings.SplitN(ls[0], " [", 2)[0]
			outer := ""
			for _, l := range ls[1:] {
				if strings.HasPrefix(l, "\t") {
					continue
				}
				if strings.Contains(l, modPath) && !strings.HasPrefix(l, "created by") {
					outer = l // with its arguments: the same call
				}
				if strings.HasPrefix(l, "main.") {
					break
				}
			}
			if outer != "" {
				now[id+" "+outer] = g
			}
		}
		if cand == nil {
			cand = now
		} else {
			for k := range cand {
				if _, ok := now[k]; !ok {
					delete(cand, k)
				}
			}
		}
		time.Sleep(2 * time.Second)
	}
	for k, g := range cand {
		return frameFunc(strings.SplitN(k, " ", 3)[2]), dumpCut(g)
	}
	return "", ""
}

func dumpCut(s string) string {
	if len(s) > 20000 {
		return s[:20000]
	}
	return s
}
