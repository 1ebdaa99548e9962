package main

// Fault-injecting storage: wraps a db.Storage; a controller decides at every
// storage call whether it fails, or whether the process "stops" there (a panic
// with a sentinel value that the harness recovers; afterwards the wrapped
// storage holds what a restarted process would find).

import (
	"errors"
	"fmt"
	"sync"

	"github.com/iden3/go-iden3-core/db"
)

var errInjected = errors.New("injected storage failure")

type crashSignal struct{ at string }

type faultKind int

const (
	fkNone        faultKind = iota
	fkError                 // the call returns an error and has no effect
	fkErrorAfter            // (commit only) the call takes effect and returns an error
	fkCrashBefore           // the process stops before the call takes effect
	fkCrashAfter            // the process stops after the call took effect
)

func (k faultKind) String() string {
	return [...]string{"none", "error", "error-after-effect", "crash-before", "crash-after"}[k]
}

// faultCtl counts the calls of the kinds it watches and fires at the k-th.
type faultCtl struct {
	mu      sync.Mutex
	n       int // calls seen while armed
	at      int // fire at this call (0-based), -1: never
	kind    faultKind
	watch   func(op string) bool
	sticky  bool // every call from `at` on fails
	armed   bool
	dead    bool // after a crash nothing reaches the storage any more
	fired   bool
	firedOp string
	ops     []string
	noTrace bool
}

func newCtl() *faultCtl { return &faultCtl{at: -1} }

func (f *faultCtl) arm(at int, kind faultKind, watch func(string) bool) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.n, f.at, f.kind, f.watch, f.armed, f.fired, f.dead, f.firedOp = 0, at, kind, watch, true, false, false, ""
	f.ops = nil
	f.sticky = false
}

func (f *faultCtl) disarm() {
	f.mu.Lock()
	f.armed = false
	f.mu.Unlock()
}

// hit is called at every operation; it returns the fault to apply.
func (f *faultCtl) hit(op string) faultKind {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.dead {
		panic(crashSignal{"dead:" + op})
	}
	if !f.armed {
		return fkNone
	}
	if f.watch != nil && !f.watch(op) {
		return fkNone
	}
	i := f.n
	f.n++
	if !f.noTrace && len(f.ops) < 2000 {
		f.ops = append(f.ops, op)
	}
	if f.at >= 0 && (i == f.at || (f.sticky && i > f.at)) {
		if !f.fired {
			f.firedOp = op
		}
		f.fired = true
		return f.kind
	}
	return fkNone
}

func (f *faultCtl) crash(op string) {
	f.mu.Lock()
	f.dead = true
	f.mu.Unlock()
	panic(crashSignal{op})
}

// runCrash runs fn and reports whether the injected crash stopped it.
func runCrash(fn func()) (crashed bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(crashSignal); ok {
				crashed = true
				return
			}
			panic(r)
		}
	}()
	fn()
	return false
}

type faultStore struct {
	s    db.Storage
	ctl  *faultCtl
	name string
}

func newFaultStore(s db.Storage, ctl *faultCtl) *faultStore { return &faultStore{s: s, ctl: ctl} }

func (f *faultStore) gate(op string) error {
	switch k := f.ctl.hit(op); k {
	case fkError, fkErrorAfter:
		return fmt.Errorf("%w (%s)", errInjected, op)
	case fkCrashBefore, fkCrashAfter:
		f.ctl.crash(op)
	}
	return nil
}

func (f *faultStore) NewTx() (db.Tx, error) {
	if err := f.gate("newtx"); err != nil {
		return nil, err
	}
	tx, err := f.s.NewTx()
	if err != nil {
		return nil, err
	}
	return &faultTx{tx: tx, f: f}, nil
}

func (f *faultStore) WithPrefix(p []byte) db.Storage {
	return &faultStore{s: f.s.WithPrefix(p), ctl: f.ctl, name: f.name + string(p)}
}

func (f *faultStore) Get(k []byte) ([]byte, error) {
	if err := f.gate("get"); err != nil {
		return nil, err
	}
	return f.s.Get(k)
}

func (f *faultStore) List(n int) ([]db.KV, error) {
	if err := f.gate("list"); err != nil {
		return nil, err
	}
	return f.s.List(n)
}

func (f *faultStore) Close()       { f.s.Close() }
func (f *faultStore) Info() string { return f.s.Info() }

func (f *faultStore) Iterate(fn func([]byte, []byte) (bool, error)) error {
	if err := f.gate("iterate"); err != nil {
		return err
	}
	return f.s.Iterate(fn)
}

type faultTx struct {
	tx   db.Tx
	f    *faultStore
	puts int
}

func (t *faultTx) Get(k []byte) ([]byte, error) {
	if err := t.f.gate("txget"); err != nil {
		return nil, err
	}
	return t.tx.Get(k)
}

func (t *faultTx) Put(k, v []byte) {
	t.puts++
	t.tx.Put(k, v)
}

func (t *faultTx) Add(o db.Tx) {
	if ft, ok := o.(*faultTx); ok {
		t.tx.Add(ft.tx)
		return
	}
	t.tx.Add(o)
}

func (t *faultTx) Commit() error {
	op := "commit:" + t.f.name
	switch k := t.f.ctl.hit(op); k {
	case fkError:
		t.tx.Close()
		return fmt.Errorf("%w (%s)", errInjected, op)
	case fkErrorAfter:
		if err := t.tx.Commit(); err != nil {
			return err
		}
		return fmt.Errorf("%w after effect (%s)", errInjected, op)
	case fkCrashBefore:
		t.f.ctl.crash(op)
	case fkCrashAfter:
		if err := t.tx.Commit(); err != nil {
			return err
		}
		t.f.ctl.crash(op)
	}
	return t.tx.Commit()
}

func (t *faultTx) Close() { t.tx.Close() }
