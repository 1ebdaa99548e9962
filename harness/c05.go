package main

import (
	"bytes"
	"errors"
	"fmt"

	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/merkletree"
)

func init() {
	rules["C05"] = "each case takes one tree operation on one generated tree, counts the storage calls it makes, and runs it again once per call and fault kind (error, error after effect, every later call failing, stop before, stop after); afterwards live tree and reopened tree are compared with the tree before and after, and the operation is repeated; distinct = distinct (operation, tree, call number, kind)"
	reg(Part{Prop: "C05", Name: "write", Quick: 64, Thorough: 900, Need: []string{"faults_fired", "crashes", "errors", "retried", "old_state", "new_state"}, Run: c05write})
	reg(Part{Prop: "C05", Name: "read", Quick: 48, Thorough: 500, Need: []string{"faults_fired", "read_errors"}, Run: c05read})
	reg(Part{Prop: "C05", Name: "open", Quick: 24, Thorough: 200, Need: []string{"faults_fired", "errors"}, Run: c05open})
	reg(Part{Prop: "C05", Name: "closed", Quick: 10, Thorough: 60, Need: []string{"read_errors"}, Run: c05closed})
}

func copyStore(c *C, s db.Storage) *db.MemoryStorage {
	kvs, err := s.List(1 << 30)
	c.Must(err, "list")
	n := db.NewMemoryStorage()
	tx, err := n.NewTx()
	c.Must(err, "tx")
	for _, kv := range kvs {
		tx.Put(kv.K, kv.V)
	}
	c.Must(tx.Commit(), "commit")
	return n
}

var faultKinds = []faultKind{fkError, fkErrorAfter, fkCrashBefore, fkCrashAfter}

func c05write(c *C) {
	u := universe(3000)
	ml := 140
	k := c.R.Intn(10)
	pool := u.pick(c.R, k+4)
	base := db.NewMemoryStorage()
	mt, err := merkletree.NewMerkleTree(base, ml)
	c.Assert(err == nil, "new", "%v", err)
	before := newRefTree(ml)
	for _, e := range pool[:k] {
		c.Assert(mt.AddEntry(e.entry()) == nil, "add", "add")
		before.m[e.hi] = e
	}
	after := before.clone()
	var name string
	var op func(t *merkletree.MerkleTree) error
	var steps []*refTree // acceptable intermediate states of multi-step operations
	switch c.N % 4 {
	case 0, 1:
		name = "AddEntry"
		e := pool[k]
		after.m[e.hi] = e
		op = func(t *merkletree.MerkleTree) error { return t.AddEntry(e.entry()) }
	case 2:
		name = "ImportTree"
		es := append([]*rent{}, pool[k:]...)
		if k > 0 && c.R.Intn(2) == 0 {
			es = append(es, pool[:1+c.R.Intn(k)]...)
		}
		src, r, _ := buildTree(c, ml, es)
		after = r
		var buf bytes.Buffer
		c.Assert(src.DumpTree(&buf, nil) == nil, "dump", "dump")
		op = func(t *merkletree.MerkleTree) error { return t.ImportTree(bytes.NewReader(buf.Bytes())) }
	case 3:
		name = "ImportDumpedClaims"
		var hex []string
		for _, e := range pool[k : k+3] {
			hex = append(hex, e.hex())
			after.m[e.hi] = e
			steps = append(steps, after.clone())
		}
		done := 0
		op = func(t *merkletree.MerkleTree) error {
			// a repetition continues where the tree stands
			done = 0
			for done < 3 {
				if t.EntryExists(pool[k+done].entry(), nil) != nil {
					break
				}
				done++
			}
			return t.ImportDumpedClaims(hex[done:])
		}
	}
	probe := pool
	if len(probe) > 5 {
		probe = probe[len(probe)-5:]
	}
	// dry run
	ctl := newCtl()
	fs := newFaultStore(copyStore(c, base), ctl)
	t, err := merkletree.NewMerkleTree(fs, ml)
	c.Assert(err == nil, "open", "%v", err)
	ctl.arm(-1, fkNone, nil)
	c.Assert(op(t) == nil, "dry", "%s without faults failed", name)
	ctl.disarm()
	sameTree(c, t, after, probe, "dry")
	n := ctl.n
	ops := append([]string{}, ctl.ops...)
	c.Logf("%s on %d entries makes %d storage calls: %v", name, k, n, ops)
	c.Sample("%s on %d entries: %d storage calls %v", name, k, n, ops)
	isState := func(root h32) *refTree {
		for _, s := range append([]*refTree{before, after}, steps...) {
			if s.root() == root {
				return s
			}
		}
		return nil
	}
	for i := 0; i < n; i++ {
		for _, kind := range faultKinds {
			isCommit := len(ops[i]) >= 6 && ops[i][:6] == "commit"
			if (kind == fkErrorAfter || kind == fkCrashAfter) && !isCommit {
				continue
			}
			for _, sticky := range []bool{false, true} {
				if sticky && kind != fkError {
					continue
				}
				c.Distinct("%s|%x|%d|%d|%v", name, before.root(), i, kind, sticky)
				ctx := fmt.Sprintf("%s, %v at storage call %d (%s)", name, kind, i, ops[i])
				ctl := newCtl()
				ctl.noTrace = true
				mem := copyStore(c, base)
				fs := newFaultStore(mem, ctl)
				t, err := merkletree.NewMerkleTree(fs, ml)
				c.Assert(err == nil, "open", "%v", err)
				ctl.arm(i, kind, nil)
				ctl.sticky = sticky
				var oerr error
				crashed := runCrash(func() { oerr = op(t) })
				fired := ctl.fired
				ctl.disarm()
				if fired {
					c.Count("faults_fired", 1)
				}
				re, err := merkletree.NewMerkleTree(mem, ml)
				c.Assert(err == nil, "reopen", "%s: the storage does not open: %v", ctx, err)
				st := isState(h32(*re.RootKey()))
				c.Assert(st != nil, "torn-root", "%s: the reopened root %x is neither the old nor the new one", ctx, h32(*re.RootKey()))
				sameTree(c, re, st, probe, "reopened")
				if st == before {
					c.Count("old_state", 1)
				} else {
					c.Count("new_state", 1)
				}
				if crashed {
					c.Count("crashes", 1)
					if kind == fkCrashAfter && isCommit && len(steps) == 0 {
						c.Assert(st == after, "lost", "%s: the committed operation is not there", ctx)
					}
					// the restarted process repeats the operation
					if st != after {
						err := op(re)
						c.Assert(err == nil, "retry-after-crash", "%s: repeating the operation after a restart: %v", ctx, err)
					}
					sameTree(c, re, after, probe, "retry-after-crash")
					c.Count("retried", 1)
					continue
				}
				if oerr == nil {
					sameTree(c, t, after, probe, "success")
					c.Assert(st == after, "not-durable", "%s: reported success, but the storage holds the old tree", ctx)
					continue
				}
				c.Count("errors", 1)
				if kind == fkError {
					c.Assert(h32(*t.RootKey()) == st.root(), "live-differs", "%s: the live tree has root %x, its storage %x", ctx, h32(*t.RootKey()), st.root())
					sameTree(c, t, st, probe, "live-after-error")
					if len(steps) == 0 {
						c.Assert(st == before, "error-applied", "%s: reported an error but was applied", ctx)
					}
				} else {
					s := isState(h32(*t.RootKey()))
					c.Assert(s != nil, "live-torn", "%s: the live root is neither the old nor the new one", ctx)
					sameTree(c, t, s, probe, "live-after-error")
				}
				// repeat with a working storage
				err = op(t)
				c.Assert(err == nil, "retry", "%s: repeating the operation: %v", ctx, err)
				sameTree(c, t, after, probe, "retry")
				re, err = merkletree.NewMerkleTree(mem, ml)
				c.Assert(err == nil, "reopen", "%v", err)
				sameTree(c, re, after, probe, "retry-reopened")
				c.Count("retried", 1)
			}
		}
	}
}

func c05read(c *C) {
	u := universe(3000)
	k := 1 + c.R.Intn(14)
	pool := u.pick(c.R, k+4)
	ctl := newCtl()
	ctl.noTrace = true
	fs := newFaultStore(db.NewMemoryStorage(), ctl)
	mt, err := merkletree.NewMerkleTree(fs, 140)
	c.Assert(err == nil, "new", "%v", err)
	ref := newRefTree(140)
	for _, e := range pool[:k] {
		c.Assert(mt.AddEntry(e.entry()) == nil, "add", "add")
		ref.m[e.hi] = e
	}
	root := ref.root()
	var wc []string
	for _, e := range ref.list() {
		wc = append(wc, e.hex())
	}
	type rd struct {
		name string
		f    func() (absent bool, right bool, err error)
	}
	var reads []rd
	for _, e := range append(append([]*rent{}, pool[:2]...), pool[k:k+2]...) {
		e := e
		_, in := ref.m[e.hi]
		reads = append(reads, rd{"GetDataByIndex", func() (bool, bool, error) {
			d, err := mt.GetDataByIndex(hsh(e.hi))
			return err == merkletree.ErrEntryIndexNotFound, err == nil && in && rentOf(d) == e.d, err
		}}, rd{"EntryExists", func() (bool, bool, error) {
			err := mt.EntryExists(e.entry(), nil)
			return err == merkletree.ErrEntryIndexNotFound || err == merkletree.ErrEntryDataNotMatch, err == nil && in, err
		}}, rd{"EntryExists(root)", func() (bool, bool, error) {
			err := mt.EntryExists(e.entry(), hsh(root))
			return err == merkletree.ErrEntryIndexNotFound || err == merkletree.ErrEntryDataNotMatch, err == nil && in, err
		}}, rd{"GenerateProof", func() (bool, bool, error) {
			p, err := mt.GenerateProof(hsh(e.hi), nil)
			if err != nil {
				return err == merkletree.ErrEntryIndexNotFound, false, err
			}
			return !p.Existence && in, p.Existence == in && merkletree.VerifyProof(hsh(root), p, hsh(e.hi), hsh(e.hv)), nil
		}})
	}
	reads = append(reads, rd{"DumpClaims", func() (bool, bool, error) {
		dc, err := mt.DumpClaims(nil)
		return false, sameSet(dc, wc), err
	}}, rd{"DumpClaimsIoWriter", func() (bool, bool, error) {
		var b bytes.Buffer
		err := mt.DumpClaimsIoWriter(&b, nil)
		return false, sameSet(quoted(b.String()), wc), err
	}}, rd{"Walk", func() (bool, bool, error) {
		n := 0
		err := mt.Walk(nil, func(n0 *merkletree.Node) {
			if n0.Type == merkletree.NodeTypeLeaf {
				n++
			}
		})
		return false, n == len(ref.m), err
	}}, rd{"DumpTree", func() (bool, bool, error) {
		var b bytes.Buffer
		err := mt.DumpTree(&b, nil)
		rs, ok := parseDump(b.Bytes())
		_, full := dumpComplete(rs, 140)
		return false, ok && full, err
	}}, rd{"Snapshot", func() (bool, bool, error) {
		s, err := mt.Snapshot(hsh(root))
		return false, err == nil && h32(*s.RootKey()) == root, err
	}}, rd{"GraphViz", func() (bool, bool, error) {
		var b bytes.Buffer
		err := mt.GraphViz(&b, nil)
		return false, bytes.Count(b.Bytes(), []byte("[style=filled]")) == len(ref.m), err
	}})
	for _, r := range reads {
		ctl.arm(-1, fkNone, nil)
		r.f()
		n := ctl.n
		for i := 0; i < n; i++ {
			c.Distinct("%s|%x|%d", r.name, root, i)
			ctl.arm(i, fkError, nil)
			absent, right, err := r.f()
			fired := ctl.fired
			ctl.disarm()
			if !fired {
				continue
			}
			c.Count("faults_fired", 1)
			c.Assert(!absent, "absence:"+r.name, "%s reports absence because storage call %d failed: %v", r.name, i, err)
			if err == nil {
				c.Assert(right, "wrong:"+r.name, "%s gives a wrong result without error when storage call %d fails", r.name, i)
			} else {
				c.Count("read_errors", 1)
			}
		}
	}
	// the live tree is not affected by failed reads
	sameTree(c, mt, ref, pool, "after-reads")
	// dumping to a failing writer reports the error
	for lim := 0; lim < 400; lim += 37 {
		w := &limitWriter{n: lim}
		err := mt.DumpTree(w, nil)
		c.Assert(err != nil || !w.failed, "dump-writer", "DumpTree reports success although the writer failed after %d bytes", lim)
	}
}

type limitWriter struct {
	n      int
	failed bool
}

func (w *limitWriter) Write(p []byte) (int, error) {
	if len(p) > w.n {
		w.failed = true
		return 0, errors.New("writer full")
	}
	w.n -= len(p)
	return len(p), nil
}

func c05open(c *C) {
	u := universe(3000)
	k := c.R.Intn(6)
	pool := u.pick(c.R, k+3)
	base := db.NewMemoryStorage()
	ref := newRefTree(140)
	fresh := k == 0
	if !fresh {
		mt, err := merkletree.NewMerkleTree(base, 140)
		c.Assert(err == nil, "new", "%v", err)
		for _, e := range pool[:k] {
			c.Assert(mt.AddEntry(e.entry()) == nil, "add", "add")
			ref.m[e.hi] = e
		}
	}
	for i := 0; i < 6; i++ {
		for _, kind := range faultKinds {
			ctl := newCtl()
			mem := copyStore(c, base)
			ctl.arm(i, kind, nil)
			var mt *merkletree.MerkleTree
			var err error
			crashed := runCrash(func() { mt, err = merkletree.NewMerkleTree(newFaultStore(mem, ctl), 140) })
			fired := ctl.fired
			ctl.disarm()
			if !fired {
				continue
			}
			c.Distinct("%x|%d|%d", ref.root(), i, kind)
			c.Count("faults_fired", 1)
			if !crashed && err == nil {
				sameTree(c, mt, ref, pool, "open-despite-fault")
			} else if !crashed {
				c.Count("errors", 1)
			}
			re, err := merkletree.NewMerkleTree(mem, 140)
			c.Assert(err == nil, "reopen", "the storage does not open after a fault at opening: %v", err)
			sameTree(c, re, ref, pool, "reopened")
			err = re.AddEntry(pool[k].entry())
			c.Assert(err == nil, "grow", "%v", err)
		}
	}
	// garbage instead of the root record is reported, not overwritten
	if !fresh {
		for _, g := range [][]byte{{}, {3}, {3, 1, 2, 3}, bytes.Repeat([]byte{7}, 20)} {
			mem := copyStore(c, base)
			tx, _ := mem.NewTx()
			tx.Put([]byte("currentroot"), g)
			c.Must(tx.Commit(), "commit")
			mt, err := merkletree.NewMerkleTree(mem, 140)
			c.Assert(err != nil, "garbage-root", "a garbled root record (%x) is taken as root %v", g, mt != nil)
			v, _ := mem.Get([]byte("currentroot"))
			c.Assert(bytes.Equal(v, g), "garbage-overwritten", "a garbled root record was overwritten at opening")
		}
	}
	c.Sample("open with %d entries", k)
}

// c05closed: a LevelDB storage that was closed under a live tree.
func c05closed(c *C) {
	u := universe(3000)
	k := 1 + c.R.Intn(6)
	pool := u.pick(c.R, k+2)
	st := openStore(c, 2+c.R.Intn(2))
	mt, err := merkletree.NewMerkleTree(st.s, 140)
	c.Assert(err == nil, "new", "%v", err)
	ref := newRefTree(140)
	for _, e := range pool[:k] {
		c.Assert(mt.AddEntry(e.entry()) == nil, "add", "add")
		ref.m[e.hi] = e
	}
	n := st.reopen(c)
	defer n.close()
	// mt still uses the closed handle
	_, err = mt.GetDataByIndex(hsh(pool[0].hi))
	c.Assert(err != nil && err != merkletree.ErrEntryIndexNotFound, "closed-read", "lookup on a closed storage: %v", err)
	p, err := mt.GenerateProof(hsh(pool[0].hi), nil)
	c.Assert(err != nil && err != merkletree.ErrEntryIndexNotFound, "closed-proof", "proof on a closed storage: %v (%v)", err, p != nil)
	c.Assert(mt.AddEntry(pool[k].entry()) != nil, "closed-add", "insertion on a closed storage succeeded")
	_, err = merkletree.NewMerkleTree(st.s, 140)
	c.Assert(err != nil, "closed-open", "a tree opens on a closed storage")
	c.Assert(h32(*mt.RootKey()) == ref.root(), "closed-root", "failed insertion changed the root")
	c.Count("read_errors", 4)
	re, err := merkletree.NewMerkleTree(n.s, 140)
	c.Assert(err == nil, "reopen", "%v", err)
	sameTree(c, re, ref, pool, "reopened")
	c.Distinct("%x", ref.root())
}
