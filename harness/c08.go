package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/bits"
	"math/rand"
	"runtime"
	"sync"
	"time"

	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/merkletree"
)

func init() {
	rules["C08"] = "4 to 6 goroutines insert (also entries already there, and other values under an index already there), look up, prove, walk, dump, import an older dump, snapshot, verify under roots they saw earlier and reopen the tree from its storage, over a memory or LevelDB storage that delays its answers at random; the recorded history with its real-time order is checked for linearizability against a set-of-entries model whose root is recomputed independently, and what the tree holds at the end must be the last state of that model; the same runs in a race-detector build; distinct = distinct final orders of results"
	assumptions["C08"] = []string{
		"goroutines share the tree, not the Entry, Node and Proof values they pass or get, which cache hashes without locking",
		"schedules are those the Go scheduler and random delays at the storage produce, not all",
	}
	need := []string{"history", "acknowledged", "refused_present", "proof", "walk", "old_root", "overlapping"}
	reg(Part{Prop: "C08", Name: "linear", Quick: 2500, Thorough: 6000, Need: append(need, "import", "reopened"), Run: c08linear})
	reg(Part{Prop: "C08", Name: "linear-race", Race: true, Quick: 240, Thorough: 4000, Need: append(need, "import", "reopened"), Run: c08linear})
	reg(Part{Prop: "C08", Name: "storm", Quick: 50, Thorough: 200, Need: []string{"inserted", "lost_to_twin", "root_seen", "root_proved"}, Run: c08storm})
	reg(Part{Prop: "C08", Name: "storm-race", Race: true, Quick: 20, Thorough: 200, Need: []string{"inserted", "lost_to_twin", "root_seen", "root_proved"}, Run: c08storm})
	reg(Part{Prop: "C08", Name: "twotrees-race", Race: true, Quick: 30, Thorough: 400, Need: []string{"inserted"}, Run: c08two})
}

// lazyStore answers late now and then.  It shares nothing between goroutines
// that would order them.
type lazyStore struct {
	db.Storage
	rate int
}

func (s lazyStore) nap() {
	switch n := rand.Intn(100); {
	case n >= s.rate:
	case n%4 == 0:
		time.Sleep(time.Duration(rand.Intn(150)) * time.Microsecond)
	default:
		runtime.Gosched()
	}
}

func (s lazyStore) Get(k []byte) ([]byte, error) {
	s.nap()
	v, err := s.Storage.Get(k)
	s.nap()
	return v, err
}
func (s lazyStore) WithPrefix(p []byte) db.Storage {
	return lazyStore{s.Storage.WithPrefix(p), s.rate}
}
func (s lazyStore) NewTx() (db.Tx, error) {
	s.nap()
	tx, err := s.Storage.NewTx()
	if err != nil {
		return nil, err
	}
	return lazyTx{tx, s}, nil
}

type lazyTx struct {
	db.Tx
	s lazyStore
}

func (t lazyTx) Get(k []byte) ([]byte, error) { t.s.nap(); return t.Tx.Get(k) }
func (t lazyTx) Commit() error {
	t.s.nap()
	err := t.Tx.Commit()
	t.s.nap()
	return err
}
func (t lazyTx) Add(o db.Tx) {
	if l, ok := o.(lazyTx); ok {
		o = l.Tx
	}
	t.Tx.Add(o)
}

// maskTree computes the roots of subsets of a few entries.
type maskTree struct {
	es   []*rent
	memo map[[2]uint64]h32
}

func (m *maskTree) root(mask uint64) h32 { return m.at(mask, 0) }

func (m *maskTree) at(mask uint64, lvl int) h32 {
	switch bits.OnesCount64(mask) {
	case 0:
		return h32{}
	case 1:
		return m.es[bits.TrailingZeros64(mask)].leaf
	}
	k := [2]uint64{mask, uint64(lvl)}
	if h, ok := m.memo[k]; ok {
		return h
	}
	var l, r uint64
	for i, e := range m.es {
		if mask>>uint(i)&1 == 1 {
			if bitOf(e.hi, lvl) {
				r |= 1 << uint(i)
			} else {
				l |= 1 << uint(i)
			}
		}
	}
	h := refMid(m.at(l, lvl+1), m.at(r, lvl+1))
	m.memo[k] = h
	return h
}

// sharing tells which entries of mask have the index of e.
func (m *maskTree) sharing(mask uint64, e *rent) uint64 {
	for i, x := range m.es {
		if mask>>uint(i)&1 == 1 && x.hi == e.hi {
			return 1 << uint(i)
		}
	}
	return 0
}

func c08linear(c *C) {
	u := universe(600)
	k := 3 + c.R.Intn(6)
	es := u.pick(c.R, k)
	for i := 0; i < 1+c.R.Intn(2); i++ {
		x := altValue(c, es[c.R.Intn(k)])
		for _, e := range es[k:] {
			if e.d == x.d {
				x = nil
				break
			}
		}
		if x != nil {
			es = append(es, x)
		}
	}
	m := &maskTree{es, map[[2]uint64]h32{}}
	st := openStore(c, storeKind(c))
	store := lazyStore{st.s, []int{0, 5, 30}[c.R.Intn(3)]}
	ml := []int{140, 60, 240}[c.R.Intn(3)]
	mt, err := merkletree.NewMerkleTree(store, ml)
	c.Assert(err == nil, "new", "%v", err)
	var init uint64
	for i := 0; i < c.R.Intn(4); i++ {
		e := c.R.Intn(len(es))
		if m.sharing(init, es[e]) == 0 {
			c.Assert(mt.AddEntry(es[e].entry()) == nil, "add", "insert")
			init |= 1 << uint(e)
		}
	}
	// dumps to import
	type dump struct {
		mask uint64
		b    []byte
	}
	var dumps []dump
	if c.R.Intn(3) == 0 {
		for i := 0; i < 2; i++ {
			var l []*rent
			var mask uint64
			for j, e := range es {
				if m.sharing(mask, e) == 0 && c.R.Intn(3) == 0 {
					mask |= 1 << uint(j)
					l = append(l, e)
				}
			}
			t, _, _ := buildTree(c, ml, l)
			var w bytes.Buffer
			c.Assert(t.DumpTree(&w, nil) == nil, "dump", "DumpTree fails")
			dumps = append(dumps, dump{mask, w.Bytes()})
		}
	}
	nG := 4 + c.R.Intn(3)
	nOps := 4 + c.R.Intn(7)
	hist := make([][]linOp, nG)
	start := make(chan struct{})
	roots := make([][]h32, nG)
	for g := 0; g < nG; g++ {
		g := g
		r := newRand(c.R.Int63())
		c.Go(func() {
			t := tally{}
			defer t.flush(c)
			<-start
			do := func(name string, f func() func(mask uint64) []uint64) {
				inv := linNow()
				step := f()
				ret := linNow()
				hist[g] = append(hist[g], linOp{inv, ret, name, func(s interface{}) []interface{} {
					var o []interface{}
					for _, x := range step(s.(uint64)) {
						o = append(o, x)
					}
					return o
				}})
			}
			same := func(ok func(mask uint64) bool) func(uint64) []uint64 {
				return func(mask uint64) []uint64 {
					if ok(mask) {
						return []uint64{mask}
					}
					return nil
				}
			}
			keep := func(h h32) {
				roots[g] = append(roots[g], h)
			}
			claims := func(list []string) (uint64, bool) {
				var mask uint64
				for _, s := range list {
					found := false
					for i, e := range es {
						if e.hex() == s {
							found = mask>>uint(i)&1 == 0
							mask |= 1 << uint(i)
						}
					}
					if !found {
						return 0, false
					}
				}
				return mask, true
			}
			for n := 0; n < nOps; n++ {
				i := r.Intn(len(es))
				e := es[i]
				bit := uint64(1) << uint(i)
				if r.Intn(8) == 0 {
					runtime.Gosched()
				}
				switch op := r.Intn(20); {
				case op < 7:
					do(fmt.Sprintf("add(%d)", i), func() func(uint64) []uint64 {
						x := e.entry()
						var err error
						if r.Intn(3) == 0 {
							err = mt.AddClaim(entrier{x})
						} else if r.Intn(6) == 0 {
							err = mt.ImportDumpedClaims([]string{e.hex()})
						} else {
							err = mt.AddEntry(x)
						}
						switch err {
						case nil:
							t["acknowledged"]++
							return func(mask uint64) []uint64 {
								if m.sharing(mask, e) != 0 {
									return nil
								}
								return []uint64{mask | bit}
							}
						case merkletree.ErrEntryIndexAlreadyExists:
							t["refused_present"]++
							return same(func(mask uint64) bool { return m.sharing(mask, e) != 0 })
						}
						c.Fail("c08:add", "inserting entry %d: %v", i, err)
						return nil
					})
				case op < 9:
					do("root", func() func(uint64) []uint64 {
						h := h32(*mt.RootKey())
						keep(h)
						return same(func(mask uint64) bool { return m.root(mask) == h })
					})
				case op == 9:
					do("reopen", func() func(uint64) []uint64 {
						mt2, err := merkletree.NewMerkleTree(store, ml)
						c.Assert(err == nil, "c08:reopen", "another handle: %v", err)
						h := h32(*mt2.RootKey())
						t["reopened"]++
						return same(func(mask uint64) bool { return m.root(mask) == h })
					})
				case op < 12:
					do(fmt.Sprintf("get(%d)", i), func() func(uint64) []uint64 {
						d, err := mt.GetDataByIndex(hsh(e.hi))
						if err == merkletree.ErrEntryIndexNotFound {
							return same(func(mask uint64) bool { return m.sharing(mask, e) == 0 })
						}
						c.Assert(err == nil, "c08:get", "lookup of entry %d: %v", i, err)
						got := rentOf(d)
						return same(func(mask uint64) bool {
							s := m.sharing(mask, e)
							return s != 0 && es[bits.TrailingZeros64(s)].d == got
						})
					})
				case op == 12:
					do(fmt.Sprintf("exists(%d)", i), func() func(uint64) []uint64 {
						err := mt.EntryExists(e.entry(), nil)
						switch {
						case err == nil:
							return same(func(mask uint64) bool { return mask&bit != 0 })
						case err == merkletree.ErrEntryDataNotMatch:
							return same(func(mask uint64) bool { s := m.sharing(mask, e); return s != 0 && s != bit })
						case err == merkletree.ErrEntryIndexNotFound:
							return same(func(mask uint64) bool { return m.sharing(mask, e) == 0 })
						}
						c.Fail("c08:exists", "EntryExists of entry %d: %v", i, err)
						return nil
					})
				case op < 15:
					do(fmt.Sprintf("proof(%d)", i), func() func(uint64) []uint64 {
						p, err := mt.GenerateProof(hsh(e.hi), nil)
						c.Assert(err == nil, "c08:proof", "proof for entry %d: %v", i, err)
						q := parseProof(p.Bytes())
						c.Assert(q != nil, "c08:proof_bytes", "proof does not parse: %x", p.Bytes())
						t["proof"]++
						// the proof leads to a root with one of the values of the index
						type alt struct {
							b uint64
							h h32
						}
						var alts []alt
						for j, x := range es {
							if x.hi == e.hi {
								if h, ok := q.root(x.hi, x.hv); ok {
									alts = append(alts, alt{1 << uint(j), h})
								}
							}
						}
						return same(func(mask uint64) bool {
							s := m.sharing(mask, e)
							if q.exist != (s != 0) {
								return false
							}
							for _, a := range alts {
								if (!q.exist || s == a.b) && m.root(mask) == a.h {
									return true
								}
							}
							return false
						})
					})
				case op == 15:
					do("claims", func() func(uint64) []uint64 {
						l, err := mt.DumpClaims(nil)
						c.Assert(err == nil, "c08:claims", "DumpClaims: %v", err)
						got, ok := claims(l)
						t["walk"]++
						c.Assert(ok, "c08:claims_foreign", "DumpClaims lists %v", l)
						return same(func(mask uint64) bool { return mask == got })
					})
				case op == 16:
					do("dump", func() func(uint64) []uint64 {
						var w bytes.Buffer
						err := mt.DumpTree(&w, nil)
						c.Assert(err == nil, "c08:dump", "DumpTree: %v", err)
						rs, ok := parseDump(w.Bytes())
						c.Assert(ok, "c08:dump_form", "dump does not parse")
						h, ok := dumpComplete(rs, ml)
						c.Assert(ok, "c08:dump_incomplete", "a dump during writes lacks nodes of its root %x", h)
						t["walk"]++
						keep(h)
						return same(func(mask uint64) bool { return m.root(mask) == h })
					})
				case op == 17 && len(roots[g]) > 0:
					// a root seen earlier stays readable, whatever happens now
					h := roots[g][r.Intn(len(roots[g]))]
					sn, err := mt.Snapshot(hsh(h))
					c.Assert(err == nil, "c08:snapshot", "snapshot of root %x, seen earlier: %v", h, err)
					p, err := sn.GenerateProof(hsh(e.hi), nil)
					c.Assert(err == nil, "c08:snapshot_proof", "proof in a snapshot: %v", err)
					q := parseProof(p.Bytes())
					p2, err := mt.GenerateProof(hsh(e.hi), hsh(h))
					c.Assert(err == nil && bytes.Equal(p2.Bytes(), p.Bytes()), "c08:old_proofs_differ", "proofs under one root differ")
					ok := false
					for _, x := range es {
						if x.hi == e.hi {
							if rt, v := q.root(x.hi, x.hv); v && rt == h {
								ok = true
							}
						}
					}
					c.Assert(ok, "c08:old_root", "a proof under root %x, seen earlier, leads elsewhere", h)
					c.Assert(h32(*sn.RootKey()) == h, "c08:snapshot_moved", "the snapshot has another root")
					c.Assert(errors.Is(sn.AddEntry(e.entry()), merkletree.ErrNotWritable), "c08:snapshot_writable", "a snapshot accepts an entry")
					t["old_root"]++
				case op >= 18 && len(dumps) > 0 && r.Intn(2) == 0:
					do("import", func() func(uint64) []uint64 {
						d := dumps[r.Intn(len(dumps))]
						err := mt.ImportTree(bytes.NewReader(d.b))
						c.Assert(err == nil, "c08:import", "ImportTree: %v", err)
						t["import"]++
						return func(uint64) []uint64 { return []uint64{d.mask} }
					})
				}
			}
		})
	}
	close(start)
	c.Wait()
	if c.Bad() {
		return
	}
	var all []linOp
	for _, h := range hist {
		all = append(all, h...)
	}
	// what is there now
	now := linNow()
	fin := h32(*mt.RootKey())
	t2, err := merkletree.NewMerkleTree(store, ml)
	c.Assert(err == nil && h32(*t2.RootKey()) == fin, "c08:stored_root", "the stored root is not the current root %x (%v)", fin, err)
	l, err := mt.DumpClaims(nil)
	c.Assert(err == nil, "c08:final", "DumpClaims: %v", err)
	var got uint64
	for _, s := range l {
		for i, e := range es {
			if e.hex() == s {
				got |= 1 << uint(i)
			}
		}
	}
	c.Assert(bits.OnesCount64(got) == len(l) && m.root(got) == fin, "c08:final_root", "the final root %x is not that of the entries listed, %b", fin, got)
	for len(all) > 63 {
		all = all[:len(all)-1] // never, by construction
	}
	all = append(all, linOp{now, linNow(), "final", func(s interface{}) []interface{} {
		if s.(uint64) == got {
			return []interface{}{s}
		}
		return nil
	}})
	over := 0
	for i := range all {
		for j := 0; j < i; j++ {
			if all[i].inv < all[j].ret && all[j].inv < all[i].ret {
				over++
			}
		}
	}
	c.Count("overlapping", over)
	ok, states := linCheck(init, all)
	for _, o := range all {
		c.Logf("%d..%d %s", o.inv/1000, o.ret/1000, o.name)
	}
	c.Assert(ok, "c08:not_linearizable", "no order of the %d operations of %d goroutines explains their results (%d states searched)", len(all), nG, states)
	c.Count("history", 1)
	c.Count("lin_states", states)
	c.Distinct("%x %d %d", fin, len(all), over)
	c.Sample("%s levels=%d goroutines=%d ops=%d overlapping pairs=%d states searched=%d", st.name, ml, nG, len(all), over, states)
	st.close()
}

// c08storm: many goroutines insert many entries, each offered by two of them.
func c08storm(c *C) {
	u := universe(600)
	n := 24 + c.R.Intn(24)
	if !c.P.Race {
		n *= 3
	}
	es := u.pick(c.R, n)
	st := openStore(c, storeKind(c))
	store := lazyStore{st.s, []int{0, 5, 20}[c.R.Intn(3)]}
	mt, err := merkletree.NewMerkleTree(store, 140)
	c.Assert(err == nil, "new", "%v", err)
	const nG = 6
	won := make([][]bool, nG)
	var done sync.WaitGroup
	for g := 0; g < nG; g++ {
		g := g
		won[g] = make([]bool, n)
		done.Add(1)
		order := c.R.Perm(n)
		c.Go(func() {
			defer done.Done()
			t := tally{}
			defer t.flush(c)
			for _, i := range order {
				if i%nG != g && (i+1+i/nG)%nG != g {
					continue
				}
				err := mt.AddEntry(es[i].entry())
				switch err {
				case nil:
					won[g][i] = true
					t["inserted"]++
				case merkletree.ErrEntryIndexAlreadyExists:
					t["lost_to_twin"]++
				default:
					c.Fail("c08:storm_add", "inserting entry %d of %d: %v", i, n, err)
				}
				if _, err := mt.GetDataByIndex(hsh(es[i].hi)); err != nil {
					c.Fail("c08:storm_lost", "entry %d, just inserted or found present, is not there: %v", i, err)
				}
			}
		})
	}
	stop := make(chan struct{})
	go func() { done.Wait(); close(stop) }()
	for g := 0; g < 3; g++ {
		r := newRand(c.R.Int63())
		c.Go(func() {
			t := tally{}
			defer t.flush(c)
			have := map[string]bool{}
			var old h32
			for {
				h := h32(*mt.RootKey())
				if h != old {
					t["root_seen"]++
				}
				old = h
				l, err := mt.DumpClaims(hsh(h))
				c.Assert(err == nil, "c08:storm_walk", "walking root %x: %v", h, err)
				now := map[string]bool{}
				for _, s := range l {
					now[s] = true
				}
				c.Assert(len(now) == len(l), "c08:storm_twice", "an entry is listed twice under %x", h)
				for s := range have {
					c.Assert(now[s], "c08:storm_shrunk", "an entry under an earlier root is gone under %x", h)
				}
				have = now
				e := es[r.Intn(n)]
				p, err := mt.GenerateProof(hsh(e.hi), hsh(h))
				c.Assert(err == nil && p.Existence == now[e.hex()] && merkletree.VerifyProof(hsh(h), p, hsh(e.hi), hsh(e.hv)), "c08:storm_proof", "a proof under the root %x just seen does not verify (%v)", h, err)
				t["root_proved"]++
				select {
				case <-stop:
					return
				default:
				}
			}
		})
	}
	c.Wait()
	if c.Bad() {
		return
	}
	ref := newRefTree(140)
	for i, e := range es {
		k := 0
		for g := range won {
			if won[g][i] {
				k++
			}
		}
		c.Assert(k == 1, "c08:storm_once", "entry %d was accepted %d times", i, k)
		ref.m[e.hi] = e
	}
	sameTree(c, mt, ref, es[:4], "storm")
	t2, err := merkletree.NewMerkleTree(st.s, 140)
	c.Assert(err == nil, "c08:reopen", "%v", err)
	sameTree(c, t2, ref, es[:4], "storm reopened")
	c.Distinct("%x", ref.root())
	c.Sample("%s entries=%d root=%x", st.name, n, ref.root())
	st.close()
}

// c08two: the three trees of one storage (as an issuer has) used at once stay apart.
func c08two(c *C) {
	u := universe(600)
	st := openStore(c, storeKind(c))
	store := lazyStore{st.s, 10}
	var mts []*merkletree.MerkleTree
	var refs []*refTree
	pre := []string{"treeclaims:", "treerevocation:", "treeroots:"}
	for _, p := range pre {
		mt, err := merkletree.NewMerkleTree(store.WithPrefix([]byte(p)), 140)
		c.Assert(err == nil, "new", "%v", err)
		mts = append(mts, mt)
		refs = append(refs, newRefTree(140))
	}
	es := u.pick(c.R, 10)
	for k := range mts {
		for half := 0; half < 2; half++ {
			k, half := k, half
			c.Go(func() {
				for i, e := range es {
					if i%2 != half || (i+k)%4 == 0 {
						continue
					}
					c.Assert(mts[k].AddEntry(e.entry()) == nil, "c08:two_add", "insertion fails")
					c.Count("inserted", 1)
				}
			})
		}
		for i, e := range es {
			if (i+k)%4 != 0 {
				refs[k].m[e.hi] = e
			}
		}
	}
	c.Wait()
	if c.Bad() {
		return
	}
	for k := range mts {
		sameTree(c, mts[k], refs[k], es[:3], "neighbours")
		t, err := merkletree.NewMerkleTree(st.s.WithPrefix([]byte(pre[k])), 140)
		c.Assert(err == nil, "c08:reopen", "%v", err)
		sameTree(c, t, refs[k], es[:3], "neighbours reopened")
	}
	c.Distinct("%x", refs[0].root())
	c.Sample("%s", st.name)
	st.close()
}
