package main

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-crypto/constants"
)

func init() {
	rules["C01"] = "each case builds a tree of random depth over a random storage from entries drawn from a pool rich in long shared index-hash prefixes, mixing valid insertions with duplicates, out-of-field, too-deep and read-only ones, and compares root, storage, lookups, existence, walk and dumps with a reference sparse Merkle tree under the current and every earlier root; distinct = distinct (depth, entry set, history) triples with at least one entry"
	reg(Part{Prop: "C01", Name: "model", Quick: 260, Thorough: 3000, Need: []string{"inserted", "rejected_dup", "rejected_field", "rejected_depth", "rejected_readonly", "historic_roots"}, Run: c01model})
	reg(Part{Prop: "C01", Name: "order", Quick: 80, Thorough: 800, Need: []string{"orders"}, Run: c01order})
	reg(Part{Prop: "C01", Name: "graphviz", Workers: 1, Quick: 6, Thorough: 20, Need: []string{"graphs"}, Run: c01graphviz})
}

type namedStore struct {
	name  string
	s     db.Storage
	root  db.Storage
	path  string
	close func()
}

// openStore makes a fresh storage: memory, memory with prefix, LevelDB, LevelDB with prefix.
func openStore(c *C, kind int) *namedStore {
	switch kind % 4 {
	case 0:
		s := db.NewMemoryStorage()
		return &namedStore{"mem", s, s, "", func() {}}
	case 1:
		s := db.NewMemoryStorage()
		return &namedStore{"mem/prefix", s.WithPrefix([]byte("p:")).WithPrefix([]byte{0xff, 0}), s, "", func() {}}
	}
	path := filepath.Join(c.Dir(), fmt.Sprintf("ldb%d", c.R.Int63()))
	s, err := db.NewLevelDbStorage(path, false)
	if err != nil {
		c.Broken("leveldb: %v", err)
	}
	if kind%4 == 2 {
		return &namedStore{"leveldb", s, s, path, s.Close}
	}
	return &namedStore{"leveldb/prefix", s.WithPrefix([]byte("treeclaims:")), s, path, s.Close}
}

func dumpStore(c *C, s db.Storage) string {
	kvs, err := s.List(1 << 30)
	if err != nil {
		c.Broken("list: %v", err)
	}
	var b strings.Builder
	for _, kv := range kvs {
		fmt.Fprintf(&b, "%x=%x;", kv.K, kv.V)
	}
	return b.String()
}

func pickLevels(c *C) int {
	switch c.R.Intn(6) {
	case 0:
		return 1 + c.R.Intn(6)
	case 1:
		return 6 + c.R.Intn(16)
	case 2:
		return 240
	}
	return 140
}

func storeKind(c *C) int {
	if c.R.Intn(5) == 0 {
		return 2 + c.R.Intn(2)
	}
	return c.R.Intn(2)
}

// altValue: same index, different value elements.
func altValue(c *C, e *rent) *rent {
	d := e.d
	k := 4 + c.R.Intn(4)
	for d[k] == e.d[k] {
		d[k] = randElem(c.R)
	}
	return mkRent(d)
}

func altIndex(c *C, e *rent) *rent {
	d := e.d
	k := c.R.Intn(4)
	for d[k] == e.d[k] {
		d[k] = randElem(c.R)
	}
	return mkRent(d)
}

func c01model(c *C) {
	u := universe(3000)
	ml := pickLevels(c)
	st := openStore(c, storeKind(c))
	defer st.close()
	mt, err := merkletree.NewMerkleTree(st.s, ml)
	if err != nil {
		c.Fail("new", "NewMerkleTree: %v", err)
	}
	c.Assert(mt.MaxLevels() == ml, "maxlevels", "MaxLevels()=%d want %d", mt.MaxLevels(), ml)
	ref := newRefTree(ml)
	type hist struct {
		root h32
		t    *refTree
	}
	hs := []hist{{h32{}, ref.clone()}}
	k := 1 + c.R.Intn(24)
	pool := u.pick(c.R, k+6)
	c.Logf("store=%s maxLevels=%d k=%d", st.name, ml, k)
	checkRoot := func(why string) {
		want := ref.root()
		got := h32(*mt.RootKey())
		c.Assert(got == want, "root", "%s: root %x, specified %x (entries=%d levels=%d store=%s)", why, got, want, len(ref.m), ml, st.name)
	}
	checkRoot("empty")
	reject := func(kind string, e *merkletree.Entry, tree *merkletree.MerkleTree) {
		before := dumpStore(c, st.s)
		err := tree.AddEntry(e)
		c.Assert(err != nil, "accepted:"+kind, "insertion that must be rejected (%s) was accepted", kind)
		c.Count("rejected_"+kind, 1)
		checkRoot("after rejected " + kind)
		if after := dumpStore(c, st.s); after != before {
			c.Fail("rejected-write:"+kind, "rejected insertion (%s) changed the storage", kind)
		}
	}
	for i := 0; i < k; i++ {
		e := pool[i]
		c.Logf("add hi=%s levels-shared", short(e.hi))
		if _, dup := ref.m[e.hi]; dup {
			continue
		}
		if !ref.fits(e) {
			reject("depth", e.entry(), mt)
			continue
		}
		ent := e.entry()
		if c.R.Intn(2) == 0 {
			ent.HiHv()
		}
		var err error
		if c.R.Intn(2) == 0 {
			err = mt.AddEntry(ent)
		} else {
			err = mt.AddClaim(entrier{ent})
		}
		c.Assert(err == nil, "add-error", "insertion of a new in-field entry failed: %v (levels %d, entries %d)", err, ml, len(ref.m))
		// the tree must not depend on the caller's entry any more
		for x := range ent.Data {
			ent.Data[x][0] ^= 0xff
		}
		ref.m[e.hi] = e
		c.Count("inserted", 1)
		checkRoot("after insert")
		hs = append(hs, hist{ref.root(), ref.clone()})
		switch c.R.Intn(5) {
		case 0:
			reject("dup", ref.list()[c.R.Intn(len(ref.m))].entry(), mt)
		case 1:
			reject("dup", altValue(c, ref.list()[c.R.Intn(len(ref.m))]).entry(), mt)
		case 2:
			d := pool[k].d
			over := new(big.Int).Add(constants.Q, big.NewInt(int64(c.R.Intn(5))))
			if c.R.Intn(3) == 0 {
				over = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))
			}
			d[c.R.Intn(8)] = bigLE(over)
			x := &rent{d: d}
			reject("field", x.entry(), mt)
		case 3:
			h := hs[c.R.Intn(len(hs))]
			sn, err := mt.Snapshot(hsh(h.root))
			c.Assert(err == nil, "snapshot", "Snapshot of a root of this tree failed: %v", err)
			reject("readonly", pool[k+1].entry(), sn)
			c.Assert(h32(*sn.RootKey()) == h.root, "snapshot-root", "snapshot root changed")
			err = sn.ImportDumpedClaims([]string{pool[k+1].hex()})
			c.Assert(err != nil, "readonly-import", "ImportDumpedClaims into a snapshot was accepted")
			checkRoot("after import into snapshot")
		}
	}
	if len(ref.m) == 0 {
		return
	}
	var fp strings.Builder
	for _, e := range ref.list() {
		fp.WriteString(short(e.hi))
	}
	c.Distinct("%d|%s|%d", ml, fp.String(), len(hs))
	c.Sample("levels=%d store=%s entries=%d roots=%d root=%x", ml, st.name, len(ref.m), len(hs), ref.root())
	for _, h := range hs {
		c01checkContents(c, mt, h.root, h.t, pool, u)
		c.Count("historic_roots", 1)
	}
	c01checkContents(c, mt, h32{0xff}, nil, pool, u)
}

type entrier struct{ e *merkletree.Entry }

func (x entrier) Entry() *merkletree.Entry { return x.e }

// c01checkContents compares everything readable under a root with the model.
func c01checkContents(c *C, mt *merkletree.MerkleTree, root h32, t *refTree, pool []*rent, u *universeT) {
	current := h32(*mt.RootKey()) == root
	var rk *merkletree.Hash
	if !current || c.R.Intn(2) == 0 {
		rk = hsh(root)
	}
	view := mt
	if rk != nil {
		sn, err := mt.Snapshot(rk)
		if t == nil {
			c.Assert(err != nil, "unknown-root", "Snapshot of an unknown root succeeded")
			c.Assert(mt.EntryExists(pool[0].entry(), rk) != nil, "unknown-root-exists", "EntryExists under an unknown root succeeded")
			_, err := mt.GenerateProof(hsh(pool[0].hi), rk)
			c.Assert(err != nil, "unknown-root-proof", "GenerateProof under an unknown root succeeded")
			return
		}
		c.Assert(err == nil, "snapshot", "Snapshot(%x): %v", root, err)
		view = sn
	} else if t == nil {
		return
	}
	for _, e := range pool {
		_, in := t.m[e.hi]
		d, err := view.GetDataByIndex(hsh(e.hi))
		ex := mt.EntryExists(e.entry(), rk)
		alt := mt.EntryExists(altValue(c, e).entry(), rk)
		c.Count("lookups", 3)
		if in {
			c.Assert(err == nil && d != nil, "lookup-missing", "entry %s not found: %v", short(e.hi), err)
			c.Assert(rentOf(d) == e.d, "lookup-data", "lookup returned other data for %s", short(e.hi))
			c.Assert(ex == nil, "exists-missing", "EntryExists says absent: %v", ex)
			c.Assert(alt != nil, "exists-other-value", "EntryExists accepts an entry whose value differs from the stored one")
		} else {
			c.Assert(err == merkletree.ErrEntryIndexNotFound, "lookup-phantom", "lookup of an absent index: data=%v err=%v", d != nil, err)
			c.Assert(ex != nil && alt != nil, "exists-phantom", "EntryExists accepts an absent entry")
		}
	}
	// walk
	var want, got []string
	refNodes(t.list(), 0, func(k h32, leaf, empty bool) { want = append(want, fmt.Sprintf("%v%v%x", leaf, empty, k)) })
	err := view.Walk(walkArg(c, rk), func(n *merkletree.Node) {
		k, err := n.Key()
		if err != nil {
			c.Fail("walk-key", "node key: %v", err)
		}
		got = append(got, fmt.Sprintf("%v%v%x", n.Type == merkletree.NodeTypeLeaf, n.Type == merkletree.NodeTypeEmpty, h32(*k)))
	})
	c.Assert(err == nil, "walk-err", "Walk: %v", err)
	c.Assert(sameSet(want, got), "walk", "Walk visited %d nodes, the tree has %d (or others)", len(got), len(want))
	// dumps
	var wc []string
	for _, e := range t.list() {
		wc = append(wc, e.hex())
	}
	dc, err := view.DumpClaims(walkArg(c, rk))
	c.Assert(err == nil && sameSet(wc, dc), "dumpclaims", "DumpClaims gives %d claims, want %d (err %v)", len(dc), len(wc), err)
	var buf bytes.Buffer
	err = mt.DumpClaimsIoWriter(&buf, hsh(root))
	c.Assert(err == nil, "dumpio-err", "DumpClaimsIoWriter: %v", err)
	c.Assert(sameSet(wc, quoted(buf.String())), "dumpio", "DumpClaimsIoWriter does not list exactly the claims")
}

func walkArg(c *C, rk *merkletree.Hash) *merkletree.Hash {
	if c.R.Intn(2) == 0 {
		return nil // view's own root
	}
	return rk
}

func quoted(s string) []string {
	var out []string
	f := strings.Split(s, "\"")
	for i := 1; i < len(f); i += 2 {
		out = append(out, f[i])
	}
	return out
}

func sameSet(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	x := append([]string{}, a...)
	y := append([]string{}, b...)
	sort.Strings(x)
	sort.Strings(y)
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

// c01order: the same set in several orders, in differently prefixed stores.
func c01order(c *C) {
	u := universe(3000)
	k := 2 + c.R.Intn(20)
	es := u.pick(c.R, k)
	ref := newRefTree(140)
	for _, e := range es {
		ref.m[e.hi] = e
	}
	want := ref.root()
	for o := 0; o < 3; o++ {
		c.R.Shuffle(k, func(i, j int) { es[i], es[j] = es[j], es[i] })
		st := openStore(c, c.R.Intn(2))
		mt, err := merkletree.NewMerkleTree(st.s, []int{140, 200, 240}[o])
		c.Assert(err == nil, "new", "%v", err)
		for _, e := range es {
			if err := mt.AddEntry(e.entry()); err != nil {
				c.Fail("add-error", "insert: %v", err)
			}
		}
		c.Assert(h32(*mt.RootKey()) == want, "order", "root depends on insertion order or storage: %x want %x", h32(*mt.RootKey()), want)
		c.Count("orders", 1)
	}
	c.Distinct("%x", want)
	// a different set never has the same root
	drop := es[c.R.Intn(k)]
	other := ref.clone()
	delete(other.m, drop.hi)
	if c.R.Intn(2) == 0 {
		a := altValue(c, drop)
		other.m[a.hi] = a
	}
	mt, _ := merkletree.NewMerkleTree(db.NewMemoryStorage(), 140)
	for _, e := range other.list() {
		mt.AddEntry(e.entry())
	}
	c.Assert(h32(*mt.RootKey()) != want, "collision", "two different entry sets have the same root")
}

// c01graphviz: the printed graph is the graph of the requested root.
func c01graphviz(c *C) {
	u := universe(3000)
	mt, _ := merkletree.NewMerkleTree(db.NewMemoryStorage(), 140)
	ref := newRefTree(140)
	type snap struct {
		root h32
		n    int
		t    *refTree
	}
	var ss []snap
	for _, e := range u.pick(c.R, 8) {
		if mt.AddEntry(e.entry()) == nil {
			ref.m[e.hi] = e
			ss = append(ss, snap{h32(*mt.RootKey()), len(ref.m), ref.clone()})
		}
	}
	for _, s := range ss {
		var b bytes.Buffer
		c.Assert(mt.GraphViz(&b, hsh(s.root)) == nil, "graphviz-err", "GraphViz failed")
		leaves := strings.Count(b.String(), "[style=filled]")
		c.Assert(leaves == s.n, "graphviz", "GraphViz of a root with %d leaves shows %d", s.n, leaves)
		// PrintGraphViz writes to standard output
		old := os.Stdout
		f, err := ioutil.TempFile(c.Dir(), "gv")
		c.Must(err, "tempfile")
		os.Stdout = f
		err = mt.PrintGraphViz(hsh(s.root))
		os.Stdout = old
		c.Assert(err == nil, "printgraphviz-err", "PrintGraphViz: %v", err)
		out, _ := ioutil.ReadFile(f.Name())
		f.Close()
		p := strings.Count(string(out), "[style=filled]")
		c.Assert(p == s.n, "printgraphviz", "PrintGraphViz of a root with %d leaves shows %d", s.n, p)
		c.Count("graphs", 2)
	}
	c.Distinct("%x", ss[len(ss)-1].root)
}
