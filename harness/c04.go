package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"strings"

	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/merkletree"
)

func init() {
	rules["C04"] = "a tree is built in random order with closings and reopenings (memory and LevelDB, prefixed) between insertions; at every kept root it is dumped and imported, as nodes and as claims, into empty, used and deeper or shallower trees, which are then reopened and grown; truncated, cut, altered and mixed dumps must be refused without effect; distinct = distinct (root, dump variant)"
	reg(Part{Prop: "C04", Name: "reopen", Quick: 60, Thorough: 600, Need: []string{"reopened", "compared"}, Run: c04reopen})
	reg(Part{Prop: "C04", Name: "import", Quick: 90, Thorough: 900, Need: []string{"imported", "reimported_claims", "reopened_after_import", "grown"}, Run: c04import})
	reg(Part{Prop: "C04", Name: "baddump", Quick: 80, Thorough: 800, Need: []string{"rejected", "accepted_equivalent"}, Run: c04bad})
}

// sameTree compares what can be read from mt with the model, at root and now.
func sameTree(c *C, mt *merkletree.MerkleTree, ref *refTree, probe []*rent, why string) {
	root := ref.root()
	c.Assert(h32(*mt.RootKey()) == root, "root:"+why, "%s: root %x, want %x (%d entries)", why, h32(*mt.RootKey()), root, len(ref.m))
	dc, err := mt.DumpClaims(nil)
	var wc []string
	for _, e := range ref.list() {
		wc = append(wc, e.hex())
	}
	c.Assert(err == nil && sameSet(dc, wc), "claims:"+why, "%s: %d claims listed, want %d (err %v)", why, len(dc), len(wc), err)
	for _, e := range probe {
		_, in := ref.m[e.hi]
		d, err := mt.GetDataByIndex(hsh(e.hi))
		if in {
			c.Assert(err == nil && rentOf(d) == e.d, "lookup:"+why, "%s: lookup: %v", why, err)
		} else {
			c.Assert(err == merkletree.ErrEntryIndexNotFound, "lookup-absent:"+why, "%s: lookup of an absent entry: %v", why, err)
		}
		p, err := mt.GenerateProof(hsh(e.hi), nil)
		c.Assert(err == nil && p.Existence == in && merkletree.VerifyProof(hsh(root), p, hsh(e.hi), hsh(e.hv)), "proof:"+why, "%s: proof: %v", why, err)
	}
	c.Count("compared", 1)
}

func (s *namedStore) reopen(c *C) *namedStore {
	if s.path == "" {
		return s
	}
	s.close()
	n, err := db.NewLevelDbStorage(s.path, true)
	if err != nil {
		c.Fail("leveldb-reopen", "reopening the LevelDB storage: %v", err)
	}
	r := &namedStore{s.name, n, n, s.path, n.Close}
	if strings.HasSuffix(s.name, "prefix") {
		r.s = n.WithPrefix([]byte("treeclaims:"))
	}
	return r
}

func c04reopen(c *C) {
	u := universe(3000)
	st := openStore(c, c.R.Intn(4))
	k := 4 + c.R.Intn(16)
	pool := u.pick(c.R, k+4)
	ml := []int{140, 240}[c.R.Intn(2)]
	mt, err := merkletree.NewMerkleTree(st.s, ml)
	c.Assert(err == nil, "new", "%v", err)
	// a second tree lives in the same storage under another prefix
	other, err := merkletree.NewMerkleTree(st.root.WithPrefix([]byte("other:")), ml)
	c.Assert(err == nil, "new", "%v", err)
	c.Assert(other.AddEntry(pool[k+3].entry()) == nil, "add", "add")
	oref := newRefTree(ml)
	oref.m[pool[k+3].hi] = pool[k+3]
	ref := newRefTree(ml)
	hs := []*refTree{ref.clone()}
	for i := 0; i < k; i++ {
		c.Assert(mt.AddEntry(pool[i].entry()) == nil, "add", "insertion %d failed", i)
		ref.m[pool[i].hi] = pool[i]
		hs = append(hs, ref.clone())
		if c.R.Intn(4) == 0 || i == k-1 {
			if c.R.Intn(2) == 0 || i == k-1 {
				st = st.reopen(c)
			}
			mt, err = merkletree.NewMerkleTree(st.s, ml)
			c.Assert(err == nil, "reopen", "NewMerkleTree on an existing tree: %v", err)
			c.Count("reopened", 1)
			sameTree(c, mt, ref, pool[:k+2], "reopened")
			c.Assert(mt.AddEntry(pool[c.R.Intn(i+1)].entry()) == merkletree.ErrEntryIndexAlreadyExists, "readd", "a stored entry can be added again after reopening")
		}
	}
	for _, h := range hs {
		sn, err := mt.Snapshot(hsh(h.root()))
		c.Assert(err == nil, "snapshot", "historic root lost after reopening: %v", err)
		if c.R.Intn(4) == 0 {
			sameTree(c, sn, h, pool[:k], "historic")
		}
	}
	other, err = merkletree.NewMerkleTree(st.root.WithPrefix([]byte("other:")), ml)
	c.Assert(err == nil, "reopen", "%v", err)
	sameTree(c, other, oref, pool[k:], "neighbour")
	c.Distinct("%x%d%s", ref.root(), ml, st.name)
	c.Sample("store=%s entries=%d levels=%d root=%x", st.name, k, ml, ref.root())
	st.close()
}

func buildTree(c *C, ml int, es []*rent) (*merkletree.MerkleTree, *refTree, []*refTree) {
	mt, err := merkletree.NewMerkleTree(db.NewMemoryStorage(), ml)
	c.Assert(err == nil, "new", "%v", err)
	ref := newRefTree(ml)
	hs := []*refTree{ref.clone()}
	for _, e := range es {
		if err := mt.AddEntry(e.entry()); err != nil {
			c.Fail("add", "insert: %v", err)
		}
		ref.m[e.hi] = e
		hs = append(hs, ref.clone())
	}
	return mt, ref, hs
}

func c04import(c *C) {
	u := universe(3000)
	k := c.R.Intn(18)
	pool := u.pick(c.R, k+8)
	src, _, hs := buildTree(c, 140, pool[:k])
	for n := 0; n < 2; n++ {
		h := hs[c.R.Intn(len(hs))]
		if n == 0 {
			h = hs[len(hs)-1]
		}
		rk := hsh(h.root())
		from := src
		if n == 0 && c.R.Intn(2) == 0 {
			rk = nil
		} else if c.R.Intn(3) == 0 {
			sn, err := src.Snapshot(rk)
			c.Assert(err == nil, "snapshot", "%v", err)
			from, rk = sn, nil
		}
		var buf bytes.Buffer
		err := from.DumpTree(&buf, rk)
		c.Assert(err == nil, "dumptree", "DumpTree: %v", err)
		st := openStore(c, c.R.Intn(4))
		ml := []int{140, 240, 100}[c.R.Intn(3)]
		dst, err := merkletree.NewMerkleTree(st.s, ml)
		c.Assert(err == nil, "new", "%v", err)
		used := 0
		if c.R.Intn(3) == 0 {
			used = c.R.Intn(4)
			for i := 0; i < used; i++ {
				c.Assert(dst.AddEntry(pool[k+i].entry()) == nil, "add", "add")
			}
		}
		c.Logf("store=%s entries=%d used=%d", st.name, len(h.m), used)
		err = dst.ImportTree(bytes.NewReader(buf.Bytes()))
		c.Assert(err == nil, "importtree", "ImportTree of a dump: %v", err)
		c.Count("imported", 1)
		c.Distinct("%x|%d|%s|%d", h.root(), used, st.name, ml)
		probe := pool[:k+5]
		ref := h.clone()
		sameTree(c, dst, ref, probe, "imported")
		if c.R.Intn(2) == 0 {
			st = st.reopen(c)
			dst, err = merkletree.NewMerkleTree(st.s, ml)
			c.Assert(err == nil, "reopen", "reopening after import: %v", err)
			sameTree(c, dst, ref, probe, "imported-reopened")
			c.Count("reopened_after_import", 1)
		}
		// grow: entries that were in the source later, and new ones
		grow := append([]*rent{}, pool...)
		c.R.Shuffle(len(grow), func(i, j int) { grow[i], grow[j] = grow[j], grow[i] })
		for i, e := range grow {
			_, dup := ref.m[e.hi]
			err := dst.AddEntry(e.entry())
			c.Assert((err != nil) == dup, "grow", "adding to an imported tree: %v (already there: %v)", err, dup)
			if !dup {
				ref.m[e.hi] = e
				c.Count("grown", 1)
			}
			if i == 3 {
				sameTree(c, dst, ref, probe, "grown")
			}
			if i == 5 && c.R.Intn(2) == 0 {
				st = st.reopen(c)
				dst, err = merkletree.NewMerkleTree(st.s, ml)
				c.Assert(err == nil, "reopen", "%v", err)
			}
		}
		sameTree(c, dst, ref, probe, "grown-end")
		// importing over it once more goes back to the dumped tree
		c.Assert(dst.ImportTree(bytes.NewReader(buf.Bytes())) == nil, "reimport", "ImportTree over a used tree failed")
		ref = h.clone()
		sameTree(c, dst, ref, probe, "reimported")
		for _, e := range grow[:4] {
			if _, dup := ref.m[e.hi]; !dup {
				err := dst.AddEntry(e.entry())
				c.Assert(err == nil, "regrow", "adding again after going back to an older dump: %v", err)
				ref.m[e.hi] = e
			}
		}
		sameTree(c, dst, ref, probe, "regrown")
		st.close()

		// claims
		dc, err := from.DumpClaims(rk)
		c.Assert(err == nil && len(dc) == len(h.m), "dumpclaims", "DumpClaims: %d of %d, %v", len(dc), len(h.m), err)
		if c.R.Intn(2) == 0 {
			var w bytes.Buffer
			c.Assert(from.DumpClaimsIoWriter(&w, rk) == nil, "dumpio", "DumpClaimsIoWriter failed")
			dc = quoted(w.String())
		}
		c.R.Shuffle(len(dc), func(i, j int) { dc[i], dc[j] = dc[j], dc[i] })
		for i := range dc {
			if c.R.Intn(3) == 0 {
				dc[i] = strings.TrimPrefix(dc[i], "0x")
			}
		}
		st = openStore(c, c.R.Intn(4))
		dst, _ = merkletree.NewMerkleTree(st.s, ml)
		err = dst.ImportDumpedClaims(dc)
		c.Assert(err == nil, "importclaims", "ImportDumpedClaims: %v", err)
		sameTree(c, dst, h, probe, "claims")
		st = st.reopen(c)
		dst, err = merkletree.NewMerkleTree(st.s, ml)
		c.Assert(err == nil, "reopen", "%v", err)
		sameTree(c, dst, h, probe, "claims-reopened")
		c.Count("reimported_claims", 1)
		st.close()
	}
	c.Sample("entries=%d roots=%d", k, len(hs))
}

type kvRec struct{ k, v []byte }

func parseDump(b []byte) (rs []kvRec, ok bool) {
	for len(b) > 0 {
		if len(b) < 3 {
			return rs, false
		}
		kl, vl := int(b[0]), int(binary.LittleEndian.Uint16(b[1:3]))
		b = b[3:]
		if len(b) < kl+vl {
			return rs, false
		}
		rs = append(rs, kvRec{b[:kl], b[kl : kl+vl]})
		b = b[kl+vl:]
	}
	return rs, true
}

func encDump(rs []kvRec) []byte {
	var b []byte
	for _, r := range rs {
		var h [3]byte
		h[0] = byte(len(r.k))
		binary.LittleEndian.PutUint16(h[1:], uint16(len(r.v)))
		b = append(b, h[:]...)
		b = append(b, r.k...)
		b = append(b, r.v...)
	}
	return b
}

// dumpComplete: the records contain exactly reachable, correctly keyed nodes
// of the tree the root record names (independent judge).
func dumpComplete(rs []kvRec, maxLevels int) (h32, bool) {
	var root h32
	have := false
	m := map[h32][]byte{}
	for _, r := range rs {
		if string(r.k) == "currentroot" && len(r.v) == 32 {
			copy(root[:], r.v)
			have = true
		} else if len(r.k) == 32 {
			var k h32
			copy(k[:], r.k)
			m[k] = r.v
		}
	}
	if !have {
		return root, false
	}
	n := 0
	var walk func(k h32, path []bool) bool
	walk = func(k h32, path []bool) bool {
		n++
		if k == (h32{}) {
			return true
		}
		if n > 4000 || len(path) > maxLevels-1 {
			return false
		}
		v, ok := m[k]
		if !ok || len(v) == 0 {
			return false
		}
		switch {
		case v[0] == 0 && len(v) == 65:
			var l, r h32
			copy(l[:], v[1:33])
			copy(r[:], v[33:])
			if !inField(l) || !inField(r) || refMid(l, r) != k {
				return false
			}
			p := path[:len(path):len(path)]
			return walk(l, append(p, false)) && walk(r, append(p, true))
		case v[0] == 1 && len(v) == 257:
			var d [8]h32
			for i := range d {
				copy(d[i][:], v[1+32*i:])
				if !inField(d[i]) {
					return false
				}
			}
			e := mkRent(d)
			if e.leaf != k {
				return false
			}
			for i, b := range path {
				if bitOf(e.hi, i) != b {
					return false
				}
			}
			return true
		}
		return false
	}
	return root, walk(root, nil)
}

func c04bad(c *C) {
	u := universe(3000)
	k := 1 + c.R.Intn(12)
	pool := u.pick(c.R, k+6)
	src, _, hs := buildTree(c, 140, pool[:k])
	var buf bytes.Buffer
	c.Assert(src.DumpTree(&buf, nil) == nil, "dumptree", "DumpTree failed")
	good := buf.Bytes()
	var old bytes.Buffer
	oldRoot := hs[c.R.Intn(len(hs))]
	c.Assert(src.DumpTree(&old, hsh(oldRoot.root())) == nil, "dumptree", "DumpTree failed")
	orecs, ok := parseDump(old.Bytes())
	recs, ok2 := parseDump(good)
	if !ok || !ok2 {
		c.Fail("dump-format", "a dump does not consist of length-prefixed records")
	}
	_, full := dumpComplete(recs, 140)
	c.Assert(full, "dump-incomplete", "DumpTree output does not contain the tree of its root")
	for i := 0; i < 24; i++ {
		var b []byte
		var why string
		rs := append([]kvRec{}, recs...)
		switch c.R.Intn(11) {
		case 0:
			b, why = good[:c.R.Intn(len(good))], "truncated"
		case 1:
			// cut at a record boundary
			rs = rs[:c.R.Intn(len(rs))]
			b, why = encDump(rs), "records-cut"
		case 2:
			j := c.R.Intn(len(rs))
			rs = append(rs[:j:j], rs[j+1:]...)
			b, why = encDump(rs), "record-missing"
		case 3:
			b = append([]byte{}, good...)
			b[c.R.Intn(len(b))] ^= 1 << uint(c.R.Intn(8))
			why = "bit"
		case 4:
			// root of another tree
			rs[len(rs)-1] = kvRec{[]byte("currentroot"), pool[0].leaf[:]}
			b, why = encDump(rs), "root-leaf"
		case 5:
			x := randElem(c.R)
			rs[len(rs)-1] = kvRec{[]byte("currentroot"), x[:]}
			b, why = encDump(rs), "root-unknown"
		case 6:
			// mixed dumps: nodes of one, root of the other
			rs = append(append([]kvRec{}, orecs[:len(orecs)-1]...), recs[len(recs)-1])
			b, why = encDump(rs), "root-newer"
		case 7:
			// all nodes, older root
			rs = append(append([]kvRec{}, recs[:len(recs)-1]...), orecs[:len(orecs)-1]...)
			rs = append(rs, orecs[len(orecs)-1])
			b, why = encDump(rs), "superset"
		case 8:
			j := c.R.Intn(len(rs))
			v := append([]byte{}, rs[j].v...)
			if len(v) > 1 {
				v = v[:len(v)-1]
			}
			rs[j] = kvRec{rs[j].k, v}
			b, why = encDump(rs), "short-value"
		case 9:
			// another claim under the key of a leaf
			for j := range rs {
				if len(rs[j].v) == 257 {
					v := append([]byte{}, rs[j].v...)
					v[1+32*c.R.Intn(8)] ^= 1
					rs[j] = kvRec{rs[j].k, v}
					break
				}
			}
			b, why = encDump(rs), "leaf-altered"
		case 10:
			c.R.Shuffle(len(rs), func(i, j int) { rs[i], rs[j] = rs[j], rs[i] })
			b, why = encDump(rs), "shuffled"
		}
		prs, pok := parseDump(b)
		root, complete := dumpComplete(prs, 140)
		complete = complete && pok
		st := openStore(c, c.R.Intn(2))
		dst, _ := merkletree.NewMerkleTree(st.s, 140)
		ref := newRefTree(140)
		for j := 0; j < c.R.Intn(3); j++ {
			c.Assert(dst.AddEntry(pool[k+j].entry()) == nil, "add", "add")
			ref.m[pool[k+j].hi] = pool[k+j]
		}
		before := dumpStore(c, st.s)
		err := dst.ImportTree(bytes.NewReader(b))
		c.Distinct("%s|%d|%x", why, len(b), root)
		if err != nil {
			c.Count("rejected", 1)
			c.Assert(!(complete && (why == "shuffled")), "rejected-complete", "a complete dump whose records are in another order was rejected: %v", err)
			c.Assert(dumpStore(c, st.s) == before, "rejected-write:"+why, "a rejected dump (%s) changed the storage", why)
			sameTree(c, dst, ref, pool[:k], "after-reject")
			re, err := merkletree.NewMerkleTree(st.s, 140)
			c.Assert(err == nil, "after-reject-reopen", "%v", err)
			sameTree(c, re, ref, pool[k:], "after-reject-reopen")
			continue
		}
		if !complete {
			c.Fail("accepted:"+why, "a dump that does not contain the tree of its root was imported (%s): %s", why, fmt.Sprintf("%d bytes, %d records", len(b), len(prs)))
		}
		c.Count("accepted_equivalent", 1)
		c.Assert(h32(*dst.RootKey()) == root, "accepted-root", "imported root %x, dump says %x", h32(*dst.RootKey()), root)
	}
	// claims
	for i := 0; i < 6; i++ {
		dst, _ := merkletree.NewMerkleTree(db.NewMemoryStorage(), 140)
		bad := pool[k].hex()
		switch i {
		case 0:
			bad = bad[:len(bad)-2]
		case 1:
			bad = bad + "00"
		case 2:
			bad = bad[:40] + "zz" + bad[42:]
		case 3:
			bad = ""
		case 4:
			bad = bad[:len(bad)-1]
		case 5:
			d := pool[k].d
			for x := range d[2] {
				d[2][x] = 0xff
			}
			bad = (&rent{d: d}).hex()
		}
		err := dst.ImportDumpedClaims([]string{bad})
		c.Assert(err != nil, "badclaim", "ImportDumpedClaims accepts a malformed claim (variant %d)", i)
		c.Assert(h32(*dst.RootKey()) == (h32{}), "badclaim-root", "a malformed claim changed the tree")
		c.Count("rejected", 1)
	}
	// a snapshot takes no import
	sn, err := src.Snapshot(hsh(hs[0].root()))
	c.Assert(err == nil, "snapshot", "%v", err)
	c.Assert(sn.ImportTree(bytes.NewReader(good)) != nil, "readonly-import", "ImportTree into a read-only snapshot is accepted")
	sameTree(c, src, hs[len(hs)-1], pool, "after snapshot import")
}
