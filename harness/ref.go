package main

// Reference models, written from the specification and not from the code under
// test: sparse Merkle tree, entries, hashes.

import (
	"bytes"
	"encoding/hex"
	"math/big"
	"math/rand"
	"sort"
	"sync"

	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-crypto/constants"
	"github.com/iden3/go-iden3-crypto/poseidon"
)

type h32 = [32]byte

func leBig(b []byte) *big.Int {
	o := make([]byte, len(b))
	for i := range b {
		o[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(o)
}

func bigLE(v *big.Int) (o h32) {
	b := v.Bytes()
	for i := range b {
		if len(b)-1-i < 32 {
			o[len(b)-1-i] = b[i]
		}
	}
	return o
}

type hkey struct{ a, b, c, d h32 }

var hashCache sync.Map // map[hkey]h32

// refHash is poseidon over up to 4 elements (rest zero), cached.
func refHash(a, b, c, d h32) h32 {
	k := hkey{a, b, c, d}
	if v, ok := hashCache.Load(k); ok {
		return v.(h32)
	}
	z := new(big.Int)
	r, err := poseidon.PoseidonHash([poseidon.T]*big.Int{leBig(a[:]), leBig(b[:]), leBig(c[:]), leBig(d[:]), z, z})
	if err != nil {
		panic("refHash: " + err.Error())
	}
	v := bigLE(r)
	hashCache.Store(k, v)
	return v
}

var h32one = bigLE(big.NewInt(1))

func refMid(l, r h32) h32    { return refHash(l, r, h32{}, h32{}) }
func refLeaf(hi, hv h32) h32 { return refHash(hi, hv, h32one, h32{}) }

// rent is a reference entry.
type rent struct {
	d      [8]h32
	hi, hv h32
	leaf   h32
}

func mkRent(d [8]h32) *rent {
	e := &rent{d: d}
	e.hi = refHash(d[0], d[1], d[2], d[3])
	e.hv = refHash(d[4], d[5], d[6], d[7])
	e.leaf = refLeaf(e.hi, e.hv)
	return e
}

func (e *rent) entry() *merkletree.Entry {
	var x merkletree.Entry
	for i := range e.d {
		x.Data[i] = merkletree.ElemBytes(e.d[i])
	}
	return &x
}

func (e *rent) hex() string {
	var b []byte
	for i := range e.d {
		b = append(b, e.d[i][:]...)
	}
	return "0x" + hex.EncodeToString(b)
}

func rentOf(d *merkletree.Data) [8]h32 {
	var o [8]h32
	for i := range o {
		o[i] = h32(d[i])
	}
	return o
}

func bitOf(h h32, n int) bool { return h[n/8]&(1<<(uint(n)%8)) != 0 }

func randElem(r *rand.Rand) h32 {
	switch r.Intn(8) {
	case 0:
		return bigLE(big.NewInt(int64(r.Intn(4))))
	case 1:
		return bigLE(new(big.Int).Sub(constants.Q, big.NewInt(int64(1+r.Intn(3)))))
	case 2:
		var h h32
		h[r.Intn(31)] = byte(1 + r.Intn(255))
		return h
	}
	v := new(big.Int).Rand(r, constants.Q)
	return bigLE(v)
}

func randData(r *rand.Rand) (d [8]h32) {
	for i := range d {
		if r.Intn(4) > 0 {
			d[i] = randElem(r)
		}
	}
	// make the index unique
	v := new(big.Int).Rand(r, constants.Q)
	d[r.Intn(4)] = bigLE(v)
	return d
}

// refTree is the model of a tree: a set of entries by index hash.
type refTree struct {
	maxLevels int
	m         map[h32]*rent
}

func newRefTree(lv int) *refTree { return &refTree{lv, map[h32]*rent{}} }

func (t *refTree) clone() *refTree {
	n := newRefTree(t.maxLevels)
	for k, v := range t.m {
		n.m[k] = v
	}
	return n
}

func (t *refTree) list() []*rent {
	var l []*rent
	for _, e := range t.m {
		l = append(l, e)
	}
	sort.Slice(l, func(i, j int) bool { return bytes.Compare(l[i].hi[:], l[j].hi[:]) < 0 })
	return l
}

func (t *refTree) root() h32 { return refRoot(t.list(), 0) }

func refRoot(es []*rent, lvl int) h32 {
	if len(es) == 0 {
		return h32{}
	}
	if len(es) == 1 {
		return es[0].leaf
	}
	var l, r []*rent
	for _, e := range es {
		if bitOf(e.hi, lvl) {
			r = append(r, e)
		} else {
			l = append(l, e)
		}
	}
	return refMid(refRoot(l, lvl+1), refRoot(r, lvl+1))
}

// fits says whether a tree of maxLevels levels can hold e besides its
// contents: leaves may sit at levels 0..maxLevels-1.
func (t *refTree) fits(e *rent) bool {
	for _, o := range t.m {
		// shared prefix length n => both leaves end at level n+1 (if alone)
		n := 0
		for n < 256 && bitOf(o.hi, n) == bitOf(e.hi, n) {
			n++
		}
		if n+1 > t.maxLevels-1 {
			return false
		}
	}
	return true
}

// walkCounts: number of leaves and middle nodes, for Walk.
func refNodes(es []*rent, lvl int, f func(k h32, leaf bool, empty bool)) h32 {
	if len(es) == 0 {
		f(h32{}, false, true)
		return h32{}
	}
	if len(es) == 1 {
		f(es[0].leaf, true, false)
		return es[0].leaf
	}
	var l, r []*rent
	for _, e := range es {
		if bitOf(e.hi, lvl) {
			r = append(r, e)
		} else {
			l = append(l, e)
		}
	}
	k := refMid(refNodes(l, lvl+1, f), refNodes(r, lvl+1, f))
	f(k, false, false)
	return k
}

// refSiblings gives the sibling list of index hash hi and what is at the end.
func refSiblings(es []*rent, hi h32) (sibs []h32, end *rent) {
	lvl := 0
	for len(es) > 1 {
		var l, r []*rent
		for _, e := range es {
			if bitOf(e.hi, lvl) {
				r = append(r, e)
			} else {
				l = append(l, e)
			}
		}
		if bitOf(hi, lvl) {
			sibs = append(sibs, refRoot(l, lvl+1))
			es = r
		} else {
			sibs = append(sibs, refRoot(r, lvl+1))
			es = l
		}
		lvl++
	}
	if len(es) == 1 {
		end = es[0]
	}
	return sibs, end
}

// universe is a fixed set of entries shared by the cases of a process; it
// contains pairs with long common index-hash prefixes (birthday search).
type universeT struct {
	all   []*rent
	pairs [][2]*rent // longest shared prefixes first
}

var (
	uniMu sync.Mutex
	unis  = map[int]*universeT{}
)

func universe(n int) *universeT {
	uniMu.Lock()
	defer uniMu.Unlock()
	if u, ok := unis[n]; ok {
		return u
	}
	u := &universeT{all: make([]*rent, n)}
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := w; i < n; i += 8 {
				r := rand.New(rand.NewSource(int64(i) + 77))
				u.all[i] = mkRent(randData(r))
			}
		}(w)
	}
	wg.Wait()
	rev := func(e *rent) string {
		var o [32]byte
		for i := range o {
			var x byte
			for b := 0; b < 8; b++ {
				if e.hi[i]&(1<<uint(b)) != 0 {
					x |= 0x80 >> uint(b)
				}
			}
			o[i] = x
		}
		return string(o[:])
	}
	s := append([]*rent{}, u.all...)
	sort.Slice(s, func(i, j int) bool { return rev(s[i]) < rev(s[j]) })
	for i := 1; i < len(s); i++ {
		u.pairs = append(u.pairs, [2]*rent{s[i-1], s[i]})
	}
	sort.SliceStable(u.pairs, func(i, j int) bool {
		return shared(u.pairs[i][0].hi, u.pairs[i][1].hi) > shared(u.pairs[j][0].hi, u.pairs[j][1].hi)
	})
	unis[n] = u
	return u
}

func shared(a, b h32) int {
	n := 0
	for n < 256 && bitOf(a, n) == bitOf(b, n) {
		n++
	}
	return n
}

// pick returns k distinct entries; some of them close pairs.
func (u *universeT) pick(r *rand.Rand, k int) []*rent {
	seen := map[*rent]bool{}
	var out []*rent
	add := func(e *rent) {
		if !seen[e] && len(out) < k {
			seen[e] = true
			out = append(out, e)
		}
	}
	for len(out) < k {
		if r.Intn(3) == 0 {
			p := u.pairs[r.Intn(1+len(u.pairs)/8)]
			if r.Intn(3) == 0 {
				p = u.pairs[r.Intn(20)]
			}
			add(p[0])
			add(p[1])
		} else {
			add(u.all[r.Intn(len(u.all))])
		}
	}
	r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

func hsh(h h32) *merkletree.Hash { x := merkletree.Hash(h); return &x }

func short(h h32) string { return hex.EncodeToString(h[:4]) }
