package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"math/big"
	"math/rand"

	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-crypto/constants"
)

func init() {
	rules["C02"] = "trees are built from a pool rich in shared prefixes and every pool entry is proved under every earlier root; proofs (and synthetic ones up to depth 240) are compared with a reference verifier over raw bytes, then flags, depth, bitmap, siblings, auxiliary leaf, index, value and root are altered and every accepted one must state something true of the model; distinct = distinct (root, index, proof bytes)"
	reg(Part{Prop: "C02", Name: "generated", Quick: 120, Thorough: 1500, Need: []string{"existence", "absence_empty", "absence_aux", "decoded_over_another", "tampered", "tampered_accepted_true"}, Run: c02generated})
	reg(Part{Prop: "C02", Name: "synthetic", Quick: 700, Thorough: 6000, Need: []string{"accepted", "rejected"}, Run: c02synthetic})
	reg(Part{Prop: "C02", Name: "deep", Quick: 64, Thorough: 500, Need: []string{"deep_proofs"}, Run: c02deep})
}

// rproof is a proof as a statement, parsed by the reference.
type rproof struct {
	exist bool
	sibs  []h32 // one per level, zero if empty
	aux   bool
	ahi   h32
	ahv   h32
}

func (p *rproof) bytes() []byte {
	b := make([]byte, 32)
	if !p.exist {
		b[0] |= 1
	}
	b[1] = byte(len(p.sibs))
	var tail []byte
	for i, s := range p.sibs {
		if s != (h32{}) {
			b[2+29-i/8] |= 1 << uint(i%8)
			tail = append(tail, s[:]...)
		}
	}
	b = append(b, tail...)
	if p.aux {
		b[0] |= 2
		b = append(b, p.ahi[:]...)
		b = append(b, p.ahv[:]...)
	}
	return b
}

// parseProof: nil if malformed.
func parseProof(b []byte) *rproof {
	if len(b) < 32 || b[1] > 240 {
		return nil
	}
	p := &rproof{exist: b[0]&1 == 0}
	rest := b[32:]
	for i := 0; i < int(b[1]); i++ {
		var s h32
		if b[2+29-i/8]&(1<<uint(i%8)) != 0 {
			if len(rest) < 32 {
				return nil
			}
			copy(s[:], rest)
			rest = rest[32:]
		}
		p.sibs = append(p.sibs, s)
	}
	if !p.exist && b[0]&2 != 0 {
		if len(rest) != 64 {
			return nil
		}
		p.aux = true
		copy(p.ahi[:], rest[:32])
		copy(p.ahv[:], rest[32:])
	}
	return p
}

func inField(h h32) bool { return leBig(h[:]).Cmp(constants.Q) < 0 }

// refVerify computes the root the proof leads to; false if the statement is malformed.
func (p *rproof) root(hi, hv h32) (h32, bool) {
	var k h32
	switch {
	case p.exist:
		if !inField(hi) || !inField(hv) {
			return k, false
		}
		k = refLeaf(hi, hv)
	case p.aux:
		if p.ahi == hi || !inField(p.ahi) || !inField(p.ahv) {
			return k, false
		}
		k = refLeaf(p.ahi, p.ahv)
	}
	for i := len(p.sibs) - 1; i >= 0; i-- {
		if !inField(p.sibs[i]) {
			return k, false
		}
		if bitOf(hi, i) {
			k = refMid(p.sibs[i], k)
		} else {
			k = refMid(k, p.sibs[i])
		}
	}
	return k, true
}

func repoVerify(c *C, b []byte, root, hi, hv h32) (ok, parsed bool, p *merkletree.Proof) {
	p, err := merkletree.NewProofFromBytes(b)
	if err != nil {
		return false, false, nil
	}
	return merkletree.VerifyProof(hsh(root), p, hsh(hi), hsh(hv)), true, p
}

// c02encodings: all encodings of a proof carry the same proof.
func c02encodings(c *C, p *merkletree.Proof, want *rproof, root, hi, hv h32) {
	b := p.Bytes()
	wb := want.bytes()
	c.Assert(bytes.Equal(b, wb), "bytes", "proof bytes %x, specified %x", b, wb)
	q, err := merkletree.NewProofFromBytes(b)
	c.Assert(err == nil, "decode", "NewProofFromBytes(Bytes()): %v", err)
	c.Assert(bytes.Equal(q.Bytes(), b), "decode-bytes", "decoding and encoding changes the proof")
	c.Assert(q.Existence == want.exist && (q.NodeAux != nil) == want.aux && len(q.Siblings) == len(p.Siblings), "decode-fields", "decoded proof differs")
	c.Assert(merkletree.VerifyProof(hsh(root), q, hsh(hi), hsh(hv)), "decode-verdict", "decoded proof does not verify")
	js, err := json.Marshal(p)
	c.Assert(err == nil, "json", "%v", err)
	js2, _ := json.Marshal(*p)
	c.Assert(bytes.Equal(js, js2) && string(js) == "\"0x"+hex.EncodeToString(wb)+"\"", "json-form", "JSON form %s is not the hex of the bytes", js)
	var r merkletree.Proof
	if k := c.R.Intn(3); k > 0 { // into a variable that holds another proof
		d := &rproof{sibs: []h32{{}, {1}, {2}}, exist: k == 1}
		if k == 2 {
			d.aux, d.ahi, d.ahv = true, h32{3}, h32{4}
		}
		o, err := merkletree.NewProofFromBytes(d.bytes())
		c.Assert(err == nil, "decode-other", "%v", err)
		r = *o
		c.Count("decoded_over_another", 1)
	}
	c.Assert(json.Unmarshal(js, &r) == nil, "json-decode", "JSON does not decode")
	c.Assert(r.Existence == want.exist && (r.NodeAux != nil) == want.aux, "json-fields", "the proof decoded from JSON has existence=%v aux=%v, want %v %v", r.Existence, r.NodeAux != nil, want.exist, want.aux)
	c.Assert(bytes.Equal(r.Bytes(), b) && merkletree.VerifyProof(hsh(root), &r, hsh(hi), hsh(hv)), "json-verdict", "proof decoded from JSON differs")
	_ = p.String()
	all := p.AllSiblings()
	c.Assert(len(all) == len(want.sibs), "allsiblings-len", "AllSiblings has %d levels, want %d", len(all), len(want.sibs))
	for i := range all {
		c.Assert(h32(*all[i]) == want.sibs[i], "allsiblings", "AllSiblings level %d differs", i)
	}
	lv := len(want.sibs) + c.R.Intn(20)
	cs := p.AllSiblingsCircom(lv)
	c.Assert(len(cs) == lv+1, "circom-len", "AllSiblingsCircom(%d) has %d elements", lv, len(cs))
	for i := range cs {
		w := h32{}
		if i < len(want.sibs) {
			w = want.sibs[i]
		}
		c.Assert(cs[i].Cmp(leBig(w[:])) == 0, "circom", "circuit sibling %d differs", i)
	}
	c.Count("encodings", 3)
}

type c02state struct {
	root h32
	t    *refTree
}

func trueStatement(t *refTree, exist bool, hi, hv h32) bool {
	e, in := t.m[hi]
	if exist {
		return in && e.hv == hv
	}
	return !in
}

func c02generated(c *C) {
	u := universe(3000)
	st := openStore(c, storeKind(c))
	defer st.close()
	ml := []int{140, 140, 240, 100}[c.R.Intn(4)]
	mt, err := merkletree.NewMerkleTree(st.s, ml)
	c.Assert(err == nil, "new", "%v", err)
	ref := newRefTree(ml)
	k := 1 + c.R.Intn(16)
	pool := u.pick(c.R, k+5)
	states := []c02state{{h32{}, ref.clone()}}
	for i := 0; i < k; i++ {
		c.Assert(mt.AddEntry(pool[i].entry()) == nil, "add", "insert failed")
		ref.m[pool[i].hi] = pool[i]
		states = append(states, c02state{ref.root(), ref.clone()})
	}
	cur := h32(*mt.RootKey())
	c.Assert(cur == ref.root(), "root", "root %x want %x", cur, ref.root())
	type made struct {
		b      []byte
		s      c02state
		hi, hv h32
	}
	var proofs []made
	for si, s := range states {
		for _, e := range pool {
			if len(states) > 6 && si != len(states)-1 && c.R.Intn(3) > 0 {
				continue
			}
			var rk *merkletree.Hash
			if s.root != cur || c.R.Intn(2) == 0 {
				rk = hsh(s.root)
			}
			p, err := mt.GenerateProof(hsh(e.hi), rk)
			c.Assert(err == nil, "generate", "GenerateProof for a known root: %v", err)
			sibs, end := refSiblings(s.t.list(), e.hi)
			want := &rproof{sibs: sibs}
			if end != nil && end.hi == e.hi {
				want.exist = true
				c.Count("existence", 1)
			} else if end != nil {
				want.aux, want.ahi, want.ahv = true, end.hi, end.hv
				c.Count("absence_aux", 1)
			} else {
				c.Count("absence_empty", 1)
			}
			c.Assert(p.Existence == want.exist, "existence-flag", "proof says existence=%v, entry in tree=%v", p.Existence, want.exist)
			c.Assert(merkletree.VerifyProof(hsh(s.root), p, hsh(e.hi), hsh(e.hv)), "verify", "the generated proof does not verify (existence=%v depth=%d)", p.Existence, len(sibs))
			r, err := merkletree.RootFromProof(p, hsh(e.hi), hsh(e.hv))
			c.Assert(err == nil && h32(*r) == s.root, "rootfromproof", "RootFromProof gives another root")
			if c.R.Intn(3) == 0 {
				c02encodings(c, p, want, s.root, e.hi, e.hv)
			}
			proofs = append(proofs, made{want.bytes(), s, e.hi, e.hv})
			c.Distinct("%x%x%x", s.root, e.hi, want.bytes())
		}
	}
	c.Sample("levels=%d entries=%d roots=%d proofs=%d e.g. %x", ml, k, len(states), len(proofs), proofs[len(proofs)-1].b)
	// alterations: any accepted proof must state a truth, and agree with the reference verifier
	judge := func(why string, b []byte, s c02state, hi, hv h32) {
		rp := parseProof(b)
		wantOK := false
		if rp != nil {
			root, ok := rp.root(hi, hv)
			wantOK = ok && root == s.root
		}
		ok, parsed, p := repoVerify(c, b, s.root, hi, hv)
		c.Count("tampered", 1)
		if ok {
			c.Assert(wantOK, "unsound:"+why, "accepted, the reference verifier rejects it (%s): root=%x hi=%x hv=%x proof=%x", why, s.root, hi, hv, b)
			c.Assert(trueStatement(s.t, p.Existence, hi, hv), "false-statement:"+why, "a proof of a false statement was accepted (%s existence=%v): proof=%x", why, p.Existence, b)
			c.Count("tampered_accepted_true", 1)
		} else if wantOK && parsed {
			c.Fail("incomplete:"+why, "rejected, but it states a truth and leads to the root (%s): root=%x hi=%x proof=%x", why, s.root, hi, b)
		}
	}
	n := 130
	if c.Tier == "thorough" {
		n = 700
	}
	for i := 0; i < n; i++ {
		m := proofs[c.R.Intn(len(proofs))]
		s, hi, hv := m.s, m.hi, m.hv
		b, why := tamperProof(c.R, m.b, proofs[c.R.Intn(len(proofs))].b, s.root)
		judge(why, b, s, hi, hv)
		// the same proof for other statements
		o := proofs[c.R.Intn(len(proofs))]
		switch c.R.Intn(5) {
		case 0:
			judge("other-root", m.b, o.s, hi, hv)
		case 1:
			judge("other-value", m.b, s, hi, o.hv)
		case 2:
			judge("other-index", m.b, s, o.hi, o.hv)
		case 3:
			judge("other-index-same-value", m.b, s, o.hi, hv)
		case 4:
			x := hi
			x[c.R.Intn(32)] ^= 1 << uint(c.R.Intn(8))
			judge("index-bit", m.b, s, x, hv)
		}
		if rp := parseProof(m.b); !rp.exist && rp.aux {
			// the auxiliary leaf itself is in the tree: its absence must not be provable with it
			judge("aux-as-absent", m.b, s, rp.ahi, rp.ahv)
			y := *rp
			y.exist, y.aux = true, false
			judge("aux-as-existing", y.bytes(), s, rp.ahi, rp.ahv)
			judge("aux-as-existing-hi", y.bytes(), s, hi, rp.ahv)
		} else if rp.exist {
			y := *rp
			y.exist = false
			judge("existence-as-absence", y.bytes(), s, hi, hv)
			y.aux, y.ahi, y.ahv = true, hi, hv
			judge("existence-as-aux", y.bytes(), s, hi, hv)
			// same index written outside the field
			z := bigLE(new(big.Int).Add(leBig(hi[:]), constants.Q))
			y.ahi = z
			judge("aux-noncanonical", y.bytes(), s, hi, hv)
		}
	}
	// proofs altered as values, not bytes
	for i := 0; i < 40; i++ {
		m := proofs[c.R.Intn(len(proofs))]
		p, err := merkletree.NewProofFromBytes(m.b)
		c.Assert(err == nil, "decode", "%v", err)
		if p.Existence {
			p.Existence = false
			c.Assert(!merkletree.VerifyProof(hsh(m.s.root), p, hsh(m.hi), hsh(m.hv)), "flip-existence", "flipping the existence flag of an existence proof is accepted")
			p.NodeAux = &merkletree.NodeAux{HIndex: hsh(m.hi), HValue: hsh(m.hv)}
			c.Assert(!merkletree.VerifyProof(hsh(m.s.root), p, hsh(m.hi), hsh(m.hv)), "flip-existence-aux", "an absence proof whose auxiliary leaf is the entry itself is accepted")
		} else {
			p.Existence = true
			c.Assert(!merkletree.VerifyProof(hsh(m.s.root), p, hsh(m.hi), hsh(m.hv)), "flip-absence", "flipping the existence flag of an absence proof is accepted")
		}
		c.Count("tampered", 1)
	}
	_, err = mt.GenerateProof(hsh(pool[0].hi), hsh(h32{1, 2, 3}))
	c.Assert(err != nil, "unknown-root", "GenerateProof under an unknown root succeeded")
}

func tamperProof(r *rand.Rand, b, other []byte, root h32) ([]byte, string) {
	x := append([]byte{}, b...)
	switch r.Intn(12) {
	case 0:
		x[0] ^= byte(1 + r.Intn(3))
		return x, "flags"
	case 1:
		x[1] = byte(int(x[1]) + r.Intn(5) - 2)
		return x, "depth"
	case 2:
		x[1] = byte(r.Intn(256))
		return x, "depth-any"
	case 3:
		d := int(x[1]) + 1
		i := r.Intn(d)
		if i >= 240 {
			i = 239
		}
		x[2+29-i/8] ^= 1 << uint(i%8)
		return x, "bitmap"
	case 4:
		i := r.Intn(240)
		x[2+29-i/8] ^= 1 << uint(i%8)
		return x, "bitmap-any"
	case 5:
		if len(x) > 32 {
			x[32+r.Intn(len(x)-32)] ^= 1 << uint(r.Intn(8))
		}
		return x, "body-bit"
	case 6:
		return x[:r.Intn(len(x)+1)], "truncate"
	case 7:
		if len(x) >= 96 {
			n := (len(x) - 32) / 32
			i, j := 32+32*r.Intn(n), 32+32*r.Intn(n)
			var t h32
			copy(t[:], x[i:])
			copy(x[i:i+32], x[j:j+32])
			copy(x[j:j+32], t[:])
		}
		return x, "swap"
	case 8:
		// header of one proof with the body of another
		return append(append([]byte{}, x[:32]...), other[32:]...), "mix"
	case 9:
		rp := parseProof(x)
		if len(rp.sibs) > 0 {
			rp.sibs[r.Intn(len(rp.sibs))] = h32{}
		}
		return rp.bytes(), "drop-sibling"
	case 10:
		rp := parseProof(x)
		s := root
		if r.Intn(2) == 0 {
			s = randElem(r)
		}
		rp.sibs = append(rp.sibs, s)
		if len(rp.sibs) > 240 {
			rp.sibs = rp.sibs[:240]
		}
		return rp.bytes(), "extra-level"
	}
	rp := parseProof(x)
	if len(rp.sibs) > 0 {
		rp.sibs = rp.sibs[:r.Intn(len(rp.sibs))]
	}
	return rp.bytes(), "cut-levels"
}

// c02synthetic: proofs of any depth and shape against the reference verifier.
func c02synthetic(c *C) {
	depth := c.R.Intn(12)
	switch c.R.Intn(6) {
	case 0:
		depth = c.R.Intn(241)
	case 1:
		depth = 236 + c.R.Intn(5)
	case 2:
		depth = 8*c.R.Intn(31) + c.R.Intn(3) - 1
		if depth < 0 {
			depth = 0
		} else if depth > 240 {
			depth = 240
		}
	}
	p := &rproof{exist: c.R.Intn(2) == 0}
	dens := c.R.Intn(4)
	if depth > 40 && dens > 1 {
		dens = 3 // mostly empty: hashing is slow
	}
	for i := 0; i < depth; i++ {
		var s h32
		if c.R.Intn(1+dens*dens*dens) == 0 {
			s = randElem(c.R)
		}
		p.sibs = append(p.sibs, s)
	}
	if !p.exist && c.R.Intn(2) == 0 {
		p.aux = true
		p.ahi, p.ahv = randElem(c.R), randElem(c.R)
	}
	hi, hv := randElem(c.R), randElem(c.R)
	if c.R.Intn(5) == 0 && p.aux {
		p.ahi = hi
	}
	if c.R.Intn(10) == 0 {
		hi = bigLE(new(big.Int).Add(constants.Q, big.NewInt(int64(c.R.Intn(100)))))
	}
	root, ok := p.root(hi, hv)
	b := p.bytes()
	got, parsed, q := repoVerify(c, b, root, hi, hv)
	c.Assert(parsed, "synthetic-parse", "a well-formed proof of depth %d does not parse: %x", depth, b)
	c.Assert(got == ok, "synthetic", "VerifyProof=%v, reference=%v (depth %d existence=%v aux=%v): %x", got, ok, depth, p.exist, p.aux, b)
	if ok {
		c.Count("accepted", 1)
		c02encodings(c, q, p, root, hi, hv)
		c.Distinct("%x%x", b, hi)
		c.Sample("depth=%d existence=%v aux=%v root=%x", depth, p.exist, p.aux, root)
		y := root
		y[c.R.Intn(32)] ^= 1 << uint(c.R.Intn(8))
		g, _, _ := repoVerify(c, b, y, hi, hv)
		c.Assert(!g, "synthetic-root", "accepted for another root")
		if v2 := randElem(c.R); p.exist && v2 != hv {
			g, _, _ = repoVerify(c, b, root, hi, v2)
			c.Assert(!g, "synthetic-value", "an existence proof is accepted for another value")
		}
		t, why := tamperProof(c.R, b, b, root)
		tp := parseProof(t)
		want := false
		if tp != nil {
			r2, o2 := tp.root(hi, hv)
			want = o2 && r2 == root
		}
		g, pr, _ := repoVerify(c, t, root, hi, hv)
		c.Assert(!g || want, "synthetic-tamper:"+why, "accepted after %s: %x", why, t)
		c.Assert(g || !want || !pr, "synthetic-incomplete:"+why, "rejected although it leads to the root (%s): %x", why, t)
		if !g {
			c.Count("rejected", 1)
		}
	} else {
		c.Count("rejected", 1)
	}
}

// c02deep: trees much deeper than chance allows, built as chains of nodes in
// the storage around a real leaf; the generated proof must be the specified one.
func c02deep(c *C) {
	u := universe(3000)
	e := u.all[c.R.Intn(len(u.all))]
	ml := []int{140, 240}[c.R.Intn(2)]
	depth := 30 + c.R.Intn(ml-30)
	if c.R.Intn(3) == 0 {
		depth = ml - 1
	}
	mem := db.NewMemoryStorage()
	tx, err := mem.NewTx()
	c.Must(err, "tx")
	put := func(n *merkletree.Node) *merkletree.Hash {
		k, err := n.Key()
		if err != nil {
			c.Fail("node-key", "Node.Key: %v", err)
		}
		tx.Put(k[:], n.Value())
		return k
	}
	want := &rproof{exist: true}
	key := put(merkletree.NewNodeLeaf(e.entry()))
	want.sibs = make([]h32, depth)
	for i := depth - 1; i >= 0; i-- {
		if c.R.Intn(12) == 0 {
			want.sibs[i] = randElem(c.R)
		}
		if bitOf(e.hi, i) {
			key = put(merkletree.NewNodeMiddle(hsh(want.sibs[i]), key))
		} else {
			key = put(merkletree.NewNodeMiddle(key, hsh(want.sibs[i])))
		}
	}
	c.Must(tx.Commit(), "commit")
	root, _ := want.root(e.hi, e.hv)
	c.Assert(h32(*key) == root, "deep-root", "node keys give root %x, specified %x", h32(*key), root)
	mt, err := merkletree.NewMerkleTree(mem, ml)
	c.Assert(err == nil, "new", "%v", err)
	p, err := mt.GenerateProof(hsh(e.hi), key)
	c.Assert(err == nil, "deep-generate", "GenerateProof at depth %d of %d levels: %v", depth, ml, err)
	c.Assert(merkletree.VerifyProof(key, p, hsh(e.hi), hsh(e.hv)), "deep-verify", "proof of depth %d does not verify", depth)
	c02encodings(c, p, want, root, e.hi, e.hv)
	sn, err := mt.Snapshot(key)
	c.Assert(err == nil, "deep-snapshot", "%v", err)
	d, err := sn.GetDataByIndex(hsh(e.hi))
	c.Assert(err == nil && rentOf(d) == e.d, "deep-lookup", "lookup at depth %d: %v", depth, err)
	// another index diverging at some level: absent
	lvl := c.R.Intn(depth)
	x := e.hi
	x[lvl/8] ^= 1 << uint(lvl%8)
	if want.sibs[lvl] == (h32{}) && inField(x) {
		w2 := &rproof{sibs: append([]h32{}, want.sibs[:lvl]...)}
		// sibling at lvl is the rest of the chain
		rest := &rproof{exist: true, sibs: want.sibs[lvl+1:]}
		// root of the rest, seen from level lvl+1
		k := refLeaf(e.hi, e.hv)
		for i := len(rest.sibs) - 1; i >= 0; i-- {
			if bitOf(e.hi, lvl+1+i) {
				k = refMid(rest.sibs[i], k)
			} else {
				k = refMid(k, rest.sibs[i])
			}
		}
		w2.sibs = append(w2.sibs, k)
		p2, err := mt.GenerateProof(hsh(x), key)
		c.Assert(err == nil && !p2.Existence, "deep-absence", "absent index at level %d: %v", lvl, err)
		c.Assert(merkletree.VerifyProof(key, p2, hsh(x), hsh(e.hv)), "deep-absence-verify", "absence proof does not verify")
		c02encodings(c, p2, w2, root, x, e.hv)
	}
	c.Distinct("%x", root)
	c.Count("deep_proofs", 1)
}
