package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"math/rand"

	"github.com/iden3/go-iden3-core/common"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-crypto/babyjub"
	"github.com/iden3/go-iden3-crypto/constants"
)

func init() {
	rules["C10"] = "claims of every kind with random and extreme fields (all flag, subject, position, version and expiration combinations for generic claims) are laid out by a reference encoder written from the format; the entry, its decoding by type, hashes, hex, metadata JSON and re-encoding after changing metadata are compared, and every single field is flipped to check that exactly the index or exactly the value changes; distinct = distinct entries"
	reg(Part{Prop: "C10", Name: "typed", Quick: 1500, Thorough: 30000, Need: []string{"basic", "otheriden", "keybabyjub", "flips_index", "flips_value"}, Run: c10typed})
	reg(Part{Prop: "C10", Name: "generic", Quick: 2000, Thorough: 40000, Need: []string{"combos", "used", "subject_value", "subject_index"}, Run: c10generic})
	reg(Part{Prop: "C10", Name: "leaves", Quick: 2000, Thorough: 40000, Need: []string{"roots", "revocations"}, Run: c10leaves})
	reg(Part{Prop: "C10", Name: "json", Quick: 4000, Thorough: 80000, Need: []string{"metadata", "rejected", "used"}, Run: c10json})
}

// rmeta is the reference form of claim metadata.
type rmeta struct {
	typ        [8]byte
	subj       byte
	posValue   bool
	expFlag    bool
	verFlag    bool
	id         [31]byte
	exp        int64
	ver, nonce uint32
}

// put lays the metadata out over the elements of an entry.
func (m *rmeta) put(d *[8]h32) {
	copy(d[0][:8], m.typ[:])
	f := m.subj
	if m.posValue {
		f |= 1 << 2
	}
	if m.expFlag {
		f |= 1 << 3
	}
	if m.verFlag {
		f |= 1 << 4
	}
	d[0][8] = f
	if m.verFlag {
		binary.LittleEndian.PutUint32(d[0][12:], m.ver)
	}
	if m.subj != 0 {
		if m.posValue {
			copy(d[5][:31], m.id[:])
		} else {
			copy(d[1][:31], m.id[:])
		}
	}
	binary.LittleEndian.PutUint32(d[4][:], m.nonce)
	if m.expFlag {
		binary.LittleEndian.PutUint64(d[4][4:], uint64(m.exp))
	}
}

func extU32(r *rand.Rand) uint32 {
	switch r.Intn(5) {
	case 0:
		return uint32(r.Intn(3))
	case 1:
		return math.MaxUint32 - uint32(r.Intn(3))
	case 2:
		return 1 << uint(r.Intn(32))
	}
	return r.Uint32()
}

func extI64(r *rand.Rand) int64 {
	switch r.Intn(6) {
	case 0:
		return int64(r.Intn(3))
	case 1:
		return math.MaxInt64 - int64(r.Intn(3))
	case 2:
		return math.MinInt64 + int64(r.Intn(3))
	case 3:
		return 1 << uint(r.Intn(63))
	}
	return int64(r.Uint64())
}

func fill(r *rand.Rand, b []byte) {
	switch r.Intn(5) {
	case 0:
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	case 2:
		b[r.Intn(len(b))] = byte(1 + r.Intn(255))
	default:
		r.Read(b)
	}
}

// basicSlots lays out the slots of a basic claim.
func putSlots(d *[8]h32, idx, val []byte, skip1 bool) {
	n := copy(d[0][12:31], idx)
	for i := 1; i < 4; i++ {
		if skip1 && i == 1 {
			continue
		}
		n += copy(d[i][:31], idx[n:])
	}
	n = copy(d[4][4:31], val)
	for i := 5; i < 8; i++ {
		n += copy(d[i][:31], val[n:])
	}
}

func typeNum(n uint64) (o [8]byte) { binary.BigEndian.PutUint64(o[:], n); return }

func c10entry(c *C, got *merkletree.Entry, want [8]h32, what string) *rent {
	g := rentOf(&got.Data)
	for i := range g {
		c.Assert(g[i] == want[i], "c10:entry", "%s: element %d is %x instead of %x", what, i, g[i], want[i])
		c.Assert(inField(g[i]), "c10:field", "%s: element %d is outside the field", what, i)
	}
	w := mkRent(want)
	hi, err := got.HIndex()
	c.Assert(err == nil && h32(*hi) == w.hi, "c10:hindex", "%s: HIndex = %x, %v instead of %x", what, hi, err, w.hi)
	hv, err := got.HValue()
	c.Assert(err == nil && h32(*hv) == w.hv, "c10:hvalue", "%s: HValue = %x, %v instead of %x", what, hv, err, w.hv)
	return w
}

func c10typed(c *C) {
	switch c.N % 3 {
	case 0:
		var is [claims.IndexSlotLen]byte
		var vs [claims.ValueSlotLen]byte
		fill(c.R, is[:])
		fill(c.R, vs[:])
		m := rmeta{nonce: extU32(c.R)}
		mk := func(is [claims.IndexSlotLen]byte, vs [claims.ValueSlotLen]byte, nonce uint32) (*claims.ClaimBasic, [8]h32) {
			b := claims.NewClaimBasic(is, vs)
			b.Metadata().RevNonce = nonce
			var d [8]h32
			putSlots(&d, is[:], vs[:], false)
			x := m
			x.nonce = nonce
			x.put(&d)
			return b, d
		}
		b, d := mk(is, vs, m.nonce)
		w := c10entry(c, b.Entry(), d, "basic")
		c10entry(c, b.Entry(), d, "basic, encoded twice")
		c10decode(c, d, func(x merkletree.Entrier) bool {
			y, ok := x.(*claims.ClaimBasic)
			return ok && y.IndexSlot == is && y.ValueSlot == vs && y.Metadata().RevNonce == m.nonce &&
				y.Metadata().Type() == claims.ClaimTypeBasic && y.Metadata().Subject == nil && *y.Metadata() == *b.Metadata()
		})
		is2, vs2 := is, vs
		is2[c.R.Intn(len(is2))] ^= byte(1 << uint(c.R.Intn(8)))
		vs2[c.R.Intn(len(vs2))] ^= byte(1 << uint(c.R.Intn(8)))
		b2, d2 := mk(is2, vs, m.nonce)
		c10flip(c, w, c10entry(c, b2.Entry(), d2, "basic"), true)
		b3, d3 := mk(is, vs2, m.nonce)
		c10flip(c, w, c10entry(c, b3.Entry(), d3, "basic"), false)
		b4, d4 := mk(is, vs, m.nonce^(1<<uint(c.R.Intn(32))))
		c10flip(c, w, c10entry(c, b4.Entry(), d4, "basic"), false)
		// the same object with its nonce changed
		b.Metadata().RevNonce = b4.Metadata().RevNonce
		c10entry(c, b.Entry(), d4, "basic with a new nonce")
		c.Count("basic", 1)
	case 1:
		var is [claims.IndexSubjectSlotLen]byte
		var vs [claims.ValueSlotLen]byte
		fill(c.R, is[:])
		fill(c.R, vs[:])
		id := randID(c.R)
		mk := func(id core.ID, is [claims.IndexSubjectSlotLen]byte, vs [claims.ValueSlotLen]byte, nonce uint32) (*claims.ClaimOtherIden, [8]h32) {
			b := claims.NewClaimOtherIden(&id, is, vs)
			b.Metadata().RevNonce = nonce
			var d [8]h32
			putSlots(&d, is[:], vs[:], true)
			x := rmeta{typ: typeNum(2), subj: 2, id: id, nonce: nonce}
			x.put(&d)
			return b, d
		}
		nonce := extU32(c.R)
		b, d := mk(id, is, vs, nonce)
		w := c10entry(c, b.Entry(), d, "otheriden")
		c10decode(c, d, func(x merkletree.Entrier) bool {
			y, ok := x.(*claims.ClaimOtherIden)
			return ok && y.IndexSlot == is && y.ValueSlot == vs && y.Metadata().RevNonce == nonce &&
				y.Metadata().Type() == claims.ClaimTypeOtherIden && *y.Metadata().Subject == id && y.Metadata().Header() == b.Metadata().Header()
		})
		is2, vs2, id2 := is, vs, id
		is2[c.R.Intn(len(is2))] ^= byte(1 << uint(c.R.Intn(8)))
		vs2[c.R.Intn(len(vs2))] ^= byte(1 << uint(c.R.Intn(8)))
		id2[c.R.Intn(31)] ^= byte(1 << uint(c.R.Intn(8)))
		b2, d2 := mk(id, is2, vs, nonce)
		c10flip(c, w, c10entry(c, b2.Entry(), d2, "otheriden"), true)
		b3, d3 := mk(id, is, vs2, nonce)
		c10flip(c, w, c10entry(c, b3.Entry(), d3, "otheriden"), false)
		b4, d4 := mk(id2, is, vs, nonce)
		c10flip(c, w, c10entry(c, b4.Entry(), d4, "otheriden"), true)
		b5, d5 := mk(id, is, vs, nonce^(1<<uint(c.R.Intn(32))))
		c10flip(c, w, c10entry(c, b5.Entry(), d5, "otheriden"), false)
		c.Count("otheriden", 1)
	case 2:
		var k babyjub.PrivateKey
		c.R.Read(k[:])
		pk := k.Public()
		if c.R.Intn(3) == 0 {
			// coordinates with leading zero bytes, and extreme ones
			pk = &babyjub.PublicKey{X: leBigE(randElem(c.R)), Y: leBigE(randElem(c.R))}
		}
		kt := claims.BabyJubKeyType([]uint64{0, 1, 255, 256, 1 << 32, math.MaxUint64, c.R.Uint64()}[c.R.Intn(7)])
		nonce := extU32(c.R)
		mk := func(x, y *big.Int, kt claims.BabyJubKeyType, nonce uint32) (*claims.ClaimKeyBabyJub, [8]h32) {
			b := claims.NewClaimKeyBabyJub(&babyjub.PublicKey{X: x, Y: y}, kt)
			b.Metadata().RevNonce = nonce
			var d [8]h32
			kn := typeNum(uint64(kt))
			copy(d[1][:], kn[:])
			d[2], d[3] = bigLE(x), bigLE(y)
			m := rmeta{typ: typeNum(1), nonce: nonce}
			m.put(&d)
			return b, d
		}
		b, d := mk(pk.X, pk.Y, kt, nonce)
		w := c10entry(c, b.Entry(), d, "keybabyjub")
		c10decode(c, d, func(x merkletree.Entrier) bool {
			y, ok := x.(*claims.ClaimKeyBabyJub)
			return ok && y.KeyType == kt && y.Ax.Cmp(pk.X) == 0 && y.Ay.Cmp(pk.Y) == 0 && y.Metadata().RevNonce == nonce &&
				*y.Metadata() == *b.Metadata()
		})
		b2, d2 := mk(new(big.Int).Xor(pk.X, big.NewInt(1)), pk.Y, kt, nonce)
		if inField(d2[2]) {
			c10flip(c, w, c10entry(c, b2.Entry(), d2, "keybabyjub"), true)
		}
		b3, d3 := mk(pk.X, pk.Y, kt^claims.BabyJubKeyType(1<<uint(c.R.Intn(64))), nonce)
		c10flip(c, w, c10entry(c, b3.Entry(), d3, "keybabyjub"), true)
		b4, d4 := mk(pk.X, pk.Y, kt, nonce+1)
		c10flip(c, w, c10entry(c, b4.Entry(), d4, "keybabyjub"), false)
		c.Count("keybabyjub", 1)
	}
}

func leBigE(h h32) *big.Int { return leBig(h[:]) }

// c10decode decodes by type and re-encodes.
func c10decode(c *C, d [8]h32, same func(merkletree.Entrier) bool) {
	e := (&rent{d: d}).entry()
	x, err := claims.NewClaimFromEntry(e)
	c.Assert(err == nil, "c10:decode", "NewClaimFromEntry: %v", err)
	c.Assert(same(x), "c10:decoded", "decoded claim differs: %+v", x)
	c10entry(c, x.Entry(), d, "decoded and encoded again")
	c.Assert(claims.GetRevocationNonce(e) == binary.LittleEndian.Uint32(d[4][:]), "c10:revnonce", "GetRevocationNonce = %d", claims.GetRevocationNonce(e))
	if y, ok := x.(claims.Claimer); ok {
		c.Assert(y.Metadata().RevNonce == claims.GetRevocationNonce(e), "c10:revnonce", "metadata nonce %d, entry nonce %d", y.Metadata().RevNonce, claims.GetRevocationNonce(e))
	} else {
		c.Fail("c10:claimer", "%T has no metadata", x)
	}
	// elements outside the field are refused
	bad := d
	k := c.R.Intn(8)
	for i := range bad[k] {
		bad[k][i] = 0xff
	}
	if c.R.Intn(2) == 0 {
		bad[k] = bigLE(constants.Q)
	}
	_, err = claims.NewClaimFromEntry((&rent{d: bad}).entry())
	c.Assert(err != nil, "c10:field", "NewClaimFromEntry accepts an element outside the field")
	// unknown types are refused
	unk := d
	unk[0][c.R.Intn(8)] |= 0x10
	_, err = claims.NewClaimFromEntry((&rent{d: unk}).entry())
	c.Assert(errors.Is(err, claims.ErrInvalidClaimType), "c10:unknown", "NewClaimFromEntry of type %x: %v", unk[0][:8], err)
	// hex of the entry
	hx := claims.ClaimToHex(x)
	want := (&rent{d: d}).hex()[2:]
	c.Assert(hx == want, "c10:hex", "ClaimToHex = %s instead of %s", hx, want)
	c.Distinct("%x", d)
}

// c10flip: two contents differing in one field.
func c10flip(c *C, a, b *rent, index bool) {
	c.Assert(a.leaf != b.leaf && a.d != b.d, "c10:injective", "different claims have the same entry")
	if index {
		c.Assert(a.hi != b.hi && a.hv == b.hv, "c10:flip_index", "an index field changed: index hash changed %v, value hash changed %v", a.hi != b.hi, a.hv != b.hv)
		c.Count("flips_index", 1)
	} else {
		c.Assert(a.hi == b.hi && a.hv != b.hv, "c10:flip_value", "a value field changed: index hash changed %v, value hash changed %v", a.hi != b.hi, a.hv != b.hv)
		c.Count("flips_value", 1)
	}
}

func randType(r *rand.Rand) (t [8]byte) {
	for {
		switch r.Intn(3) {
		case 0:
			t = typeNum(uint64(3 + r.Intn(100)))
		default:
			r.Read(t[:])
		}
		if binary.BigEndian.Uint64(t[:]) > 2 {
			return t
		}
	}
}

func hdrOf(m *rmeta) claims.ClaimHeader {
	h := claims.ClaimHeader{Type: m.typ, Subject: claims.ClaimSubject(m.subj), Expiration: m.expFlag, Version: m.verFlag}
	if m.posValue {
		h.SubjectPos = claims.ClaimSubjectPosValue
	}
	return h
}

func (m *rmeta) metadata() claims.Metadata {
	x := claims.NewMetadata(hdrOf(m))
	if m.subj != 0 {
		id := core.ID(m.id)
		x.Subject = &id
	}
	if m.expFlag {
		x.Expiration = m.exp
	}
	if m.verFlag {
		x.Version = m.ver
	}
	x.RevNonce = m.nonce
	return x
}

func randMeta(r *rand.Rand, combo int) rmeta {
	m := rmeta{typ: randType(r), subj: byte(combo % 3), posValue: combo/3%2 == 1, expFlag: combo/6%2 == 1, verFlag: combo/12%2 == 1,
		exp: extI64(r), ver: extU32(r), nonce: extU32(r)}
	m.id = randID(r)
	return m
}

func metaDiff(a *claims.Metadata, m *rmeta) string {
	w := m.metadata()
	if a.Header() != w.Header() || a.Type() != claims.ClaimType(m.typ) {
		return fmt.Sprintf("header %+v instead of %+v", a.Header(), w.Header())
	}
	if (a.Subject == nil) != (w.Subject == nil) || (a.Subject != nil && *a.Subject != *w.Subject) {
		return fmt.Sprintf("subject %v instead of %v", a.Subject, w.Subject)
	}
	if a.Expiration != w.Expiration || a.Version != w.Version || a.RevNonce != w.RevNonce {
		return fmt.Sprintf("expiration %d version %d nonce %d instead of %d %d %d", a.Expiration, a.Version, a.RevNonce, w.Expiration, w.Version, w.RevNonce)
	}
	return ""
}

func c10generic(c *C) {
	m := randMeta(c.R, c.N%24)
	// payload in the bytes the format leaves free
	var d [8]h32
	for i := range d {
		fill(c.R, d[i][:31])
	}
	d[0][9], d[0][10], d[0][11] = byte(c.R.Intn(256)), byte(c.R.Intn(256)), byte(c.R.Intn(256))
	m.put(&d)
	e := (&rent{d: d}).entry()
	if c.R.Intn(2) == 0 {
		e.HIndex()
		e.HValue()
	}
	g := claims.NewClaimGeneric(e)
	if x := metaDiff(g.Metadata(), &m); x != "" {
		c.Fail("c10:metadata", "generic claim decoded from an entry has %s", x)
	}
	w := c10entry(c, g.Entry(), d, "generic")
	// header and metadata alone, over a blank entry
	var be merkletree.Entry
	md := m.metadata()
	md.Marshal(&be)
	var bd [8]h32
	m.put(&bd)
	c10entry(c, &be, bd, "metadata alone")
	back := usedMeta(c)
	back.Unmarshal(&be)
	if x := metaDiff(&back, &m); x != "" {
		c.Fail("c10:metadata", "metadata alone decodes with %s", x)
	}
	um := usedMeta(c)
	hd := um.Header()
	hd.Unmarshal(e)
	c.Assert(hd == hdrOf(&m), "c10:header", "header %+v instead of %+v", hd, hdrOf(&m))
	// hex
	hx := claims.ClaimToHex(g)
	c.Assert(hx == w.hex()[2:], "c10:hex", "ClaimToHex = %s", hx)
	for _, s := range []string{hx, "0x" + hx} {
		h, err := claims.HexToClaimGeneric(s)
		if err != nil && s == hx {
			continue // the prefix may be required
		}
		c.Assert(err == nil, "c10:fromhex", "HexToClaimGeneric: %v", err)
		c10entry(c, h.Entry(), d, "generic from hex")
		if x := metaDiff(h.Metadata(), &m); x != "" {
			c.Fail("c10:metadata", "generic claim from hex has %s", x)
		}
	}
	arr := claims.ClaimArrayToHexArray([]merkletree.Entrier{g, g})
	c.Assert(len(arr) == 2 && arr[0] == hx && arr[1] == hx, "c10:hexarray", "ClaimArrayToHexArray = %v", arr)
	ga, err := claims.HexArrayToClaimGenericArray([]string{"0x" + hx, "0x" + hx})
	c.Assert(err == nil && len(ga) == 2 && bytes.Equal(ga[1].Entry().Bytes(), e.Bytes()), "c10:hexarray", "HexArrayToClaimGenericArray: %v", err)
	// metadata changes, one at a time
	before := e.Bytes()
	for t := 0; t < 4; t++ {
		m2 := m
		switch c.R.Intn(4) {
		case 0:
			m2.nonce ^= 1 << uint(c.R.Intn(32))
			g.Metadata().RevNonce = m2.nonce
			d2 := d
			m2.put(&d2)
			c10flip(c, w, c10entry(c, g.Entry(), d2, "generic with a new nonce"), false)
			g.Metadata().RevNonce = m.nonce
		case 1:
			if !m.expFlag {
				continue
			}
			m2.exp ^= 1 << uint(c.R.Intn(64))
			g.Metadata().Expiration = m2.exp
			d2 := d
			m2.put(&d2)
			c10flip(c, w, c10entry(c, g.Entry(), d2, "generic with a new expiration"), false)
			g.Metadata().Expiration = m.exp
		case 2:
			if !m.verFlag {
				continue
			}
			m2.ver ^= 1 << uint(c.R.Intn(32))
			g.Metadata().Version = m2.ver
			d2 := d
			m2.put(&d2)
			c10flip(c, w, c10entry(c, g.Entry(), d2, "generic with a new version"), true)
			g.Metadata().Version = m.ver
		case 3:
			if m.subj == 0 {
				continue
			}
			m2.id[c.R.Intn(31)] ^= byte(1 << uint(c.R.Intn(8)))
			id2 := core.ID(m2.id)
			old := g.Metadata().Subject
			g.Metadata().Subject = &id2
			d2 := d
			m2.put(&d2)
			c10flip(c, w, c10entry(c, g.Entry(), d2, "generic with a new subject"), !m.posValue)
			g.Metadata().Subject = old
		}
	}
	c.Assert(bytes.Equal(before, e.Bytes()), "c10:source_entry", "encoding a generic claim changed the entry it was built from")
	c10entry(c, g.Entry(), d, "generic, metadata restored")
	// the claim types have their own decoding only with their own type
	_, err = claims.NewClaimFromEntry(e)
	c.Assert(errors.Is(err, claims.ErrInvalidClaimType), "c10:unknown", "NewClaimFromEntry of type %x: %v", m.typ, err)
	c.Count("combos", 1)
	if m.subj != 0 {
		if m.posValue {
			c.Count("subject_value", 1)
		} else {
			c.Count("subject_index", 1)
		}
	}
	c.Distinct("%x", d)
	if c.N < 3 {
		c.Sample("type %x subject %d inValue %v expiration %v/%d version %v/%d nonce %d", m.typ, m.subj, m.posValue, m.expFlag, m.exp, m.verFlag, m.ver, m.nonce)
	}
}

func c10leaves(c *C) {
	root := randElem(c.R)
	l := claims.NewLeafRootsTree(merkletree.Hash(root))
	w := c10entry(c, l.Entry(), [8]h32{root}, "roots leaf")
	l2 := claims.NewLeafRootsTreeFromEntry(l.Entry())
	c.Assert(h32(l2.Root) == root, "c10:rootsleaf", "root %x decodes as %x", root, l2.Root[:])
	r2 := root
	for r2 == root || !inField(r2) {
		r2 = root
		r2[c.R.Intn(31)] ^= byte(1 << uint(c.R.Intn(8)))
	}
	c10flip(c, w, c10entry(c, claims.NewLeafRootsTree(merkletree.Hash(r2)).Entry(), [8]h32{r2}, "roots leaf"), true)
	c.Count("roots", 1)

	n, v := extU32(c.R), extU32(c.R)
	mk := func(n, v uint32) *rent {
		var d [8]h32
		binary.LittleEndian.PutUint32(d[0][:], n)
		binary.LittleEndian.PutUint32(d[4][:], v)
		return c10entry(c, claims.NewLeafRevocationsTree(n, v).Entry(), d, "revocations leaf")
	}
	wr := mk(n, v)
	lr := claims.NewLeafRevocationsTreeFromEntry(wr.entry())
	c.Assert(lr.Nonce == n && lr.Version == v, "c10:revleaf", "nonce %d version %d decode as %d, %d", n, v, lr.Nonce, lr.Version)
	c10flip(c, wr, mk(n^(1<<uint(c.R.Intn(32))), v), true)
	c10flip(c, wr, mk(n, v^(1<<uint(c.R.Intn(32)))), false)
	c.Count("revocations", 1)

	// claim types from numbers and names
	num := c.R.Uint64()
	c.Assert([8]byte(claims.NewClaimTypeNum(num)) == typeNum(num), "c10:typenum", "NewClaimTypeNum(%d) = %x", num, claims.NewClaimTypeNum(num))
	if c.N%10 == 0 {
		st := openStore(c, storeKind(c))
		defer st.close()
		mt, err := merkletree.NewMerkleTree(st.s, 140)
		c.Assert(err == nil, "c10:tree", "%v", err)
		ref := newRefTree(140)
		c.Assert(claims.AddLeafRootsTree(mt, hsh(root)) == nil, "c10:addleaf", "AddLeafRootsTree failed")
		ref.m[w.hi] = w
		c.Assert(claims.AddLeafRootsTree(mt, hsh(root)) != nil, "c10:addleaf", "AddLeafRootsTree twice succeeded")
		c.Assert(h32(*mt.RootKey()) == ref.root(), "c10:addleaf", "root differs after AddLeafRootsTree")
		if _, ok := ref.m[wr.hi]; !ok {
			c.Assert(claims.AddLeafRevocationsTree(mt, n, v) == nil, "c10:addleaf", "AddLeafRevocationsTree failed")
			ref.m[wr.hi] = wr
			c.Assert(h32(*mt.RootKey()) == ref.root(), "c10:addleaf", "root differs after AddLeafRevocationsTree")
			c.Assert(claims.AddLeafRevocationsTree(mt, n, v+1) != nil, "c10:addleaf", "a nonce is revoked twice")
		}
	}
	c.Distinct("%x%d%d", root, n, v)
}

// usedMeta is blank, or the metadata of another claim
func usedMeta(c *C) (m claims.Metadata) {
	if c.R.Intn(2) == 0 {
		o := randMeta(c.R, c.R.Intn(24))
		m = o.metadata()
		c.Count("used", 1)
	}
	return m
}

func c10json(c *C) {
	m := randMeta(c.R, c.N%24)
	known := c.R.Intn(4) == 0
	okHeader := true
	if known {
		// the types with a fixed header
		k := c.R.Intn(3)
		m.typ = typeNum(uint64(k))
		fixed := c.R.Intn(2) == 0
		if fixed {
			m.subj, m.posValue, m.expFlag, m.verFlag = 0, false, false, false
			if k == 2 {
				m.subj = 2
			}
		}
		ws := byte(0)
		if k == 2 {
			ws = 2
		}
		okHeader = m.subj == ws && !m.posValue && !m.expFlag && !m.verFlag
	}
	md := m.metadata()
	j, err := json.Marshal(md)
	c.Assert(err == nil, "c10:json", "MarshalJSON: %v", err)
	back := usedMeta(c)
	err = json.Unmarshal(j, &back)
	if !okHeader {
		c.Assert(err != nil, "c10:json_header", "JSON metadata %s with a header its type does not have is accepted", j)
		c.Count("rejected", 1)
		return
	}
	c.Assert(err == nil, "c10:json", "UnmarshalJSON(%s): %v", j, err)
	if x := metaDiff(&back, &m); x != "" {
		c.Fail("c10:json", "JSON %s decodes with %s", j, x)
	}
	j2, err := json.Marshal(&back)
	c.Assert(err == nil && bytes.Equal(j, j2), "c10:json", "JSON %s encodes again as %s", j, j2)
	// type texts
	ct := claims.ClaimType(m.typ)
	t, err := ct.MarshalText()
	c.Assert(err == nil, "c10:typetext", "%v", err)
	var ct2 claims.ClaimType
	err = ct2.UnmarshalText(t)
	c.Assert(err == nil && ct2 == ct, "c10:typetext", "type %x as %s decodes to %x, %v", ct, t, ct2, err)
	// every type has a hex form too
	err = ct2.UnmarshalText([]byte("hex:" + common.HexEncode(ct[:])))
	c.Assert(err == nil && ct2 == ct, "c10:typetext", "type %x as hex decodes to %x, %v", ct, ct2, err)
	_ = hex.EncodeToString
	// altered fields are noticed
	var g map[string]interface{}
	c.Must(json.Unmarshal(j, &g), "generic json")
	switch c.R.Intn(4) {
	case 0:
		g["Type"] = []interface{}{"str:Nothing", "hex:0x00", "raw:0102030405060708", "", "hex:" + common.HexEncode(ct[:]) + "00", 5}[c.R.Intn(6)]
	case 1:
		g["Subject"] = []interface{}{"self", "", "Nobody", 3}[c.R.Intn(4)]
	case 2:
		g["SubjectPos"] = []interface{}{"index", "", "Middle", 1}[c.R.Intn(4)]
	case 3:
		g["RevNonce"] = []interface{}{-1, 4294967296, "1", 1.5}[c.R.Intn(4)]
	}
	j3, _ := json.Marshal(g)
	var b3 claims.Metadata
	err = json.Unmarshal(j3, &b3)
	c.Assert(err != nil, "c10:json_bad", "malformed metadata %s is accepted as %+v", j3, b3)
	c.Count("metadata", 1)
	c.Count("rejected", 1)
	c.Distinct("%s", j)
}
