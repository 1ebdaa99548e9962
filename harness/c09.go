package main

import (
	"bytes"
	"encoding/json"
	"math/big"
	"math/rand"
	"strings"

	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/core/genesis"
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-crypto/babyjub"
)

func init() {
	rules["C09"] = "random types and genesis bytes (uniform, sparse, all-ones), their ids recomputed byte by byte and through an independent base58 and checksum; every byte of an id is changed to other values with and without fixing the checksum, lengths 0..64 and arbitrary texts are parsed, and each verdict is compared with the reference; genesis ids are recomputed from reference trees; distinct = distinct ids or inputs"
	reg(Part{Prop: "C09", Name: "ids", Quick: 20000, Thorough: 60000, Need: []string{"ids", "corrupted_rejected", "corrupted_valid"}, Run: c09ids})
	reg(Part{Prop: "C09", Name: "parse", Quick: 60000, Thorough: 800000, Need: []string{"rejected", "accepted"}, Run: c09parse})
	reg(Part{Prop: "C09", Name: "genesis", Quick: 300, Thorough: 1200, Need: []string{"genesis_ids"}, Run: c09genesis})
}

const b58a = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

func refB58(b []byte) string {
	v := new(big.Int).SetBytes(b)
	var o []byte
	m := new(big.Int)
	for v.Sign() > 0 {
		v.DivMod(v, big.NewInt(58), m)
		o = append(o, b58a[m.Int64()])
	}
	for _, x := range b {
		if x != 0 {
			break
		}
		o = append(o, '1')
	}
	for i, j := 0, len(o)-1; i < j; i, j = i+1, j-1 {
		o[i], o[j] = o[j], o[i]
	}
	return string(o)
}

// refUnB58: nil, false for characters outside the alphabet.
func refUnB58(s string) ([]byte, bool) {
	v := new(big.Int)
	for _, ch := range []byte(s) {
		i := strings.IndexByte(b58a, ch)
		if i < 0 {
			return nil, false
		}
		v.Mul(v, big.NewInt(58))
		v.Add(v, big.NewInt(int64(i)))
	}
	n := 0
	for n < len(s) && s[n] == '1' {
		n++
	}
	return append(make([]byte, n), v.Bytes()...), true
}

// refIDValid is the id check of the specification.
func refIDValid(b []byte) bool {
	if len(b) != 31 {
		return false
	}
	s := 0
	for _, x := range b[:29] {
		s += int(x)
	}
	return s != 0 && b[29] == byte(s>>8) && b[30] == byte(s)
}

func refID(typ [2]byte, gen [27]byte) (o [31]byte) {
	copy(o[:], typ[:])
	copy(o[2:], gen[:])
	s := 0
	for _, x := range o[:29] {
		s += int(x)
	}
	o[29], o[30] = byte(s>>8), byte(s)
	return
}

func randGenesis(r *rand.Rand) (typ [2]byte, gen [27]byte) {
	if r.Intn(2) == 0 {
		r.Read(typ[:])
	}
	switch r.Intn(5) {
	case 0:
		gen[r.Intn(27)] = byte(1 + r.Intn(255))
	case 1:
		for i := range gen {
			gen[i] = 0xff
		}
		gen[r.Intn(27)] = byte(r.Intn(256))
	case 2:
		r.Read(gen[:])
		for i := 0; i < r.Intn(27); i++ {
			gen[i] = 0
		}
	default:
		r.Read(gen[:])
	}
	if typ == [2]byte{} && gen == [27]byte{} {
		gen[0] = 1
	}
	return
}

func randID(r *rand.Rand) core.ID { t, g := randGenesis(r); return core.NewID(t, g) }

func c09ids(c *C) {
	typ, gen := randGenesis(c.R)
	want := refID(typ, gen)
	id := core.NewID(typ, gen)
	c.Logf("type %x genesis %x", typ, gen)
	c.Assert(id == core.ID(want), "c09:newid", "NewID = %x instead of %x", id[:], want[:])
	c.Assert(core.NewID(typ, gen) == id, "c09:determ", "NewID is not deterministic")
	c.Assert(core.CheckChecksum(id), "c09:own_check", "NewID gives an id that fails its check: %x", id[:])
	cs := core.CalculateChecksum(typ, gen)
	c.Assert(cs == [2]byte{want[29], want[30]}, "c09:checksum", "CalculateChecksum = %x", cs)
	t2, g2, c2, err := core.DecomposeID(id)
	c.Assert(err == nil && t2 == typ && g2 == gen && c2 == cs, "c09:decompose", "DecomposeID = %x %x %x %v", t2, g2, c2, err)
	// binary
	b := append([]byte{}, id.Bytes()...)
	c.Assert(bytes.Equal(b, want[:]), "c09:bytes", "Bytes = %x", b)
	ib, err := core.IDFromBytes(b)
	c.Assert(err == nil && ib == id, "c09:frombytes", "IDFromBytes = %x, %v", ib[:], err)
	scramble(b)
	c.Assert(ib == id, "c09:alias", "the parsed id changes with the caller's buffer")
	// base58
	s := id.String()
	c.Assert(s == refB58(want[:]), "c09:base58", "String = %s instead of %s", s, refB58(want[:]))
	is, err := core.IDFromString(s)
	c.Assert(err == nil && is == id, "c09:fromstring", "IDFromString = %x, %v", is[:], err)
	// text, JSON as value, as map key, as field
	mt, err := id.MarshalText()
	c.Assert(err == nil && string(mt) == s, "c09:text", "MarshalText = %s, %v", mt, err)
	var it core.ID
	err = it.UnmarshalText(mt)
	c.Assert(err == nil && it == id, "c09:text", "UnmarshalText = %x, %v", it[:], err)
	type box struct {
		A core.ID
		B *core.ID
		C map[core.ID]int
		D []core.ID
	}
	x := box{id, &id, map[core.ID]int{id: 1}, []core.ID{id}}
	j, err := json.Marshal(x)
	c.Assert(err == nil, "c09:json", "%v", err)
	var y box
	err = json.Unmarshal(j, &y)
	c.Assert(err == nil && y.A == id && *y.B == id && y.C[id] == 1 && y.D[0] == id, "c09:json", "JSON %s gives %v, %v", j, y, err)
	// big integer: the bytes are its little-endian digits
	bi := id.BigInt()
	c.Assert(bi.Cmp(leBig(want[:])) == 0, "c09:bigint", "BigInt = %v instead of %v", bi, leBig(want[:]))
	le := bigLE(bi)
	ibi, err := core.IDFromBytes(le[:31])
	c.Assert(err == nil && ibi == id, "c09:bigint", "BigInt does not come back to the id")
	el := merkletree.NewElemBytesFromBigInt(bi)
	c.Assert(bytes.Equal(el[:31], want[:]) && el[31] == 0, "c09:bigint", "element of BigInt = %x", el[:])
	// equality
	other := id
	c.Assert(id.Equal(&other) && id.Equals(&other), "c09:equal", "an id differs from itself")
	k := c.R.Intn(31)
	other[k] ^= byte(1 << uint(c.R.Intn(8)))
	c.Assert(!id.Equal(&other) && !id.Equals(&other) && !other.Equal(&id), "c09:equal", "ids differing in byte %d are equal", k)
	c.Count("ids", 1)
	// corruption of every byte
	for k := 0; k < 31; k++ {
		for t := 0; t < 4; t++ {
			o := want
			if t == 0 {
				o[k] ^= byte(1 << uint(c.R.Intn(8)))
			} else if t == 3 {
				// two bytes
				o[k] = byte(c.R.Intn(256))
				o[c.R.Intn(31)] = byte(c.R.Intn(256))
			} else {
				o[k] = byte(c.R.Intn(256))
			}
			c09judge(c, o[:])
		}
	}
	c.Distinct("%x", want)
	c.Sample("type %x genesis %x -> %s", typ, gen, s)
}

// c09judge parses bytes in every form and compares the verdict with the reference.
func c09judge(c *C, b []byte) {
	ok := refIDValid(b)
	id, err := core.IDFromBytes(b)
	c.Assert((err == nil) == ok, "c09:verdict", "IDFromBytes(%x): %v, valid by the specification: %v", b, err, ok)
	if ok {
		c.Assert(bytes.Equal(id[:], b), "c09:value", "IDFromBytes(%x) = %x", b, id[:])
	}
	s := refB58(b)
	id2, err := core.IDFromString(s)
	c.Assert((err == nil) == ok, "c09:verdict_str", "IDFromString(%s): %v, valid by the specification: %v", s, err, ok)
	var id3 core.ID
	err = id3.UnmarshalText([]byte(s))
	c.Assert((err == nil) == ok, "c09:verdict_text", "UnmarshalText(%s): %v, valid by the specification: %v", s, err, ok)
	var id4 core.ID
	err = json.Unmarshal([]byte(`"`+s+`"`), &id4)
	c.Assert((err == nil) == ok, "c09:verdict_json", "JSON (%s): %v, valid by the specification: %v", s, err, ok)
	if ok {
		c.Assert(id2 == id && id3 == id && id4 == id, "c09:value", "forms disagree for %x", b)
		c.Count("corrupted_valid", 1)
	} else {
		c.Count("corrupted_rejected", 1)
	}
	if len(b) == 31 {
		var raw core.ID
		copy(raw[:], b)
		c.Assert(core.CheckChecksum(raw) == ok, "c09:check", "CheckChecksum(%x) = %v", b, !ok)
	}
}

func c09parse(c *C) {
	switch c.R.Intn(4) {
	case 0: // lengths
		b := make([]byte, c.R.Intn(65))
		if c.R.Intn(2) == 0 {
			c.R.Read(b)
		}
		c09judge(c, b)
		c.Distinct("%x", b)
		c.Count("rejected", 1)
		return
	case 1: // an id with bytes added or cut
		id := randID(c.R)
		b := id.Bytes()
		switch c.R.Intn(4) {
		case 0:
			b = append(append([]byte{}, b...), byte(c.R.Intn(2)))
		case 1:
			b = append(make([]byte, 1+c.R.Intn(3)), b...)
		case 2:
			b = b[:30-c.R.Intn(29)]
		case 3:
			b = b[1+c.R.Intn(29):]
		}
		c09judge(c, b)
		c.Distinct("%x", b)
		c.Count("rejected", 1)
		return
	}
	// texts
	id := randID(c.R)
	s := []byte(id.String())
	for k := c.R.Intn(3); k >= 0; k-- {
		i := c.R.Intn(len(s))
		switch c.R.Intn(6) {
		case 0:
			s[i] = "0OIl +/=é\x00\xff"[c.R.Intn(11)]
		case 1:
			s = append(s[:i], s[i+1:]...)
		case 2:
			s = append(s[:i], append([]byte{b58a[c.R.Intn(58)]}, s[i:]...)...)
		case 3:
			s[i] = b58a[c.R.Intn(58)]
		case 4:
			s = append([]byte{'1'}, s...)
		}
	}
	b, okc := refUnB58(string(s))
	ok := okc && refIDValid(b)
	got, err := core.IDFromString(string(s))
	c.Assert((err == nil) == ok, "c09:verdict_str", "IDFromString(%q): %v, valid by the specification: %v", s, err, ok)
	var g2 core.ID
	err = g2.UnmarshalText(s)
	c.Assert((err == nil) == ok, "c09:verdict_text", "UnmarshalText(%q): %v, valid by the specification: %v", s, err, ok)
	if ok {
		c.Assert(bytes.Equal(got[:], b) && g2 == got, "c09:value", "IDFromString(%q) = %x", s, got[:])
		c.Count("accepted", 1)
	} else {
		c.Count("rejected", 1)
	}
	c.Distinct("%q", s)
}

func refState(a, b, d h32) h32 { return refHash(a, b, d, h32{}) }

func refStateID(st h32) core.ID {
	var g [27]byte
	copy(g[:], st[5:])
	return core.ID(refID([2]byte{}, g))
}

func entOf(e *merkletree.Entry) *rent { return mkRent(rentOf(&e.Data)) }

func c09genesis(c *C) {
	var k babyjub.PrivateKey
	c.R.Read(k[:])
	kop := claims.NewClaimKeyBabyJub(k.Public(), claims.BabyJubKeyTypeAuthorizeKSign)
	var extra []merkletree.Entrier
	n := c.R.Intn(4)
	ct := newRefTree(140)
	e := entOf(kop.Entry())
	ct.m[e.hi] = e
	for i := 0; i < n; i++ {
		var is [claims.IndexSlotLen]byte
		var vs [claims.ValueSlotLen]byte
		c.R.Read(is[:])
		c.R.Read(vs[:])
		b := claims.NewClaimBasic(is, vs)
		b.Metadata().RevNonce = uint32(i + 1)
		extra = append(extra, b)
		e := entOf(b.Entry())
		ct.m[e.hi] = e
	}
	clr := ct.root()
	rt := newRefTree(140)
	le := mkRent([8]h32{clr})
	rt.m[le.hi] = le
	st := refState(clr, h32{}, rt.root())
	want := refStateID(st)
	c.R.Shuffle(len(extra), func(i, j int) { extra[i], extra[j] = extra[j], extra[i] })
	got, err := genesis.CalculateIdGenesis(kop, extra)
	c.Assert(err == nil && *got == want, "c09:genesis", "CalculateIdGenesis = %v, %v instead of %v", got, err, want.String())
	c.Assert(core.CheckChecksum(*got), "c09:own_check", "genesis id fails its check")
	h := core.IdenState(hsh(clr), hsh(h32{}), hsh(rt.root()))
	c.Assert(h32(*h) == st, "c09:state", "IdenState = %x instead of %x", h[:], st)
	ch, err := core.CheckedIdenState(hsh(clr), hsh(h32{}), hsh(rt.root()))
	c.Assert(err == nil && h32(*ch) == st, "c09:state", "CheckedIdenState = %x instead of %x", ch[:], st)
	g := core.IdGenesisFromIdenState(hsh(st))
	c.Assert(*g == want, "c09:fromstate", "IdGenesisFromIdenState = %v instead of %v", g, want.String())
	// arbitrary states
	for i := 0; i < 20; i++ {
		s := randElem(c.R)
		if s == (h32{}) {
			continue
		}
		w := refStateID(s)
		g := core.IdGenesisFromIdenState(hsh(s))
		c.Assert(*g == w, "c09:fromstate", "IdGenesisFromIdenState(%x) = %x instead of %x", s, g[:], w[:])
	}
	// a duplicate claim is refused
	if n > 0 {
		_, err := genesis.CalculateIdGenesis(kop, append(extra, extra[0]))
		c.Assert(err != nil, "c09:genesis_dup", "CalculateIdGenesis accepts a claim twice")
	}
	c.Count("genesis_ids", 1)
	c.Distinct("%x", want)
	c.Sample("key + %d claims -> %s", n, want.String())
}
