package main

// C03: decoding untrusted data never panics and round-trips.

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	ethcommon "github.com/ethereum/go-ethereum/common"
	ethcrypto "github.com/ethereum/go-ethereum/crypto"
	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	"github.com/iden3/go-iden3-core/common"
	"github.com/iden3/go-iden3-core/components/idenpuboffchain"
	"github.com/iden3/go-iden3-core/components/verifier"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/crypto"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/merkletree"
	zkutils "github.com/iden3/go-iden3-core/utils/zk"
	"github.com/iden3/go-iden3-crypto/babyjub"
	"github.com/iden3/go-iden3-crypto/constants"
)

func init() {
	rules["C03"] = "valid encodings of every format are mutated (bits, bytes, boundary numbers, field elements around the modulus, truncations, extensions, chunks moved, splices, text tricks, JSON nodes replaced, removed or nested) and decoded; an accepted value is encoded again, decoded again and compared, checked against an independent decoder where the format is specified, and used (hashed, inserted, verified, given to the verifier or the holder); distinct = distinct (target, input)"
	assumptions["C03"] = []string{
		"decoders of the libraries (JSON of zk proofs) may panic on their own; only what the repository does with their results counts",
		"HexStringToHash, which has no error result, is documented to panic by its signature and is not given untrusted text anywhere",
		"an empty tree node, which is never stored, encodes as no bytes at all",
		"memory is judged by the bytes allocated while decoding one input, time by the processor time of the process with one input at a time"}
	var need []string
	for _, t := range c03targets {
		if !t.never {
			need = append(need, "accepted "+t.name)
		}
		if !t.always {
			need = append(need, "refused "+t.name)
		}
	}
	reg(Part{Prop: "C03", Name: "mutants", Quick: 40 * len(c03targets), Thorough: 1200 * len(c03targets), Run: c03mutants, Need: need})
	reg(Part{Prop: "C03", Name: "credentials", Quick: 16, Thorough: 320, Run: c03credentials, Need: []string{"credentials used", "credentials refused", "holder used", "zk verdicts"}})
	reg(Part{Prop: "C03", Name: "stored", Quick: 200, Thorough: 6000, Run: c03stored, Need: []string{"stored read", "stored refused"}})
	reg(Part{Prop: "C03", Name: "cost", Workers: 1, Quick: 2 * len(c03targets), Thorough: 12 * len(c03targets), Run: c03cost, Need: []string{"measured"}})
}

type c03target struct {
	name          string
	kind          byte // b: bytes, t: text, j: JSON
	seed          func(c *C) []byte
	run           func(c *C, in []byte) bool // decode, judge and use; says if accepted
	dec           func(in []byte)            // only decode
	never, always bool
	n             int // inputs per case, 0: 40
}

// ---------------------------------------------------------------- mutation

var c03words = func() (ws [][]byte) {
	for _, d := range []int64{-2, -1, 0, 1, 2} {
		q := bigLE(new(big.Int).Add(constants.Q, big.NewInt(d)))
		ws = append(ws, q[:])
	}
	ff := bytes.Repeat([]byte{0xff}, 32)
	ws = append(ws, ff, make([]byte, 32), append(make([]byte, 31), 0x80), append([]byte{1}, make([]byte, 31)...))
	return
}()

func c03bytes(r *rand.Rand, b []byte, other func() []byte) []byte {
	b = append([]byte{}, b...)
	for k := 1 + r.Intn(3); k > 0; k-- {
		n := len(b)
		pos := func() int {
			switch r.Intn(4) {
			case 0: // the header
				return r.Intn(1 + n*3/40)
			case 1:
				return r.Intn(1+n/32) * 32
			}
			return r.Intn(n + 1)
		}
		switch x := r.Intn(14); {
		case x == 0: // truncate
			b = b[:min(pos(), n)]
		case x == 1: // short lengths and their neighbours
			b = b[:max(0, n-1-r.Intn(3))]
		case x == 2: // extend
			e := make([]byte, []int{1, 2, 31, 32, 33, 64, 1 + r.Intn(80)}[r.Intn(7)])
			if r.Intn(2) == 0 {
				r.Read(e)
			}
			b = append(b, e...)
		case x == 3 && n > 0: // one bit
			b[min(pos(), n-1)] ^= 1 << uint(r.Intn(8))
		case x == 4 && n > 0:
			b[min(pos(), n-1)] = []byte{0, 1, 2, 3, 4, 0x7f, 0x80, 0xf0, 0xf1, 0xfe, 0xff}[r.Intn(11)]
		case x == 5 && n > 0:
			b[min(pos(), n-1)] = byte(r.Intn(256))
		case x == 6 && n >= 4: // numbers
			v := [][]byte{{0, 0, 0, 0}, {255, 255, 255, 255}, {255, 255, 255, 127}, {0, 0, 0, 128}, {1, 0}, {255, 255}, {0, 1}}[r.Intn(7)]
			copy(b[min(pos(), n-4):], v)
		case x <= 8 && n >= 32: // field elements
			copy(b[r.Intn(n/32)*32:], c03words[r.Intn(len(c03words))])
		case x == 9 && n > 1: // remove a chunk
			i := min(pos(), n-1)
			j := min(n, i+[]int{1, 2, 32, 1 + r.Intn(n)}[r.Intn(4)])
			b = append(b[:i:i], b[j:]...)
		case x == 10 && n > 0: // repeat a chunk
			i := min(pos(), n-1)
			j := min(n, i+[]int{1, 2, 32, 1 + r.Intn(n)}[r.Intn(4)])
			b = append(b[:j:j], b[i:]...)
		case x == 11 && n >= 64: // swap words
			i, j := r.Intn(n/32)*32, r.Intn(n/32)*32
			var t [32]byte
			copy(t[:], b[i:i+32])
			copy(b[i:i+32], b[j:j+32])
			copy(b[j:j+32], t[:])
		case x == 12: // splice
			o := other()
			i, j := min(pos(), n), r.Intn(len(o)+1)
			b = append(b[:i:i], o[j:]...)
		case x == 13 && r.Intn(8) == 0:
			b = make([]byte, r.Intn(300))
			r.Read(b)
		}
	}
	return b
}

const c03chars = "0123456789abcdefxX=+/-_ \t\n\"\\,:lIO\x00\x80\xff"

func c03text(r *rand.Rand, b []byte, other func() []byte) []byte {
	s := string(b)
	for k := 1 + r.Intn(2); k > 0; k-- {
		n := len(s)
		i := r.Intn(n + 1)
		x := r.Intn(12)
		if h := strings.TrimPrefix(s, "0x"); len(h) > 8 && r.Intn(2) == 0 {
			if _, err := hex.DecodeString(h); err == nil {
				x = 10
			}
		}
		switch x {
		case 0:
			s = s[:i]
		case 1:
			s = s[i:]
		case 2:
			s = s[:i] + c03chars[r.Intn(len(c03chars)):][:1] + s[i:]
		case 3:
			s = s[:i] + []string{"0x", "\\u0000", "é", "\ufffd", "😀", "==", "=", "str:", "hex:", " ", "\r\n"}[r.Intn(11)] + s[i:]
		case 4:
			s = strings.TrimPrefix(s, "0x")
		case 5:
			s = "0x" + s
		case 6:
			s = strings.ToUpper(s)
		case 7:
			s = "0X" + strings.TrimPrefix(s, "0x")
		case 8:
			s = s[:i] + strings.Repeat(s, r.Intn(4)) + s[i:]
		case 9:
			s = string(c03bytes(r, []byte(s), other))
		case 10: // the bytes behind hex text
			p, h := "", s
			if strings.HasPrefix(s, "0x") {
				p, h = s[:2], s[2:]
			}
			if x, err := hex.DecodeString(h); err == nil {
				s = p + hex.EncodeToString(c03bytes(r, x, func() []byte {
					o, _ := hex.DecodeString(strings.TrimPrefix(string(other()), "0x"))
					return o
				}))
			}
		case 11:
			if n > 0 {
				j := r.Intn(n)
				s = s[:j] + string([]byte{byte(r.Intn(256))}) + s[j+1:]
			}
		}
	}
	return []byte(s)
}

// c03json replaces, removes or moves nodes of a JSON value.
func c03json(r *rand.Rand, b []byte, other func() []byte) []byte {
	if r.Intn(12) == 0 {
		return c03text(r, b, other)
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v interface{}
	if d.Decode(&v) != nil {
		return c03text(r, b, other)
	}
	type slot struct {
		get func() interface{}
		set func(interface{})
		del func()
	}
	for k := 1 + r.Intn(2); k > 0; k-- {
		var slots []slot
		var walk func(get func() interface{}, set func(interface{}), del func())
		walk = func(get func() interface{}, set func(interface{}), del func()) {
			slots = append(slots, slot{get, set, del})
			switch x := get().(type) {
			case map[string]interface{}:
				ks := make([]string, 0, len(x))
				for k := range x {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				for _, k := range ks {
					k := k
					walk(func() interface{} { return x[k] }, func(n interface{}) { x[k] = n }, func() {
						y := x[k]
						delete(x, k)
						if r.Intn(4) == 0 {
							x[k+"x"] = y
						}
					})
				}
			case []interface{}:
				for i := range x {
					i := i
					walk(func() interface{} { return x[i] }, func(n interface{}) { x[i] = n }, func() {
						set(append(append([]interface{}{}, x[:i]...), x[i+1:]...))
					})
				}
			}
		}
		walk(func() interface{} { return v }, func(n interface{}) { v = n }, func() { v = nil })
		s := slots[r.Intn(len(slots))]
		if len(slots) > 1 && r.Intn(8) > 0 {
			s = slots[1+r.Intn(len(slots)-1)]
		}
		switch x := r.Intn(16); {
		case x == 0:
			s.set(nil)
		case x == 1:
			s.del()
		case x == 2:
			s.set([]interface{}{true, "", map[string]interface{}{}, []interface{}{}, []interface{}{nil, nil}}[r.Intn(5)])
		case x == 3:
			s.set(json.Number([]string{"0", "1", "-1", "255", "256", "4294967295", "4294967296", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "18446744073709551616", "1.5", "1e400", "1e2"}[r.Intn(14)]))
		case x == 4: // another node of the value
			s.set(slots[r.Intn(len(slots))].get())
			if b, err := json.Marshal(v); err == nil { // no cycles
				d := json.NewDecoder(bytes.NewReader(b))
				d.UseNumber()
				d.Decode(&v)
			} else {
				return []byte("null")
			}
		case x == 5:
			s.set([]interface{}{s.get()})
		case x == 6:
			if a, ok := s.get().([]interface{}); ok && len(a) > 0 {
				s.set(append(append([]interface{}{}, a...), a[r.Intn(len(a))]))
			}
		default:
			if t, ok := s.get().(string); ok {
				if raw, err := base64.StdEncoding.DecodeString(t); err == nil && len(t)%4 == 0 && len(t) > 100 && r.Intn(3) > 0 {
					s.set(base64.StdEncoding.EncodeToString(c03bytes(r, raw, func() []byte { return raw })))
				} else {
					s.set(string(c03text(r, []byte(t), func() []byte { return []byte(t) })))
				}
			} else if n, ok := s.get().(json.Number); ok {
				var i big.Int
				i.SetString(string(n), 10)
				i.Add(&i, big.NewInt(int64(r.Intn(5)-2)))
				s.set(json.Number(i.String()))
			}
		}
	}
	o, err := json.Marshal(v)
	if err != nil {
		return []byte("null")
	}
	if r.Intn(15) == 0 {
		o = c03text(r, o, other)
	}
	return o
}

func (t *c03target) mutate(c *C, b []byte) []byte {
	o := func() []byte { return t.seed(c) }
	switch t.kind {
	case 'b':
		return c03bytes(c.R, b, o)
	case 't':
		return c03text(c.R, b, o)
	}
	return c03json(c.R, b, o)
}

func c03mutants(c *C) {
	t := c03targets[c.N%len(c03targets)]
	n := t.n
	if n == 0 {
		n = 40
	}
	for i := 0; i < n; i++ {
		in := t.seed(c)
		c.Assert(t.run(c, in), "refused-valid:"+t.name, "%s refuses a valid encoding: %s", t.name, show(in, t.kind))
		if i > 0 {
			in = t.mutate(c, in)
		}
		c.mu.Lock()
		c.logb = nil
		c.mu.Unlock()
		c.Logf("%s %s", t.name, show(in, t.kind))
		was := append([]byte{}, in...)
		if t.run(c, in) {
			c.Count("accepted "+t.name, 1)
		} else {
			c.Count("refused "+t.name, 1)
		}
		c.Assert(bytes.Equal(in, was), "input-changed:"+t.name, "decoding changes the caller's input")
		c.Distinct("%s %x", t.name, was)
		if i == 3 {
			c.Sample("%s %s", t.name, show(was, t.kind))
		}
	}
}

func show(b []byte, kind byte) string {
	if kind == 'b' {
		return hex.EncodeToString(b)
	}
	return fmt.Sprintf("%q", b)
}

// ---------------------------------------------------------------- targets

func rt(c *C, name string, ok bool, f string, a ...interface{}) {
	c.Assert(ok, "round-trip:"+name, "%s does not round-trip: "+f, append([]interface{}{name}, a...)...)
}

func c03hexBytes(c *C) []byte {
	b := make([]byte, []int{0, 1, 31, 32, 33, c.R.Intn(100)}[c.R.Intn(6)])
	c.R.Read(b)
	return b
}

func c03entry(c *C) []byte {
	var cl merkletree.Entrier = newClaim(c.R, c.R.Intn(4))
	if c.R.Intn(4) == 0 {
		return mkRent(randData(c.R)).entry().Bytes()
	}
	return cl.Entry().Bytes()
}

// c03useEntry uses a decoded entry.
func c03useEntry(c *C, e *merkletree.Entry) {
	in := true
	for _, x := range rentOf(&e.Data) {
		in = in && inField(x)
	}
	hi, hv, err := e.HiHv()
	c.Assert((err == nil) == in && (err != nil || hi != nil && hv != nil), "entry-hash", "HiHv of an entry (in field: %v): %v", in, err)
	if c.R.Intn(4) == 0 {
		mt, err := merkletree.NewMerkleTree(db.NewMemoryStorage(), 1+c.R.Intn(140))
		c.Must(err, "tree")
		err = mt.AddEntry(e)
		c.Assert((err == nil) == in, "entry-add", "AddEntry of an entry (in field: %v): %v", in, err)
		if in {
			c.Assert(mt.EntryExists(e, nil) == nil, "entry-add", "an added entry is not in the tree")
		}
	}
}

func c03proof(c *C) []byte {
	u := universe(3000)
	es := u.pick(c.R, 1+c.R.Intn(20))
	t := newRefTree(140)
	for _, e := range es[:len(es)-c.R.Intn(2)] {
		t.m[e.hi] = e
	}
	q := es[c.R.Intn(len(es))]
	sibs, end := refSiblings(t.list(), q.hi)
	p := &rproof{sibs: sibs}
	if end != nil && end.hi == q.hi {
		p.exist = true
	} else if end != nil {
		p.aux, p.ahi, p.ahv = true, end.hi, end.hv
	}
	return p.bytes()
}

// c03useProof verifies with a decoded proof; enc is its encoding.
func c03useProof(c *C, p *merkletree.Proof, enc []byte) {
	ref := parseProof(enc)
	c.Assert(ref != nil, "proof-accepted", "a proof is accepted that encodes as %x", enc)
	_ = p.String()
	c.Assert(len(p.AllSiblings()) == len(ref.sibs), "proof-siblings", "AllSiblings has %d siblings instead of %d", len(p.AllSiblings()), len(ref.sibs))
	lv := c.R.Intn(300)
	c.Assert(len(p.AllSiblingsCircom(lv)) == max(lv, len(ref.sibs))+1, "proof-siblings", "AllSiblingsCircom has a wrong length")
	hi, hv := randElem(c.R), randElem(c.R)
	if c.R.Intn(4) == 0 {
		c.R.Read(hi[:])
	}
	if ref.aux && c.R.Intn(3) == 0 {
		hi = ref.ahi
	}
	if len(ref.sibs) > 40 && c.R.Intn(4) > 0 {
		return // expensive
	}
	want, ok := ref.root(hi, hv)
	got, err := merkletree.RootFromProof(p, hsh(hi), hsh(hv))
	c.Assert((err == nil) == ok, "proof-root", "RootFromProof: %v, well-formed: %v (proof %x hi %x hv %x)", err, ok, enc, hi, hv)
	if ok {
		c.Assert(*got == merkletree.Hash(want), "proof-root", "RootFromProof gives %x instead of %x", got[:], want)
	}
	c.Assert(merkletree.VerifyProof(hsh(want), p, hsh(hi), hsh(hv)) == ok, "proof-verdict", "VerifyProof gives %v", !ok)
}

func c03dump(c *C) []byte {
	u := universe(3000)
	es := u.pick(c.R, c.R.Intn(12))
	var rs []kvRec
	seen := map[h32]bool{}
	var walk func(es []*rent, lvl int) h32
	put := func(k h32, v []byte) h32 {
		if !seen[k] {
			seen[k] = true
			rs = append(rs, kvRec{append([]byte{}, k[:]...), v})
		}
		return k
	}
	walk = func(es []*rent, lvl int) h32 {
		if len(es) == 0 {
			return h32{}
		}
		if len(es) == 1 {
			v := []byte{1}
			for _, x := range es[0].d {
				v = append(v, x[:]...)
			}
			return put(es[0].leaf, v)
		}
		var l, r []*rent
		for _, e := range es {
			if bitOf(e.hi, lvl) {
				r = append(r, e)
			} else {
				l = append(l, e)
			}
		}
		a, b := walk(l, lvl+1), walk(r, lvl+1)
		return put(refMid(a, b), append(append([]byte{0}, a[:]...), b[:]...))
	}
	root := walk(es, 0)
	rs = append(rs, kvRec{[]byte("currentroot"), append([]byte{}, root[:]...)})
	if c.R.Intn(3) == 0 {
		c.R.Shuffle(len(rs), func(i, j int) { rs[i], rs[j] = rs[j], rs[i] })
	}
	return encDump(rs)
}

// c03dumpOK judges a dump: whole records, nothing but nodes and a root that
// is complete.
func c03dumpOK(in []byte, maxLevels int) (h32, bool) {
	rs, ok := parseDump(in)
	if !ok {
		return h32{}, false
	}
	for _, r := range rs {
		if len(r.k) != 32 && !(string(r.k) == "currentroot" && len(r.v) == 32) {
			return h32{}, false
		}
	}
	return dumpComplete(rs, maxLevels)
}

func c03id(c *C) core.ID {
	t, g := randGenesis(c.R)
	return core.ID(refID(t, g))
}

// c03meta checks the metadata of a decoded entry.
func c03meta(c *C, e *merkletree.Entry) {
	var m claims.Metadata
	m.Unmarshal(e)
	e2 := e.Clone()
	m.Marshal(e2)
	var m2 claims.Metadata
	m2.Unmarshal(e2)
	rt(c, "metadata", reflect.DeepEqual(m, m2), "%+v gives %+v", m, m2)
	if j, err := json.Marshal(m); err == nil {
		var m3 claims.Metadata
		_ = json.Unmarshal(j, &m3)
	}
	c.Assert(claims.GetRevocationNonce(e) == nonceOf(rentOf(&e.Data)), "nonce", "wrong revocation nonce")
	c.Assert(m.RevNonce == nonceOf(rentOf(&e.Data)), "nonce", "wrong revocation nonce in the metadata")
}

// c03claim decodes an entry in every way.
func c03claim(c *C, e *merkletree.Entry) bool {
	c03meta(c, e)
	in := true
	for _, x := range rentOf(&e.Data) {
		in = in && inField(x)
	}
	g := claims.NewClaimGeneric(e.Clone())
	ge := g.Entry()
	g2 := claims.NewClaimGeneric(ge.Clone())
	rt(c, "generic claim", g2.Entry().Equal(ge) && reflect.DeepEqual(g.Metadata(), g2.Metadata()), "%x", ge.Bytes())
	// single decoders, on any entry
	for _, f := range []func(*merkletree.Entry) merkletree.Entrier{
		func(e *merkletree.Entry) merkletree.Entrier { return claims.NewClaimBasicFromEntry(e) },
		func(e *merkletree.Entry) merkletree.Entrier { return claims.NewClaimKeyBabyJubFromEntry(e) },
		func(e *merkletree.Entry) merkletree.Entrier { return claims.NewClaimOtherIdenFromEntry(e) },
		func(e *merkletree.Entry) merkletree.Entrier { return claims.NewLeafRootsTreeFromEntry(e) },
		func(e *merkletree.Entry) merkletree.Entrier { return claims.NewLeafRevocationsTreeFromEntry(e) },
	} {
		x := f(e.Clone())
		ex := x.Entry()
		y := f(ex.Clone())
		rt(c, "claim", y.Entry().Equal(ex), "%T %x gives %x", x, ex.Bytes(), y.Entry().Bytes())
	}
	cl, err := claims.NewClaimFromEntry(e.Clone())
	var typ claims.ClaimType
	copy(typ[:], e.Data[0][:8])
	known := typ == claims.ClaimTypeBasic || typ == claims.ClaimTypeKeyBabyJub || typ == claims.ClaimTypeOtherIden
	c.Assert((err == nil) == (in && known), "claim-verdict", "NewClaimFromEntry(%x): %v, in field: %v, known type: %v", e.Bytes(), err, in, known)
	if err != nil {
		return false
	}
	ce := cl.Entry()
	cl2, err := claims.NewClaimFromEntry(ce)
	rt(c, "claim", err == nil && cl2.Entry().Equal(ce), "%x: %v", ce.Bytes(), err)
	c03useEntry(c, ce)
	return true
}

func c03blobs(c *C) []byte {
	rev := newRefTree(140)
	roots := newRefTree(140)
	for i := c.R.Intn(4); i > 0; i-- {
		l := leafRev(c.R.Uint32())
		rev.m[l.hi] = l
	}
	clr := randElem(c.R)
	for i := c.R.Intn(4); i > 0; i-- {
		l := leafRoot(randElem(c.R))
		roots.m[l.hi] = l
	}
	d := func(t *refTree) []byte {
		var b bytes.Buffer
		c.Must(memTree(c, t).DumpTree(&b, nil), "dump")
		return b.Bytes()
	}
	rr, ror := rev.root(), roots.root()
	j, err := json.Marshal(&idenpuboffchain.PublicDataBlobs{IdenState: *hsh(refState(clr, rr, ror)), ClaimsTreeRoot: *hsh(clr),
		RevocationsTreeRoot: *hsh(rr), RevocationsTree: d(rev), RootsTreeRoot: *hsh(ror), RootsTree: d(roots)})
	c.Must(err, "json")
	return j
}

func strSeed(c *C, b []byte) []byte { j, _ := json.Marshal(string(b)); return j }

var c03targets = []*c03target{
	{name: "Hex", kind: 't',
		seed: func(c *C) []byte { return []byte(hex.EncodeToString(c03hexBytes(c))) },
		dec:  func(in []byte) { var h common.Hex; h.UnmarshalText(in) },
		run: func(c *C, in []byte) bool {
			var h common.Hex
			err := h.UnmarshalText(in)
			w, werr := hex.DecodeString(string(in))
			c.Assert((err == nil) == (werr == nil) && (err != nil || bytes.Equal(h, w)), "hex", "Hex.UnmarshalText(%q) gives %x, %v", in, []byte(h), err)
			if err != nil {
				return false
			}
			b, err := h.MarshalText()
			var h2 common.Hex
			rt(c, "Hex", err == nil && h2.UnmarshalText(b) == nil && bytes.Equal(h, h2) && h.String() == string(b), "%q", in)
			return true
		}},
	{name: "HexDecode", kind: 't',
		seed: func(c *C) []byte { return []byte(common.HexEncode(c03hexBytes(c))) },
		dec: func(in []byte) {
			common.HexDecode(string(in))
			var x [32]byte
			common.HexDecodeInto(x[:], in)
		},
		run: func(c *C, in []byte) bool {
			b, err := common.HexDecode(string(in))
			w, werr := hex.DecodeString(strings.TrimPrefix(string(in), "0x"))
			c.Assert((err == nil) == (werr == nil) && (err != nil || bytes.Equal(b, w)), "hex", "HexDecode(%q) gives %x, %v", in, b, err)
			for _, n := range []int{len(w), c.R.Intn(70), len(w) + 1, max(0, len(w)-1)} {
				buf := bytes.Repeat([]byte{0xa5}, n+8)
				e2 := common.HexDecodeInto(buf[:n:n], in)
				ok := werr == nil && len(w) == n
				c.Assert((e2 == nil) == ok && (e2 != nil || bytes.Equal(buf[:n], w)), "hex", "HexDecodeInto(%d bytes, %q) gives %x, %v", n, in, buf[:n], e2)
				c.Assert(bytes.Equal(buf[n:], bytes.Repeat([]byte{0xa5}, 8)), "hex", "HexDecodeInto writes after the destination")
			}
			j := strSeed(c, in)
			var js string
			json.Unmarshal(j, &js)
			x, e3 := common.UnmarshalJSONHexDecode(j)
			w3, e4 := hex.DecodeString(strings.TrimPrefix(js, "0x"))
			c.Assert((e3 == nil) == (e4 == nil) && (e3 != nil || bytes.Equal(x, w3)), "hex", "UnmarshalJSONHexDecode(%s) gives %x, %v", j, x, e3)
			_, _ = common.UnmarshalJSONHexDecode(in)
			if err != nil {
				return false
			}
			b2, err := common.HexDecode(common.HexEncode(b))
			rt(c, "HexDecode", err == nil && bytes.Equal(b, b2), "%x", b)
			return true
		}},
	{name: "Base64", kind: 't',
		seed: func(c *C) []byte {
			s := common.BytesToBase64(c03hexBytes(c))
			if c.R.Intn(2) == 0 {
				s = strings.TrimRight(s, "=")
			}
			return []byte(s)
		},
		dec: func(in []byte) { common.Base64Decode(string(in)); common.Base64ToBytes(string(in)) },
		run: func(c *C, in []byte) bool {
			b, err := common.Base64Decode(string(in))
			p, perr := common.Base64ToBytes(string(in))
			if perr == nil {
				// line ends are ignored only by one of them
				c.Assert(bytes.ContainsAny(in, "\r\n") || err == nil && bytes.Equal(b, p), "base64", "Base64Decode(%q) gives %x, %v and Base64ToBytes %x", in, b, err, p)
				p2, e := common.Base64ToBytes(common.BytesToBase64(p))
				rt(c, "Base64", e == nil && bytes.Equal(p, p2), "%x", p)
			}
			if err != nil {
				return false
			}
			b2, e := common.Base64Decode(common.BytesToBase64(b))
			rt(c, "Base64", e == nil && bytes.Equal(b, b2), "%x", b)
			return true
		}},
	{name: "Hash", kind: 't',
		seed: func(c *C) []byte { h := randElem(c.R); return []byte(common.HexEncode(h[:])) },
		dec:  func(in []byte) { var h merkletree.Hash; h.UnmarshalText(in) },
		run: func(c *C, in []byte) bool {
			var h, h2, h3 merkletree.Hash
			err := h.UnmarshalText(in)
			var js string
			json.Unmarshal(strSeed(c, in), &js)
			err3 := json.Unmarshal(strSeed(c, in), &h3)
			w, werr := hex.DecodeString(strings.TrimPrefix(string(in), "0x"))
			ok := werr == nil && len(w) == 32
			c.Assert((err == nil) == ok && (err != nil || bytes.Equal(h[:], w)), "hash", "Hash.UnmarshalText(%q) gives %x, %v", in, h[:], err)
			c.Assert((err3 == nil) == ok || js != string(in), "hash", "Hash as JSON (%q): %v", in, err3)
			if err != nil {
				return false
			}
			b, err := h.MarshalText()
			rt(c, "Hash", err == nil && h2.UnmarshalText(b) == nil && h == h2, "%q", in)
			_, _ = h.String(), h.Hex()
			rt(c, "Hash", *merkletree.NewHashFromBigInt(h.BigInt()) == h, "%x through a number", h[:])
			return true
		}},
	{name: "Entry", kind: 't',
		seed: func(c *C) []byte { return []byte(common.HexEncode(c03entry(c))) },
		dec: func(in []byte) {
			var e merkletree.Entry
			e.UnmarshalText(in)
			claims.HexToClaimGeneric(string(in))
		},
		run: func(c *C, in []byte) bool {
			var e, e2 merkletree.Entry
			var d merkletree.Data
			err := e.UnmarshalText(in)
			derr := d.UnmarshalText(in)
			_, gerr := claims.HexToClaimGeneric(string(in))
			_, aerr := claims.HexArrayToClaimGenericArray([]string{string(in)})
			w, werr := hex.DecodeString(strings.TrimPrefix(string(in), "0x"))
			ok := werr == nil && len(w) == 256
			c.Assert((err == nil) == ok && (derr == nil) == ok && (gerr == nil) == ok && (aerr == nil) == ok, "entry", "an entry of %d bytes (%v) is decoded: Entry %v, Data %v, HexToClaimGeneric %v, HexArrayToClaimGenericArray %v", len(w), werr, err, derr, gerr, aerr)
			if err != nil {
				return false
			}
			c.Assert(bytes.Equal(e.Bytes(), w), "entry", "%q decodes as %x", in, e.Bytes())
			// decoded over an entry that was used
			u, err := merkletree.NewEntryFromBytes(c03entry(c))
			c.Must(err, "entry")
			_, _, err = u.HiHv()
			c.Must(err, "hash")
			c.Assert(u.UnmarshalText(in) == nil && u.Equal(&e), "entry", "decoding %q over another entry gives %x", in, u.Bytes())
			c03useEntry(c, u)
			h1, v1, e1 := u.HiHv()
			h2, v2, e2x := e.Clone().HiHv()
			c.Assert((e1 == nil) == (e2x == nil) && (e1 != nil || *h1 == *h2 && *v1 == *v2), "entry-hash", "an entry decoded over another one has other hashes")
			b, err := e.MarshalText()
			rt(c, "Entry", err == nil && e2.UnmarshalText(b) == nil && e.Equal(&e2), "%q", in)
			b, err = d.MarshalText()
			var d2 merkletree.Data
			rt(c, "Data", err == nil && d2.UnmarshalText(b) == nil && d.Equal(&d2), "%q", in)
			c03useEntry(c, &e)
			return true
		}},
	{name: "EntryBytes", kind: 'b', seed: c03entry,
		dec: func(in []byte) { merkletree.NewEntryFromBytes(in) },
		run: func(c *C, in []byte) bool {
			e, err := merkletree.NewEntryFromBytes(in)
			c.Assert((err == nil) == (len(in) == 256), "entry", "NewEntryFromBytes of %d bytes: %v", len(in), err)
			if err != nil {
				return false
			}
			e2, err := merkletree.NewEntryFromBytes(e.Bytes())
			rt(c, "Entry", err == nil && e.Equal(e2) && bytes.Equal(e.Bytes(), in), "%x", in)
			c03useEntry(c, e)
			return true
		}},
	{name: "Hexs", kind: 't',
		seed: func(c *C) []byte {
			var s []string
			for i := 0; i < 8; i++ {
				h := randElem(c.R)
				s = append(s, common.HexEncode(h[:]))
			}
			return []byte(strings.Join(s, ","))
		},
		dec: func(in []byte) {
			s := strings.Split(string(in)+",,,,,,,,", ",")
			merkletree.HexsToData(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7])
		},
		run: func(c *C, in []byte) bool {
			s := strings.Split(string(in)+",,,,,,,,", ",")
			e, err := merkletree.NewEntryFromHexs(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7])
			d, derr := merkletree.HexsToData(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7])
			c.Assert((err == nil) == (derr == nil) && (err != nil || e.Data == d), "hexs", "NewEntryFromHexs: %v, HexsToData: %v", err, derr)
			if err != nil {
				return false
			}
			c03useEntry(c, &e)
			return true
		}},
	{name: "Node", kind: 'b',
		seed: func(c *C) []byte {
			if c.R.Intn(2) == 0 {
				return append([]byte{byte(merkletree.NodeTypeLeaf)}, c03entry(c)...)
			}
			a, b := randElem(c.R), randElem(c.R)
			return append(append([]byte{byte(merkletree.NodeTypeMiddle)}, a[:]...), b[:]...)
		},
		dec: func(in []byte) { merkletree.NewNodeFromBytes(in) },
		run: func(c *C, in []byte) bool {
			n, err := merkletree.NewNodeFromBytes(in)
			if err != nil {
				c.Assert(n == nil, "node", "a node and an error")
				return false
			}
			_ = n.String()
			k, err := n.Key()
			c.Assert(err != nil || k != nil, "node", "no key and no error")
			if n.Type == merkletree.NodeTypeEmpty {
				return true
			}
			v := n.Value()
			c.Assert(bytes.Equal(v, in), "node", "%x decodes as a node that encodes as %x", in, v)
			n2, err := merkletree.NewNodeFromBytes(v)
			rt(c, "Node", err == nil && n2.Type == n.Type && bytes.Equal(n2.Value(), v), "%x", in)
			in0 := true
			for i := 1; i+32 <= len(in); i += 32 {
				var h h32
				copy(h[:], in[i:])
				in0 = in0 && inField(h)
			}
			c.Assert((err == nil) && ((k != nil) == in0), "node-key", "the key of node %x is %v, in field: %v", in, k, in0)
			return true
		}},
	{name: "Proof", kind: 'b', seed: c03proof,
		dec: func(in []byte) { merkletree.NewProofFromBytes(in) },
		run: func(c *C, in []byte) bool {
			p, err := merkletree.NewProofFromBytes(in)
			c.Assert((err == nil) == (parseProof(in) != nil), "proof-verdict", "NewProofFromBytes(%x): %v", in, err)
			j, _ := json.Marshal(common.HexEncode(in))
			var pj merkletree.Proof
			jerr := json.Unmarshal(j, &pj)
			c.Assert((jerr == nil) == (err == nil), "proof-verdict", "the proof %x is decoded: %v, as JSON: %v", in, err, jerr)
			if err != nil {
				return false
			}
			enc := p.Bytes()
			p2, err := merkletree.NewProofFromBytes(enc)
			rt(c, "Proof", err == nil && reflect.DeepEqual(p, p2) && reflect.DeepEqual(*p, pj), "%x", in)
			c03useProof(c, p, enc)
			c.Assert(reflect.DeepEqual(parseProof(in), parseProof(enc)), "proof-meaning", "%x is encoded again as %x", in, enc)
			return true
		}},
	{name: "ProofJSON", kind: 'j', seed: func(c *C) []byte { return strSeed(c, []byte(common.HexEncode(c03proof(c)))) },
		dec: func(in []byte) { var p merkletree.Proof; json.Unmarshal(in, &p) },
		run: func(c *C, in []byte) bool {
			var p, p2 merkletree.Proof
			if json.Unmarshal(in, &p) != nil {
				return false
			}
			j, err := json.Marshal(p)
			rt(c, "Proof", err == nil && json.Unmarshal(j, &p2) == nil && reflect.DeepEqual(p, p2), "%s", in)
			c03useProof(c, &p, p.Bytes())
			return true
		}},
	{name: "ImportTree", kind: 'b', seed: c03dump, n: 24,
		dec: func(in []byte) {
			mt, _ := merkletree.NewMerkleTree(db.NewMemoryStorage(), 140)
			mt.ImportTree(bytes.NewReader(in))
		},
		run: func(c *C, in []byte) bool {
			mt, err := merkletree.NewMerkleTree(db.NewMemoryStorage(), 140)
			c.Must(err, "tree")
			err = mt.ImportTree(bytes.NewReader(in))
			root, ok := c03dumpOK(in, 140)
			c.Assert((err == nil) == ok, "import-verdict", "ImportTree of %x: %v, complete: %v", in, err, ok)
			if err != nil {
				c.Assert(*mt.RootKey() == merkletree.HashZero, "import-root", "a refused import changes the root")
				return false
			}
			c.Assert(*mt.RootKey() == merkletree.Hash(root), "import-root", "the imported root is %x instead of %x", mt.RootKey()[:], root)
			var b bytes.Buffer
			c.Assert(mt.DumpTree(&b, nil) == nil, "import-dump", "an imported tree can not be dumped")
			m2, err := merkletree.NewMerkleTree(db.NewMemoryStorage(), 140)
			c.Must(err, "tree")
			rt(c, "dump", m2.ImportTree(bytes.NewReader(b.Bytes())) == nil && *m2.RootKey() == *mt.RootKey(), "%x", in)
			var g bytes.Buffer
			c.Assert(mt.GraphViz(&g, nil) == nil, "import-graph", "GraphViz of an imported tree fails")
			cl, err := mt.DumpClaims(nil)
			c.Assert(err == nil, "import-claims", "DumpClaims of an imported tree: %v", err)
			m3, err := merkletree.NewMerkleTree(db.NewMemoryStorage(), 140)
			c.Must(err, "tree")
			rt(c, "claims", m3.ImportDumpedClaims(cl) == nil && *m3.RootKey() == *mt.RootKey(), "%x", in)
			h := randElem(c.R)
			p, err := mt.GenerateProof(hsh(h), nil)
			c.Assert(err == nil && !p.Existence, "import-proof", "GenerateProof in an imported tree: %v", err)
			return true
		}},
	{name: "DumpedClaims", kind: 'j', n: 24,
		seed: func(c *C) []byte {
			var s []string
			for _, e := range universe(3000).pick(c.R, 1+c.R.Intn(4)) {
				s = append(s, e.hex())
			}
			j, _ := json.Marshal(s)
			return j
		},
		dec: func(in []byte) {
			var s []string
			json.Unmarshal(in, &s)
			mt, _ := merkletree.NewMerkleTree(db.NewMemoryStorage(), 140)
			mt.ImportDumpedClaims(s)
		},
		run: func(c *C, in []byte) bool {
			var s []string
			if json.Unmarshal(in, &s) != nil {
				return false
			}
			mt, err := merkletree.NewMerkleTree(db.NewMemoryStorage(), 140)
			c.Must(err, "tree")
			ref := newRefTree(140)
			ok := true
			for _, x := range s {
				w, err := hex.DecodeString(strings.TrimPrefix(x, "0x"))
				if err != nil || len(w) != 256 {
					ok = false
					break
				}
				var d [8]h32
				in := true
				for i := range d {
					copy(d[i][:], w[32*i:])
					in = in && inField(d[i])
				}
				if !in {
					ok = false
					break
				}
				e := mkRent(d)
				if ref.m[e.hi] != nil {
					ok = false
					break
				}
				ref.m[e.hi] = e
			}
			err = mt.ImportDumpedClaims(s)
			c.Assert((err == nil) == ok, "claims-verdict", "ImportDumpedClaims(%s): %v, well-formed: %v", in, err, ok)
			if err != nil {
				return false
			}
			c.Assert(*mt.RootKey() == merkletree.Hash(ref.root()), "claims-root", "the imported root is %x instead of %x", mt.RootKey()[:], ref.root())
			return true
		}},
	{name: "ID", kind: 't', seed: func(c *C) []byte { id := c03id(c); return []byte(id.String()) },
		dec: func(in []byte) { core.IDFromString(string(in)); var id core.ID; id.UnmarshalText(in) },
		run: func(c *C, in []byte) bool {
			id, err := core.IDFromString(string(in))
			var id2 core.ID
			err2 := id2.UnmarshalText(in)
			c.Assert((err == nil) == (err2 == nil) && id == id2, "id", "IDFromString(%q): %v %v, UnmarshalText: %v %v", in, id, err, id2, err2)
			var m map[core.ID]core.ID
			_ = json.Unmarshal([]byte(`{`+string(strSeed(c, in))+`:`+string(strSeed(c, in))+`}`), &m)
			if err != nil {
				return false
			}
			c.Assert(refIDValid(id[:]), "id", "%q is accepted as %x", in, id[:])
			c.Assert(id.String() == string(in), "id", "%q is accepted as %v", in, id.String())
			return true
		}},
	{name: "IDBytes", kind: 'b', seed: func(c *C) []byte { id := c03id(c); return id[:] },
		dec: func(in []byte) { core.IDFromBytes(in) },
		run: func(c *C, in []byte) bool {
			id, err := core.IDFromBytes(in)
			c.Assert((err == nil) == refIDValid(in), "id", "IDFromBytes(%x): %v", in, err)
			if err != nil {
				return false
			}
			b, err := core.IDFromString(id.String())
			rt(c, "ID", err == nil && b == id && bytes.Equal(id.Bytes(), in), "%x", in)
			_, _, _, err = core.DecomposeID(id)
			c.Assert(err == nil && core.CheckChecksum(id), "id", "DecomposeID: %v", err)
			return true
		}},
	{name: "Claim", kind: 'b', seed: func(c *C) []byte {
		return newClaim(c.R, c.R.Intn(3)).Entry().Bytes()
	},
		dec: func(in []byte) {
			if e, err := merkletree.NewEntryFromBytes(in); err == nil {
				claims.NewClaimFromEntry(e)
			}
		},
		run: func(c *C, in []byte) bool {
			if len(in) != 256 { // keep the length
				x := make([]byte, 256)
				copy(x, in)
				in = x
			}
			e, err := merkletree.NewEntryFromBytes(in)
			c.Must(err, "entry")
			return c03claim(c, e)
		}},
	{name: "Metadata", kind: 'j', seed: func(c *C) []byte {
		cl := newClaim(c.R, c.R.Intn(4))
		j, err := json.Marshal(cl.Metadata())
		c.Must(err, "json")
		return j
	},
		dec: func(in []byte) { var m claims.Metadata; json.Unmarshal(in, &m) },
		run: func(c *C, in []byte) bool {
			var m, m2, m3 claims.Metadata
			if json.Unmarshal(in, &m) != nil {
				return false
			}
			j, err := json.Marshal(m)
			rt(c, "Metadata", err == nil && json.Unmarshal(j, &m2) == nil && reflect.DeepEqual(m, m2), "%s gives %s: %+v and %+v, %v", in, j, m, m2, err)
			var e merkletree.Entry
			m.Marshal(&e)
			m3.Unmarshal(&e)
			if m.Header().Subject != claims.ClaimSubjectSelf {
				c.Assert(m.Subject != nil, "metadata", "no subject")
			}
			rt(c, "Metadata", reflect.DeepEqual(m, m3), "%s through an entry: %+v and %+v", in, m, m3)
			return true
		}},
	{name: "ClaimType", kind: 't', seed: func(c *C) []byte {
		var ct claims.ClaimType
		switch c.R.Intn(5) {
		case 0:
			ct = claims.ClaimTypeBasic
		case 1:
			ct = claims.ClaimTypeKeyBabyJub
		case 2:
			ct = claims.ClaimTypeOtherIden
		default:
			c.R.Read(ct[:])
		}
		b, _ := ct.MarshalText()
		return b
	},
		dec: func(in []byte) { var ct claims.ClaimType; ct.UnmarshalText(in) },
		run: func(c *C, in []byte) bool {
			var ct, ct2 claims.ClaimType
			if ct.UnmarshalText(in) != nil {
				return false
			}
			b, err := ct.MarshalText()
			rt(c, "ClaimType", err == nil && ct2.UnmarshalText(b) == nil && ct == ct2, "%q", in)
			return true
		}},
	{name: "ClaimFlags", kind: 't', seed: func(c *C) []byte {
		return []byte([]string{"Self", "OtherIden", "Object", "Index", "Value"}[c.R.Intn(5)])
	},
		dec: func(in []byte) { var x claims.ClaimSubject; x.UnmarshalText(in) },
		run: func(c *C, in []byte) bool {
			var a, a2 claims.ClaimSubject
			var b, b2 claims.ClaimSubjectPos
			ea, eb := a.UnmarshalText(in), b.UnmarshalText(in)
			if ea == nil {
				x, err := a.MarshalText()
				rt(c, "ClaimSubject", err == nil && a2.UnmarshalText(x) == nil && a == a2 && string(x) == string(in), "%q", in)
			}
			if eb == nil {
				x, err := b.MarshalText()
				rt(c, "ClaimSubjectPos", err == nil && b2.UnmarshalText(x) == nil && b == b2 && string(x) == string(in), "%q", in)
			}
			return ea == nil || eb == nil
		}},
	{name: "PublicData", kind: 'j', seed: c03blobs, n: 16,
		dec: func(in []byte) {
			var b idenpuboffchain.PublicDataBlobs
			if json.Unmarshal(in, &b) == nil {
				idenpuboffchain.NewPublicDataFromBlobs(&b)
			}
		},
		run: func(c *C, in []byte) bool {
			var b idenpuboffchain.PublicDataBlobs
			if json.Unmarshal(in, &b) != nil {
				return false
			}
			pd, err := idenpuboffchain.NewPublicDataFromBlobs(&b)
			rr, ok1 := c03dumpOK(b.RevocationsTree, 140)
			ro, ok2 := c03dumpOK(b.RootsTree, 140)
			ok := ok1 && ok2 && rr == h32(b.RevocationsTreeRoot) && ro == h32(b.RootsTreeRoot) && inField(h32(b.ClaimsTreeRoot)) &&
				refState(h32(b.ClaimsTreeRoot), rr, ro) == h32(b.IdenState)
			c.Assert((err == nil) == ok, "public-verdict", "NewPublicDataFromBlobs: %v, consistent: %v: %s", err, ok, in)
			if err != nil {
				return false
			}
			c.Assert(h32(*pd.RevocationsTree.RootKey()) == rr && h32(*pd.RootsTree.RootKey()) == ro && *pd.IdenState == b.IdenState && *pd.ClaimsTreeRoot == b.ClaimsTreeRoot &&
				*pd.RevocationsTreeRoot == b.RevocationsTreeRoot && *pd.RootsTreeRoot == b.RootsTreeRoot, "public-data", "the public data differs from its blobs")
			for _, t := range []*merkletree.MerkleTree{pd.RevocationsTree, pd.RootsTree} {
				h := randElem(c.R)
				p, err := t.GenerateProof(hsh(h), nil)
				c.Assert(err == nil && !p.Existence && merkletree.VerifyProof(t.RootKey(), p, hsh(h), hsh(h32{})), "public-proof", "GenerateProof in decoded public data: %v", err)
			}
			var b2 idenpuboffchain.PublicDataBlobs
			j, err := json.Marshal(b)
			rt(c, "PublicDataBlobs", err == nil && json.Unmarshal(j, &b2) == nil && reflect.DeepEqual(b, b2), "%s", in)
			return true
		}},
	{name: "CredentialExistence", kind: 'j', seed: func(c *C) []byte { j, _ := json.Marshal(c03existence(c)); return j },
		dec: func(in []byte) { var x proof.CredentialExistence; json.Unmarshal(in, &x) },
		run: func(c *C, in []byte) bool {
			var x, y proof.CredentialExistence
			if json.Unmarshal(in, &x) != nil {
				return false
			}
			j, err := json.Marshal(x)
			rt(c, "CredentialExistence", err == nil && json.Unmarshal(j, &y) == nil && reflect.DeepEqual(x, y), "%s: %v", in, err)
			_ = x.String()
			ver := verifier.New(newChain(c, c.R))
			c.Assert(ver.VerifyCredentialExistence(&x) != nil, "credential-forged", "a credential of an identity that is not on chain is valid: %s", in)
			return true
		}},
	{name: "CredentialValidity", kind: 'j', seed: func(c *C) []byte {
		sd := proof.IdenStateData{BlockTs: c.R.Int63(), BlockN: c.R.Uint64(), IdenState: hsh(randElem(c.R))}
		p, err := merkletree.NewProofFromBytes(c03proof(c))
		c.Must(err, "proof")
		j, err := json.Marshal(proof.CredentialValidity{CredentialExistence: *c03existence(c), IdenStateData: sd, MtpNotNonce: p, ClaimsTreeRoot: hsh(randElem(c.R)), RootsTreeRoot: hsh(randElem(c.R))})
		c.Must(err, "json")
		return j
	},
		dec: func(in []byte) { var x proof.CredentialValidity; json.Unmarshal(in, &x) },
		run: func(c *C, in []byte) bool {
			var x, y proof.CredentialValidity
			if json.Unmarshal(in, &x) != nil {
				return false
			}
			j, err := json.Marshal(x)
			rt(c, "CredentialValidity", err == nil && json.Unmarshal(j, &y) == nil && reflect.DeepEqual(x, y), "%s: %v", in, err)
			_ = x.String()
			ver := verifier.New(newChain(c, c.R))
			c.Assert(ver.VerifyCredentialValidity(&x, time.Hour) != nil, "credential-forged", "a credential of an identity that is not on chain is valid: %s", in)
			return true
		}},
	{name: "PubSignals", kind: 'j', seed: func(c *C) []byte {
		p := zkutils.PubSignals{}
		for i := c.R.Intn(4); i > 0; i-- {
			h := randElem(c.R)
			p = append(p, leBig(h[:]))
		}
		j, err := json.Marshal(p)
		c.Must(err, "json")
		return j
	},
		dec: func(in []byte) { var p zkutils.PubSignals; json.Unmarshal(in, &p) },
		run: func(c *C, in []byte) bool {
			var p, p2 zkutils.PubSignals
			if json.Unmarshal(in, &p) != nil {
				return false
			}
			j, err := json.Marshal(p)
			rt(c, "PubSignals", err == nil && json.Unmarshal(j, &p2) == nil && len(p) == len(p2), "%s gives %s", in, j)
			for i := range p {
				rt(c, "PubSignals", p[i] != nil && p2[i] != nil && p[i].Cmp(p2[i]) == 0, "%s gives %s", in, j)
			}
			return true
		}},
	{name: "PublicKey", kind: 'j', seed: func(c *C) []byte {
		k, err := ethcrypto.ToECDSA(ethcrypto.Keccak256([]byte(fmt.Sprint(c.R.Int63()))))
		c.Must(err, "key")
		j, err := json.Marshal(crypto.PublicKey{PublicKey: k.PublicKey})
		c.Must(err, "json")
		return j
	},
		dec: func(in []byte) { var p crypto.PublicKey; json.Unmarshal(in, &p) },
		run: func(c *C, in []byte) bool {
			var p, p2 crypto.PublicKey
			if json.Unmarshal(in, &p) != nil {
				return false
			}
			c.Assert(p.X != nil && p.Curve.IsOnCurve(p.X, p.Y), "public-key", "%s is not on the curve", in)
			j, err := json.Marshal(p)
			rt(c, "PublicKey", err == nil && json.Unmarshal(j, &p2) == nil && p.X.Cmp(p2.X) == 0 && p.Y.Cmp(p2.Y) == 0, "%s", in)
			return true
		}},
	{name: "Signature", kind: 'j', seed: func(c *C) []byte {
		k, err := ethcrypto.ToECDSA(ethcrypto.Keccak256([]byte(fmt.Sprint(c.R.Int63()))))
		c.Must(err, "key")
		var h [32]byte
		c.R.Read(h[:])
		s, err := ethcrypto.Sign(h[:], k)
		c.Must(err, "sign")
		return strSeed(c, []byte(common.HexEncode(s)))
	},
		dec: func(in []byte) { var p crypto.Signature; json.Unmarshal(in, &p) },
		run: func(c *C, in []byte) bool {
			var s, s2 crypto.Signature
			var m, m2 crypto.SignatureEthMsg
			err, merr := json.Unmarshal(in, &s), json.Unmarshal(in, &m)
			c.Assert((err == nil) == (merr == nil), "signature", "Signature: %v, SignatureEthMsg: %v", err, merr)
			if err != nil {
				return false
			}
			j, err := json.Marshal(s)
			rt(c, "Signature", err == nil && json.Unmarshal(j, &s2) == nil && s == s2, "%s", in)
			j, err = json.Marshal(m)
			rt(c, "SignatureEthMsg", err == nil && json.Unmarshal(j, &m2) == nil && m == m2, "%s", in)
			var a ethcommon.Address
			c.R.Read(a[:])
			var h [32]byte
			c.R.Read(h[:])
			c.Assert(!crypto.VerifySig(a, &s, h[:]) && !crypto.VerifySigEthMsg(a, &m, h[:]), "signature-forged", "%s verifies for the random address %x", in, a)
			return true
		}},
	{name: "BabyJub", kind: 't', seed: func(c *C) []byte { // compressed key of a key claim
		var k babyjub.PrivateKey
		c.R.Read(k[:])
		return []byte(common.HexEncode(claims.NewClaimKeyBabyJub(k.Public(), claims.BabyJubKeyTypeAuthorizeKSign).Entry().Bytes()))
	},
		dec: func(in []byte) { claims.HexToClaimGeneric(string(in)) },
		run: func(c *C, in []byte) bool {
			g, err := claims.HexToClaimGeneric(string(in))
			if err != nil {
				return false
			}
			h := claims.ClaimToHex(&g)
			g2, err := claims.HexToClaimGeneric(h)
			rt(c, "generic claim", err == nil && claims.ClaimToHex(&g2) == h && reflect.DeepEqual(g.Metadata(), g2.Metadata()), "%s", h)
			k := claims.NewClaimKeyBabyJubFromEntry(g.Entry())
			_ = k.Metadata()
			_ = k.Entry()
			return true
		}},
}

func c03existence(c *C) *proof.CredentialExistence {
	p, err := merkletree.NewProofFromBytes(c03proof(c))
	c.Must(err, "proof")
	e, err := merkletree.NewEntryFromBytes(c03entry(c))
	c.Must(err, "entry")
	id := c03id(c)
	return &proof.CredentialExistence{Id: &id, IdenStateData: proof.IdenStateData{BlockTs: c.R.Int63(), BlockN: c.R.Uint64(), IdenState: hsh(randElem(c.R))},
		MtpClaim: p, Claim: e, RevocationsTreeRoot: hsh(randElem(c.R)), RootsTreeRoot: hsh(randElem(c.R)), IdenPubUrl: randText(c)}
}

// ---------------------------------------------------------------- credentials

// c03credentials: mutants of real credentials of a real chain are used by the
// verifier and the holder.
func c03credentials(c *C) {
	w := newWorld(c, db.NewMemoryStorage())
	w.create(0)
	for i := 0; i < 1+c.R.Intn(2); i++ {
		w.issue()
	}
	w.settle()
	w.revoke(w.issued[len(w.issued)-1])
	ic := w.issue()
	w.settle()
	H := newHolder(c, w, 0)
	H.read = func(url string, id *core.ID, st *merkletree.Hash) (*idenpuboffchain.PublicData, error) {
		return w.off.GetPublicData(url, id, st)
	}
	ce, err := w.is.GenCredentialExistence(ic.cl)
	c.Assert(err == nil, "gen", "GenCredentialExistence: %v", err)
	cv, err := H.h.HolderGetCredentialValidity(ce)
	c.Assert(err == nil, "holder", "HolderGetCredentialValidity: %v", err)
	now := time.Unix(w.chain.ts+1000, 0)
	ver := verifier.NewWithTimeNow(w.chain, func() time.Time { return now })
	jce, jcv := []byte(js(ce)), []byte(js(cv))
	for i := 0; i < 60; i++ {
		in := c03json(c.R, jce, func() []byte { return jce })
		if i == 0 {
			in = jce
		}
		var x proof.CredentialExistence
		c.mu.Lock()
		c.logb = nil
		c.mu.Unlock()
		c.Logf("existence %s", in)
		if json.Unmarshal(in, &x) == nil {
			c.Distinct("e %s", in)
			want := refExist(w.chain, &x)
			err := ver.VerifyCredentialExistence(&x)
			c.Assert((err == nil) == want, "existence-verdict", "VerifyCredentialExistence: %v, valid: %v: %s", err, want, in)
			if _, err := H.h.HolderGetCredentialValidity(&x); err == nil {
				c.Count("holder used", 1)
			}
			c.Count("credentials used", 1)
		} else {
			c.Count("credentials refused", 1)
		}
		in = c03json(c.R, jcv, func() []byte { return jcv })
		if i == 0 {
			in = jcv
		}
		var y proof.CredentialValidity
		c.Logf("validity %s", in)
		if json.Unmarshal(in, &y) == nil {
			c.Distinct("v %s", in)
			fresh := time.Duration(c.R.Int63n(3000)) * time.Second
			want, edge := refValid(w.chain, &y, now, fresh)
			err := ver.VerifyCredentialValidity(&y, fresh)
			c.Assert(edge || (err == nil) == want, "validity-verdict", "VerifyCredentialValidity: %v, valid: %v: %s", err, want, in)
			c.Count("credentials used", 1)
		} else {
			c.Count("credentials refused", 1)
		}
	}
	// zk credentials over the wire
	zkInit(c)
	files := zkCR.files(zkCRDir)
	c.Must(files.LoadVerificationKey(), "vk")
	st := leBig(w.onchain.st[:])
	sig := []*big.Int{st, big.NewInt(c.R.Int63())}
	type wire struct {
		P *zktypes.Proof
		S zkutils.PubSignals
	}
	jz, err := json.Marshal(wire{zkCR.forge(c.R, sig...), sig})
	c.Must(err, "zk json")
	for i := 0; i < 12; i++ {
		in := jz
		if i > 0 {
			in = c03json(c.R, jz, func() []byte { return jz })
		}
		c.Logf("zk %s", in)
		var x wire
		var derr error
		if p, _ := c.Catch(func() { derr = json.Unmarshal(in, &x) }); p != nil {
			c.Count("library panics", 1) // the JSON decoder of zktypes.Proof
			continue
		}
		if derr != nil {
			continue
		}
		want, edge := refZk(w.chain, x.P, x.S, &w.id, w.onchain.blockN, now, time.Hour)
		err := ver.VerifyZkProofCredential(x.P, x.S, &w.id, w.onchain.blockN, files, time.Hour)
		c.Assert(edge || (err == nil) == want, "zk-verdict", "VerifyZkProofCredential: %v, valid: %v: %s", err, want, in)
		c.Count("zk verdicts", 1)
	}
	c.Sample("existence %s", jce)
}

// ---------------------------------------------------------------- stored records

// c03stored: list, counter and JSON records of wrong sizes and contents.
func c03stored(c *C) {
	st := db.NewMemoryStorage()
	pre := make([]byte, c.R.Intn(5))
	c.R.Read(pre)
	sv := db.NewStorageValue(append(append([]byte{}, pre...), 'v'))
	sl := db.NewStorageList(append(append([]byte{}, pre...), 'l'))
	tx, err := st.NewTx()
	c.Must(err, "tx")
	sv.Set(tx, c.R.Uint32())
	sl.Init(tx)
	for i := 0; i < 3; i++ {
		c.Must(sl.Append(tx, []byte{byte(i)}, map[string]int{"a": i}), "append")
	}
	c.Must(db.StoreJSON(tx, append(append([]byte{}, pre...), 'j'), c03existence(c)), "store json")
	c.Must(tx.Commit(), "commit")
	keys := []kvRec{}
	c.Must(st.Iterate(func(k, v []byte) (bool, error) {
		keys = append(keys, kvRec{append([]byte{}, k...), append([]byte{}, v...)})
		return true, nil
	}), "iterate")
	sort.Slice(keys, func(i, j int) bool { return bytes.Compare(keys[i].k, keys[j].k) < 0 })
	for n := 0; n < 40; n++ {
		m := db.NewMemoryStorage()
		tx, err := m.NewTx()
		c.Must(err, "tx")
		bad := c.R.Intn(len(keys))
		var v []byte
		for i, kv := range keys {
			v = kv.v
			if i == bad {
				if c.R.Intn(2) == 0 {
					v = c03bytes(c.R, v, func() []byte { return keys[c.R.Intn(len(keys))].v })
				} else {
					v = c03json(c.R, v, func() []byte { return keys[c.R.Intn(len(keys))].v })
				}
				c.Logf("record %q: %q", kv.k, v)
			}
			tx.Put(kv.k, v)
		}
		c.Must(tx.Commit(), "commit")
		tx, err = m.NewTx()
		c.Must(err, "tx")
		count := func(err error) {
			if err == nil {
				c.Count("stored read", 1)
			} else {
				c.Count("stored refused", 1)
			}
		}
		raw := func(k []byte) []byte { b, err := m.Get(k); c.Must(err, "get"); return b }
		x, err := sv.Get(tx)
		count(err)
		b := raw(append(append([]byte{}, pre...), 'v'))
		c.Assert((err == nil) == (len(b) == 4), "counter", "a counter record of %d bytes: %v", len(b), err)
		if err == nil {
			c.Assert(bytes.Equal(common.Uint32ToBytes(x), b), "counter", "the record %x is read as %d", b, x)
		}
		l, err := sl.Length(tx)
		count(err)
		for i := uint32(0); i < 4; i++ {
			var a map[string]int
			_, err := sl.GetByIdx(tx, i, &a)
			count(err)
			err = sl.Get(tx, []byte{byte(i)}, &a)
			count(err)
		}
		if err := sl.Append(tx, []byte{9}, 1); err == nil && l < 1<<31 {
			l2, err := sl.Length(tx)
			c.Assert(err == nil && l2 == l+1, "list", "the length is %d after appending to a list of %d: %v", l2, l, err)
		}
		var ce proof.CredentialExistence
		err = db.LoadJSON(m, append(append([]byte{}, pre...), 'j'), &ce)
		count(err)
		if err == nil {
			_ = ce.String()
		}
		tx.Close()
		c.Distinct("%q %q", keys[bad].k, v)
	}
}

// ---------------------------------------------------------------- cost

func cpuNow() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// c03cost: big inputs take memory and time in proportion.
func c03cost(c *C) {
	t := c03targets[c.N%len(c03targets)]
	r := c.R
	big := func(n int) []byte {
		s := t.seed(c)
		switch k := r.Intn(5); {
		case k == 0 && t.kind == 'b': // announces a lot, in every place
			b := bytes.Repeat([]byte{0xff}, n)
			copy(b, s[:min(len(s), 2)])
			return b
		case k == 0:
			return bytes.Repeat([]byte{"z1f0A,[\"{="[r.Intn(10)]}, n)
		case k == 1 && t.kind == 'j':
			return []byte(`"0x` + strings.Repeat("ab", n/2) + `"`)
		case k == 1 && len(s) > 0:
			return bytes.Repeat([]byte{s[r.Intn(len(s))]}, n)
		case k == 2 && t.kind == 'j':
			return []byte(strings.Repeat("[", n/2) + strings.Repeat("]", n/2))
		case k == 3 && t.kind == 'j': // a long string in the place of a short one
			var v interface{}
			d := json.NewDecoder(bytes.NewReader(s))
			d.UseNumber()
			d.Decode(&v)
			long := strings.Repeat([]string{"z", "0", "ff", "A="}[r.Intn(4)], n/2)
			if m, ok := v.(map[string]interface{}); ok {
				ks := []string{}
				for k := range m {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				for _, k := range ks {
					if _, ok := m[k].(string); ok && r.Intn(3) > 0 {
						m[k] = long
					}
				}
				b, _ := json.Marshal(m)
				return b
			}
			b, _ := json.Marshal(long)
			return b
		case k == 4 && t.kind != 'j':
			b := make([]byte, n)
			r.Read(b)
			if t.kind == 't' {
				for i := range b {
					b[i] = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdef"[b[i]%39]
				}
			}
			return b
		}
		if len(s) == 0 {
			return make([]byte, n)
		}
		return bytes.Repeat(s, n/len(s)+1)
	}
	for _, n := range []int{0, 1, 3, 1000, 40000, 400000} {
		in := big(n)
		c.mu.Lock()
		c.logb = nil
		c.mu.Unlock()
		c.Logf("%s: %d bytes, %s...", t.name, len(in), show(in[:min(len(in), 60)], t.kind))
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		t0 := cpuNow()
		t.dec(in)
		dt := cpuNow() - t0
		runtime.ReadMemStats(&b)
		// hashing a node allocates much more than the node
		alloc, lim := b.TotalAlloc-a.TotalAlloc, uint64(16<<20)+uint64(len(in))*4000
		c.Assert(alloc <= lim, "memory:"+t.name, "decoding %d bytes allocates %d bytes", len(in), alloc)
		c.Assert(dt <= 10*time.Second, "time:"+t.name, "decoding %d bytes takes %v of processor time", len(in), dt)
		c.Count("measured", 1)
		c.Count("allocated KiB", int(alloc>>10))
		c.Distinct("%s %d %x", t.name, len(in), in[:min(len(in), 200)])
	}
}
