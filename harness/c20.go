package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"path/filepath"
	"time"

	"github.com/ethereum/go-ethereum/accounts"
	ethkeystore "github.com/ethereum/go-ethereum/accounts/keystore"
	"github.com/ethereum/go-ethereum/common"
	ethcrypto "github.com/ethereum/go-ethereum/crypto"
	"github.com/iden3/go-iden3-core/components/idensigner"
	"github.com/iden3/go-iden3-core/crypto"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/identity/issuer"
	"github.com/iden3/go-iden3-core/keystore"
	"github.com/iden3/go-iden3-crypto/babyjub"
	"github.com/iden3/go-iden3-crypto/poseidon"
)

func init() {
	rules["C20"] = "messages of lengths around every block boundary, prefixes with spare capacity, dates at the ends of their range, keys and field elements including the extremes, signed and verified, and verified again with one thing altered: key, prefix, message, date, kind of signature, any bit of the signature, or its other representations; non-trivial: an altered verification is made"
	assumptions["C20"] = []string{"the signature schemes of the libraries are unforgeable", "the prefix, date and message are judged as the byte string they make up, which is what is documented to be signed", "zero bytes at the end of a message are ignored by the hash (a known finding)"}
	reg(Part{Prop: "C20", Name: "babyjub", Quick: 48, Thorough: 1500, Run: c20baby})
	reg(Part{Prop: "C20", Name: "malformed", Quick: 32, Thorough: 800, Run: c20malformed})
	reg(Part{Prop: "C20", Name: "ecdsa", Quick: 48, Thorough: 3000, Run: c20ecdsa})
	reg(Part{Prop: "C20", Name: "issuer", Quick: 24, Thorough: 600, Run: c20issuer})
	reg(Part{Prop: "C20", Name: "shared", Race: true, Quick: 8, Thorough: 100, Workers: 2, Run: c20shared})
	reg(Part{Prop: "C20", Name: "known", Quick: 1, Thorough: 1, Run: c20known})
}

// spare returns b in a slice with spare capacity, and a check that nothing was written.
func spare(c *C, b []byte) ([]byte, func(what string)) {
	n := c.R.Intn(300)
	buf := make([]byte, len(b)+n)
	copy(buf, b)
	for i := len(b); i < len(buf); i++ {
		buf[i] = 0xa5
	}
	was := append([]byte{}, buf...)
	return buf[:len(b)], func(what string) {
		c.Assert(bytes.Equal(buf, was), "buffer-changed", "%s changes the caller's buffer: %x instead of %x", what, buf, was)
	}
}

func randMsg(c *C) []byte {
	n := []int{0, 1, 2, 30, 31, 32, 61, 62, 63, 154, 155, 156, 157, 310}[c.R.Intn(14)]
	if c.R.Intn(2) == 0 {
		n = c.R.Intn(200)
	}
	b := make([]byte, n)
	c.R.Read(b)
	return b
}

func trimZero(b []byte) string {
	// what the hash sees: blocks of 31 bytes, zeros at the end of the last one ignored
	k := (len(b) - 1) / 31 * 31
	if len(b) == 0 {
		return ""
	}
	e := len(b)
	for e > k && b[e-1] == 0 {
		e--
	}
	return fmt.Sprintf("%d:%x", (len(b)+30)/31, b[:e])
}

func alterBytes(c *C, b []byte) []byte {
	o := append([]byte{}, b...)
	switch k := c.R.Intn(6); {
	case k == 0:
		return append(o, byte(1+c.R.Intn(255)))
	case k == 1 && len(o) > 0:
		return o[:len(o)-1]
	case k == 2:
		return append([]byte{byte(c.R.Intn(256))}, o...)
	case k == 3 && len(o) > 1:
		i := c.R.Intn(len(o) - 1)
		o[i], o[i+1] = o[i+1], o[i]
		return o
	case len(o) > 0:
		o[c.R.Intn(len(o))] ^= 1 << uint(c.R.Intn(8))
		return o
	}
	return append(o, 7)
}

func randDate(c *C) int64 {
	return []int64{0, 1, -1, time.Now().Unix(), 1 << 31, 1 << 32, 1<<63 - 1, -1 << 63, c.R.Int63()}[c.R.Intn(9)]
}

// verdict is the result of a verification that must not panic.
func (c *C) verdict(what string, f func() (bool, error)) bool {
	var ok bool
	var err error
	p, st := c.Catch(func() { ok, err = f() })
	c.Assert(p == nil, "verify-panic", "verifying %s panics: %v\n%s", what, p, st)
	c.Assert(err == nil || !ok, "verify-both", "verifying %s gives both true and %v", what, err)
	c.Count("verifications", 1)
	return ok && err == nil
}

func c20baby(c *C) {
	st := keystore.MemStorage([]byte{})
	ks, err := keystore.NewKeyStore(&st, cheapKS)
	c.Must(err, "open")
	var pks [2]*babyjub.PublicKeyComp
	var sks [2]babyjub.PrivateKey
	for i := range pks {
		sks[i] = randSk(c)
		sks[i][9] = byte(i)
		pks[i], err = ks.ImportKey(sks[i], nil)
		c.Must(err, "import")
		c.Must(ks.UnlockKey(pks[i], nil), "unlock")
	}
	for i := 0; i < 2; i++ {
		k := c.R.Intn(2)
		pk, other := pks[k], pks[1-k]
		msg0 := randMsg(c)
		prefix0 := randMsg(c)[:0]
		if c.R.Intn(4) > 0 {
			prefix0 = append([]byte{}, randMsg(c)...)
			if len(prefix0) > 40 {
				prefix0 = prefix0[:40]
			}
		}
		msg, chm := spare(c, msg0)
		prefix, chp := spare(c, prefix0)
		sig, date, err := ks.Sign(pk, prefix, msg)
		chm("Sign")
		chp("Sign")
		c.Assert(err == nil, "sign", "signing: %v", err)
		ref := poseidon.HashBytes(refPrefixed(prefix0, date, msg0))
		c.Assert(*sig == sks[k].SignPoseidon(ref).Compress(), "sign", "the signature is not one over prefix, date and message")
		v := func(pk *babyjub.PublicKeyComp, sig *babyjub.SignatureComp, prefix []byte, date int64, msg []byte) bool {
			m, chm := spare(c, msg)
			p, chp := spare(c, prefix)
			pk1, sig1 := *pk, *sig
			ok := c.verdict("a signature", func() (bool, error) { return keystore.VerifySignature(&pk1, &sig1, p, date, m) })
			chm("VerifySignature")
			chp("VerifySignature")
			c.Assert(pk1 == *pk && sig1 == *sig, "buffer-changed", "verifying changes the key or the signature")
			return ok
		}
		c.Assert(v(pk, sig, prefix0, date, msg0), "valid-refused", "a signature of %d bytes with a prefix of %d does not verify", len(msg0), len(prefix0))
		signed := trimZero(refPrefixed(prefix0, date, msg0))
		for n := 0; n < 5; n++ {
			p, d, m, q, s := prefix0, date, msg0, pk, *sig
			what := ""
			switch c.R.Intn(9) {
			case 0:
				q, what = other, "key"
			case 1:
				p, what = alterBytes(c, prefix0), "prefix"
			case 2:
				m, what = alterBytes(c, msg0), "message"
			case 3:
				if d = randDate(c); d == date {
					d++
				}
				what = "date"
			case 4:
				d, what = date+[]int64{1, -1, 1 << 32, -1 << 40}[c.R.Intn(4)], "date"
			case 5: // without its prefix
				p, m, what = nil, append(append([]byte{}, prefix0...), msg0...), "prefix in the message"
			case 6:
				i := c.R.Intn(64)
				s[i] ^= 1 << uint(c.R.Intn(8))
				what = fmt.Sprintf("signature byte %d", i)
			case 7: // the same number, written otherwise
				S := leBig(s[32:])
				S.Add(S, new(big.Int).Mul(babyjub.SubOrder, big.NewInt(int64(1+c.R.Intn(20)))))
				h := bigLE(S)
				copy(s[32:], h[:])
				what = "S"
			case 8: // negations
				if c.R.Intn(2) == 0 {
					S := new(big.Int).Sub(babyjub.SubOrder, leBig(s[32:]))
					h := bigLE(S)
					copy(s[32:], h[:])
				} else {
					s[31] ^= 0x80
				}
				what = "negated"
			}
			if q == pk && s == *sig && trimZero(refPrefixed(p, d, m)) == signed {
				continue
			}
			c.Assert(!v(q, &s, p, d, m), "altered-accepted", "a signature verifies with another %s", what)
			c.Count("altered", 1)
			c.Distinct("%s %d %d", what, len(prefix0), len(msg0))
		}
		// a raw signature is one without date and prefix
		raw, err := ks.SignRaw(pk, msg)
		chm("SignRaw")
		c.Assert(err == nil && *raw == sks[k].SignPoseidon(poseidon.HashBytes(msg0)).Compress(), "sign-raw", "the raw signature is not one over the message: %v", err)
		c.Assert(c.verdict("raw", func() (bool, error) { return keystore.VerifySignatureRaw(pk, raw, msg) }), "valid-refused", "a raw signature does not verify")
		c.Assert(!v(pk, raw, nil, date, msg0) && !v(pk, raw, prefix0, date, msg0), "kind-accepted", "a raw signature verifies as one with a date")
		c.Assert(!c.verdict("raw", func() (bool, error) { return keystore.VerifySignatureRaw(pk, sig, msg) }), "kind-accepted", "a signature with a date verifies as a raw one")
		alt := alterBytes(c, msg0)
		if trimZero(alt) != trimZero(msg0) {
			c.Assert(!c.verdict("raw", func() (bool, error) { return keystore.VerifySignatureRaw(pk, raw, alt) }), "altered-accepted", "a raw signature of %x verifies for %x", msg0, alt)
		}
		c.Count("altered", 3)
		// elements
		e := leBigE(randElem(c.R))
		e.Mod(e, fR)
		if c.R.Intn(4) == 0 {
			e = []*big.Int{big.NewInt(0), big.NewInt(1), new(big.Int).Sub(fR, big.NewInt(1))}[c.R.Intn(3)]
		}
		e0 := new(big.Int).Set(e)
		es, err := ks.SignElem(pk, e)
		c.Assert(err == nil && *es == sks[k].SignPoseidon(e0).Compress(), "sign-elem", "the signature is not one over the element: %v", err)
		c.Assert(c.verdict("elem", func() (bool, error) { return keystore.VerifySignatureElem(pk, e, es) }), "valid-refused", "the signature of an element does not verify")
		c.Assert(e.Cmp(e0) == 0, "buffer-changed", "the element is changed")
		e1 := new(big.Int).Add(e0, big.NewInt(1))
		switch c.R.Intn(4) {
		case 0:
			e1.Xor(e0, new(big.Int).Lsh(big.NewInt(1), uint(c.R.Intn(253))))
		case 1:
			e1.Sub(fR, e0)
			if e0.Sign() == 0 {
				e1.SetInt64(1)
			}
		case 2:
			e1.Add(e0, fR)
		}
		c.Assert(!c.verdict("elem", func() (bool, error) { return keystore.VerifySignatureElem(pk, e1, es) }), "altered-accepted", "the signature of %v verifies for %v", e0, e1)
		c.Count("altered", 1)
	}
	c.Must(ks.Close(), "close")
}

// c20malformed verifies things that are not signatures or keys.
func c20malformed(c *C) {
	sk := randSk(c)
	pk := pkOf(sk)
	msg := randMsg(c)
	good := sk.SignPoseidon(poseidon.HashBytes(msg)).Compress()
	field := func() (b [32]byte) {
		switch c.R.Intn(7) {
		case 0:
			c.R.Read(b[:])
		case 1:
			for i := range b {
				b[i] = 0xff
			}
		case 2:
		case 3:
			b[0] = 1
		case 4:
			b = bigLE(new(big.Int).Sub(fR, big.NewInt(int64(c.R.Intn(3)-1))))
		case 5:
			b = bigLE(babyjub.SubOrder)
		case 6:
			c.R.Read(b[:])
			b[31] &= 0x1f
		}
		if c.R.Intn(4) == 0 {
			b[31] |= 0x80
		}
		return
	}
	for i := 0; i < 12; i++ {
		q, s := pk, good
		switch c.R.Intn(4) {
		case 0:
			q = babyjub.PublicKeyComp(field())
		case 1:
			f := field()
			copy(s[:32], f[:])
		case 2:
			f := field()
			copy(s[32:], f[:])
		case 3:
			f := field()
			copy(s[:32], f[:])
			f = field()
			copy(s[32:], f[:])
		}
		if q == pk && s == good {
			continue
		}
		// points of small order as keys make everybody the signer
		if q != pk {
			s = good
		}
		c.Assert(!c.verdict("a malformed signature", func() (bool, error) { return keystore.VerifySignatureRaw(&q, &s, msg) }), "malformed-accepted", "key %x and signature %x are accepted", q[:], s[:])
		c.Count("altered", 1)
		c.Distinct("%x %x", q[:], s[:])
	}
	// elements out of the field are not signed as if they were in it
	st := keystore.MemStorage([]byte{})
	ks, err := keystore.NewKeyStore(&st, cheapKS)
	c.Must(err, "open")
	p, err := ks.ImportKey(sk, nil)
	c.Must(err, "import")
	c.Must(ks.UnlockKey(p, nil), "unlock")
	for _, e := range []*big.Int{fR, new(big.Int).Add(fR, big.NewInt(5)), new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(-1), new(big.Int).Neg(fR)} {
		var sig *babyjub.SignatureComp
		var err error
		pn, stk := c.Catch(func() { sig, err = ks.SignElem(p, e) })
		c.Assert(pn == nil, "sign-panic", "signing %v panics: %v\n%s", e, pn, stk)
		if err == nil {
			m := new(big.Int).Mod(e, fR)
			c.Assert(!c.verdict("elem", func() (bool, error) { return keystore.VerifySignatureElem(p, m, sig) }), "altered-accepted", "the signature of %v verifies for %v", e, m)
		}
		c.Assert(!c.verdict("elem", func() (bool, error) { return keystore.VerifySignatureElem(p, e, &good) }), "malformed-accepted", "a signature verifies for %v", e)
	}
	c.Must(ks.Close(), "close")
}

func ethKS(c *C) (*ethkeystore.KeyStore, []accounts.Account) {
	ks := ethkeystore.NewKeyStore(filepath.Join(c.Dir(), fmt.Sprintf("eth%d", c.R.Int63())), 2, 1)
	var as []accounts.Account
	for i := 0; i < 2; i++ {
		a, err := ks.NewAccount("p")
		c.Must(err, "account")
		c.Must(ks.Unlock(a, "p"), "unlock")
		as = append(as, a)
	}
	return ks, as
}

func c20ecdsa(c *C) {
	ks, as := ethKS(c)
	n, _ := new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)
	verify := func(what string, f func() bool) bool {
		return c.verdict(what, func() (bool, error) { return f(), nil })
	}
	for i := 0; i < 12; i++ {
		a, o := as[i%2], as[1-i%2]
		msg0 := randMsg(c)
		msg, chm := spare(c, msg0)
		h := crypto.EthHash(msg)
		c.Assert(bytes.Equal(h[:], accounts.TextHash(msg0)), "eth-hash", "EthHash of %x is not the hash of Ethereum messages", msg0)
		c.Assert(bytes.Equal(h[:], ethcrypto.Keccak256([]byte(fmt.Sprintf("\x19Ethereum Signed Message:\n%d", len(msg0))), msg0)), "eth-hash", "EthHash of %x is not the hash of Ethereum messages", msg0)
		sig, err := crypto.SignEthMsg(ks, a, msg)
		chm("SignEthMsg")
		c.Assert(err == nil, "sign-eth", "%v", err)
		date := randDate(c)
		dmsg0 := append(append([]byte{}, msg0...), refPrefixed(nil, date, nil)...)
		dsig, err := crypto.SignEthMsg(ks, a, dmsg0)
		c.Assert(err == nil, "sign-eth", "%v", err)
		hsig, err := crypto.Sign(h, ks, a)
		c.Assert(err == nil && len(hsig) == 65, "sign-hash", "%v", err)
		kinds := []struct {
			name string
			sig  [65]byte
			f    func(ad common.Address, s [65]byte, msg []byte, date int64) bool
		}{
			{"message", *sig, func(ad common.Address, s [65]byte, msg []byte, _ int64) bool {
				m, ch := spare(c, msg)
				x := crypto.SignatureEthMsg(s)
				ok := crypto.VerifySigEthMsg(ad, &x, m)
				ch("VerifySigEthMsg")
				c.Assert(x == s, "buffer-changed", "verifying changes the signature")
				return ok
			}},
			{"dated message", *dsig, func(ad common.Address, s [65]byte, msg []byte, d int64) bool {
				m, ch := spare(c, msg)
				x := crypto.SignatureEthMsg(s)
				ok := crypto.VerifySigEthMsgDate(ad, &x, m, d)
				ch("VerifySigEthMsgDate")
				c.Assert(x == s, "buffer-changed", "verifying changes the signature")
				return ok
			}},
			{"hash", func() (x [65]byte) { copy(x[:], hsig); return }(), func(ad common.Address, s [65]byte, msg []byte, _ int64) bool {
				x := crypto.Signature(s)
				g := crypto.EthHash(msg)
				ok := crypto.VerifySig(ad, &x, g[:])
				c.Assert(x == s, "buffer-changed", "verifying changes the signature")
				return ok
			}},
		}
		for ki, k := range kinds {
			c.Assert(verify(k.name, func() bool { return k.f(a.Address, k.sig, msg0, date) }), "valid-refused", "a signature of a %s does not verify (%d bytes, date %d)", k.name, len(msg0), date)
			for j := 0; j < 12; j++ {
				ad, s, m, d := a.Address, k.sig, msg0, date
				what := ""
				switch c.R.Intn(8) {
				case 0:
					ad, what = o.Address, "address"
				case 1:
					ad[c.R.Intn(20)] ^= 1 << uint(c.R.Intn(8))
					what = "address bit"
				case 2:
					m, what = alterBytes(c, msg0), "message"
				case 3:
					if ki != 1 {
						continue
					}
					if d = randDate(c); d == date {
						d++
					}
					what = "date"
				case 4:
					s[c.R.Intn(64)] ^= 1 << uint(c.R.Intn(8))
					what = "signature bit"
				case 5: // the other signature with the same meaning
					S := new(big.Int).Sub(n, new(big.Int).SetBytes(s[32:64]))
					copy(s[32:64], word(S))
					s[64] = k.sig[64]&^1 | (1 - k.sig[64]&1)
					if ki < 2 { // 27 or 28
						s[64] = 27 + (1 - (k.sig[64] - 27))
					}
					what = "S"
				case 6:
					s[64] = byte(c.R.Intn(256))
					what = "recovery id"
				case 7:
					l := 32 * c.R.Intn(2)
					z := [][]byte{make([]byte, 32), bytes.Repeat([]byte{0xff}, 32), word(n), word(big.NewInt(1))}[c.R.Intn(4)]
					copy(s[l:l+32], z)
					what = "extreme value"
				}
				if ad == a.Address && s == k.sig && bytes.Equal(m, msg0) && d == date {
					continue
				}
				c.Assert(!verify(k.name, func() bool { return k.f(ad, s, m, d) }), "altered-accepted", "a signature of a %s verifies with another %s (%x)", k.name, what, s)
				c.Count("altered", 1)
				c.Distinct("%s %s %d", k.name, what, len(msg0))
			}
		}
		c.Assert(!verify("dated", func() bool { return kinds[1].f(a.Address, *sig, msg0, date) }), "kind-accepted", "a signature without a date verifies with one")
		c.Assert(!verify("undated", func() bool { return kinds[0].f(a.Address, *dsig, msg0, 0) }), "kind-accepted", "a signature with a date verifies without it")
		x := crypto.Signature(kinds[2].sig)
		for _, l := range []int{0, 31, 33, 64} {
			b := make([]byte, l)
			copy(b, h[:])
			c.Assert(!verify("short hash", func() bool { return crypto.VerifySig(a.Address, &x, b) }), "malformed-accepted", "a hash of %d bytes verifies", l)
		}
		// text forms
		b, err := json.Marshal(sig)
		var s2 crypto.SignatureEthMsg
		c.Assert(err == nil && json.Unmarshal(b, &s2) == nil && s2 == *sig, "sig-json", "a signature changes in JSON: %s", b)
		b, err = json.Marshal(x)
		var x2 crypto.Signature
		c.Assert(err == nil && json.Unmarshal(b, &x2) == nil && x2 == x, "sig-json", "a signature changes in JSON: %s", b)
		pk, err := crypto.GetPkFromKeyStore(ks, a.Address)
		c.Assert(err == nil && ethcrypto.PubkeyToAddress(*pk) == a.Address, "pk", "the public key of an account is not its own: %v", err)
		p1 := crypto.PublicKey{PublicKey: *pk}
		b, err = json.Marshal(p1)
		var p2 crypto.PublicKey
		c.Assert(err == nil && json.Unmarshal(b, &p2) == nil && p2.X.Cmp(pk.X) == 0 && p2.Y.Cmp(pk.Y) == 0, "pk-json", "a public key changes in JSON: %s", b)
		for k := 0; k < 5; k++ { // other texts give another key or an error
			t := append([]byte{}, b...)
			t[1+c.R.Intn(len(t)-2)] ^= 1 << uint(c.R.Intn(5))
			var p3 crypto.PublicKey
			pn, st := c.Catch(func() { err = json.Unmarshal(t, &p3) })
			c.Assert(pn == nil, "pk-panic", "decoding the public key %s panics: %v\n%s", t, pn, st)
			if err == nil && !bytes.EqualFold(t, b) {
				same := p3.X.Cmp(pk.X) == 0 && p3.Y.Cmp(pk.Y) == 0
				c.Assert(!same, "pk-json", "%s is decoded as %s", t, b)
				c.Assert(p3.Curve.IsOnCurve(p3.X, p3.Y), "pk-curve", "%s is decoded as a point that is not on the curve", t)
			}
		}
	}
}

func c20issuer(c *C) {
	w := newWorld(c, db.NewMemoryStorage())
	w.create(c.R.Intn(2))
	var sk2 babyjub.PrivateKey
	c.R.Read(sk2[:])
	_, kop2 := newKS(c, sk2)
	vr := func(pk *babyjub.PublicKeyComp, s *babyjub.SignatureComp, m []byte) bool {
		return c.verdict("binary", func() (bool, error) { return keystore.VerifySignatureRaw(pk, s, m) })
	}
	ve := func(pk *babyjub.PublicKeyComp, s *babyjub.SignatureComp, h [poseidon.T]*big.Int) bool {
		return c.verdict("elems", func() (bool, error) {
			e, err := poseidon.PoseidonHash(h)
			if err != nil {
				return false, err
			}
			return keystore.VerifySignatureElem(pk, e, s)
		})
	}
	// binary messages
	p0, m0 := randMsg(c), randMsg(c)
	p, chp := spare(c, p0)
	m, chm := spare(c, m0)
	sig, err := w.is.SignBinary(p, m)
	chp("SignBinary")
	chm("SignBinary")
	whole := append(append([]byte{}, p0...), m0...)
	c.Assert(err == nil && vr(w.kop, sig, whole), "valid-refused", "a binary signature does not verify: %v", err)
	alt := append(append([]byte{}, p0...), alterBytes(c, m0)...)
	c.Assert(trimZero(alt) == trimZero(whole) || !vr(w.kop, sig, alt), "altered-accepted", "a binary signature verifies for another message")
	alt = append(alterBytes(c, p0), m0...)
	c.Assert(trimZero(alt) == trimZero(whole) || !vr(w.kop, sig, alt), "altered-accepted", "a binary signature verifies for another prefix")
	c.Assert(!vr(kop2, sig, whole), "altered-accepted", "a binary signature verifies for another key")
	c.Count("altered", 3)
	// transitions
	var o, n h32
	o, n = bigLE(new(big.Int).Rand(c.R, fR)), bigLE(new(big.Int).Rand(c.R, fR))
	ho, hn := hsh(o), hsh(n)
	st, err := w.is.SignState(ho, hn)
	c.Assert(err == nil && h32(*ho) == o && h32(*hn) == n, "sign-state", "signing a state: %v", err)
	pre := leBig([]byte("setstate:"))
	z := big.NewInt(0)
	elems := func(a, b, d *big.Int) [poseidon.T]*big.Int { return [poseidon.T]*big.Int{a, b, d, z, z, z} }
	c.Assert(string(issuer.SigPrefixSetState) == "setstate:", "prefix", "the prefix of state signatures changed: %q", issuer.SigPrefixSetState)
	c.Assert(ve(w.kop, st, elems(pre, leBigE(o), leBigE(n))), "valid-refused", "the signature of a transition does not verify")
	c.Assert(!ve(w.kop, st, elems(pre, leBigE(n), leBigE(o))), "altered-accepted", "the signature of a transition verifies for the opposite one")
	c.Assert(!ve(w.kop, st, elems(z, leBigE(o), leBigE(n))), "kind-accepted", "the signature of a transition verifies without its prefix")
	o2 := bigLE(new(big.Int).Rand(c.R, fR))
	c.Assert(!ve(w.kop, st, elems(pre, leBigE(o2), leBigE(n))) && !ve(w.kop, st, elems(pre, leBigE(o), leBigE(o2))), "altered-accepted", "the signature of a transition verifies for another state")
	c.Assert(!ve(kop2, st, elems(pre, leBigE(o), leBigE(n))), "altered-accepted", "the signature of a transition verifies for another key")
	joined := append(append([]byte("setstate:"), o[:]...), n[:]...)
	c.Assert(!vr(w.kop, st, joined), "kind-accepted", "the signature of a transition verifies as one of bytes")
	var padded [93]byte
	copy(padded[:], "setstate:")
	copy(padded[31:], o[:31])
	copy(padded[62:], n[:31])
	c.Assert(!vr(w.kop, st, padded[:]), "kind-accepted", "the signature of a transition verifies as one of bytes")
	bs, err := w.is.SignBinary([]byte("setstate:"), joined[9:])
	c.Assert(err == nil && !ve(w.kop, bs, elems(pre, leBigE(o), leBigE(n))), "kind-accepted", "a signature of bytes verifies as one of a transition: %v", err)
	// elements
	var h [poseidon.T]*big.Int
	for i := range h {
		h[i] = new(big.Int).Rand(c.R, fR)
	}
	es, err := w.is.SignElems(h)
	c.Assert(err == nil && ve(w.kop, es, h), "valid-refused", "the signature of elements does not verify: %v", err)
	i := c.R.Intn(len(h))
	h[i] = new(big.Int).Rand(c.R, fR)
	c.Assert(!ve(w.kop, es, h), "altered-accepted", "the signature of elements verifies with another element %d", i)
	h[i] = new(big.Int).Add(fR, z)
	pn, stk := c.Catch(func() { _, err = w.is.SignElems(h) })
	c.Assert(pn == nil && err != nil, "sign-elems", "signing elements that are not in the field: %v %v\n%s", pn, err, stk)
	c.Count("altered", 10)
	// the signer component
	pk, err := w.kop.Decompress()
	c.Must(err, "key")
	sg := idensigner.New(w.ks, *pk)
	c.Assert(sg.PublicKey().Compress() == *w.kop, "signer-key", "the signer has another key")
	m, chm = spare(c, m0)
	s1, err := sg.SignEthMsg(m)
	chm("IdenSigner.SignEthMsg")
	c.Assert(err == nil && vr(w.kop, s1, m0), "valid-refused", "a signature of the signer does not verify: %v", err)
	t0 := time.Now().Unix()
	s2, date, err := sg.SignEthMsgDate(m)
	chm("IdenSigner.SignEthMsgDate")
	c.Assert(err == nil && date >= t0 && date <= time.Now().Unix(), "signer-date", "the date of a signature is %d at %d: %v", date, t0, err)
	dm := append(append([]byte{}, m0...), refPrefixed(nil, date, nil)...)
	c.Assert(vr(w.kop, s2, dm), "valid-refused", "a dated signature of the signer does not verify")
	dm2 := append(append([]byte{}, m0...), refPrefixed(nil, date+1, nil)...)
	c.Assert(!vr(w.kop, s2, dm2) && (trimZero(m0) == trimZero(dm) || !vr(w.kop, s2, m0)), "altered-accepted", "a dated signature verifies with another date or without")
	c.Count("altered", 2)
	c.Distinct("%d %d %x", len(p0), len(m0), o[:4])
}

// c20shared signs and verifies concurrently with shared buffers.
func c20shared(c *C) {
	var sk babyjub.PrivateKey
	c.R.Read(sk[:])
	ks, kop := newKS(c, sk)
	pk, err := kop.Decompress()
	c.Must(err, "key")
	sg := idensigner.New(ks, *pk)
	eks, as := ethKS(c)
	prefix, chp := spare(c, []byte("prefix"))
	msg, chm := spare(c, []byte("shared message"))
	prefix = prefix[:len(prefix):cap(prefix)]
	for g := 0; g < 6; g++ {
		g := g
		own := []byte(fmt.Sprintf("message of %d", g))
		c.Go(func() {
			for i := 0; i < 2; i++ {
				m := own
				if i%2 == 1 {
					m = msg
				}
				s, d, err := ks.Sign(kop, prefix, m)
				c.Assert(err == nil, "sign", "%v", err)
				ok, err := keystore.VerifySignature(kop, s, prefix, d, m)
				c.Assert(err == nil && ok, "concurrent-valid-refused", "a signature made concurrently does not verify: %v", err)
				s, d, err = sg.SignEthMsgDate(msg)
				c.Assert(err == nil, "sign", "%v", err)
				ok, err = keystore.VerifySignatureRaw(kop, s, append(append([]byte{}, msg...), refPrefixed(nil, d, nil)...))
				c.Assert(err == nil && ok, "concurrent-valid-refused", "a dated signature made concurrently does not verify: %v", err)
				dm := append(append([]byte{}, msg...), refPrefixed(nil, int64(g), nil)...)
				es, err := crypto.SignEthMsg(eks, as[0], dm)
				c.Assert(err == nil, "sign-eth", "%v", err)
				c.Assert(crypto.VerifySigEthMsgDate(as[0].Address, es, msg, int64(g)), "concurrent-valid-refused", "an Ethereum signature does not verify concurrently")
				c.Count("concurrent", 3)
			}
		})
	}
	c.Wait()
	chp("concurrent signing")
	chm("concurrent signing")
	c.Distinct("%d", c.N)
}

func c20known(c *C) {
	var sk babyjub.PrivateKey
	c.R.Read(sk[:])
	ks, kop := newKS(c, sk)
	s, err := ks.SignRaw(kop, []byte("message"))
	c.Must(err, "sign")
	if ok, err := keystore.VerifySignatureRaw(kop, s, []byte("message\x00")); ok && err == nil {
		c.Report("message-trailing-zeros", "the signature of \"message\" verifies for \"message\\x00\"")
	}
	c.Distinct("zero")
}
