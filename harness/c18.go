package main

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"math"
	"math/big"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/iden3/go-iden3-core/keystore"
	"github.com/iden3/go-iden3-crypto/babyjub"
	"github.com/iden3/go-iden3-crypto/poseidon"
)

func init() {
	rules["C18"] = "random sequences of new, import, unlock, export, sign, list, close and reopen over memory and file storages with passwords that are near each other, altered and exchanged stored records, and encrypted data of every length; non-trivial: a wrong, altered or foreign password, key or record is offered, or a key is used after reopening or closing"
	assumptions["C18"] = []string{"scrypt and secretbox are collision resistant, except that scrypt ignores zero bytes at the end of a password (a known finding)"}
	reg(Part{Prop: "C18", Name: "model", Quick: 64, Thorough: 2500, Run: c18model})
	reg(Part{Prop: "C18", Name: "records", Quick: 48, Thorough: 1500, Run: c18records})
	reg(Part{Prop: "C18", Name: "data", Quick: 24, Thorough: 400, Run: c18data})
	reg(Part{Prop: "C18", Name: "known", Quick: 1, Thorough: 1, Run: c18known})
}

// ksStore is a storage that can be opened again.
type ksStore struct {
	mem  *keystore.MemStorage
	path string
}

func newKsStore(c *C) *ksStore {
	if c.N%2 == 0 {
		m := keystore.MemStorage([]byte{})
		return &ksStore{mem: &m}
	}
	return &ksStore{path: filepath.Join(c.Dir(), fmt.Sprintf("ks%d", c.R.Int63()))}
}

func (s *ksStore) storage() keystore.Storage {
	if s.mem != nil {
		return s.mem
	}
	return keystore.NewFileStorage(s.path)
}

// bytes of the stored form
func (s *ksStore) bytes(c *C) []byte {
	if s.mem != nil {
		return append([]byte{}, *s.mem...)
	}
	return readFile(c, s.path)
}

func (s *ksStore) put(c *C, b []byte) {
	if s.mem != nil {
		*s.mem = append([]byte{}, b...)
		return
	}
	writeFile(c, s.path, b)
}

func randPass(c *C, old [][]byte) []byte {
	if len(old) > 0 && c.R.Intn(3) > 0 {
		p := append([]byte{}, old[c.R.Intn(len(old))]...)
		switch c.R.Intn(6) {
		case 0: // the same
		case 1:
			p = append(p, 'x')
		case 2:
			if len(p) > 0 {
				p = p[:len(p)-1]
			}
		case 3:
			if len(p) > 0 {
				p[c.R.Intn(len(p))] ^= 1 << uint(c.R.Intn(8))
			}
		case 4:
			p = append([]byte(" "), p...)
		case 5:
			p = bytes.ToUpper(p)
		}
		for len(p) > 0 && p[len(p)-1] == 0 { // see known
			p = p[:len(p)-1]
		}
		return p
	}
	n := []int{0, 1, 8, 24, 63, 64, 65, 200}[c.R.Intn(8)]
	p := make([]byte, n)
	for i := range p {
		p[i] = byte(32 + c.R.Intn(95))
		if c.R.Intn(8) == 0 {
			p[i] = byte(1 + c.R.Intn(255))
		}
	}
	return p
}

func randSk(c *C) (sk babyjub.PrivateKey) {
	switch c.R.Intn(12) {
	case 0:
	case 1:
		for i := range sk {
			sk[i] = 0xff
		}
	case 2:
		sk[31-31*c.R.Intn(2)] = 1
	default:
		c.R.Read(sk[:])
	}
	return
}

// leaks says if the stored form contains secret in some plain form.
func leaks(stored, secret []byte) string {
	low := strings.ToLower(string(stored))
	if len(secret) >= 6 {
		if bytes.Contains(stored, secret) || strings.Contains(low, strings.ToLower(string(secret))) {
			return "plain"
		}
		if strings.Contains(low, hex.EncodeToString(secret)) {
			return "hex"
		}
		for _, e := range []*base64.Encoding{base64.RawStdEncoding, base64.RawURLEncoding} {
			if x := e.EncodeToString(secret[:len(secret)/3*3]); len(x) >= 8 && strings.Contains(string(stored), x) {
				return "base64"
			}
		}
	}
	if len(secret) == 32 {
		for _, v := range []string{new(big.Int).SetBytes(secret).String(), leBig(secret).String()} {
			if len(v) > 20 && strings.Contains(string(stored), v) {
				return "decimal"
			}
		}
	}
	return ""
}

type ksKey struct {
	sk       babyjub.PrivateKey
	pass     []byte
	pk       babyjub.PublicKeyComp
	unlocked bool
}

func pkOf(sk babyjub.PrivateKey) babyjub.PublicKeyComp { return sk.Public().Compress() }

func sameKeys(c *C, ks *keystore.KeyStore, keys []*ksKey, sig string) {
	var got, want []string
	for _, k := range ks.Keys() {
		got = append(got, k.String())
	}
	for _, k := range keys {
		want = append(want, k.pk.String())
	}
	sort.Strings(got)
	sort.Strings(want)
	c.Assert(fmt.Sprint(got) == fmt.Sprint(want), sig, "the keys are %v instead of %v", got, want)
}

// useKey checks what the store does with the key of pk; want is nil if it must refuse.
func useKey(c *C, ks *keystore.KeyStore, pk babyjub.PublicKeyComp, want *babyjub.PrivateKey, how int, sig string) {
	cp := pk
	switch how % 4 {
	case 0:
		sk, err := ks.ExportKey(&cp)
		if want == nil {
			c.Assert(err != nil && sk == nil, sig, "a key that is not unlocked is exported")
			return
		}
		c.Assert(err == nil && *sk == *want, sig, "the exported key is not the stored one (%v)", err)
		for i := range sk { // what the caller does with it must not matter
			sk[i] ^= 0x5a
		}
	default:
		msg := randElem(c.R)
		var b []byte
		var got *babyjub.SignatureComp
		var err error
		date := int64(0)
		prefix := keystore.PrefixType(fmt.Sprintf("p%d", c.R.Intn(9)))
		m := leBigE(msg)
		switch how % 4 {
		case 1:
			if m.Cmp(fR) >= 0 {
				m.Mod(m, fR)
			}
			got, err = ks.SignElem(&cp, m)
		case 2:
			b = make([]byte, c.R.Intn(100))
			c.R.Read(b)
			got, err = ks.SignRaw(&cp, b)
			m = poseidon.HashBytes(b)
		case 3:
			b = make([]byte, c.R.Intn(100))
			c.R.Read(b)
			t0 := time.Now().Unix()
			got, date, err = ks.Sign(&cp, prefix, b)
			if err == nil {
				c.Assert(date >= t0 && date <= time.Now().Unix(), sig, "the date of the signature is %d at %d", date, t0)
			}
			m = poseidon.HashBytes(refPrefixed(prefix, date, b))
		}
		if want == nil {
			c.Assert(err != nil && got == nil, sig, "a key that is not unlocked signs")
			return
		}
		c.Assert(err == nil, sig, "signing with an unlocked key: %v", err)
		ref := want.SignPoseidon(m).Compress()
		c.Assert(*got == ref, sig, "the signature is not one of the stored key over the message")
		c.Count("signatures", 1)
	}
}

func refPrefixed(prefix []byte, date int64, msg []byte) []byte {
	var o []byte
	o = append(o, prefix...)
	for i := 56; i >= 0; i -= 8 {
		o = append(o, byte(uint64(date)>>uint(i)))
	}
	return append(o, msg...)
}

func c18model(c *C) {
	st := newKsStore(c)
	storage := st.storage()
	ks, err := keystore.NewKeyStore(storage, cheapKS)
	c.Assert(err == nil, "open", "opening an empty store: %v", err)
	var keys []*ksKey
	var passes [][]byte
	seen := map[string]bool{} // salts, nonces and ciphertexts
	find := func(pk babyjub.PublicKeyComp) *ksKey {
		for _, k := range keys {
			if k.pk == pk {
				return k
			}
		}
		return nil
	}
	prev := map[string]string{}
	stored := func(changed *babyjub.PublicKeyComp) {
		b := st.bytes(c)
		for _, k := range keys {
			if w := leaks(b, k.sk[:]); w != "" && k.sk != (babyjub.PrivateKey{}) {
				c.Fail("key-in-clear", "the stored form contains the key (%s)", w)
			}
			if w := leaks(b, k.pass); w != "" {
				c.Fail("password-in-clear", "the stored form contains the password %q (%s)", k.pass, w)
			}
		}
		var recs map[string]json.RawMessage
		c.Assert(json.Unmarshal(b, &recs) == nil, "stored-form", "the stored form is not a JSON object: %s", b)
		var all keystore.KeysStored
		c.Assert(json.Unmarshal(b, &all) == nil && len(all) == len(keys), "stored-form", "%d records are stored instead of %d", len(all), len(keys))
		for pk, r := range recs {
			if prev[pk] == string(r) {
				continue
			}
			c.Assert(changed != nil && strings.TrimPrefix(pk, "0x") == strings.TrimPrefix(changed.String(), "0x"), "other-record", "the record of another key changed")
			prev[pk] = string(r)
		}
		for pk, r := range all {
			if changed == nil || pk != *changed {
				continue
			}
			for _, x := range [][]byte{r.Salt, r.Nonce, r.EncryptedData} {
				c.Assert(len(x) >= 12 && !seen[string(x)], "repeated-random", "a salt, nonce or ciphertext appears twice: %x", x)
				seen[string(x)] = true
			}
			c.Assert(r.ScryptN == cheapKS.ScryptN && r.ScryptP == cheapKS.ScryptP, "params", "other parameters are stored")
		}
	}
	closed := false
	for i := 0; i < 26; i++ {
		op := c.R.Intn(14)
		if len(keys) == 0 {
			op = 0
		}
		var k *ksKey
		if len(keys) > 0 {
			k = keys[c.R.Intn(len(keys))]
		}
		if closed {
			op = 12 // nothing else is specified
		}
		switch {
		case op < 3: // new or import
			pass := randPass(c, passes)
			passes = append(passes, pass)
			given := append([]byte{}, pass...)
			var pk *babyjub.PublicKeyComp
			var err error
			var nk *ksKey
			switch {
			case c.R.Intn(3) == 0:
				pk, err = ks.NewKey(given)
				c.Assert(err == nil && find(*pk) == nil, "new", "creating a key: %v", err)
				nk = &ksKey{pk: *pk, pass: pass}
				// the secret is known once it can be exported
				c.Assert(ks.UnlockKey(pk, pass) == nil, "new-unlock", "unlocking a new key")
				sk, err := ks.ExportKey(pk)
				c.Assert(err == nil && pkOf(*sk) == *pk, "new-export", "the exported new key is not the key of %v: %v", pk, err)
				nk.sk, nk.unlocked = *sk, true
				keys = append(keys, nk)
				c.Logf("new %v %q", hex8(pk[:]), pass)
			case k != nil && c.R.Intn(4) == 0: // again, with another password
				pk, err = ks.ImportKey(k.sk, given)
				c.Assert(err == nil && *pk == k.pk, "import", "importing a key again: %v", err)
				k.pass = pass
				c.Count("reimported", 1)
				c.Logf("reimport %v %q", hex8(pk[:]), pass)
			default:
				sk := randSk(c)
				pk, err = ks.ImportKey(sk, given)
				c.Assert(err == nil && *pk == pkOf(sk), "import", "importing a key: %v", err)
				if nk = find(*pk); nk == nil {
					nk = &ksKey{sk: sk, pk: *pk}
					keys = append(keys, nk)
				}
				nk.pass = pass
				c.Logf("import %v %q", hex8(pk[:]), pass)
			}
			for i := range given { // callers wipe passwords
				given[i] = 0
			}
			stored(pk)
			c.Count("written", 1)
		case op < 6: // unlock with the password
			given := append([]byte{}, k.pass...)
			err := ks.UnlockKey(&k.pk, given)
			for i := range given {
				given[i] = 0
			}
			c.Assert(err == nil, "right-password", "unlocking with the right password %q: %v", k.pass, err)
			k.unlocked = true
			c.Logf("unlock %v", hex8(k.pk[:]))
			c.Count("unlocked", 1)
		case op < 8: // or another one
			p := randPass(c, passes)
			if bytes.Equal(p, k.pass) {
				continue
			}
			err := ks.UnlockKey(&k.pk, p)
			c.Assert(err != nil, "wrong-password", "the password %q unlocks the key stored with %q", p, k.pass)
			c.Logf("wrong unlock %v", hex8(k.pk[:]))
			c.Count("wrong_passwords", 1)
		case op == 8: // an unknown key
			pk := k.pk
			pk[c.R.Intn(32)] ^= 1 << uint(c.R.Intn(8))
			if find(pk) != nil {
				continue
			}
			err := ks.UnlockKey(&pk, k.pass)
			c.Assert(errors.Is(err, keystore.ErrKeyNotFound), "unknown-key", "unlocking an unknown key: %v", err)
			useKey(c, ks, pk, nil, c.R.Intn(4), "unknown-key-used")
			c.Count("unknown_keys", 1)
		case op < 11:
			var w *babyjub.PrivateKey
			if k.unlocked {
				w = &k.sk
			}
			useKey(c, ks, k.pk, w, c.R.Intn(4), "use")
			c.Count("uses", 1)
		case op == 11:
			sameKeys(c, ks, keys, "keys")
		default: // close or crash, and open again
			if !closed {
				c.Assert(ks.Close() == nil, "close", "closing the store")
				closed = true
				c.Logf("close")
				// nothing can be done with a wrong key now
				for _, k := range keys {
					for how := 0; how < 4; how++ {
						p, _ := c.Catch(func() {
							sk, err := ks.ExportKey(&k.pk)
							c.Assert(err != nil || *sk == k.sk, "closed-export", "a closed store exports another key than the stored one: %x", sk)
							m := big.NewInt(c.R.Int63())
							s, err := ks.SignElem(&k.pk, m)
							c.Assert(err != nil || *s == k.sk.SignPoseidon(m).Compress(), "closed-sign", "a closed store signs with another key than the stored one")
						})
						c.Assert(p == nil, "closed-panic", "using a closed store panics: %v", p)
						if k.unlocked {
							c.Count("used_after_close", 1)
						}
						if how == 0 && !k.unlocked {
							break
						}
					}
				}
				if c.R.Intn(3) == 0 {
					_ = ks.Close()
				}
				if c.R.Intn(3) == 0 {
					continue
				}
			}
			ks, err = keystore.NewKeyStore(st.storage(), cheapKS)
			c.Assert(err == nil, "reopen", "opening the store again: %v", err)
			closed = false
			c.Logf("open")
			c.Count("reopened", 1)
			sameKeys(c, ks, keys, "keys-after-reopen")
			for _, k := range keys {
				k.unlocked = false
			}
			if len(keys) > 0 {
				useKey(c, ks, keys[0].pk, nil, c.R.Intn(4), "locked-after-reopen")
			}
			stored(nil)
		}
	}
	if closed {
		ks, err = keystore.NewKeyStore(st.storage(), cheapKS)
		c.Assert(err == nil, "reopen", "opening the store again: %v", err)
	}
	sameKeys(c, ks, keys, "keys")
	for i, k := range keys {
		c.Assert(ks.UnlockKey(&k.pk, k.pass) == nil, "right-password", "unlocking with the right password %q at the end", k.pass)
		useKey(c, ks, k.pk, &k.sk, c.R.Intn(4), "use")
		if i > 3 {
			break
		}
	}
	c.Must(ks.Close(), "close")
	c.Distinct("%s", strings.Join(c.logb, ";"))
	if c.N < 3 {
		c.Sample("%s", strings.Join(c.logb, "; "))
	}
}

// c18records opens stores whose records were altered.
func c18records(c *C) {
	st := newKsStore(c)
	ks, err := keystore.NewKeyStore(st.storage(), cheapKS)
	c.Must(err, "open")
	var keys []*ksKey
	same := c.R.Intn(2) == 0
	for i := 0; i < 3; i++ {
		k := &ksKey{sk: randSk(c), pass: []byte("password")}
		c.R.Read(k.sk[8:16])
		if !same {
			k.pass = []byte(fmt.Sprintf("password %d", i))
		}
		pk, err := ks.ImportKey(k.sk, k.pass)
		c.Must(err, "import")
		k.pk = *pk
		keys = append(keys, k)
	}
	c.Must(ks.Close(), "close")
	orig := st.bytes(c)
	for n := 0; n < 10; n++ {
		var all map[string]map[string]interface{}
		c.Must(json.Unmarshal(orig, &all), "json")
		name := func(i int) string {
			for x := range all {
				var pk babyjub.PublicKeyComp
				if pk.UnmarshalText([]byte(x)) == nil && pk == keys[i].pk {
					return x
				}
			}
			c.Broken("no record of key %d", i)
			return ""
		}
		var raw []byte
		a, b := c.R.Intn(3), c.R.Intn(2)
		if b >= a {
			b++
		}
		ra := all[name(a)]
		touched := map[int]bool{a: true}
		flip := func(s interface{}) interface{} {
			x := []byte(fmt.Sprint(s))
			i := c.R.Intn(len(x))
			if len(x) > 2 && string(x[:2]) == "0x" {
				i = 2 + c.R.Intn(len(x)-2)
			}
			x[i] = "0123456789abcdef"[(strings.IndexByte("0123456789abcdef", x[i])+1+c.R.Intn(15))%16]
			return string(x)
		}
		what := ""
		switch k := c.R.Intn(16); k {
		case 0, 1, 2, 3:
			what = []string{"Salt", "Nonce", "EncryptedData", "EncryptedData"}[k]
			ra[what] = flip(ra[what])
		case 4: // the whole record under another key
			all[name(a)], all[name(b)] = all[name(b)], all[name(a)]
			touched[b] = true
			what = "exchanged"
		case 5:
			all[name(a)] = all[name(b)]
			what = "copied"
		case 6: // a field of another record
			what = []string{"Salt", "Nonce", "EncryptedData"}[c.R.Intn(3)]
			ra[what] = all[name(b)][what]
			what += " of another"
		case 7:
			what = []string{"ScryptN", "ScryptP"}[c.R.Intn(2)]
			ra[what] = []int64{0, 1, -1, 3, 4, 1 << 30, 1 << 40, 1 << 62, math.MaxInt64, math.MinInt64}[c.R.Intn(10)]
			if what == "ScryptP" && ra[what].(int64) == 1 {
				ra[what] = int64(2)
			}
			what += fmt.Sprint(ra[what])
		case 8:
			what = []string{"Salt", "Nonce", "EncryptedData"}[c.R.Intn(3)]
			s := fmt.Sprint(ra[what])
			ra[what] = s[:2*c.R.Intn(len(s)/2)]
			what += " truncated"
		case 9:
			what = []string{"Salt", "Nonce", "EncryptedData", "ScryptN", "ScryptP"}[c.R.Intn(5)]
			if c.R.Intn(2) == 0 {
				delete(ra, what)
			} else {
				ra[what] = nil
			}
			what += " missing"
		case 10:
			what = []string{"Salt", "Nonce", "EncryptedData"}[c.R.Intn(3)]
			ra[what] = fmt.Sprint(ra[what]) + "00"
			what += " extended"
		case 11: // under another public key
			old := name(a)
			r := all[old]
			delete(all, old)
			pk := keys[a].pk
			pk[c.R.Intn(32)] ^= 1 << uint(c.R.Intn(8))
			all[pk.String()] = r
			what = "renamed"
		case 12:
			all[name(a)] = nil
			what = "null record"
		case 13:
			what = []string{"Salt", "ScryptN"}[c.R.Intn(2)]
			ra[what] = []interface{}{true, 1.5, "x", []int{1}, map[string]int{}, strings.Repeat("f", 10)}[c.R.Intn(6)]
			what += fmt.Sprint(" ", ra[what])
		case 14:
			raw = append([]byte{}, orig[:c.R.Intn(len(orig))]...)
			touched = map[int]bool{0: true, 1: true, 2: true}
			what = "truncated"
		case 15:
			raw = [][]byte{[]byte("null"), []byte("{}"), []byte("[]"), []byte("1"), []byte(`""`), {0}, []byte(" "), []byte(`{"":{}}`), []byte(`{"00":null}`)}[c.R.Intn(9)]
			touched = map[int]bool{0: true, 1: true, 2: true}
			what = "other content"
		}
		if raw == nil {
			raw, err = json.Marshal(all)
			c.Must(err, "json")
		}
		st.put(c, raw)
		c.Logf("%s", what)
		c.Count("alterations", 1)
		ks, err := keystore.NewKeyStore(st.storage(), cheapKS)
		if err != nil {
			c.Count("refused_open", 1)
			// the storage must not stay locked
			st.put(c, orig)
			ks, err := keystore.NewKeyStore(st.storage(), cheapKS)
			c.Assert(err == nil, "locked-by-failure", "the store can not be opened after it was found to be altered and restored: %v", err)
			c.Must(ks.Close(), "close")
			continue
		}
		for i, k := range keys {
			p, st := c.Catch(func() {
				t0 := time.Now()
				err := ks.UnlockKey(&k.pk, k.pass)
				c.Assert(time.Since(t0) < 2*time.Minute, "slow-unlock", "unlocking takes %v", time.Since(t0))
				if err == nil {
					sk, err := ks.ExportKey(&k.pk)
					c.Assert(err == nil && *sk == k.sk, "altered-key", "an altered record (%s) gives another key: %v", what, err)
					useKey(c, ks, k.pk, &k.sk, 1, "altered-key")
					if touched[i] {
						c.Count("alteration_ineffective", 1)
					}
				} else {
					c.Assert(touched[i], "unaffected-record", "the record of another key can not be used after altering one (%s): %v", what, err)
					useKey(c, ks, k.pk, nil, c.R.Intn(4), "altered-used")
					c.Count("refused_unlock", 1)
				}
				for _, o := range keys {
					if string(o.pass) != string(k.pass) {
						c.Assert(ks.UnlockKey(&k.pk, o.pass) != nil, "altered-password", "the password of another key unlocks an altered record (%s)", what)
					}
				}
			})
			c.Assert(p == nil, "altered-panic", "an altered record (%s) panics: %v\n%s", what, p, st)
		}
		// and it can still be used
		sk := randSk(c)
		pk, err := ks.ImportKey(sk, []byte("new"))
		c.Assert(err == nil && *pk == pkOf(sk), "altered-import", "importing a key in a store with altered records (%s): %v", what, err)
		c.Assert(ks.UnlockKey(pk, []byte("new")) == nil, "altered-import", "unlocking a key imported in a store with altered records (%s)", what)
		c.Must(ks.Close(), "close")
	}
	c.Distinct("%s", strings.Join(c.logb, ";"))
	if c.N < 4 {
		c.Sample("%s", strings.Join(c.logb, "; "))
	}
}

// c18data encrypts data of every length.
func c18data(c *C) {
	for i := 0; i < 40; i++ {
		n := c.R.Intn(300)
		if i < 10 {
			n = c.N*10 + i
		}
		data := make([]byte, n)
		c.R.Read(data)
		pass := randPass(c, nil)
		d0, p0 := append([]byte{}, data...), append([]byte{}, pass...)
		e, err := keystore.EncryptData(data, pass, 2, 1)
		c.Assert(err == nil, "encrypt", "encrypting: %v", err)
		c.Assert(bytes.Equal(d0, data) && bytes.Equal(p0, pass), "encrypt-args", "encrypting changes its arguments")
		e2, err := keystore.EncryptData(data, pass, 2, 1)
		c.Assert(err == nil && !bytes.Equal(e.Salt, e2.Salt) && !bytes.Equal(e.Nonce, e2.Nonce) && (n == 0 || !bytes.Equal(e.EncryptedData, e2.EncryptedData)), "encrypt-random", "encrypting twice gives the same: %v", err)
		if n >= 8 {
			c.Assert(!bytes.Contains(e.EncryptedData, data[:8]), "encrypt-clear", "the encrypted data contains the data")
		}
		d, err := keystore.DecryptData(e, pass)
		c.Assert(err == nil && bytes.Equal(d, data), "decrypt", "decrypting %d bytes: %v", n, err)
		o := randPass(c, [][]byte{pass})
		if !bytes.Equal(o, pass) {
			d, err = keystore.DecryptData(e, o)
			c.Assert(err != nil && len(d) == 0, "decrypt-password", "decrypting with %q what was encrypted with %q", o, pass)
			c.Count("wrong_passwords", 1)
		}
		b, err := json.Marshal(e)
		c.Must(err, "json")
		var e3 keystore.EncryptedData
		c.Assert(json.Unmarshal(b, &e3) == nil, "encrypt-json", "the encrypted data can not be decoded")
		d, err = keystore.DecryptData(&e3, pass)
		c.Assert(err == nil && bytes.Equal(d, data), "decrypt-json", "decrypting %d bytes after encoding: %v", n, err)
		for k := 0; k < 4; k++ {
			f := &e3.EncryptedData
			switch k {
			case 1:
				f = &e3.Salt
			case 2:
				f = &e3.Nonce
			}
			s := append([]byte{}, *f...)
			if k == 3 {
				*f = (*f)[:c.R.Intn(len(*f))]
			} else {
				(*f)[c.R.Intn(len(*f))] ^= 1 << uint(c.R.Intn(8))
			}
			d, err = keystore.DecryptData(&e3, pass)
			c.Assert(err != nil && len(d) == 0, "decrypt-altered", "altered data (%d) is decrypted", k)
			*f = s
			c.Count("alterations", 1)
		}
		c.Distinct("%d %x", n, pass)
	}
}

// c18known demonstrates the known finding.
func c18known(c *C) {
	m := keystore.MemStorage([]byte{})
	ks, err := keystore.NewKeyStore(&m, cheapKS)
	c.Must(err, "open")
	pk, err := ks.NewKey([]byte("password"))
	c.Must(err, "new")
	if ks.UnlockKey(pk, []byte("password\x00")) == nil {
		c.Report("password-trailing-zeros", "a key stored with \"password\" is unlocked with \"password\\x00\"")
	}
	c.Distinct("zero")
}

func hex8(b []byte) string { return hex.EncodeToString(b[:4]) }

func readFile(c *C, p string) []byte {
	b, err := ioutil.ReadFile(p)
	c.Must(err, "read")
	return b
}

func writeFile(c *C, p string, b []byte) { c.Must(ioutil.WriteFile(p, b, 0600), "write") }
