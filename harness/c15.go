package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"time"

	"github.com/iden3/go-iden3-core/components/idenpuboffchain"
	"github.com/iden3/go-iden3-core/components/verifier"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/identity/holder"
	"github.com/iden3/go-iden3-core/identity/issuer"
	"github.com/iden3/go-iden3-core/keystore"
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-crypto/babyjub"
)

func init() {
	rules["C15"] = "two issuers publish generated histories of issued and revoked claims (with and without expiry); a holder asks for the validity credential of every existence credential at every state, through readers that serve the published data, older data, data of another identity or altered data; every validity credential is verified at generated times and freshness values around each boundary, at later states, and mutated and mixed; verdicts are compared with a reference verifier over the raw bytes, the chain's records and the clock; distinct = distinct (credential, mutation, time, freshness)"
	reg(Part{Prop: "C15", Name: "validity", Quick: 40, Thorough: 900, Need: []string{"validities", "accepted", "rejected", "refused_revoked", "liar_rejected", "expired_rejected", "stale_rejected", "last_state_accepted", "mutants", "in_flight", "chain_faults", "holder_chain_faults"}, Run: c15run})
}

// holderEnv is a holder identity of its own.
type holderEnv struct {
	c      *C
	ks     *keystore.KeyStore
	kop    *babyjub.PublicKeyComp
	sk     babyjub.PrivateKey
	h      *holder.Holder
	id     core.ID
	claims *refTree
	chain  *flaky
	read   func(url string, id *core.ID, st *merkletree.Hash) (*idenpuboffchain.PublicData, error)
}

func (h *holderEnv) GetPublicData(url string, id *core.ID, st *merkletree.Hash) (*idenpuboffchain.PublicData, error) {
	return h.read(url, id, st)
}

// newHolder creates a holder that reads the chain of w.
func newHolder(c *C, w *world, nExtra int) *holderEnv {
	h := &holderEnv{c: c}
	c.R.Read(h.sk[:])
	h.ks, h.kop = newKS(c, h.sk)
	x := &world{c: c, r: c.R, mem: db.NewMemoryStorage(), ks: h.ks, kop: h.kop, sk: h.sk, cfg: holder.ConfigDefault.Config, nonces: map[uint32]bool{}}
	x.create(nExtra)
	h.id, h.claims = x.id, x.claims
	h.chain = newFlaky(w.chain)
	hl, err := holder.Load(x.mem, h.ks, h.chain, nil, nil, h)
	c.Assert(err == nil, "holder-load", "holder.Load: %v", err)
	c.Assert(*hl.ID() == h.id, "holder-id", "the holder's id is %v instead of %v", hl.ID(), h.id)
	h.h = hl
	return h
}

type heldValid struct {
	w   *world
	ic  *issuedClaim
	cv  *proof.CredentialValidity
	rec *pubRec
}

func copyValid(c *C, cv *proof.CredentialValidity) *proof.CredentialValidity {
	b, err := json.Marshal(cv)
	c.Assert(err == nil, "cred-json", "a validity credential does not encode: %v", err)
	var n proof.CredentialValidity
	c.Assert(json.Unmarshal(b, &n) == nil, "cred-json", "a validity credential does not decode from its JSON: %s", b)
	return &n
}

// mutValid changes one thing of a validity credential.
func mutValid(c *C, cv *proof.CredentialValidity, others []*proof.CredentialValidity, k int) (*proof.CredentialValidity, string) {
	n := copyValid(c, cv)
	o := copyValid(c, others[c.R.Intn(len(others))])
	switch k % 22 {
	case 0, 1, 2, 3:
		var ex []*proof.CredentialExistence
		for _, x := range others {
			ex = append(ex, &x.CredentialExistence)
		}
		e, what := mutExist(c, &n.CredentialExistence, ex, c.R.Intn(24))
		if e == nil {
			return nil, ""
		}
		n.CredentialExistence = *e
		return n, "existence: " + what
	case 4:
		n.IdenStateData.IdenState = flipHash(c, n.IdenStateData.IdenState)
		return n, "state bit"
	case 5:
		n.IdenStateData = o.IdenStateData
		return n, "state data of another credential"
	case 6:
		n.IdenStateData.IdenState = o.IdenStateData.IdenState
		return n, "state of another credential"
	case 7:
		n.IdenStateData.BlockN = uint64(int64(n.IdenStateData.BlockN) + int64(c.R.Intn(20)) - 10)
		return n, "block"
	case 8:
		n.IdenStateData.BlockTs += int64(c.R.Intn(2000)) - 1000
		return n, "time"
	case 9:
		n.IdenStateData.BlockTs = math.MaxInt64 - int64(c.R.Intn(3))
		return n, "time of the far future"
	case 10:
		n.IdenStateData = n.CredentialExistence.IdenStateData
		return n, "state data of the existence part"
	case 11:
		n.ClaimsTreeRoot = flipHash(c, n.ClaimsTreeRoot)
		return n, "claims root bit"
	case 12:
		n.RootsTreeRoot = flipHash(c, n.RootsTreeRoot)
		return n, "roots root bit"
	case 13:
		n.ClaimsTreeRoot = o.ClaimsTreeRoot
		return n, "claims root of another credential"
	case 14:
		n.RootsTreeRoot = o.RootsTreeRoot
		return n, "roots root of another credential"
	case 15:
		n.MtpNotNonce = o.MtpNotNonce
		return n, "not revoked proof of another credential"
	case 16:
		n.CredentialExistence = o.CredentialExistence
		return n, "existence part of another credential"
	case 17:
		n.IdenStateData, n.MtpNotNonce, n.ClaimsTreeRoot, n.RootsTreeRoot = o.IdenStateData, o.MtpNotNonce, o.ClaimsTreeRoot, o.RootsTreeRoot
		return n, "validity part of another credential"
	case 18:
		n.MtpNotNonce = n.CredentialExistence.MtpClaim
		return n, "claim proof as not revoked proof"
	case 19, 20:
		b, what := tamperProof(c.R, n.MtpNotNonce.Bytes(), o.MtpNotNonce.Bytes(), h32(*n.IdenStateData.IdenState))
		p, err := merkletree.NewProofFromBytes(b)
		if err != nil {
			return nil, ""
		}
		n.MtpNotNonce = p
		return n, "not revoked proof: " + what
	default:
		switch c.R.Intn(6) {
		case 0:
			n.IdenStateData.IdenState = nil
		case 1:
			n.MtpNotNonce = nil
		case 2:
			n.ClaimsTreeRoot = nil
		case 3:
			n.RootsTreeRoot = nil
		case 4:
			n.CredentialExistence.Claim = nil
		default:
			n.CredentialExistence = proof.CredentialExistence{}
		}
		return n, "missing field"
	}
}

// memTree builds a repository tree with the leaves of ref.
func memTree(c *C, ref *refTree) *merkletree.MerkleTree {
	mt, err := merkletree.NewMerkleTree(db.NewMemoryStorage(), 140)
	c.Must(err, "tree")
	for _, e := range ref.list() {
		c.Must(mt.AddEntry(e.entry()), "add")
	}
	return mt
}

// publicOf is the data a publisher that has record r would serve.
func publicOf(c *C, r *pubRec) *idenpuboffchain.PublicData {
	return &idenpuboffchain.PublicData{IdenState: hsh(r.st), ClaimsTreeRoot: hsh(r.clr), RevocationsTreeRoot: hsh(r.rer), RootsTreeRoot: hsh(r.ror),
		RevocationsTree: memTree(c, r.revs), RootsTree: memTree(c, r.roots)}
}

// liar returns public data that is not that of rec, or nil.
func liar(c *C, k int, rec *pubRec, ws []*world) (*idenpuboffchain.PublicData, string) {
	pick := func() *pubRec {
		l := ws[c.R.Intn(len(ws))].list
		return l[c.R.Intn(len(l))]
	}
	pd := publicOf(c, rec)
	what := ""
	switch k % 8 {
	case 0:
		pd, what = publicOf(c, pick()), "data of another state"
	case 1:
		r := *rec
		r.revs = newRefTree(140)
		pd, what = publicOf(c, &r), "empty revocations tree"
	case 2:
		r := *rec
		r.revs = pick().revs
		pd, what = publicOf(c, &r), "revocations tree of another state"
	case 3:
		pd.ClaimsTreeRoot, what = flipHash(c, pd.ClaimsTreeRoot), "claims root bit"
	case 4:
		pd.RootsTree, what = memTree(c, pick().roots), "roots tree of another state"
	case 5:
		pd.ClaimsTreeRoot, what = hsh(pick().clr), "claims root of another state"
	case 6:
		pd.RevocationsTree, pd.RootsTree, what = pd.RootsTree, pd.RevocationsTree, "trees swapped"
	default:
		x := pick()
		pd, what = publicOf(c, x), "data of another state that says it is this one"
		pd.IdenState, pd.RevocationsTreeRoot, pd.RootsTreeRoot = hsh(rec.st), hsh(rec.rer), hsh(rec.ror)
	}
	if !inField(h32(*pd.ClaimsTreeRoot)) {
		return pd, what
	}
	st := refState(h32(*pd.ClaimsTreeRoot), h32(*pd.RevocationsTree.RootKey()), h32(*pd.RootsTree.RootKey()))
	if st == rec.st {
		return nil, ""
	}
	return pd, what
}

func c15run(c *C) {
	a := newWorld(c, worldStore(c, c.N))
	defer func() { a.mem.Close() }()
	b := a.twin(c)
	a.chain.onSend = nil
	ws := []*world{a, b}
	a.create(c.R.Intn(3))
	b.create(c.R.Intn(2))
	byID := map[core.ID]*world{a.id: a, b.id: b}
	H := newHolder(c, a, c.R.Intn(3))
	honest := func(url string, id *core.ID, st *merkletree.Hash) (*idenpuboffchain.PublicData, error) {
		return byID[*id].off.GetPublicData(url, id, st)
	}
	H.read = honest
	now := time.Unix(a.chain.ts, 0)
	ver := verifier.NewWithTimeNow(a.chain, func() time.Time { return now })
	bad := newFlaky(a.chain)
	badVer := verifier.NewWithTimeNow(bad, func() time.Time { return now })
	start := a.chain.ts
	var held []heldCred
	var valid []heldValid
	skips := 0
	judge := func(cv *proof.CredentialValidity, fresh time.Duration, what string) bool {
		want, edge := refValid(a.chain, cv, now, fresh)
		err := ver.VerifyCredentialValidity(cv, fresh)
		if edge {
			skips++
			c.Count("edges_skipped", 1)
			return want
		}
		if want {
			c.Assert(err == nil, "rejected-valid", "a valid credential (%s) was rejected at %v, freshness %v: %v\n%s", what, now, fresh, err, js(cv))
			c.Count("accepted", 1)
		} else {
			c.Assert(err != nil, "accepted-invalid", "an invalid credential was accepted: %s, at %v, freshness %v\n%s", what, now, fresh, js(cv))
			c.Count("rejected", 1)
		}
		if bad.arm(c.R, 4); !want { // reading the chain fails somewhere
			err := badVer.VerifyCredentialValidity(cv, fresh)
			c.Assert(err != nil, "accepted-unreadable", "an invalid credential was accepted when reading the chain failed (%v, call %d): %s, at %v, freshness %v\n%s", bad.err, bad.at, what, now, fresh, js(cv))
			c.Count("chain_faults", bad.hits)
		}
		c.Distinct("%s|%s|%d|%d", what, js(cv), now.UnixNano(), fresh)
		return want
	}
	collect := func(w *world) {
		for _, ic := range w.issued {
			cr, err := w.is.GenCredentialExistence(ic.cl)
			if errors.Is(err, issuer.ErrClaimNotYetInOnChainState) {
				continue
			}
			c.Assert(err == nil, "credential", "GenCredentialExistence: %v", err)
			if c.R.Intn(3) > 0 || len(held) < 4 {
				held = append(held, heldCred{w, ic, copyCred(c, cr), w.onchain.st})
			}
		}
	}
	// times around every boundary of cv
	times := func(cv *proof.CredentialValidity, exp int64, hasExp bool) (time.Time, time.Duration) {
		ts := cv.IdenStateData.BlockTs
		var t time.Time
		switch c.R.Intn(5) {
		case 0:
			t = time.Unix(ts, 0)
		case 1:
			t = time.Unix(ts+int64(c.R.Intn(100000)), int64(c.R.Intn(1e9)))
		case 2:
			t = time.Unix(start-int64(c.R.Intn(1000)), 0)
		default:
			t = time.Unix(a.chain.ts+int64(c.R.Intn(2000)), int64(c.R.Intn(2)*999999999))
		}
		if hasExp && exp > 0 && exp < 1<<40 && c.R.Intn(2) == 0 {
			t = time.Unix(exp+int64(c.R.Intn(3))-1, int64([]int{0, 1, 999999999}[c.R.Intn(3)]))
		}
		age := t.Sub(time.Unix(ts, 0))
		fresh := []time.Duration{age, age + 1, age - 1, age + time.Second, age - time.Second, 0, time.Hour, 24 * 365 * 50 * time.Hour, -time.Second, math.MaxInt64, time.Duration(c.R.Int63n(int64(2 * time.Hour)))}[c.R.Intn(11)]
		return t, fresh
	}
	hops := 2
	if c.Tier == "thorough" {
		hops = 2 + c.R.Intn(3)
	}
	for h := 0; h < hops; h++ {
		for _, w := range ws {
			for i := c.R.Intn(2); i >= 0; i-- {
				w.issue()
			}
			// claims with an expiry around the times used
			m := randMeta(c.R, c.R.Intn(12)+6)
			m.expFlag = true
			switch c.R.Intn(4) {
			case 0:
				m.exp = []int64{0, -1, math.MinInt64, math.MaxInt64, math.MaxInt64 - 62135596800, 1 << 62, -62135596801}[c.R.Intn(7)]
			case 1:
				m.exp = start + int64(c.R.Intn(400))
			default:
				m.exp = start + int64(c.R.Intn(100000))
			}
			w.issueClaim(genericClaim(c.R, m, [8]byte{9, byte(c.R.Intn(256)), 8}))
			if h > 0 || c.R.Intn(2) == 0 {
				w.revoke(w.issued[1+c.R.Intn(len(w.issued)-1)])
			}
			if w.r.Intn(3) == 0 {
				w.revoke(w.issued[0]) // the operational key's claim
			}
			w.settle()
			if c.R.Intn(2) == 0 { // not published
				w.revoke(w.issued[c.R.Intn(len(w.issued))])
			}
		}
		for _, w := range ws {
			if c.R.Intn(2) == 0 { // published, but not on chain yet
				w.issue()
				if ic := w.issued[c.R.Intn(len(w.issued))]; !ic.revoked {
					w.revoke(ic)
				}
				w.publish()
				c.Count("in_flight", 1)
			}
			collect(w)
		}
		for _, x := range held {
			rec := x.w.list[len(x.w.list)-1]
			for _, r := range x.w.list {
				if r.st == x.w.onchain.st {
					rec = r
				}
			}
			revoked := rec.revs.m[leafRev(x.ic.nonce).hi] != nil
			cv, err := H.h.HolderGetCredentialValidity(copyCred(c, x.cr))
			if revoked {
				c.Assert(errors.Is(err, holder.ErrRevokedClaim), "revoked", "a validity credential of a revoked claim: %v", err)
				c.Count("refused_revoked", 1)
			} else {
				c.Assert(err == nil, "validity", "HolderGetCredentialValidity: %v", err)
				c.Assert(js(&cv.CredentialExistence) == js(x.cr) && h32(*cv.IdenStateData.IdenState) == x.w.onchain.st && cv.IdenStateData.BlockN == x.w.onchain.blockN && cv.IdenStateData.BlockTs == x.w.onchain.ts,
					"validity-content", "the validity credential is not the one of the credential under the state on chain")
				valid = append(valid, heldValid{x.w, x.ic, copyValid(c, cv), rec})
				c.Count("validities", 1)
			}
			// dishonest publisher
			if pd, what := liar(c, c.R.Intn(8), rec, ws); pd != nil {
				H.read = func(string, *core.ID, *merkletree.Hash) (*idenpuboffchain.PublicData, error) { return pd, nil }
				cv, err := H.h.HolderGetCredentialValidity(copyCred(c, x.cr))
				c.Assert(err != nil, "liar", "the holder accepted published data that does not match the state on chain (%s): %s", what, js(cv))
				c.Count("liar_rejected", 1)
			}
			H.read = func(string, *core.ID, *merkletree.Hash) (*idenpuboffchain.PublicData, error) {
				return nil, fmt.Errorf("no server")
			}
			_, err = H.h.HolderGetCredentialValidity(copyCred(c, x.cr))
			c.Assert(err != nil, "no-data", "a validity credential without published data")
			H.read = honest
			H.chain.arm(c.R, 3)
			cv, err = H.h.HolderGetCredentialValidity(copyCred(c, x.cr))
			H.chain.at = -1
			if err == nil {
				c.Assert(!revoked && H.chain.hits == 0, "holder-unreadable", "a validity credential though reading the chain failed (revoked: %v): %s", revoked, js(cv))
			}
			c.Count("holder_chain_faults", H.chain.hits)
		}
		for _, v := range valid {
			d := v.ic.e.d
			hasExp := d[0][8]&8 != 0
			exp := leI64(d[4][4:12])
			for i := 0; i < 6; i++ {
				t, fresh := times(v.cv, exp, hasExp)
				now = t
				ok := judge(v.cv, fresh, "as obtained")
				last := v.rec.st == v.w.onchain.st
				switch {
				case ok && last:
					c.Count("last_state_accepted", 1)
				case !ok && hasExp && exp < now.Unix():
					c.Count("expired_rejected", 1)
				case !ok && !last:
					c.Count("stale_rejected", 1)
				}
			}
			now = time.Unix(a.chain.ts+10, 0)
			// a genuine credential is valid at the state it is of unless expired
			ok, _ := refValid(a.chain, v.cv, now, 0)
			c.Assert(ok == (v.rec.st == v.w.onchain.st && !(hasExp && exp < now.Unix())), "ref", "reference")
		}
	}
	var all []*proof.CredentialValidity
	for _, v := range valid {
		all = append(all, v.cv)
	}
	if len(all) == 0 {
		return
	}
	n := 400
	if c.Tier == "thorough" {
		n = 1500
	}
	for k := 0; k < n; k++ {
		x := valid[c.R.Intn(len(valid))]
		m, what := mutValid(c, x.cv, all, k)
		if m == nil {
			continue
		}
		now = time.Unix(a.chain.ts+int64(c.R.Intn(100)), 0)
		fresh := []time.Duration{0, time.Minute, 24 * 365 * 100 * time.Hour}[c.R.Intn(3)]
		judge(m, fresh, what)
		c.Count("mutants", 1)
	}
	c.Sample("%d existence and %d validity credentials over %d+%d states; %d clock edges skipped", len(held), len(valid), len(a.list)-1, len(b.list)-1, skips)
}

func leI64(b []byte) int64 {
	var x uint64
	for i := 7; i >= 0; i-- {
		x = x<<8 | uint64(b[i])
	}
	return int64(x)
}
