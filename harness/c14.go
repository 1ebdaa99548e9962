package main

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"time"

	"github.com/iden3/go-iden3-core/components/verifier"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/identity/issuer"
	"github.com/iden3/go-iden3-core/merkletree"
)

func init() {
	rules["C14"] = "two issuers on one chain model publish generated histories; at every state a credential is asked for every claim issued, not yet published, never issued or issued with other content; every credential (all states, JSON round-tripped) is verified at every later state, and mutated field by field, bit by bit and by parts of other credentials; the verdict is compared with a reference verifier computed from the raw bytes and the chain's records; distinct = distinct (credential, mutation)"
	reg(Part{Prop: "C14", Name: "credentials", Quick: 40, Thorough: 1200, Need: []string{"credentials", "accepted", "rejected", "mutants", "refused_notyet", "refused_unissued", "old_still_valid", "chain_faults", "read_faults"}, Run: c14run})
}

// refExist is the reference verdict on an existence credential.
func refExist(m *chainModel, cr *proof.CredentialExistence) bool {
	if cr.Id == nil || cr.IdenStateData.IdenState == nil || cr.MtpClaim == nil || cr.Claim == nil || cr.RevocationsTreeRoot == nil || cr.RootsTreeRoot == nil {
		return false
	}
	p := parseProof(cr.MtpClaim.Bytes())
	if p == nil || !p.exist {
		return false
	}
	d := rentOf(&cr.Claim.Data)
	for _, x := range d {
		if !inField(x) {
			return false
		}
	}
	e := mkRent(d)
	root, ok := p.root(e.hi, e.hv)
	rer, ror := h32(*cr.RevocationsTreeRoot), h32(*cr.RootsTreeRoot)
	if !ok || !inField(rer) || !inField(ror) {
		return false
	}
	return refState(root, rer, ror) == h32(*cr.IdenStateData.IdenState) && onChainExactly(m, *cr.Id, &cr.IdenStateData)
}

// onChainExactly says whether the chain recorded exactly d for id.
func onChainExactly(m *chainModel, id core.ID, d *proof.IdenStateData) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	for _, s := range m.hist[id] {
		if s.blockN == d.BlockN {
			return s.st == h32(*d.IdenState) && s.ts == d.BlockTs
		}
	}
	return false
}

func copyCred(c *C, cr *proof.CredentialExistence) *proof.CredentialExistence {
	b, err := json.Marshal(cr)
	c.Assert(err == nil, "cred-json", "a credential does not encode: %v", err)
	var n proof.CredentialExistence
	c.Assert(json.Unmarshal(b, &n) == nil, "cred-json", "a credential does not decode from its JSON: %s", b)
	return &n
}

func flipHash(c *C, h *merkletree.Hash) *merkletree.Hash {
	x := *h
	x[c.R.Intn(32)] ^= 1 << uint(c.R.Intn(8))
	return &x
}

func mutElem(c *C, x *merkletree.Entry) {
	d := x.Data
	i := c.R.Intn(8)
	d[i][c.R.Intn(32)] ^= 1 << uint(c.R.Intn(8))
	*x = merkletree.Entry{Data: d}
}

// mutExist changes one thing of a credential; others are other credentials.
func mutExist(c *C, cr *proof.CredentialExistence, others []*proof.CredentialExistence, k int) (*proof.CredentialExistence, string) {
	n := copyCred(c, cr)
	o := copyCred(c, others[c.R.Intn(len(others))])
	switch k % 24 {
	case 0:
		n.Id[c.R.Intn(31)] ^= 1 << uint(c.R.Intn(8))
		return n, "id bit"
	case 1:
		n.Id = o.Id
		return n, "id of another credential"
	case 2:
		n.IdenStateData.IdenState = flipHash(c, n.IdenStateData.IdenState)
		return n, "state bit"
	case 3:
		n.IdenStateData.IdenState = o.IdenStateData.IdenState
		return n, "state of another credential"
	case 4:
		n.IdenStateData = o.IdenStateData
		return n, "state data of another credential"
	case 5:
		n.IdenStateData.BlockN += uint64(1 + c.R.Intn(20))
		return n, "later block"
	case 6:
		n.IdenStateData.BlockN -= uint64(1 + c.R.Intn(20))
		return n, "earlier block"
	case 7:
		n.IdenStateData.BlockTs += int64(c.R.Intn(40)) - 20
		return n, "time"
	case 8:
		n.IdenStateData.BlockN = o.IdenStateData.BlockN
		return n, "block of another credential"
	case 9:
		n.IdenStateData.BlockTs = o.IdenStateData.BlockTs
		return n, "time of another credential"
	case 10:
		mutElem(c, n.Claim)
		return n, "claim bit"
	case 11:
		n.Claim = o.Claim
		return n, "claim of another credential"
	case 12:
		n.RevocationsTreeRoot = flipHash(c, n.RevocationsTreeRoot)
		return n, "revocations root bit"
	case 13:
		n.RootsTreeRoot = flipHash(c, n.RootsTreeRoot)
		return n, "roots root bit"
	case 14:
		n.RevocationsTreeRoot = o.RevocationsTreeRoot
		return n, "revocations root of another credential"
	case 15:
		n.RootsTreeRoot = o.RootsTreeRoot
		return n, "roots root of another credential"
	case 16:
		n.RevocationsTreeRoot, n.RootsTreeRoot = n.RootsTreeRoot, n.RevocationsTreeRoot
		return n, "roots swapped"
	case 17:
		n.MtpClaim = o.MtpClaim
		return n, "proof of another credential"
	case 18:
		n.MtpClaim, n.Claim = o.MtpClaim, o.Claim
		return n, "claim and proof of another credential"
	case 19, 20, 21:
		b, what := tamperProof(c.R, n.MtpClaim.Bytes(), o.MtpClaim.Bytes(), h32(*n.IdenStateData.IdenState))
		p, err := merkletree.NewProofFromBytes(b)
		if err != nil {
			return nil, ""
		}
		n.MtpClaim = p
		return n, "proof: " + what
	case 22:
		n.IdenPubUrl = "http://else.where"
		return n, "url"
	default:
		switch c.R.Intn(6) {
		case 0:
			n.Id = nil
		case 1:
			n.IdenStateData.IdenState = nil
		case 2:
			n.MtpClaim = nil
		case 3:
			n.Claim = nil
		case 4:
			n.RevocationsTreeRoot = nil
		case 5:
			n.RootsTreeRoot = nil
		}
		return n, "missing field"
	}
}

// twin makes a second world on the chain of w.
func (w *world) twin(c *C) *world {
	x := newWorld(c, worldStore(c, 0))
	x.chain = w.chain
	return x
}

type heldCred struct {
	w  *world
	ic *issuedClaim
	cr *proof.CredentialExistence
	st h32
}

func c14run(c *C) {
	a := newWorld(c, worldStore(c, c.N))
	defer func() { a.mem.Close() }()
	b := a.twin(c)
	a.chain.onSend = nil
	ws := []*world{a, b}
	a.create(c.R.Intn(3))
	b.create(c.R.Intn(3))
	ver := verifier.New(a.chain)
	var held []heldCred
	collect := func(w *world) {
		last := w.list[len(w.list)-1]
		for _, ic := range w.issued {
			cr, err := w.is.GenCredentialExistence(ic.cl)
			if last.claims.m[ic.e.hi] == nil {
				c.Assert(errors.Is(err, issuer.ErrClaimNotYetInOnChainState), "notyet", "a credential for a claim that is not on chain yet: %v", err)
				c.Count("refused_notyet", 1)
				continue
			}
			c.Assert(err == nil, "credential", "GenCredentialExistence: %v", err)
			c.Assert(*cr.Id == w.id && h32(*cr.IdenStateData.IdenState) == w.onchain.st && cr.IdenStateData.BlockN == w.onchain.blockN && cr.IdenStateData.BlockTs == w.onchain.ts && rentOf(&cr.Claim.Data) == ic.e.d && cr.IdenPubUrl == offURL,
				"credential-content", "the credential is not the one of the claim under the state on chain")
			c.Assert(refExist(w.chain, cr), "credential-invalid", "a credential was issued that does not prove the claim under the state on chain")
			held = append(held, heldCred{w, ic, copyCred(c, cr), w.onchain.st})
			c.Count("credentials", 1)
		}
		// never issued, and issued with other content
		_, err := w.is.GenCredentialExistence(newClaim(c.R, c.R.Intn(4)))
		c.Assert(errors.Is(err, issuer.ErrClaimNotFoundClaimsTree), "unissued", "a credential for a claim that was never issued: %v", err)
		ic := w.issued[c.R.Intn(len(w.issued))]
		d := ic.e.d
		if c.R.Intn(2) == 0 {
			d = withNonce(d, ic.nonce+1+uint32(c.R.Intn(5)))
		} else {
			d[4+c.R.Intn(4)][15+c.R.Intn(10)] ^= 1 << uint(c.R.Intn(8))
		}
		_, err = w.is.GenCredentialExistence(entrier{mkRent(d).entry()})
		c.Assert(errors.Is(err, issuer.ErrClaimNotFoundClaimsTree), "other-content", "a credential for a claim issued with other content: %v", err)
		d = ic.e.d
		d[c.R.Intn(4)][14+c.R.Intn(12)] ^= 1 << uint(c.R.Intn(8))
		_, err = w.is.GenCredentialExistence(entrier{mkRent(d).entry()})
		c.Assert(errors.Is(err, issuer.ErrClaimNotFoundClaimsTree), "other-index", "a credential for a claim that was never issued: %v", err)
		c.Count("refused_unissued", 3)
		// reading the storage fails meanwhile: no refusal with a reason that
		// is not true, no credential that proves nothing
		ctl := newCtl()
		w.ctl = ctl
		w.load()
		for i := 0; i < 6; i++ {
			var cl merkletree.Entrier
			ic := w.issued[c.R.Intn(len(w.issued))]
			var truth error
			switch cl = ic.cl; c.R.Intn(4) {
			case 0:
				cl, truth = newClaim(c.R, c.R.Intn(4)), issuer.ErrClaimNotFoundClaimsTree
			case 1:
				d := ic.e.d
				d[4+c.R.Intn(4)][15+c.R.Intn(10)] ^= 1 << uint(c.R.Intn(8))
				cl, truth = entrier{mkRent(d).entry()}, issuer.ErrClaimNotFoundClaimsTree
			default:
				if last.claims.m[ic.e.hi] == nil {
					truth = issuer.ErrClaimNotYetInOnChainState
				}
			}
			ctl.arm(c.R.Intn(12), fkError, nil)
			cr, err := w.is.GenCredentialExistence(cl)
			fired := ctl.fired
			ctl.disarm()
			if !fired {
				c.Assert(truth == nil && err == nil || truth != nil && errors.Is(err, truth), "refusal", "GenCredentialExistence: %v instead of %v", err, truth)
				continue
			}
			c.Count("read_faults", 1)
			if err == nil {
				c.Assert(truth == nil && refExist(w.chain, cr), "fault-credential", "a credential that proves nothing was issued while reading the storage failed")
				continue
			}
			c.Assert(!errors.Is(err, issuer.ErrClaimNotFoundClaimsTree) && !errors.Is(err, issuer.ErrClaimNotYetInOnChainState) && !errors.Is(err, issuer.ErrClaimNotFoundStateOnChain) && !errors.Is(err, issuer.ErrIdenStateOnChainZero) || errors.Is(err, truth),
				"fault-reason", "while reading the storage failed (%s) a credential was refused with %q, which is not so (should be: %v)", ctl.firedOp, err, truth)
		}
		w.ctl = nil
		w.load()
	}
	bad := newFlaky(a.chain)
	badVer := verifier.New(bad)
	judge := func(cr *proof.CredentialExistence, what string) bool {
		want := refExist(a.chain, cr)
		err := ver.VerifyCredentialExistence(cr)
		if want {
			c.Assert(err == nil, "rejected-valid", "a valid credential (%s) was rejected: %v", what, err)
			c.Count("accepted", 1)
		} else {
			c.Assert(err != nil, "accepted-invalid", "an invalid credential was accepted: %s\n%s", what, js(cr))
			bad.arm(c.R, 2)
			err = badVer.VerifyCredentialExistence(cr)
			c.Assert(err != nil, "accepted-unreadable", "an invalid credential was accepted when reading the chain failed (%v, call %d): %s\n%s", bad.err, bad.at, what, js(cr))
			c.Count("chain_faults", bad.hits)
			c.Count("rejected", 1)
		}
		return want
	}
	hops := 2
	if c.Tier == "thorough" {
		hops = 2 + c.R.Intn(4)
	}
	for h := 0; h < hops; h++ {
		for _, w := range ws {
			for i := c.R.Intn(3); i >= 0; i-- {
				w.issue()
			}
			if c.R.Intn(2) == 0 {
				w.revoke(w.issued[c.R.Intn(len(w.issued))])
			}
			w.settle()
			if c.R.Intn(2) == 0 {
				w.issue() // not on chain yet
			}
			collect(w)
		}
		for _, x := range held {
			c.Assert(judge(x.cr, "as issued"), "ref", "reference")
			if x.st != x.w.onchain.st {
				c.Count("old_still_valid", 1)
			}
		}
	}
	var all []*proof.CredentialExistence
	for _, x := range held {
		all = append(all, x.cr)
	}
	n := 400
	if c.Tier == "thorough" {
		n = 1500
	}
	for k := 0; k < n; k++ {
		x := held[c.R.Intn(len(held))]
		m, what := mutExist(c, x.cr, all, k)
		if m == nil {
			continue
		}
		if k%7 == 6 { // two mutations at once
			if m2, w2 := mutExistSafe(c, m, all, c.R.Intn(23)); m2 != nil {
				m, what = m2, what+" and "+w2
			}
		}
		judge(m, what)
		c.Count("mutants", 1)
		c.Distinct("%s|%s", what, js(m))
	}
	c.Sample("%d credentials over %d+%d states", len(held), len(a.list)-1, len(b.list)-1)
}

func mutExistSafe(c *C, cr *proof.CredentialExistence, all []*proof.CredentialExistence, k int) (*proof.CredentialExistence, string) {
	if cr.Id == nil || cr.IdenStateData.IdenState == nil || cr.MtpClaim == nil || cr.Claim == nil || cr.RevocationsTreeRoot == nil || cr.RootsTreeRoot == nil {
		return nil, ""
	}
	if b, _ := json.Marshal(cr); json.Unmarshal(b, new(proof.CredentialExistence)) != nil {
		return nil, "" // an id with a wrong checksum does not decode
	}
	return mutExist(c, cr, all, k)
}

// refValid is the reference verdict on a validity credential at time now; edge
// is true when a clock comparison is exactly at its limit.
func refValid(m *chainModel, cv *proof.CredentialValidity, now time.Time, freshness time.Duration) (ok, edge bool) {
	cr := &cv.CredentialExistence
	if cr.Claim == nil || cv.IdenStateData.IdenState == nil || cv.MtpNotNonce == nil || cv.ClaimsTreeRoot == nil || cv.RootsTreeRoot == nil {
		return false, false
	}
	if !refExist(m, cr) {
		return false, false
	}
	d := rentOf(&cr.Claim.Data)
	if d[0][8]&8 != 0 {
		exp := int64(binary.LittleEndian.Uint64(d[4][4:12]))
		if exp < now.Unix() || (exp == now.Unix() && now.Nanosecond() > 0) {
			return false, false
		}
		edge = edge || exp == now.Unix()
	}
	p := parseProof(cv.MtpNotNonce.Bytes())
	if p == nil || p.exist {
		return false, false
	}
	l := leafRev(nonceOf(d))
	root, pok := p.root(l.hi, l.hv)
	clr, ror := h32(*cv.ClaimsTreeRoot), h32(*cv.RootsTreeRoot)
	if !pok || !inField(clr) || !inField(ror) || refState(clr, root, ror) != h32(*cv.IdenStateData.IdenState) {
		return false, false
	}
	if !onChainExactly(m, *cr.Id, &cv.IdenStateData) {
		return false, false
	}
	m.mu.Lock()
	last, _ := m.last(*cr.Id)
	m.mu.Unlock()
	oldest := now.Add(-freshness)
	ts := time.Unix(cv.IdenStateData.BlockTs, 0)
	if last.st == h32(*cv.IdenStateData.IdenState) {
		return true, edge
	}
	edge = edge || oldest.Equal(ts)
	return oldest.Before(ts), edge
}
