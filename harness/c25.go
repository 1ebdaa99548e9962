package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"reflect"
	"time"

	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	zkver "github.com/iden3/go-circom-prover-verifier/verifier"
	"github.com/iden3/go-iden3-core/components/idenpuboffchain"
	"github.com/iden3/go-iden3-core/components/verifier"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/identity/holder"
	"github.com/iden3/go-iden3-core/identity/issuer"
	"github.com/iden3/go-iden3-core/merkletree"
	zkutils "github.com/iden3/go-iden3-core/utils/zk"
	"github.com/iden3/go-iden3-crypto/babyjub"
	"github.com/iden3/go-iden3-crypto/constants"
	"github.com/mitchellh/mapstructure"
)

func init() {
	rules["C25"] = "issuers and holders with generated histories; the inputs of every circuit (identity state update at each publication, credential for each claim and state, at tree levels down to too few) are judged against the circuits' relations recomputed in Go (key, memberships, absence, roots, state); zk credentials made with a real Groth16 proof are verified at generated times and freshness values and with altered signals, proofs, identities, blocks; verdicts are compared with a reference; distinct = distinct (inputs) and (credential, alteration)"
	assumptions["C25"] = []string{"the circuits of the repository are downloaded and not available: their relation is recomputed in Go from the inputs given to the witness program, and the proofs come from a stand-in circuit with the same public signals"}
	reg(Part{Prop: "C25", Name: "zkcredential", Quick: 24, Thorough: 600, Need: []string{"relations", "state_relations", "proofs", "zk_accepted", "zk_rejected", "too_few_levels", "refused_revoked", "root_not_found", "mutant_refused", "zero_signals"}, Run: c25run})
}

// circomRoot is the root a circuit computes from padded siblings.
func circomRoot(sibs []*big.Int, hi h32, leaf h32) (root h32, depth int, ok bool) {
	for i, s := range sibs {
		if s == nil || s.Sign() < 0 || s.Cmp(constants.Q) >= 0 {
			return root, 0, false
		}
		if s.Sign() != 0 {
			depth = i + 1
		}
	}
	if depth == len(sibs) {
		return root, depth, false // the circuit needs the last one to be zero
	}
	root = leaf
	for i := depth - 1; i >= 0; i-- {
		s := bigLE(sibs[i])
		if bitOf(hi, i) {
			root = refMid(s, root)
		} else {
			root = refMid(root, s)
		}
	}
	return root, depth, true
}

// relOwn judges the ownership part: key, siblings and root of the genesis
// claims tree lead to the id.
func relOwn(sk *big.Int, sibs []*big.Int, clr *big.Int, id core.ID, levels int) string {
	if len(sibs) != levels+1 {
		return fmt.Sprintf("%d siblings of the key claim for %d levels", len(sibs), levels)
	}
	pk := babyjub.NewPoint().Mul(sk, babyjub.B8)
	kc := claims.NewClaimKeyBabyJub((*babyjub.PublicKey)(pk), claims.BabyJubKeyTypeAuthorizeKSign)
	e := mkRent(withNonce(rentOf(&kc.Entry().Data), 0))
	root, _, ok := circomRoot(sibs, e.hi, refLeaf(e.hi, e.hv))
	if !ok || root != bigLE(clr) {
		return "the key's claim is not under the genesis claims root"
	}
	if st := refState(root, h32{}, leafRoot(root).leaf); refStateID(st) != id {
		return "the genesis claims root is not the one of the id"
	}
	return ""
}

type credIn map[string][]*big.Int

func (in credIn) one(k string) h32 {
	if len(in[k]) != 1 || in[k][0] == nil {
		return h32{}
	}
	return bigLE(in[k][0])
}

var credNames = map[string]int{"hoKOpSk": 1, "hoClaimKOpMtp": -1, "hoClaimKOpClaimsTreeRoot": 1, "isProofExistMtp": -2, "isProofExistClaimsTreeRoot": 1,
	"isProofValidNotRevMtp": -2, "isProofValidNotRevMtpNoAux": 1, "isProofValidNotRevMtpAuxHi": 1, "isProofValidNotRevMtpAuxHv": 1,
	"isProofValidClaimsTreeRoot": 1, "isProofValidRevTreeRoot": 1, "isProofValidRootsTreeRoot": 1, "isProofRootMtp": -2, "isIdenState": 1}

// relCred judges the inputs of the credential circuit for the claim d.
func relCred(in credIn, d [8]h32, hid core.ID, ownLevels, isLevels int) string {
	for k, n := range credNames {
		switch {
		case n == -1:
			n = ownLevels + 1
		case n == -2:
			n = isLevels + 1
		}
		if len(in[k]) != n {
			return fmt.Sprintf("%d values for %s instead of %d", len(in[k]), k, n)
		}
		for _, v := range in[k] {
			if v == nil || v.Sign() < 0 || v.Cmp(constants.Q) >= 0 {
				return "a value of " + k + " is not a field element"
			}
		}
	}
	if s := relOwn(in["hoKOpSk"][0], in["hoClaimKOpMtp"], in["hoClaimKOpClaimsTreeRoot"][0], hid, ownLevels); s != "" {
		return s
	}
	for _, x := range d {
		if !inField(x) {
			return "the claim is not made of field elements"
		}
	}
	e := mkRent(d)
	clr := in.one("isProofExistClaimsTreeRoot")
	if r, _, ok := circomRoot(in["isProofExistMtp"], e.hi, refLeaf(e.hi, e.hv)); !ok || r != clr {
		return "the claim is not under the claims root"
	}
	l := leafRev(nonceOf(d))
	leaf := h32{}
	aux := in.one("isProofValidNotRevMtpNoAux") == (h32{})
	ahi, ahv := in.one("isProofValidNotRevMtpAuxHi"), in.one("isProofValidNotRevMtpAuxHv")
	if aux {
		leaf = refLeaf(ahi, ahv)
		if ahi == l.hi {
			return "the other leaf on the nonce's path is the nonce's own"
		}
	} else if in.one("isProofValidNotRevMtpNoAux") != h32one {
		return "NoAux is neither 0 nor 1"
	} else if ahi != (h32{}) || ahv != (h32{}) {
		return "another leaf is given although there is none"
	}
	r, depth, ok := circomRoot(in["isProofValidNotRevMtp"], l.hi, leaf)
	if !ok || r != in.one("isProofValidRevTreeRoot") {
		return "the nonce is not proved absent from the revocations root"
	}
	if aux {
		for i := 0; i < depth; i++ {
			if bitOf(ahi, i) != bitOf(l.hi, i) {
				return "the other leaf is not on the nonce's path"
			}
		}
	}
	lr := leafRoot(clr)
	if r, _, ok := circomRoot(in["isProofRootMtp"], lr.hi, lr.leaf); !ok || r != in.one("isProofValidRootsTreeRoot") {
		return "the claims root is not under the roots root"
	}
	if refState(in.one("isProofValidClaimsTreeRoot"), in.one("isProofValidRevTreeRoot"), in.one("isProofValidRootsTreeRoot")) != in.one("isIdenState") {
		return "the roots are not the ones of the state"
	}
	return ""
}

// toCredIn converts a map of circuit inputs.
func toCredIn(m map[string]interface{}) credIn {
	in := credIn{}
	for k, v := range m {
		switch x := v.(type) {
		case *big.Int:
			in[k] = []*big.Int{x}
		case []*big.Int:
			in[k] = x
		default:
			in[k] = nil
		}
	}
	return in
}

// refZk is the reference verdict on a zk credential.
func refZk(m *chainModel, p *zktypes.Proof, sig []*big.Int, id *core.ID, blockN uint64, now time.Time, fresh time.Duration) (ok, edge bool) {
	if p == nil || p.A == nil || p.B == nil || p.C == nil || len(sig) != 2 {
		return false, false
	}
	for _, s := range sig {
		if s == nil || s.Sign() < 0 || s.Cmp(constants.Q) >= 0 {
			return false, false
		}
	}
	if !zkver.Verify(zkCR.vk, p, sig) {
		return false, false
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	var at *chainState
	for i := range m.hist[*id] {
		if m.hist[*id][i].blockN == blockN {
			at = &m.hist[*id][i]
		}
	}
	if at == nil || at.st != bigLE(sig[0]) {
		return false, false
	}
	last, _ := m.last(*id)
	if last.st == at.st {
		return true, false
	}
	oldest := now.Add(-fresh)
	return oldest.Before(time.Unix(at.ts, 0)), oldest.Equal(time.Unix(at.ts, 0))
}

func c25run(c *C) {
	a := newWorld(c, worldStore(c, c.N))
	defer func() { a.mem.Close() }()
	b := a.twin(c)
	a.chain.onSend = nil
	ws := []*world{a, b}
	a.create(c.R.Intn(5))
	b.create(0)
	byID := map[core.ID]*world{a.id: a, b.id: b}
	H := newHolder(c, a, c.R.Intn(6))
	honest := func(url string, id *core.ID, st *merkletree.Hash) (*idenpuboffchain.PublicData, error) {
		return byID[*id].off.GetPublicData(url, id, st)
	}
	H.read = honest
	now := time.Unix(a.chain.ts, 0)
	ver := verifier.NewWithTimeNow(a.chain, func() time.Time { return now })
	files := zkCR.files(zkCRDir)
	sk := (*big.Int)(H.sk.Scalar())

	// ownership inputs at all levels
	own := func(is interface {
		GenIdOwnershipGenesisInputs(int) (*issuer.IdOwnershipGenesisInputs, error)
	}, id core.ID, key *big.Int, ref *refTree, kop *rent) {
		need := 0
		sibs, _ := refSiblings(ref.list(), kop.hi)
		for i, s := range sibs {
			if s != (h32{}) {
				need = i + 1
			}
		}
		for lv := 0; lv <= 20; lv++ {
			in, err := is.GenIdOwnershipGenesisInputs(lv)
			if need > lv {
				c.Assert(err != nil, "own-levels", "ownership inputs for %d levels of a key claim %d deep", lv, need)
				c.Count("too_few_levels", 1)
				continue
			}
			c.Assert(err == nil, "own", "GenIdOwnershipGenesisInputs(%d): %v", lv, err)
			c.Assert(in.PrivateKey.Cmp(key) == 0 && in.Id.Cmp(leBig(id[:])) == 0, "own-key", "the ownership inputs have another key or id")
			why := relOwn(in.PrivateKey, in.MtpSiblings, in.ClaimsTreeRoot, id, lv)
			c.Assert(why == "", "own-relation", "the ownership inputs for %d levels: %s", lv, why)
			c.Count("relations", 1)
		}
	}
	var genesis = map[*world]*refTree{}
	for _, w := range ws {
		genesis[w] = w.claims.clone()
		own(w.is, w.id, (*big.Int)(w.sk.Scalar()), genesis[w], w.issued[0].e)
	}
	hk := claims.NewClaimKeyBabyJub(H.sk.Public(), claims.BabyJubKeyTypeAuthorizeKSign)
	own(H.h, H.id, sk, H.claims, mkRent(withNonce(rentOf(&hk.Entry().Data), 0)))

	// the inputs of an identity state update
	stateInputs := func(w *world, old, new h32) {
		ts := sigTake(leBig(new[:]))
		c.Assert(len(ts) > 0, "state-inputs", "no proof was made for the new state %s", short(new))
		for _, t := range ts {
			for k := range t {
				switch k {
				case "id", "oldIdState", "newIdState", "userPrivateKey", "siblings", "claimsTreeRoot":
				default:
					c.Fail("state-inputs", "the circuit got an input %q", k)
				}
			}
			in := credIn(t)
			c.Assert(len(t["id"]) == 1 && t["id"][0].Cmp(leBig(w.id[:])) == 0 && in.one("oldIdState") == old && in.one("newIdState") == new, "state-inputs",
				"the identity state circuit got other public inputs than the transition %s to %s", short(old), short(new))
			c.Assert(len(t["userPrivateKey"]) == 1 && len(t["claimsTreeRoot"]) == 1, "state-inputs", "inputs are missing")
			why := relOwn(t["userPrivateKey"][0], t["siblings"], t["claimsTreeRoot"][0], w.id, zkLevelsIdOwn)
			c.Assert(why == "", "state-relation", "the inputs of the identity state circuit: %s", why)
			c.Count("state_relations", 1)
		}
	}

	type zkc struct {
		w   *world
		out *holder.ZkProofCredOut
		rec *pubRec
	}
	var zks []zkc
	var held []heldCred
	collect := func(w *world) {
		for _, ic := range w.issued {
			cr, err := w.is.GenCredentialExistence(ic.cl)
			if err == nil {
				held = append(held, heldCred{w, ic, copyCred(c, cr), w.onchain.st})
			}
		}
	}
	// inputs prepared for cr; the relation must hold whenever they are given
	inputs := func(cr *proof.CredentialExistence, w *world, ownLv, isLv int) (credIn, error) {
		o, err := H.h.GenIdOwnershipGenesisInputs(ownLv)
		if err != nil {
			return nil, err
		}
		data, err := H.h.HolderGetCredentialValidityData(cr)
		if err != nil {
			return nil, err
		}
		pi, err := H.h.HolderGetCredentialProofInputs(o, cr, data, isLv)
		if err != nil {
			return nil, err
		}
		var m map[string]interface{}
		c.Must(mapstructure.Decode(pi, &m), "decode")
		in := toCredIn(m)
		for k := range in {
			if k != "claim" {
				c.Assert(credNames[k] != 0, "input-name", "an input %q the circuit does not have", k)
			}
		}
		d := rentOf(&cr.Claim.Data)
		why := relCred(in, d, H.id, ownLv, isLv)
		c.Assert(why == "", "relation", "the inputs of the credential circuit: %s (claim %s)", why, js(cr.Claim))
		if in["claim"] != nil {
			c.Assert(len(in["claim"]) == 8, "claim-input", "the claim input has %d values", len(in["claim"]))
			for i := range d {
				c.Assert(bigLE(in["claim"][i]) == d[i], "claim-input", "element %d of the claim input is not the claim's", i)
			}
		}
		c.Assert(in.one("isIdenState") == a.chain.cur(*cr.Id), "input-state", "the inputs are of another state than the one on chain")
		c.Count("relations", 1)
		c.Distinct("in|%s|%s|%d", js(cr), short(in.one("isIdenState")), isLv)
		return in, nil
	}
	depthOf := func(es *refTree, hi h32) int {
		sibs, _ := refSiblings(es.list(), hi)
		n := 0
		for i, s := range sibs {
			if s != (h32{}) {
				n = i + 1
			}
		}
		return n
	}
	hops := 2
	if c.Tier == "thorough" {
		hops = 2 + c.R.Intn(3)
	}
	for h := 0; h < hops; h++ {
		for _, w := range ws {
			for i := c.R.Intn(6); i >= 0; i-- {
				w.issue()
			}
			for i := c.R.Intn(4); i > 0; i-- {
				w.revoke(w.issued[c.R.Intn(len(w.issued))])
			}
			prev := w.onchain.st
			if prev == (h32{}) {
				prev = w.list[0].st
			}
			n := len(w.list)
			w.settle()
			c.Assert(len(w.list) == n+1, "settle", "settle")
			stateInputs(w, prev, w.onchain.st)
			collect(w)
		}
		// a transition asked for directly
		w := ws[c.R.Intn(2)]
		stA, stB := h32(randElem(c.R)), bigLE(new(big.Int).Rand(c.R, constants.Q))
		out, err := w.is.GenZkProofIdenStateUpdate(hsh(stA), hsh(stB))
		c.Assert(err == nil, "state-proof", "GenZkProofIdenStateUpdate: %v", err)
		c.Assert(zkVerifyState(&out.Proof, w.id, stA, stB) && len(out.PubSignals) == 3 && out.PubSignals[0].Cmp(leBig(w.id[:])) == 0 && bigLE(out.PubSignals[1]) == stA && bigLE(out.PubSignals[2]) == stB,
			"state-proof", "the proof is not one of the transition asked for")
		stateInputs(w, stA, stB)

		var ok []heldCred
		for _, x := range held {
			rec := x.w.list[len(x.w.list)-1]
			lv := zkLevelsIs
			if c.R.Intn(2) == 0 {
				lv = c.R.Intn(8)
			}
			_, err := inputs(copyCred(c, x.cr), x.w, zkLevelsIdOwn, lv)
			var root h32
			for _, r := range x.w.list {
				if r.st == x.st {
					root = r.clr
				}
			}
			d := depthOf2(x.w, x.st, x.ic.e.hi)
			if y := depthOf(rec.revs, leafRev(x.ic.nonce).hi); y > d {
				d = y
			}
			if y := depthOf(rec.roots, leafRoot(root).hi); y > d {
				d = y
			}
			switch {
			case rec.revs.m[leafRev(x.ic.nonce).hi] != nil:
				c.Assert(errors.Is(err, holder.ErrRevokedClaim), "revoked", "circuit inputs of a revoked claim: %v", err)
				c.Count("refused_revoked", 1)
			case d > lv:
				c.Assert(err != nil, "levels", "circuit inputs for %d levels of proofs %d deep", lv, d)
				c.Count("too_few_levels", 1)
			default:
				c.Assert(err == nil, "inputs", "the inputs of the credential circuit for %d levels (needed %d): %v", lv, d, err)
				ok = append(ok, x)
			}
		}
		// altered credentials: refused, or the relation holds
		var all []*proof.CredentialExistence
		for _, x := range held {
			all = append(all, x.cr)
		}
		for k := 0; k < 40; k++ {
			x := held[c.R.Intn(len(held))]
			m, _ := mutExist(c, x.cr, all, k)
			if m == nil || (m.Id != nil && byID[*m.Id] == nil) {
				continue
			}
			if _, err := inputs(m, x.w, zkLevelsIdOwn, zkLevelsIs); err != nil {
				c.Count("mutant_refused", 1)
				if errors.Is(err, holder.ErrRootNotFound) {
					c.Count("root_not_found", 1)
				}
			}
		}
		// proofs
		for k := 0; k < 3 && len(ok) > 0; k++ {
			x := ok[c.R.Intn(len(ok))]
			chal := new(big.Int).Rand(c.R, constants.Q)
			switch c.R.Intn(6) {
			case 0:
				chal = new(big.Int)
				c.Count("zero_signals", 1)
			case 1:
				chal = big.NewInt(1)
			case 2:
				chal = new(big.Int).Sub(constants.Q, big.NewInt(1))
			}
			d := x.ic.e.d
			var seen credIn
			out, err := H.h.HolderGenZkProofCredential(copyCred(c, x.cr), func(m map[string]interface{}) error {
				c.Assert(m["claim"] == nil, "claim-removed", "the claim input is given to the circuit by the holder")
				seen = toCredIn(m)
				var cl []*big.Int
				for _, e := range d {
					cl = append(cl, leBigE(e))
				}
				m["claim"] = cl
				m["challenge"] = chal
				return nil
			}, zkLevelsIdOwn, zkLevelsIs, files)
			c.Assert(err == nil, "zk-proof", "HolderGenZkProofCredential: %v", err)
			c.Assert(out.IssuerID != nil && *out.IssuerID == x.w.id && out.IdenStateBlockN == x.w.onchain.blockN, "zk-ids", "the zk credential names another issuer or block")
			sig := out.ZkProofOut.PubSignals
			c.Assert(len(sig) == 2 && bigLE(sig[0]) == x.w.onchain.st && sig[1].Cmp(chal) == 0, "zk-signals", "the public signals are not the state and the added input")
			ts := sigTake(leBig(x.w.onchain.st[:]))
			c.Assert(len(ts) == 1, "zk-runs", "the circuit ran %d times", len(ts))
			in := credIn(ts[0])
			c.Assert(len(in["claim"]) == 8 && in.one("challenge") == bigLE(chal), "zk-added", "the added inputs did not reach the circuit")
			why := relCred(in, d, H.id, zkLevelsIdOwn, zkLevelsIs)
			c.Assert(why == "", "zk-relation", "the inputs given to the circuit: %s", why)
			delete(in, "claim")
			delete(in, "challenge")
			c.Assert(reflect.DeepEqual(fmt.Sprint(in), fmt.Sprint(seen)), "zk-inputs", "the circuit got other inputs than addInputs saw")
			c.Count("proofs", 1)
			// over the wire
			j, err := json.Marshal(struct {
				P zktypes.Proof
				S zkutils.PubSignals
			}{out.ZkProofOut.Proof, sig})
			c.Assert(err == nil, "zk-json", "%v", err)
			var back struct {
				P zktypes.Proof
				S zkutils.PubSignals
			}
			c.Assert(json.Unmarshal(j, &back) == nil, "zk-json", "a zk proof does not decode from its JSON: %s", j)
			out.ZkProofOut.Proof, out.ZkProofOut.PubSignals = back.P, back.S
			zks = append(zks, zkc{x.w, out, x.w.list[len(x.w.list)-1]})
		}
		_, err = H.h.HolderGenZkProofCredential(copyCred(c, held[0].cr), func(m map[string]interface{}) error { return errInjected }, zkLevelsIdOwn, zkLevelsIs, files)
		c.Assert(err != nil, "zk-add-error", "a failing addInputs is ignored")

		judge := func(p *zktypes.Proof, sig []*big.Int, id *core.ID, bn uint64, fresh time.Duration, what string) {
			want, edge := refZk(a.chain, p, sig, id, bn, now, fresh)
			err := ver.VerifyZkProofCredential(p, sig, id, bn, files, fresh)
			if edge {
				return
			}
			if want {
				c.Assert(err == nil, "zk-rejected-valid", "a valid zk credential (%s) was rejected: %v", what, err)
				c.Count("zk_accepted", 1)
			} else {
				c.Assert(err != nil, "zk-accepted-invalid", "an invalid zk credential was accepted: %s, at %v, freshness %v, signals %v, block %d", what, now, fresh, sig, bn)
				c.Count("zk_rejected", 1)
			}
			c.Distinct("zk|%s|%v|%v|%d|%d|%d", what, sig, id, bn, now.UnixNano(), fresh)
		}
		for _, z := range zks {
			p, sig, id, bn := &z.out.ZkProofOut.Proof, z.out.ZkProofOut.PubSignals, z.out.IssuerID, z.out.IdenStateBlockN
			var ts int64
			for _, s := range a.chain.hist[*id] {
				if s.blockN == bn {
					ts = s.ts
				}
			}
			for i := 0; i < 6; i++ {
				now = time.Unix(ts+int64(c.R.Intn(300)), int64(c.R.Intn(2)*500))
				age := now.Sub(time.Unix(ts, 0))
				judge(p, sig, id, bn, []time.Duration{age, age + 1, age - 1, age + time.Second, 0, time.Hour, age - time.Second, -time.Hour}[c.R.Intn(8)], "as made")
			}
			now = time.Unix(a.chain.ts+5, 0)
			for k := 0; k < 24; k++ {
				o := zks[c.R.Intn(len(zks))]
				ob, ot := o.out.IdenStateBlockN, o.w
				s2 := append([]*big.Int{}, sig...)
				fresh := 10000 * time.Hour
				i := c.R.Intn(2)
				switch k {
				case 0, 1, 2:
					s2[i] = new(big.Int).Xor(sig[i], new(big.Int).Lsh(big.NewInt(1), uint(c.R.Intn(256))))
					judge(p, s2, id, bn, fresh, "signal bit")
				case 3:
					s2[i] = new(big.Int).Add(sig[i], zktypes.R)
					judge(p, s2, id, bn, fresh, "signal + R")
				case 4:
					s2[i] = new(big.Int).Sub(sig[i], zktypes.R)
					judge(p, s2, id, bn, fresh, "signal - R")
				case 5:
					s2[i] = o.out.ZkProofOut.PubSignals[i]
					judge(p, s2, id, bn, fresh, "signal of another")
				case 6:
					judge(p, []*big.Int{sig[1], sig[0]}, id, bn, fresh, "signals swapped")
				case 7:
					judge(p, sig[:1], id, bn, fresh, "one signal")
				case 8:
					judge(p, append(s2, new(big.Int)), id, bn, fresh, "three signals")
				case 9:
					judge(p, nil, id, bn, fresh, "no signals")
				case 10:
					s2[i] = nil
					judge(p, s2, id, bn, fresh, "nil signal")
				case 11:
					judge(&o.out.ZkProofOut.Proof, sig, id, bn, fresh, "proof of another")
				case 12:
					judge(&zktypes.Proof{A: p.A, B: p.B, C: p.A}, sig, id, bn, fresh, "C replaced")
				case 13:
					judge(&zktypes.Proof{A: new(bn256.G1).Neg(p.A), B: p.B, C: p.C}, sig, id, bn, fresh, "A negated")
				case 14:
					judge(&zktypes.Proof{A: p.A, B: new(bn256.G2).Neg(p.B), C: p.C}, sig, id, bn, fresh, "B negated")
				case 15:
					judge(&zktypes.Proof{A: new(bn256.G1).Neg(p.A), B: new(bn256.G2).Neg(p.B), C: p.C}, sig, id, bn, fresh, "A and B negated")
				case 16:
					judge(&zktypes.Proof{A: p.A, B: p.B}, sig, id, bn, fresh, "C missing")
				case 17:
					judge(nil, sig, id, bn, fresh, "no proof")
				case 18:
					judge(p, sig, &ot.id, bn, fresh, "issuer of another")
				case 19:
					judge(p, sig, &ot.id, ob, fresh, "issuer and block of another")
				case 20:
					judge(p, sig, id, ob, fresh, "block of another")
				case 21:
					judge(p, sig, id, bn+uint64(c.R.Intn(3))-1, fresh, "block near")
				case 22:
					judge(p, sig, &H.id, bn, fresh, "issuer not on chain")
				case 23:
					z := new(bn256.G1).ScalarBaseMult(new(big.Int))
					judge(&zktypes.Proof{A: z, B: p.B, C: z}, sig, id, bn, fresh, "points at infinity")
				}
			}
		}
	}
	c.Sample("%d credentials, %d zk credentials, %d+%d states", len(held), len(zks), len(a.list), len(b.list))
}

func depthOf2(w *world, st, hi h32) int {
	for _, r := range w.list {
		if r.st == st {
			sibs, _ := refSiblings(r.claims.list(), hi)
			n := 0
			for i, s := range sibs {
				if s != (h32{}) {
					n = i + 1
				}
			}
			return n
		}
	}
	return 0
}
