package main

import (
	"errors"
	"fmt"

	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/identity/issuer"
	"github.com/iden3/go-iden3-core/merkletree"
)

func init() {
	rules["C12"] = "random histories of issue, revoke, publish, mine, fail transaction, sync and reload against a reference model of the three trees, the published states and the pending/on-chain automaton; the chain monitor judges every transaction sent (proof, transition, kind, count) and the off-chain data is compared with the model after each publication; separately: creation is repeated and compared, genesis-only issuers are asked for everything, foreign chain states are injected; distinct = distinct histories"
	assumptions["C12"] = append(assumptions["C12"], "the state-transition circuit is a stand-in (the real one is downloaded): real Groth16 proofs bound to the public signals, with the private relation recomputed in C25")
	reg(Part{Prop: "C12", Name: "history", Quick: 110, Thorough: 1500, Need: []string{"publish_sent", "publish_noop", "publish_refused", "tx_failed", "confirmed", "not_yet_confirmed", "reloads", "reload_pending"}, Run: c12history})
	reg(Part{Prop: "C12", Name: "create", Quick: 400, Thorough: 8000, Need: []string{"created", "refused_existing", "genesis_only_refusals"}, Run: c12create})
	reg(Part{Prop: "C12", Name: "levels", Quick: 90, Thorough: 1500, Need: []string{"issue_full", "revoke_full", "publish_full", "create_full", "published"}, Run: c12levels})
	reg(Part{Prop: "C12", Name: "foreign", Quick: 24, Thorough: 500, Need: []string{"idle_foreign", "pending_foreign"}, Run: c12foreign})
}

func c12history(c *C) {
	w := newWorld(c, worldStore(c, c.N))
	defer func() { w.mem.Close() }()
	w.create(c.R.Intn(4))
	hist := ""
	steps := 10 + c.R.Intn(14)
	for i := 0; i < steps; i++ {
		switch c.R.Intn(14) {
		case 0, 1, 2:
			w.issue()
			w.check("issue")
			hist += "i"
		case 3:
			w.revoke(w.issued[c.R.Intn(len(w.issued))])
			w.check("revoke")
			hist += "v"
		case 4, 5, 6:
			before := w.pending
			tr := w.transacted
			r := w.publish()
			switch {
			case before != (h32{}) && tr:
				c.Count("publish_refused", 1)
				hist += "x"
			case r == nil:
				c.Count("publish_noop", 1)
				hist += "n"
			default:
				c.Count("publish_sent", 1)
				hist += "P"
				if c.R.Intn(5) == 0 {
					w.chain.mu.Lock()
					w.chain.failTx = 1
					w.chain.mu.Unlock()
					c.Count("tx_failed", 1)
					hist += "!"
				}
			}
		case 7, 8, 9:
			n := c.R.Intn(int(w.cfg.ConfirmBlocks) + 2)
			w.chain.mine(n)
			c.Logf("mine, and %d blocks", n)
			hist += fmt.Sprintf("m%d", n)
		case 10, 11, 12:
			p, tr := w.pending, w.transacted
			w.sync()
			if p != (h32{}) && tr {
				if w.pending == (h32{}) {
					c.Count("confirmed", 1)
				} else if w.transacted {
					c.Count("not_yet_confirmed", 1)
				}
			}
			hist += "s"
		case 13:
			if w.pending != (h32{}) {
				c.Count("reload_pending", 1)
			}
			w.mem = reopenLevel(c, w.mem)
			w.off.reload(nil)
			w.load()
			c.Count("reloads", 1)
			hist += "r"
		}
	}
	r := w.settle()
	if r != nil {
		w.checkOff(r)
		// everything issued has a credential now
		for _, ic := range w.issued {
			_, err := w.is.GenCredentialExistence(ic.cl)
			c.Assert(err == nil, "credential", "no credential for a claim under the on chain state: %v", err)
		}
	}
	// the chain saw exactly the states of the list
	h := w.chain.hist[w.id]
	c.Assert(len(h) == len(w.list)-1, "chain-history", "%d states on chain, %d were published", len(h), len(w.list)-1)
	for i := range h {
		c.Assert(h[i].st == w.list[i+1].st, "chain-history", "state %d on chain is %s instead of %s", i, short(h[i].st), short(w.list[i+1].st))
	}
	c.Distinct("%s", hist)
	c.Sample("%s: %d claims, %d states on chain", hist, len(w.issued), len(h))
}

func c12create(c *C) {
	w := newWorld(c, worldStore(c, c.N))
	defer func() { w.mem.Close() }()
	w.cfg.GenesisOnly = c.N%2 == 0
	seed := c.R.Int63()
	n := c.R.Intn(5)
	mk := func() []claims.Claimer {
		r := newRand(seed)
		l := make([]claims.Claimer, n)
		for i := range l {
			l[i] = newClaim(r, r.Intn(4))
		}
		return l
	}
	l := mk()
	pre := make([][8]h32, n)
	for i := range l {
		pre[i] = rentOf(&l[i].Entry().Data)
	}
	id, err := issuer.Create(w.cfg, w.kop, l, w.mem, w.ks)
	c.Assert(err == nil, "create", "Create: %v", err)
	w.modelCreate(l, pre)
	c.Assert(*id == w.id, "create-id", "Create returned id %v, the genesis claims give %v", id, w.id)
	w.load()
	c.Count("created", 1)
	// again, elsewhere: the same id and state
	l2 := mk()
	id2, err := issuer.Create(w.cfg, w.kop, l2, db.NewMemoryStorage(), w.ks)
	c.Assert(err == nil && *id2 == *id, "create-deterministic", "creating the same issuer twice gives %v and %v (%v)", id, id2, err)
	for i := range l {
		c.Assert(l[i].Metadata().RevNonce == l2[i].Metadata().RevNonce, "create-deterministic", "the genesis claims get different nonces")
	}
	// an existing issuer is not replaced
	before := dumpStore(c, w.mem)
	_, err = issuer.Create(w.cfg, w.kop, []claims.Claimer{newClaim(c.R, 0)}, w.mem, w.ks)
	c.Assert(err != nil, "create-existing", "an issuer was created over an existing one")
	c.Assert(sameDump(before, dumpStore(c, w.mem)), "create-existing", "a refused creation changed the storage")
	c.Count("refused_existing", 1)
	// a repeated genesis claim is refused as a whole
	if n > 0 {
		s := db.NewMemoryStorage()
		d := l[0].Entry()
		_, err := issuer.Create(w.cfg, w.kop, []claims.Claimer{claims.NewClaimGeneric(d), claims.NewClaimGeneric(d.Clone())}, s, w.ks)
		c.Assert(errors.Is(err, merkletree.ErrEntryIndexAlreadyExists), "create-dup", "two genesis claims with one index: %v", err)
		_, err = issuer.Load(s, w.ks, w.chain, zkConf(c), w.off)
		c.Assert(err != nil, "create-dup", "a refused creation can be loaded")
	}
	if w.cfg.GenesisOnly {
		c.Assert(w.is.IssueClaim(newClaim(c.R, 1)) == issuer.ErrIdenGenesisOnly, "genesis-only", "IssueClaim")
		c.Assert(w.is.RevokeClaim(w.issued[0].cl) == issuer.ErrIdenGenesisOnly, "genesis-only", "RevokeClaim")
		c.Assert(w.is.PublishState() == issuer.ErrIdenGenesisOnly, "genesis-only", "PublishState")
		c.Assert(w.is.SyncIdenStatePublic() == issuer.ErrIdenGenesisOnly, "genesis-only", "SyncIdenStatePublic")
		c.Assert(w.is.UpdateClaim(hsh(w.issued[0].e.hi), nil) == issuer.ErrIdenGenesisOnly, "genesis-only", "UpdateClaim")
		_, err := w.is.GenCredentialExistence(w.issued[0].cl)
		c.Assert(err == issuer.ErrIdenGenesisOnly, "genesis-only", "GenCredentialExistence: %v", err)
		w.check("refused operations")
		c.Assert(sameDump(before, dumpStore(c, w.mem)), "genesis-only", "refused operations changed the storage")
		c.Count("genesis_only_refusals", 6)
	} else {
		_, err := issuer.Load(w.mem, w.ks, nil, zkConf(c), w.off)
		c.Assert(err == issuer.ErrIdenPubOnChainNil, "load-nil", "Load without chain: %v", err)
		_, err = issuer.Load(w.mem, w.ks, w.chain, nil, w.off)
		c.Assert(err == issuer.ErrIdenStateSNARKPathsNil, "load-nil", "Load without circuit: %v", err)
		_, err = issuer.Load(w.mem, w.ks, w.chain, zkConf(c), nil)
		c.Assert(err == issuer.ErrIdenPubOffChainWriterNil, "load-nil", "Load without publisher: %v", err)
		_, err = w.is.GenCredentialExistence(w.issued[0].cl)
		c.Assert(err == issuer.ErrIdenStateOnChainZero, "credential-early", "a credential before the first publication: %v", err)
	}
	_, err = issuer.Load(db.NewMemoryStorage(), w.ks, w.chain, zkConf(c), w.off)
	c.Assert(err != nil, "load-empty", "an issuer was loaded from an empty storage")
	c.Distinct("%x", w.rec().st)
}

func c12foreign(c *C) {
	w := newWorld(c, worldStore(c, c.N))
	defer func() { w.mem.Close() }()
	w.create(c.R.Intn(2))
	hops := c.R.Intn(2)
	for i := 0; i < hops; i++ {
		w.issue()
		w.settle()
	}
	var why string
	foreign := func() h32 {
		var x h32
		c.R.Read(x[:31])
		return x
	}
	inject := func(st h32) {
		w.chain.mu.Lock()
		defer w.chain.mu.Unlock()
		w.chain.block += 1 + w.cfg.ConfirmBlocks
		w.chain.ts += 99
		w.chain.hist[w.id] = append(w.chain.hist[w.id], chainState{st, w.chain.block, w.chain.ts})
	}
	if c.N%2 == 0 { // nothing pending
		why = "idle"
		w.issue()
		st := foreign()
		if c.R.Intn(3) == 0 {
			st = w.rec().st // the current state, which was never published
		}
		inject(st)
		c.Count("idle_foreign", 1)
	} else {
		why = "pending"
		w.issue()
		w.publish()
		w.chain.mine(int(w.cfg.ConfirmBlocks))
		inject(foreign())
		c.Count("pending_foreign", 1)
	}
	before := dumpStore(c, w.mem)
	for i := 0; i < 2; i++ {
		err := w.is.SyncIdenStatePublic()
		c.Assert(err != nil, "foreign", "%s: a chain state that is neither the pending nor the known one was accepted by sync", why)
		w.check("sync with a foreign chain state")
	}
	_, err := w.tryLoad()
	c.Assert(err != nil, "foreign-load", "%s: a chain state that is neither the pending nor the known one was accepted when loading", why)
	c.Assert(sameDump(before, dumpStore(c, w.mem)), "foreign-store", "a refused sync changed the storage")
	c.Distinct("%s %d %x", why, hops, w.rec().st)
}

// c12levels: each tree has the number of levels the configuration gives it; an
// operation fails exactly when its own tree is too shallow, and changes
// nothing then, also after reloading.
func c12levels(c *C) {
	w := newWorld(c, worldStore(c, c.N))
	defer func() { w.mem.Close() }()
	lv := [3]int{140, 140, 140}
	for i := range lv {
		if c.R.Intn(2) == 0 {
			lv[i] = 2 + c.R.Intn(6)
		}
	}
	lv[c.N%3] = 2 + c.R.Intn(4)
	w.cfg.MaxLevelsClaimsTree, w.cfg.MaxLevelsRevocationTree, w.cfg.MaxLevelsRootsTree = lv[0], lv[1], lv[2]
	c.Logf("levels %v", lv)
	// the genesis claims: all of them or none
	extra := make([]claims.Claimer, c.R.Intn(4))
	pre := make([][8]h32, len(extra))
	t := newRefTree(lv[0])
	pk, err := w.kop.Decompress()
	c.Must(err, "decompress")
	e0 := mkRent(withNonce(rentOf(&claims.NewClaimKeyBabyJub(pk, claims.BabyJubKeyTypeAuthorizeKSign).Entry().Data), 0))
	t.m[e0.hi] = e0
	full := false
	for i := range extra {
		extra[i] = newClaim(w.r, w.r.Intn(4))
		pre[i] = rentOf(&extra[i].Entry().Data)
		e := mkRent(pre[i])
		full = full || !t.fits(e)
		t.m[e.hi] = e
	}
	id, err := issuer.Create(w.cfg, w.kop, extra, w.mem, w.ks)
	if full {
		c.Assert(errors.Is(err, merkletree.ErrReachedMaxLevel), "create-full", "Create with genesis claims that don't fit: %v", err)
		_, err = w.tryLoad()
		c.Assert(err != nil, "create-full", "a refused creation can be loaded")
		c.Count("create_full", 1)
		c.Distinct("%v full %x", lv, e0.hi)
		return
	}
	c.Assert(err == nil, "create", "Create with levels %v: %v", lv, err)
	w.modelCreate(extra, pre)
	c.Assert(*id == w.id, "create-id", "Create returned id %v, the genesis claims give %v", id, w.id)
	w.load()
	hist := ""
	for i := 0; i < 16; i++ {
		switch c.R.Intn(8) {
		case 0, 1, 2:
			cl := newClaim(c.R, i)
			d := rentOf(&cl.Entry().Data)
			if w.claims.fits(mkRent(d)) {
				w.issueClaim(cl)
				hist += "i"
			} else {
				err := w.is.IssueClaim(cl)
				c.Assert(errors.Is(err, merkletree.ErrReachedMaxLevel), "issue-full", "IssueClaim of a claim that does not fit in a claims tree of %d levels: %v", lv[0], err)
				c.Assert(rentOf(&cl.Entry().Data) == d, "issue-full", "a refused issuance changed the claim")
				c.Count("issue_full", 1)
				hist += "I"
			}
			w.check("issue")
		case 3, 4:
			ic := w.issued[c.R.Intn(len(w.issued))]
			if ic.revoked || w.revs.fits(leafRev(ic.nonce)) {
				w.revoke(ic)
				hist += "v"
			} else {
				err := w.is.RevokeClaim(ic.cl)
				c.Assert(errors.Is(err, merkletree.ErrReachedMaxLevel), "revoke-full", "RevokeClaim of a nonce that does not fit in a revocations tree of %d levels: %v", lv[1], err)
				c.Count("revoke_full", 1)
				hist += "V"
			}
			w.check("revoke")
		case 5, 6:
			r, last := w.rec(), w.list[len(w.list)-1]
			l := leafRoot(r.clr)
			if w.pending == (h32{}) && r.clr != last.clr && w.roots.m[l.hi] == nil && !w.roots.fits(l) {
				sent := w.chain.sent()
				err := w.is.PublishState()
				c.Assert(errors.Is(err, merkletree.ErrReachedMaxLevel), "publish-full", "PublishState with a roots tree of %d levels that can not hold the claims root: %v", lv[2], err)
				c.Assert(w.chain.sent() == sent, "publish-full", "a refused publication sent something")
				w.check("refused publication")
				c.Count("publish_full", 1)
				hist += "X"
				continue
			}
			if w.publish() != nil {
				c.Count("published", 1)
			}
			w.chain.mine(int(w.cfg.ConfirmBlocks))
			w.sync()
			hist += "P"
		case 7:
			w.mem = reopenLevel(c, w.mem)
			w.off.reload(nil)
			w.load()
			hist += "r"
		}
	}
	c.Distinct("%v%s", lv, hist)
	c.Sample("levels %v: %s", lv, hist)
}
