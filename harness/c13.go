package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/iden3/go-iden3-core/components/verifier"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/identity/issuer"
	"github.com/iden3/go-iden3-core/merkletree"
)

func init() {
	rules["C13"] = "for each issuer operation on a generated history, the storage, chain and publication calls it makes are counted and the operation is run again once per call and fault kind (error, error after effect, stop before, stop after); each time the durable state is reloaded and compared with the acknowledged claims and revocations and with the live object, and publish/sync rounds without faults must bring the state on chain with its data and credentials; every transaction sent is intercepted and the issuer reloaded from what is durable at that moment; plus random histories with a fault in most steps; distinct = distinct (scenario, world, call, kind)"
	assumptions["C13"] = append(assumptions["C13"], "a storage commit is atomic and one that reports an error had no effect, except in the error-after-effect runs")
	reg(Part{Prop: "C13", Name: "cheap", Quick: 35, Thorough: 600, Need: []string{"faults_fired", "crashes", "errors", "recovered", "carried_on", "created_over"}, Run: c13enum})
	reg(Part{Prop: "C13", Name: "publish", Quick: 32, Thorough: 960, Need: []string{"faults_fired", "crashes", "errors", "recovered", "sends_probed", "ambiguous_sends"}, Run: c13enum})
	reg(Part{Prop: "C13", Name: "chaos", Quick: 48, Thorough: 1500, Need: []string{"faults_fired", "crashes", "errors", "recovered", "sends_probed"}, Run: c13chaos})
}

// fork copies the environment: storage, publisher, chain and model; faults go
// through ctl.
func (w *world) fork(ctl *faultCtl) *world {
	n := *w
	n.mem = copyStore(w.c, w.mem)
	n.ctl = ctl
	n.chain = w.chain.clone()
	n.chain.ctl = ctl
	n.chain.onSend = n.sendProbe
	n.off = w.off.clone()
	if ctl != nil {
		n.off.reload(ctl)
	}
	n.claims, n.revs, n.roots = w.claims.clone(), w.revs.clone(), w.roots.clone()
	n.issued = nil
	for _, ic := range w.issued {
		x := *ic
		n.issued = append(n.issued, &x)
	}
	n.nonces = map[uint32]bool{}
	for k := range w.nonces {
		n.nonces[k] = true
	}
	n.list = append([]*pubRec{}, w.list...)
	n.snaps = map[h32]*refTree{}
	for k, v := range w.snaps {
		n.snaps[k] = v
	}
	n.is = nil
	return &n
}

// snap remembers the claims of the states a publication made now may publish.
func (w *world) snap() {
	r := w.rec()
	w.snaps[r.st] = r.claims
	t := w.roots.clone()
	l := leafRoot(r.clr)
	t.m[l.hi] = l
	w.snaps[refState(r.clr, r.rer, t.root())] = r.claims
}

// sendProbe judges a transaction when it is about to be sent: an issuer
// loaded from what is durable now must be able to serve the new state.
func (w *world) sendProbe(t *chainTx) {
	c := w.c
	c.Assert(t.id == w.id, "sent-id", "the state of another identity is sent: %v", t.id)
	ch := w.chain.clone()
	x := *t
	x.tx = nil
	ch.block++
	ch.ts += 15
	if !ch.valid(&x) {
		c.Assert(w.ambiguous, "sent-invalid", "a transition to %s that the contract must refuse is sent", short(t.st))
		return
	}
	ch.hist[x.id] = append(ch.hist[x.id], chainState{x.st, ch.block, ch.ts})
	mem := copyStore(c, w.mem)
	is, err := issuer.Load(mem, w.ks, ch, zkConf(c), w.off.clone())
	c.Assert(err == nil, "sent-unrecorded", "the state %s is sent to the chain, but an issuer reloaded now does not load: %v", short(t.st), err)
	c.Assert(h32(*is.IdenStateOnChain()) == t.st, "sent-unrecorded", "the state %s is sent to the chain, but an issuer reloaded now does not know it (it knows %s)", short(t.st), short(h32(*is.IdenStateOnChain())))
	w.checkCreds(is, t.st)
	c.Count("sends_probed", 1)
}

// checkCreds: exactly the claims under the state st get a credential.
func (w *world) checkCreds(is *issuer.Issuer, st h32) {
	c := w.c
	in := w.snaps[st]
	c.Assert(in != nil, "unknown-state", "the state %s was never the issuer's", short(st))
	for _, ic := range w.issued {
		cr, err := is.GenCredentialExistence(ic.cl)
		if e := in.m[ic.e.hi]; e != nil {
			c.Assert(err == nil, "no-credential", "no credential for a claim under the state %s: %v", short(st), err)
			c.Assert(h32(*cr.IdenStateData.IdenState) == st, "credential-state", "the credential is for another state")
		} else {
			c.Assert(errors.Is(err, issuer.ErrClaimNotYetInOnChainState), "early-credential", "credential for a claim that is not under the state %s: %v", short(st), err)
		}
	}
}

// observe settles the model on what the durable issuer shows after a fault in
// an operation that may have added claim cl (with preimage pre), revoked rv,
// or added the claims root to the roots tree.
func (w *world) observe(is *issuer.Issuer, acked bool, cl claims.Claimer, pre [8]h32, rv *issuedClaim, ctx string) {
	c := w.c
	_, roots := is.State()
	if got := h32(*roots.ClaimsTreeRoot); cl != nil && got != w.claims.root() {
		found := false
		for n := uint32(0); n < 80 && !found; n++ {
			if w.nonces[n] {
				continue
			}
			e := mkRent(withNonce(pre, n))
			t := w.claims.clone()
			t.m[e.hi] = e
			if t.root() == got {
				found = true
				w.addIssued(claims.NewClaimGeneric(e.entry()), e.d)
			}
		}
		c.Assert(found, "lost-claims", "%s: the claims tree is neither the old one nor the one with the claim", ctx)
	} else if cl != nil && acked {
		c.Fail("lost-claim", "%s: the acknowledged claim is not there", ctx)
	}
	c.Assert(h32(*roots.ClaimsTreeRoot) == w.claims.root(), "lost-claims", "%s: the claims tree has root %s instead of %s", ctx, short(h32(*roots.ClaimsTreeRoot)), short(w.claims.root()))
	if got := h32(*roots.RevocationsTreeRoot); rv != nil && got != w.revs.root() {
		w.markRevoked(rv)
	} else if rv != nil && acked {
		c.Fail("lost-revocation", "%s: the acknowledged revocation is not there", ctx)
	}
	c.Assert(h32(*roots.RevocationsTreeRoot) == w.revs.root(), "lost-revocations", "%s: the revocations tree has root %s instead of %s", ctx, short(h32(*roots.RevocationsTreeRoot)), short(w.revs.root()))
	if got := h32(*roots.RootsTreeRoot); got != w.roots.root() {
		l := leafRoot(w.claims.root())
		w.roots.m[l.hi] = l
		c.Assert(got == w.roots.root(), "roots-root", "%s: the roots tree is neither the old one nor the one with the current claims root", ctx)
	}
}

type isView struct {
	st, clr, rer, ror, oc, pend h32
	blockN                      uint64
	ts                          int64
	tr                          bool
}

func viewOf(is *issuer.Issuer) (v isView) {
	st, r := is.State()
	oc := is.StateDataOnChain()
	p, tr := is.IdenStatePending()
	return isView{h32(*st), h32(*r.ClaimsTreeRoot), h32(*r.RevocationsTreeRoot), h32(*r.RootsTreeRoot), h32(*oc.IdenState), h32(*p), oc.BlockN, oc.BlockTs, tr}
}

func (v isView) String() string {
	return fmt.Sprintf("state %s (claims %s revs %s roots %s) on chain %s@%d pending %s/%v", short(v.st), short(v.clr), short(v.rer), short(v.ror), short(v.oc), v.blockN, short(v.pend), v.tr)
}

// agree: after an error the live issuer is what a reload would be.
func (w *world) agree(ctx string) {
	c := w.c
	c.Assert(w.is.SyncIdenStatePublic() == nil, "sync-after-error", "%s: SyncIdenStatePublic of the live issuer fails once the faults stopped: %v", ctx, w.is.SyncIdenStatePublic())
	re, err := issuer.Load(copyStore(c, w.mem), w.ks, w.chain.clone(), zkConf(c), w.off.clone())
	c.Assert(err == nil, "load", "%s: reloading: %v", ctx, err)
	a, b := viewOf(w.is), viewOf(re)
	c.Assert(a == b, "live-differs", "%s: the live issuer is at %v, a reloaded one at %v", ctx, a, b)
}

// reached: an operation that reports success did what it is for.
func (w *world) reached(name, ctx string) {
	c, v := w.c, viewOf(w.is)
	switch {
	case strings.HasPrefix(name, "publish"):
		t := w.chain.txOf(v.pend)
		c.Assert(v.pend != h32{} && v.tr && t != nil && !t.mined, "unpublished", "%s: PublishState reports success, the issuer is at %v and the transaction is %v", ctx, v, t)
	case name == "sync" || name == "load":
		c.Assert(v.pend == h32{} || !v.tr, "unsynchronised", "%s: the synchronisation reports success with a transaction settled on the chain, the issuer is at %v", ctx, v)
	}
}

// reload loads the issuer from what is durable, as a restarted process.
func (w *world) reload(ctx string) {
	w.ctl = nil
	w.off.reload(nil)
	w.chain.ctl = nil
	is, err := w.tryLoad()
	w.c.Assert(err == nil, "load", "%s: the issuer does not load: %v", ctx, err)
	w.is = is
}

// recover brings the current state on chain without faults.
func (w *world) recover(ctx string) {
	c := w.c
	ok := false
	for i := 0; i < 5 && !ok; i++ {
		w.snap()
		perr := w.is.PublishState()
		// whoever stops while the transaction is pending must find all
		// that the chain confirmed before
		w.agree(ctx + ", once published")
		w.chain.mine(int(w.cfg.ConfirmBlocks))
		serr := w.is.SyncIdenStatePublic()
		c.Assert(serr == nil, "sync-recovery", "%s: SyncIdenStatePublic fails once the faults stopped: %v", ctx, serr)
		c.Logf("recovery: publish: %v; %v", perr, viewOf(w.is))
		v := viewOf(w.is)
		ok = v.st == v.oc && v.st == w.chain.cur(w.id) && v.pend == (h32{})
		if len(w.chain.hist[w.id]) == 0 && len(w.issued) == len(w.list[0].claims.m) && len(w.revs.m) == 0 {
			return // still the genesis state: nothing to publish
		}
	}
	c.Assert(ok, "wedged", "%s: five rounds of publish and sync do not bring the issuer's state on chain: %v, on chain %s", ctx, viewOf(w.is), short(w.chain.cur(w.id)))
	w.observe(w.is, false, nil, [8]h32{}, nil, ctx)
	v := viewOf(w.is)
	c.Assert(v.clr == w.claims.root() && v.rer == w.revs.root(), "recovered-state", "%s: the recovered state is not the one of the acknowledged operations", ctx)
	pd, err := w.off.GetPublicData(offURL, &w.id, hsh(v.st))
	c.Assert(err == nil, "no-public-data", "%s: the state %s is on chain, its public data is not available: %v", ctx, short(v.st), err)
	sameTree(c, pd.RevocationsTree, w.revs, nil, "revocations published after recovery")
	sameTree(c, pd.RootsTree, w.roots, nil, "roots published after recovery")
	w.checkCreds(w.is, v.st)
	ver := verifier.New(w.chain)
	for _, ic := range w.issued {
		cr, err := w.is.GenCredentialExistence(ic.cl)
		c.Assert(err == nil && ver.VerifyCredentialExistence(cr) == nil, "credential", "%s: a credential made after recovery does not verify", ctx)
	}
	c.Count("recovered", 1)
}

// scen is an operation under faults.
type scen struct {
	name string
	w    *world
	prep func(n *world)                // before the operation, on a fork
	run  func(n *world) (err error)    // the operation
	cl   func(n *world) claims.Claimer // claim being issued
	rv   func(n *world) *issuedClaim   // claim being revoked
	load func(n *world) func() error   // the operation is loading
}

const c13slices = 8

func c13enum(c *C) {
	heavy := c.P.Name == "publish"
	slice, group := c.N%c13slices, c.N/c13slices
	kind := group
	if !heavy {
		slice, group = 0, c.N
		kind = c.N % 5
	} else {
		kind = 10 + group%4
	}
	c.R = newRand(runSeed*1000003 + int64(group)*31 + int64(kind))
	w := newWorld(c, db.NewMemoryStorage())
	w.snaps = map[h32]*refTree{}
	var cl claims.Claimer
	var rv int
	s := scen{w: w}
	hops := func(n int) {
		w.create(c.R.Intn(3))
		w.snap()
		for i := 0; i < n; i++ {
			w.issue()
			if c.R.Intn(2) == 0 {
				w.revoke(w.issued[c.R.Intn(len(w.issued))])
			}
			w.snap()
			w.settle()
		}
	}
	pendingTx := func(n int) { // a sent transaction, and newer changes
		hops(n)
		w.issue()
		w.snap()
		w.publish()
		if c.R.Intn(2) == 0 {
			w.issue()
		}
		w.snap()
	}
	switch kind {
	case 0:
		c13create(c)
		return
	case 1:
		s.name = "issue"
		hops(c.R.Intn(2))
		cl = newClaim(c.R, c.R.Intn(4))
		s.run = func(n *world) error { return n.is.IssueClaim(cl) }
	case 2:
		s.name = "revoke"
		hops(c.R.Intn(2))
		w.issue()
		rv = c.R.Intn(len(w.issued))
		for w.issued[rv].revoked {
			rv = c.R.Intn(len(w.issued))
		}
		s.rv = func(n *world) *issuedClaim { return n.issued[rv] }
		s.run = func(n *world) error { return n.is.RevokeClaim(n.issued[rv].cl) }
	case 3:
		s.name = "sync"
		pendingTx(c.R.Intn(2))
		fail := c.R.Intn(3) == 0
		s.prep = func(n *world) {
			if fail {
				n.chain.failTx = 1
			}
			n.chain.mine(int(n.cfg.ConfirmBlocks))
		}
		s.run = func(n *world) error { return n.is.SyncIdenStatePublic() }
	case 4:
		s.name = "load"
		pendingTx(c.R.Intn(2))
		fail := c.R.Intn(3) == 0
		s.prep = func(n *world) {
			if fail {
				n.chain.failTx = 1
			}
			n.chain.mine(int(n.cfg.ConfirmBlocks))
		}
		s.run = func(n *world) error {
			is, err := n.tryLoad()
			if err == nil {
				n.is = is
			}
			return err
		}
	case 10:
		s.name = "publish-first"
		hops(0)
		w.issue()
		w.revoke(w.issued[c.R.Intn(len(w.issued))])
		s.run = func(n *world) error { return n.is.PublishState() }
	case 11:
		s.name = "publish-next"
		hops(1)
		w.issue()
		s.run = func(n *world) error { return n.is.PublishState() }
	case 12:
		s.name = "publish-revocation-only"
		hops(1)
		w.issued[0].revoked = false
		for _, ic := range w.issued {
			l := leafRev(ic.nonce)
			if w.revs.m[l.hi] == nil {
				w.revoke(ic)
				break
			}
		}
		if w.rec().st == w.onchain.st {
			return
		}
		s.run = func(n *world) error { return n.is.PublishState() }
	case 13:
		s.name = "publish-again-after-failed-tx"
		pendingTx(c.R.Intn(2))
		w.chain.failTx = 1
		w.chain.mine(0)
		w.sync()
		w.issue()
		s.run = func(n *world) error { return n.is.PublishState() }
	}
	w.snap()
	start := func(ctl *faultCtl) *world {
		n := w.fork(ctl)
		is, err := n.tryLoad()
		c.Assert(err == nil, "load", "Load: %v", err)
		n.is = is
		if s.prep != nil {
			s.prep(n)
		}
		return n
	}
	pre := [8]h32{}
	if cl != nil {
		pre = rentOf(&cl.Entry().Data)
	}
	// dry run
	ctl := newCtl()
	n := start(ctl)
	ctl.arm(-1, fkNone, nil)
	err := s.run(n)
	ctl.disarm()
	c.Assert(err == nil, "dry", "%s without faults: %v", s.name, err)
	ops := append([]string{}, ctl.ops...)
	c.Logf("%s: %d calls %v", s.name, len(ops), ops)
	c.Sample("%s: %d calls: %s", s.name, len(ops), strings.Join(ops, " "))
	point := 0
	reads := 0
	for i, op := range ops {
		effect := strings.Contains(op, "commit") || op == "off:publish" || op == "chain:setstate" || op == "chain:initstate"
		for _, kind := range faultKinds {
			brief := false // without the recovery
			if !effect {
				if kind != fkError && (heavy || kind != fkCrashBefore) {
					continue
				}
				if heavy && c.Tier == "quick" {
					reads++
					brief = reads%6 != 0
				}
			}
			point++
			if heavy && point%c13slices != slice {
				continue
			}
			if cl != nil {
				cl = claims.NewClaimGeneric(mkRent(pre).entry())
			}
			c13point(c, s, start, i, op, kind, cl, pre, brief)
		}
	}
}

func c13point(c *C, s scen, start func(*faultCtl) *world, i int, op string, kind faultKind, cl claims.Claimer, pre [8]h32, brief bool) {
	ctx := fmt.Sprintf("%s, %v at call %d (%s)", s.name, kind, i, op)
	c.Logf("---- %s", ctx)
	ctl := newCtl()
	ctl.noTrace = true
	n := start(ctl)
	n.ambiguous = true
	ctl.arm(i, kind, nil)
	var err error
	crashed := runCrash(func() { err = s.run(n) })
	fired := ctl.fired
	ctl.disarm()
	ctl.dead = false
	if fired {
		c.Count("faults_fired", 1)
	}
	if (kind == fkErrorAfter || kind == fkCrashAfter) && (op == "chain:setstate" || op == "chain:initstate") {
		c.Count("ambiguous_sends", 1)
	}
	c.Distinct("%s|%x|%d|%v", s.name, s.w.rec().st, i, kind)
	var rv *issuedClaim
	if s.rv != nil {
		rv = s.rv(n)
	}
	acked := !crashed && err == nil
	carry := false // the live issuer goes on with further states
	switch {
	case crashed:
		c.Count("crashes", 1)
		n.reload(ctx)
		n.observe(n.is, acked, cl, pre, rv, ctx)
	case err != nil:
		c.Count("errors", 1)
		c.Assert(errors.Is(err, errInjected) || strings.Contains(err.Error(), errInjected.Error()), "error-lost", "%s: reported as %v", ctx, err)
		if s.name != "load" && kind == fkError {
			n.agree(ctx)
			if s.name == "sync" || s.name == "publish-again-after-failed-tx" {
				carry = c.R.Intn(4) > 0
			}
			if !carry && c.R.Intn(2) == 0 {
				n.reload(ctx)
			}
		} else {
			n.reload(ctx)
		}
		n.observe(n.is, false, cl, pre, rv, ctx)
	default:
		n.reached(s.name, ctx)
		n.observe(n.is, true, cl, pre, rv, ctx)
		n.agree(ctx)
	}
	// repeat what was not acknowledged
	if rv != nil && !rv.revoked {
		rerr := n.is.RevokeClaim(rv.cl)
		c.Assert(rerr == nil, "retry", "%s: repeating the revocation: %v", ctx, rerr)
		n.markRevoked(rv)
	}
	if cl != nil && len(n.issued) == len(s.w.issued) {
		n.issueClaim(cl)
	}
	if carry {
		c.Count("carried_on", 1)
		n.issue()
	} else if brief || c.P.Name == "cheap" && c.Tier == "quick" && c.R.Intn(4) > 0 {
		c.Assert(n.is.SyncIdenStatePublic() == nil, "sync-recovery", "%s: SyncIdenStatePublic fails once the faults stopped", ctx)
		return
	}
	n.recover(ctx)
	if c.R.Intn(6) == 0 {
		n.issue()
		n.reload(ctx)
		n.recover(ctx + ", and one more claim")
	}
}

// c13create: creation under faults.
func c13create(c *C) {
	mk := func() []claims.Claimer {
		r := newRand(int64(c.N))
		l := make([]claims.Claimer, r.Intn(3))
		for i := range l {
			l[i] = newClaim(r, i)
		}
		return l
	}
	w := newWorld(c, db.NewMemoryStorage())
	ctl := newCtl()
	w.ctl = ctl
	ctl.arm(-1, fkNone, nil)
	want, err := issuer.Create(w.cfg, w.kop, mk(), w.storage(), w.ks)
	ctl.disarm()
	c.Assert(err == nil, "create", "%v", err)
	ops := append([]string{}, ctl.ops...)
	c13over(c, w, mk)
	for i, op := range ops {
		for _, kind := range faultKinds {
			isCommit := strings.Contains(op, "commit")
			if !isCommit && (kind == fkErrorAfter || kind == fkCrashAfter) {
				continue
			}
			ctx := fmt.Sprintf("create, %v at call %d (%s)", kind, i, op)
			n := newWorld(c, db.NewMemoryStorage())
			n.sk, n.ks, n.kop, n.cfg = w.sk, w.ks, w.kop, w.cfg
			n.snaps = map[h32]*refTree{}
			ctl := newCtl()
			n.ctl = ctl
			ctl.arm(i, kind, nil)
			l := mk()
			var err error
			crashed := runCrash(func() { _, err = issuer.Create(n.cfg, n.kop, l, n.storage(), n.ks) })
			if ctl.fired {
				c.Count("faults_fired", 1)
			}
			ctl.disarm()
			n.ctl = nil
			if crashed {
				c.Count("crashes", 1)
			} else if err != nil {
				c.Count("errors", 1)
			}
			c.Distinct("create|%d|%d|%v", c.N, i, kind)
			// repeat the creation, unless the issuer is there
			l2 := mk()
			pre := make([][8]h32, len(l2))
			for j := range l2 {
				pre[j] = rentOf(&l2[j].Entry().Data)
			}
			_, lerr := n.tryLoad()
			id, cerr := issuer.Create(n.cfg, n.kop, l2, n.mem, n.ks)
			if lerr == nil {
				c.Assert(cerr != nil, "create-existing", "%s: an issuer was created over an existing one", ctx)
				id = want
				for j := range l2 {
					l2[j].Metadata().RevNonce = uint32(j + 1)
				}
			} else {
				c.Assert(crashed || err != nil, "create-lost", "%s: the acknowledged issuer does not load: %v", ctx, lerr)
				c.Assert(cerr == nil, "create-wedged", "%s: the issuer neither loads (%v) nor can it be created again: %v", ctx, lerr, cerr)
			}
			n.modelCreate(l2, pre)
			c.Assert(*id == *want && n.id == *want, "create-id", "%s: creating again gives another id", ctx)
			n.load()
			n.issue()
			n.recoverOr(c, ctx, i)
		}
	}
}

// c13over: creating again where an issuer is, with a fault at every call,
// neither succeeds nor changes what is there.
func c13over(c *C, w *world, mk func() []claims.Claimer) {
	other := newWorld(c, db.NewMemoryStorage())
	for i := 0; i < 40; i++ {
		for _, kind := range faultKinds {
			mem := copyStore(c, w.mem)
			ctl := newCtl()
			ctl.arm(i, kind, nil)
			var err error
			crashed := runCrash(func() {
				_, err = issuer.Create(other.cfg, other.kop, mk(), newFaultStore(mem, ctl), other.ks)
			})
			fired := ctl.fired
			ctl.disarm()
			ctx := fmt.Sprintf("create over an issuer, %v at call %d (%s)", kind, i, ctl.firedOp)
			c.Assert(crashed || err != nil, "create-existing", "%s: succeeds", ctx)
			a, b := dumpStore(c, w.mem), dumpStore(c, mem)
			c.Assert(a == b, "create-existing", "%s: the stored issuer changed", ctx)
			if !fired {
				return
			}
			c.Count("created_over", 1)
		}
	}
}

// recoverOr runs the expensive recovery for some points only.
func (w *world) recoverOr(c *C, ctx string, i int) {
	if c.R.Intn(8) == 0 {
		w.recover(ctx)
	}
}

func c13chaos(c *C) {
	w := newWorld(c, db.NewMemoryStorage())
	w.snaps = map[h32]*refTree{}
	w.create(c.R.Intn(3))
	w.snap()
	w.chain.onSend = w.sendProbe
	w.ambiguous = true
	hist := ""
	steps := 8 + c.R.Intn(8)
	var ctl *faultCtl
	keep := false // the live issuer is used for the next step
	for i := 0; i < steps; i++ {
		arm := c.R.Intn(3) > 0
		if !keep || c.R.Intn(3) == 0 {
			ctl = newCtl()
			ctl.noTrace = true
			w.ctl = ctl
			w.off.reload(ctl)
			w.chain.ctl = ctl
			if is, err := w.tryLoad(); err != nil {
				c.Fail("load", "step %d: Load: %v", i, err)
			} else {
				w.is = is
			}
		} else {
			c.Count("carried_on", 1)
			w.agree(fmt.Sprintf("before step %d", i))
		}
		w.observe(w.is, false, nil, [8]h32{}, nil, "reload")
		kind := faultKinds[c.R.Intn(4)]
		var cl claims.Claimer
		var pre [8]h32
		var rv *issuedClaim
		var run func() error
		name := ""
		reach := 10
		switch c.R.Intn(8) {
		case 0, 1:
			name = "issue"
			cl = newClaim(c.R, i)
			pre = rentOf(&cl.Entry().Data)
			run = func() error { return w.is.IssueClaim(cl) }
		case 2:
			name = "revoke"
			rv = w.issued[c.R.Intn(len(w.issued))]
			if rv.revoked {
				rv = nil
				continue
			}
			run = func() error { return w.is.RevokeClaim(rv.cl) }
		case 3, 4, 5:
			name = "publish"
			w.snap()
			reach = 60
			run = func() error { return w.is.PublishState() }
		case 6, 7:
			name = "sync"
			if c.R.Intn(4) == 0 {
				w.chain.failTx = 1
			}
			w.chain.mine(c.R.Intn(int(w.cfg.ConfirmBlocks) + 2))
			reach = 5
			run = func() error { return w.is.SyncIdenStatePublic() }
		}
		at := -1
		if arm {
			at = c.R.Intn(reach)
		}
		if name == "publish" && c.R.Intn(2) == 0 { // aim at the calls with effects
			at = c.R.Intn(8)
			ctl.arm(at, kind, func(op string) bool {
				return strings.Contains(op, "commit") || op == "off:publish" || op == "chain:setstate" || op == "chain:initstate"
			})
		} else {
			ctl.arm(at, kind, nil)
		}
		var err error
		crashed := runCrash(func() { err = run() })
		fired := ctl.fired
		ctl.disarm()
		ctl.dead = false
		ctx := fmt.Sprintf("step %d: %s, %v at call %d (%s)", i, name, kind, at, ctl.firedOp)
		c.Logf("%s: crashed %v, err %v", ctx, crashed, err)
		if fired {
			c.Count("faults_fired", 1)
		}
		hist += fmt.Sprintf("%s/%v/%v/%v;", name, fired, crashed, err != nil)
		if !fired && err != nil {
			ok := name == "publish" && (errors.Is(err, issuer.ErrIdenStatePendingNotNil) || errors.Is(err, errReverted))
			c.Assert(ok, "unexpected-error", "%s: %v without any fault", ctx, err)
		}
		keep = !crashed
		if v := viewOf(w.is); name == "publish" && !crashed && err == nil && v.st != v.oc && v.st != w.list[0].st {
			w.reached(name, ctx)
		}
		if crashed {
			c.Count("crashes", 1)
			w.reload(ctx)
		} else if err != nil {
			c.Count("errors", 1)
			if kind != fkErrorAfter {
				w.agree(ctx)
			} else {
				w.reload(ctx)
				keep = false
			}
		} else {
			w.agree(ctx)
		}
		w.observe(w.is, !crashed && err == nil, cl, pre, rv, ctx)
		if oc := h32(*w.is.IdenStateOnChain()); oc != (h32{}) {
			w.checkCreds(w.is, oc)
		}
	}
	w.reload("at the end")
	w.observe(w.is, false, nil, [8]h32{}, nil, "at the end")
	w.chain.failTx = 0
	w.recover("at the end")
	c.Distinct("%s", hist)
	c.Sample("%s", hist)
}

var _ = merkletree.ErrEntryIndexNotFound
