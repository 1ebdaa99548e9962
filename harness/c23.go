package main

import (
	"errors"
	"fmt"
	"math/big"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/iden3/go-iden3-core/components/idenpuboffchain"
	"github.com/iden3/go-iden3-core/components/verifier"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/identity/holder"
	"github.com/iden3/go-iden3-core/identity/issuer"
	"github.com/iden3/go-iden3-core/keystore"
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-crypto/babyjub"
	"github.com/iden3/go-iden3-crypto/poseidon"
)

func init() {
	rules["C23"] = "several goroutines use one issuer at once (issue, also the same index from several of them, revoke, publish, sync, read states, generate existence credentials) over a delaying storage while another one mines, with confirmations and failing transactions; the recorded history is checked for linearizability against a model of claims, revocations, published history, pending and on-chain state whose roots are recomputed independently, the transactions are checked against the state each one follows, and the issuer is loaded again at the end and compared; likewise one keystore (import, unlock, sign, export, list) against a model of keys and passwords; plus the off-chain writer, the registry, the nonce generator and a whole system of two issuers, a holder and verifiers in the race-detector build; distinct = distinct final states and histories"
	assumptions["C23"] = []string{
		"goroutines share the components, not the claims, entries and credentials they pass or get",
		"schedules are those the Go scheduler and random delays at the storage produce, not all",
		"the circuits are stand-ins of the real ones (see DESIGN.md)",
	}
	is := []string{"history", "issued", "issue_refused", "revoked", "published", "publish_pending", "promoted", "credentials", "reloaded", "overlapping"}
	reg(Part{Prop: "C23", Name: "issuer", Quick: 90, Thorough: 2000, Need: append(is, "tx_failed"), Run: c23issuer})
	reg(Part{Prop: "C23", Name: "issuer-race", Race: true, Quick: 12, Thorough: 200, Need: is[:len(is)-1], Run: c23issuer})
	ks := []string{"history", "imported", "unlocked", "refused", "signed", "locked", "overlapping"}
	reg(Part{Prop: "C23", Name: "keystore", Quick: 300, Thorough: 6000, Need: ks, Run: c23ks})
	reg(Part{Prop: "C23", Name: "keystore-race", Race: true, Quick: 40, Thorough: 600, Need: ks, Run: c23ks})
	reg(Part{Prop: "C23", Name: "keystore-close-race", Race: true, Quick: 30, Thorough: 300, Need: []string{"signed", "after_close"}, Run: c23close})
	reg(Part{Prop: "C23", Name: "system-race", Race: true, Quick: 5, Thorough: 60, Workers: 4, Need: []string{"issuers_loaded", "verified", "published", "reads"}, Run: c23system})
	reg(Part{Prop: "C23", Name: "writer-race", Race: true, Quick: 12, Thorough: 300, Workers: 2, Need: []string{"concurrent_reads", "overlapped"}, Run: c16conc})
	reg(Part{Prop: "C23", Name: "registry-race", Race: true, Quick: 10, Thorough: 200, Workers: 2, Need: []string{"concurrent_reads", "concurrent_same", "concurrent_other"}, Run: c17conc})
	reg(Part{Prop: "C23", Name: "nonces-race", Race: true, Quick: 20, Thorough: 500, Need: []string{"nonces", "claims"}, Run: c11conc})
}

// isSt is the state of the issuer model (comparable).
type isSt struct {
	cm, rm uint64 // claims issued and revoked, by number
	hist   string // published history after the genesis state: "cm,rm;" each
	pend   int8   // the last of hist is 0: not pending, 1: pending, 2: sent
	on     int8   // number of the state known on chain, -1: none
	sends  int8   // transactions sent so far
}

// isModel computes the roots of model states after a run.
type isModel struct {
	claims, revs maskTree
	gm           uint64 // genesis claims
	rootsMemo    map[string]h32
	cands        map[[2]string]h32
}

type cmrm struct{ cm, rm uint64 }

func histOf(s string) (l []cmrm) {
	for _, x := range strings.Split(s, ";") {
		if i := strings.IndexByte(x, ','); i > 0 {
			a, _ := strconv.ParseUint(x[:i], 36, 64)
			b, _ := strconv.ParseUint(x[i+1:], 36, 64)
			l = append(l, cmrm{a, b})
		}
	}
	return l
}

func (m *isModel) full(s string) []cmrm { return append([]cmrm{{m.gm, 0}}, histOf(s)...) }

func (m *isModel) rootsRoot(l []cmrm) h32 {
	t := newRefTree(140)
	k := ""
	for _, x := range l {
		lr := leafRoot(m.claims.root(x.cm))
		t.m[lr.hi] = lr
		k += fmt.Sprint(x.cm, " ")
	}
	if h, ok := m.rootsMemo[k]; ok {
		return h
	}
	h := t.root()
	m.rootsMemo[k] = h
	return h
}

// roots gives the state and roots of claims cm, revocations rm after history l.
func (m *isModel) roots(l []cmrm, cm, rm uint64) (st, clr, rer, ror h32) {
	clr, rer, ror = m.claims.root(cm), m.revs.root(rm), m.rootsRoot(l)
	k := [2]string{string(clr[:]) + string(rer[:]), string(ror[:])}
	if h, ok := m.cands[k]; ok {
		return h, clr, rer, ror
	}
	st = refState(clr, rer, ror)
	m.cands[k] = st
	return st, clr, rer, ror
}

// stateNo is the state published as number i.
func (m *isModel) stateNo(s string, i int) h32 {
	l := m.full(s)
	h, _, _, _ := m.roots(l[:i+1], l[i].cm, l[i].rm)
	return h
}

type minedAt struct {
	inv, ret int64
	block    uint64
	txs      int
}

func c23issuer(c *C) {
	st := worldStore(c, c.N)
	defer st.Close()
	w := newWorld(c, st)
	w.chain.onSend = nil
	w.cfg.ConfirmBlocks = uint64(c.R.Intn(3))
	w.create(c.R.Intn(3))
	prePub := c.R.Intn(3) == 0
	for i := 0; i < 2; i++ {
		w.issue()
	}
	if prePub {
		w.settle()
	}
	lazy := lazyStore{st, []int{0, 5, 25}[c.R.Intn(3)]}
	is, err := issuer.Load(lazy, w.ks, w.chain, zkConf(c), w.off)
	c.Assert(err == nil, "load", "%v", err)

	const nG = 5
	nOps := 5 + c.R.Intn(5)
	if c.P.Race {
		nOps = 4 + c.R.Intn(4)
	}
	// what the claims are, filled in while running: slot g*nOps+n of goroutine g
	base := len(w.issued)
	slots := make([]*rent, base+nG*nOps)
	for i, ic := range w.issued {
		slots[i] = ic.e
	}
	for len(slots) > 64 {
		c.Broken("too many slots")
	}
	m := &isModel{rootsMemo: map[string]h32{}, cands: map[[2]string]h32{}}
	var s0 isSt
	for i := 0; i < base; i++ {
		s0.cm |= 1 << uint(i)
		if i < base-2 {
			m.gm |= 1 << uint(i)
		}
	}
	s0.on = -1
	if prePub {
		s0.hist = fmt.Sprintf("%s,%s;", strconv.FormatUint(s0.cm, 36), strconv.FormatUint(0, 36))
		s0.on, s0.sends = 1, 1
	}
	if c.R.Intn(3) == 0 {
		w.chain.failTx = 1
	}
	chain0 := w.chain.sent()
	// contested claims: index fixed, any goroutine may issue one
	var contested [][8]h32
	for i := 0; i < 2; i++ {
		contested = append(contested, rentOf(&newClaim(c.R, c.R.Intn(3)).Entry().Data))
	}
	hiOf := func(d [8]h32) h32 { return mkRent(d).hi }
	contHi := []h32{hiOf(contested[0]), hiOf(contested[1])}

	hist := make([][]linOp, nG+1)
	type credSeen struct {
		cr *proof.CredentialExistence
		e  *rent
	}
	creds := make([][]credSeen, nG)
	start := make(chan struct{})
	var mined []minedAt
	var running sync.WaitGroup
	step := func(f func(s isSt) []isSt) func(interface{}) []interface{} {
		return func(s interface{}) []interface{} {
			var o []interface{}
			for _, x := range f(s.(isSt)) {
				o = append(o, x)
			}
			return o
		}
	}
	same := func(ok func(s isSt) bool) func(isSt) []isSt {
		return func(s isSt) []isSt {
			if ok(s) {
				return []isSt{s}
			}
			return nil
		}
	}
	// sharing tells the claim of s.cm with the index hi
	sharing := func(s isSt, hi h32) (int, bool) {
		for i := range slots {
			if s.cm>>uint(i)&1 == 1 && slots[i].hi == hi {
				return i, true
			}
		}
		return 0, false
	}
	var syncOp func(inv, ret int64, ok bool) func(isSt) []isSt
	do := func(g int, name string, f func() func(isSt) []isSt) {
		inv := linNow()
		st := f()
		ret := linNow()
		hist[g] = append(hist[g], linOp{inv, ret, name, step(st)})
	}
	publish := func(g int, t tally) {
		do(g, "publish", func() func(isSt) []isSt {
			err := is.PublishState()
			switch {
			case err == nil:
				t["published"]++
				return func(s isSt) []isSt {
					switch s.pend {
					case 2:
						return nil
					case 1:
						s.pend = 2
						s.sends++
						return []isSt{s}
					}
					l := m.full(s.hist)
					if x := l[len(l)-1]; x.cm == s.cm && x.rm == s.rm {
						return []isSt{s}
					}
					s.hist += fmt.Sprintf("%s,%s;", strconv.FormatUint(s.cm, 36), strconv.FormatUint(s.rm, 36))
					s.pend = 2
					s.sends++
					return []isSt{s}
				}
			case errors.Is(err, issuer.ErrIdenStatePendingNotNil):
				t["publish_pending"]++
				return same(func(s isSt) bool { return s.pend == 2 })
			}
			c.Fail("c23:publish", "PublishState: %v", err)
			return nil
		})
	}
	doSync := func(g int, t tally) {
		inv := linNow()
		err := is.SyncIdenStatePublic()
		ret := linNow()
		c.Assert(err == nil, "c23:sync", "SyncIdenStatePublic: %v", err)
		hist[g] = append(hist[g], linOp{inv, ret, "sync", step(syncOp(inv, ret, true))})
	}
	for g := 0; g < nG; g++ {
		g := g
		r := newRand(c.R.Int63())
		running.Add(1)
		var cls []claims.Claimer
		for i := 0; i < nOps; i++ {
			cls = append(cls, newClaim(c.R, c.R.Intn(8)))
		}
		c.Go(func() {
			defer running.Done()
			t := tally{}
			defer t.flush(c)
			<-start
			mine := []*rent{}
			for n := 0; n < nOps; n++ {
				slot := base + g*nOps + n
				known := append([]*rent{slots[r.Intn(base)]}, mine...)
				target := known[r.Intn(len(known))]
				switch op := r.Intn(16); {
				case op < 5:
					cl := cls[n]
					cont := -1
					if r.Intn(3) == 0 {
						cont = r.Intn(len(contested))
						d := contested[cont]
						d[5][0] = byte(r.Intn(200)) // another value, same index
						cl = claims.NewClaimGeneric(mkRent(d).entry())
					}
					pre := rentOf(&cl.Entry().Data)
					do(g, fmt.Sprintf("issue(%d)", slot), func() func(isSt) []isSt {
						err := is.IssueClaim(cl)
						if errors.Is(err, merkletree.ErrEntryIndexAlreadyExists) && cont >= 0 {
							t["issue_refused"]++
							c.Assert(rentOf(&cl.Entry().Data) == pre, "c23:failed_issue", "a refused claim was changed")
							return same(func(s isSt) bool { _, ok := sharing(s, contHi[cont]); return ok })
						}
						c.Assert(err == nil, "c23:issue", "IssueClaim: %v", err)
						t["issued"]++
						got := rentOf(&cl.Entry().Data)
						c.Assert(got == withNonce(pre, cl.Metadata().RevNonce), "c23:issue_claim", "IssueClaim changed more than the nonce of the claim")
						e := mkRent(got)
						slots[slot] = e
						mine = append(mine, e)
						return func(s isSt) []isSt {
							if _, ok := sharing(s, e.hi); ok {
								return nil
							}
							s.cm |= 1 << uint(slot)
							return []isSt{s}
						}
					})
				case op < 7:
					do(g, "revoke", func() func(isSt) []isSt {
						err := is.RevokeClaim(entrier{target.entry()})
						switch {
						case err == nil:
							t["revoked"]++
							return func(s isSt) []isSt {
								i, ok := sharing(s, target.hi)
								if !ok || s.rm>>uint(i)&1 == 1 {
									return nil
								}
								s.rm |= 1 << uint(i)
								return []isSt{s}
							}
						case errors.Is(err, merkletree.ErrEntryIndexAlreadyExists):
							return same(func(s isSt) bool { i, ok := sharing(s, target.hi); return ok && s.rm>>uint(i)&1 == 1 })
						}
						c.Fail("c23:revoke", "RevokeClaim of an issued claim: %v", err)
						return nil
					})
				case op == 7 || op == 8 && g == 0:
					publish(g, t)
				case op < 10:
					doSync(g, t)
				case op < 12:
					do(g, "state", func() func(isSt) []isSt {
						h, rs := is.State()
						a, b, d := h32(*rs.ClaimsTreeRoot), h32(*rs.RevocationsTreeRoot), h32(*rs.RootsTreeRoot)
						return same(func(s isSt) bool {
							st, x, y, z := m.roots(m.full(s.hist), s.cm, s.rm)
							return h32(*h) == st && a == x && b == y && d == z
						})
					})
				case op == 12:
					do(g, "onchain", func() func(isSt) []isSt {
						h := h32(*is.IdenStateOnChain())
						return same(func(s isSt) bool {
							if s.on < 0 {
								return h == h32{}
							}
							return m.stateNo(s.hist, int(s.on)) == h
						})
					})
				case op == 13:
					do(g, "pending", func() func(isSt) []isSt {
						p, tr := is.IdenStatePending()
						h := h32(*p)
						return same(func(s isSt) bool {
							if s.pend == 0 {
								return h == h32{} && !tr
							}
							return tr == (s.pend == 2) && m.stateNo(s.hist, len(histOf(s.hist))) == h
						})
					})
				default:
					e := target
					do(g, "credential", func() func(isSt) []isSt {
						cr, err := is.GenCredentialExistence(entrier{e.entry()})
						in := func(s isSt, mask uint64) bool {
							i, ok := sharing(isSt{cm: s.cm}, e.hi)
							return ok && mask>>uint(i)&1 == 1 && slots[i].d == e.d
						}
						switch {
						case err == nil:
							h := h32(*cr.IdenStateData.IdenState)
							creds[g] = append(creds[g], credSeen{cr, e})
							t["credentials"]++
							return same(func(s isSt) bool {
								if s.on < 0 || m.stateNo(s.hist, int(s.on)) != h {
									return false
								}
								return in(s, m.full(s.hist)[s.on].cm)
							})
						case errors.Is(err, issuer.ErrIdenStateOnChainZero):
							return same(func(s isSt) bool { return s.on < 0 })
						case errors.Is(err, issuer.ErrClaimNotYetInOnChainState):
							return same(func(s isSt) bool {
								return s.on >= 0 && !in(s, m.full(s.hist)[s.on].cm) && in(s, s.cm)
							})
						}
						c.Fail("c23:credential", "GenCredentialExistence of an issued claim: %v", err)
						return nil
					})
				}
			}
		})
	}
	allDone := make(chan struct{})
	go func() { running.Wait(); close(allDone) }()
	minerDone := make(chan struct{})
	mr := newRand(c.R.Int63())
	mineOnce := func(n int) {
		x := minedAt{inv: linNow()}
		w.chain.mine(n)
		w.chain.mu.Lock()
		x.block, x.txs = w.chain.block, len(w.chain.order)
		w.chain.mu.Unlock()
		x.ret = linNow()
		mined = append(mined, x)
	}
	c.Go(func() {
		defer close(minerDone)
		<-start
		for {
			select {
			case <-allDone:
				return
			default:
			}
			mineOnce(mr.Intn(2))
			time.Sleep(time.Duration(mr.Intn(40)) * time.Millisecond)
		}
	})
	// the syncs are judged with what the chain showed and when
	syncOp = func(inv, ret int64, ok bool) func(isSt) []isSt {
		return func(s isSt) []isSt {
			if s.pend != 2 {
				return []isSt{s}
			}
			if int(s.sends) > len(w.chain.order) {
				return nil // an order in which more was sent
			}
			t := w.chain.order[s.sends-1]
			cond := func(x minedAt) bool { return t.mined && t.block <= x.block } // mined by then
			if t.ok {
				cond = func(x minedAt) bool { return t.mined && t.block+w.cfg.ConfirmBlocks <= x.block }
			}
			sure, maybe := false, false
			for _, x := range mined {
				if cond(x) {
					sure = sure || x.ret < inv
					maybe = maybe || x.inv < ret
				}
			}
			next := s
			if t.ok {
				next.on = int8(len(histOf(s.hist)))
				next.pend = 0
			} else {
				next.pend = 1
			}
			switch {
			case sure:
				return []isSt{next}
			case maybe:
				return []isSt{s, next}
			}
			return []isSt{s}
		}
	}
	close(start)
	c.Wait()
	<-minerDone
	if c.Bad() {
		return
	}
	// bring it on chain
	fin := tally{}
	for i := 0; i < 3; i++ {
		mineOnce(int(w.cfg.ConfirmBlocks))
		doSync(nG, fin)
		if p, _ := is.IdenStatePending(); h32(*p) == (h32{}) {
			break
		}
		publish(nG, fin)
	}
	reader := func(name string, is *issuer.Issuer) {
		do(nG, name, func() func(isSt) []isSt {
			h, rs := is.State()
			p, tr := is.IdenStatePending()
			oc := is.StateDataOnChain()
			return same(func(s isSt) bool {
				st, x, y, z := m.roots(m.full(s.hist), s.cm, s.rm)
				on := h32{}
				if s.on >= 0 {
					on = m.stateNo(s.hist, int(s.on))
				}
				return h32(*h) == st && h32(*rs.ClaimsTreeRoot) == x && h32(*rs.RevocationsTreeRoot) == y && h32(*rs.RootsTreeRoot) == z &&
					s.pend == 0 && h32(*p) == h32{} && !tr && h32(*oc.IdenState) == on
			})
		})
	}
	reader("final", is)
	is2, err := issuer.Load(st, w.ks, w.chain, zkConf(c), w.off)
	c.Assert(err == nil, "c23:reload", "the issuer does not load after concurrent use: %v", err)
	reader("reloaded", is2)
	c.Count("reloaded", 1)
	fin.flush(c)

	var es, rv []*rent
	nonces := map[uint32]bool{}
	for _, e := range slots {
		if e == nil {
			e = &rent{} // never issued
			es, rv = append(es, e), append(rv, e)
			continue
		}
		n := nonceOf(e.d)
		c.Assert(!nonces[n], "c23:nonce", "nonce %d was given to two claims", n)
		nonces[n] = true
		es, rv = append(es, e), append(rv, leafRev(n))
	}
	m.claims = maskTree{es, map[[2]uint64]h32{}}
	m.revs = maskTree{rv, map[[2]uint64]h32{}}
	var all []linOp
	for _, h := range hist {
		all = append(all, h...)
	}
	over := 0
	for i := range all {
		for j := 0; j < i; j++ {
			if all[i].inv < all[j].ret && all[j].inv < all[i].ret {
				over++
			}
		}
	}
	c.Count("overlapping", over)
	sort.SliceStable(all, func(i, j int) bool { return all[i].inv < all[j].inv })
	for _, o := range all {
		c.Logf("%d..%d %s", o.inv/1000, o.ret/1000, o.name)
	}
	ok, states := linCheck(s0, all)
	c.Assert(ok, "c23:not_linearizable", "no order of the %d operations of %d goroutines on one issuer explains their results (%d states searched)", len(all), nG, states)
	// every transaction follows the state on chain when it was sent
	cur := w.onchain.st
	gen := w.list[0].st
	for i, t := range w.chain.order[chain0:] {
		old := cur
		if old == (h32{}) {
			old = gen
		}
		c.Assert(t.id == w.id && t.init == (cur == (h32{})) && zkVerifyState(t.proof, w.id, old, t.st), "c23:tx", "transaction %d does not carry a proof of the step from the state on chain", i)
		if t.mined && t.ok {
			cur = t.st
			c.Count("promoted", 1)
		} else if t.mined {
			c.Count("tx_failed", 1)
		}
	}
	for _, l := range creds {
		for _, s := range l {
			c.Assert(refExist(w.chain, s.cr) && rentOf(&s.cr.Claim.Data) == s.e.d && *s.cr.Id == w.id && s.cr.IdenPubUrl == offURL, "c23:bad_credential", "a credential handed out during concurrent use does not prove its claim")
			c.Assert(verifier.New(w.chain).VerifyCredentialExistence(s.cr) == nil, "c23:credential_refused", "a credential handed out during concurrent use is refused")
		}
	}
	if cur != (h32{}) && cur != w.onchain.st {
		pd, err := w.off.GetPublicData(offURL, &w.id, hsh(cur))
		c.Assert(err == nil && h32(*pd.IdenState) == cur, "c23:off", "the public data of the state on chain: %v", err)
	}
	c.Count("history", 1)
	c.Count("lin_states", states)
	c.Distinct("%x %d %d", cur, len(all), over)
	c.Sample("goroutines=%d ops=%d overlapping pairs=%d states searched=%d claims=%d transactions=%d", nG, len(all), over, states, len(nonces), w.chain.sent())
}

// c23ks: one keystore, several goroutines.
func c23ks(c *C) {
	var sto keystore.Storage
	mem := keystore.MemStorage([]byte{})
	sto = &mem
	path := filepath.Join(c.Dir(), "ks.json")
	if c.R.Intn(2) == 0 {
		sto = keystore.NewFileStorage(path)
	}
	ks, err := keystore.NewKeyStore(sto, cheapKS)
	c.Assert(err == nil, "new", "%v", err)
	const K = 3
	var sks [K]babyjub.PrivateKey
	var pks [K]babyjub.PublicKeyComp
	pass := [][]byte{[]byte("first"), []byte("second")}
	for i := range sks {
		sks[i] = randSk(c)
		for j := 0; j < i; j++ {
			if sks[j] == sks[i] {
				c.R.Read(sks[i][:])
			}
		}
		pks[i] = pkOf(sks[i])
	}
	// state: per key 0 absent, 1+p present with password p; +4 unlocked
	type kst [K]uint8
	nG, nOps := 4, 6+c.R.Intn(5)
	hist := make([][]linOp, nG)
	start := make(chan struct{})
	for g := 0; g < nG; g++ {
		g := g
		r := newRand(c.R.Int63())
		c.Go(func() {
			t := tally{}
			defer t.flush(c)
			<-start
			do := func(name string, f func() func(kst) (kst, bool)) {
				inv := linNow()
				st := f()
				ret := linNow()
				hist[g] = append(hist[g], linOp{inv, ret, name, func(s interface{}) []interface{} {
					if n, ok := st(s.(kst)); ok {
						return []interface{}{n}
					}
					return nil
				}})
			}
			for n := 0; n < nOps; n++ {
				k, p := r.Intn(K), r.Intn(2)
				pk := pks[k]
				switch op := r.Intn(12); {
				case op < 3:
					do(fmt.Sprintf("import(%d,%d)", k, p), func() func(kst) (kst, bool) {
						got, err := ks.ImportKey(sks[k], pass[p])
						c.Assert(err == nil && *got == pk, "c23:import", "ImportKey: %v", err)
						t["imported"]++
						return func(s kst) (kst, bool) { s[k] = s[k]&4 | uint8(1+p); return s, true }
					})
				case op < 6:
					do(fmt.Sprintf("unlock(%d,%d)", k, p), func() func(kst) (kst, bool) {
						err := ks.UnlockKey(&pk, pass[p])
						switch {
						case err == nil:
							t["unlocked"]++
							return func(s kst) (kst, bool) {
								ok := s[k]&3 == uint8(1+p)
								s[k] |= 4
								return s, ok
							}
						case errors.Is(err, keystore.ErrKeyNotFound):
							return func(s kst) (kst, bool) { return s, s[k]&3 == 0 }
						case errors.Is(err, keystore.ErrInvalidEncData):
							t["refused"]++
							return func(s kst) (kst, bool) { return s, s[k]&3 == uint8(2-p) }
						}
						c.Fail("c23:unlock", "UnlockKey: %v", err)
						return nil
					})
				case op < 9:
					do(fmt.Sprintf("sign(%d)", k), func() func(kst) (kst, bool) {
						msg := []byte(fmt.Sprint("message ", r.Intn(100)))
						sig, date, err := ks.Sign(&pk, keystore.PrefixMinorUpdate, msg)
						if errors.Is(err, keystore.ErrKeyNotInCache) {
							t["locked"]++
							return func(s kst) (kst, bool) { return s, s[k]&4 == 0 }
						}
						c.Assert(err == nil, "c23:sign", "Sign: %v", err)
						ok, err := keystore.VerifySignature(&pk, sig, keystore.PrefixMinorUpdate, date, msg)
						c.Assert(err == nil && ok, "c23:signature", "a signature made during concurrent use does not verify (%v)", err)
						t["signed"]++
						return func(s kst) (kst, bool) { return s, s[k]&4 != 0 }
					})
				case op == 9:
					do(fmt.Sprintf("export(%d)", k), func() func(kst) (kst, bool) {
						sk, err := ks.ExportKey(&pk)
						if errors.Is(err, keystore.ErrKeyNotInCache) {
							return func(s kst) (kst, bool) { return s, s[k]&4 == 0 }
						}
						c.Assert(err == nil && *sk == sks[k], "c23:export", "ExportKey gives another key (%v)", err)
						return func(s kst) (kst, bool) { return s, s[k]&4 != 0 }
					})
				default:
					do("keys", func() func(kst) (kst, bool) {
						l := ks.Keys()
						var have [K]bool
						for _, x := range l {
							for i := range pks {
								if x == pks[i] {
									have[i] = true
								}
							}
						}
						return func(s kst) (kst, bool) {
							n := 0
							for i := range have {
								if have[i] != (s[i]&3 != 0) {
									return s, false
								}
								if have[i] {
									n++
								}
							}
							return s, n == len(l)
						}
					})
				}
			}
		})
	}
	close(start)
	c.Wait()
	if c.Bad() {
		return
	}
	// what is stored, seen by another keystore
	c.Assert(ks.Close() == nil, "c23:close", "Close")
	k2, err := keystore.NewKeyStore(sto, cheapKS)
	c.Assert(err == nil, "c23:reopen", "the keystore does not open after concurrent use: %v", err)
	now := linNow()
	var have kst
	for i := range pks {
		pk := pks[i]
		for p := range pass {
			if err := k2.UnlockKey(&pk, pass[p]); err == nil {
				c.Assert(have[i] == 0, "c23:two_passwords", "two passwords open a key")
				have[i] = uint8(1 + p)
			}
		}
	}
	c.Must(k2.Close(), "close")
	var all []linOp
	for _, h := range hist {
		all = append(all, h...)
	}
	over := 0
	for i := range all {
		for j := 0; j < i; j++ {
			if all[i].inv < all[j].ret && all[j].inv < all[i].ret {
				over++
			}
		}
	}
	c.Count("overlapping", over)
	all = append(all, linOp{now, linNow(), "stored", func(s interface{}) []interface{} {
		x := s.(kst)
		for i := range x {
			if x[i]&3 != have[i] {
				return nil
			}
		}
		return []interface{}{s}
	}})
	sort.SliceStable(all, func(i, j int) bool { return all[i].inv < all[j].inv })
	for _, o := range all {
		c.Logf("%d..%d %s", o.inv/1000, o.ret/1000, o.name)
	}
	ok, states := linCheck(kst{}, all)
	c.Assert(ok, "c23:ks_not_linearizable", "no order of the %d operations of %d goroutines on one keystore explains their results (%d states searched)", len(all), nG, states)
	c.Count("history", 1)
	c.Count("lin_states", states)
	c.Distinct("%v %d %d", have, len(all), over)
	c.Sample("goroutines=%d ops=%d overlapping pairs=%d states searched=%d", nG, len(all), over, states)
}

// c23close: a keystore is closed while others sign, unlock and import.
func c23close(c *C) {
	sto := keystore.NewFileStorage(filepath.Join(c.Dir(), "ks.json"))
	ks, err := keystore.NewKeyStore(sto, cheapKS)
	c.Assert(err == nil, "new", "%v", err)
	var sk, sk2 babyjub.PrivateKey
	c.R.Read(sk[:])
	c.R.Read(sk2[:])
	pk, err := ks.ImportKey(sk, []byte("p"))
	c.Must(err, "import")
	c.Must(ks.UnlockKey(pk, []byte("p")), "unlock")
	var closed int64
	nap := c.R.Intn(100)
	imported := false
	for g := 0; g < 4; g++ {
		r := newRand(c.R.Int63())
		g := g
		c.Go(func() {
			t := tally{}
			defer t.flush(c)
			var held []*babyjub.PrivateKey
			defer func() {
				for _, x := range held {
					c.Assert(*x == sk, "c23:close_exported", "a key exported before the keystore was closed changed")
				}
			}()
			for i := 0; i < 12; i++ {
				k := *pk
				if x, err := ks.ExportKey(&k); err == nil {
					held = append(held, x)
				}
				msg := big.NewInt(int64(r.Intn(1 << 30)))
				sig, err := ks.SignElem(&k, msg)
				if err == nil {
					ok, err := keystore.VerifySignatureElem(&k, msg, sig)
					c.Assert(err == nil && ok, "c23:close_signature", "a signature made while the keystore was being closed is not of its key (%v)", err)
					t["signed"]++
				} else {
					c.Assert(errors.Is(err, keystore.ErrKeyNotInCache), "c23:close_sign", "Sign: %v", err)
					t["after_close"]++
				}
				if g == 0 && i == 6 {
					_, err := ks.ImportKey(sk2, []byte("q"))
					imported = err == nil
				}
			}
		})
	}
	c.Go(func() {
		time.Sleep(time.Duration(nap) * time.Millisecond)
		c.Assert(ks.Close() == nil, "c23:close", "Close fails")
		atomic.StoreInt64(&closed, 1)
	})
	c.Wait()
	if c.Bad() {
		return
	}
	k2, err := keystore.NewKeyStore(keystore.NewFileStorage(filepath.Join(c.Dir(), "ks.json")), cheapKS)
	c.Assert(err == nil, "c23:close_reopen", "a closed keystore does not open again: %v", err)
	c.Assert(k2.UnlockKey(pk, []byte("p")) == nil, "c23:close_lost", "a key is lost by closing")
	p2 := pkOf(sk2)
	c.Assert((k2.UnlockKey(&p2, []byte("q")) == nil) == imported, "c23:close_import", "an import during closing that was acknowledged (%v) is not what is stored", imported)
	c.Must(k2.Close(), "close")
	c.Distinct("%d %v %d", nap, imported, c.N)
}

// c23system: two issuers sharing a key store and the circuit files, a holder
// and verifiers, all at once.
func c23system(c *C) {
	w0 := newWorld(c, db.NewMemoryStorage())
	zkConf(c)
	w0.chain.onSend = nil
	// the circuit files are loaded by the issuers themselves
	conf := &issuer.IdenStateZkProofConf{Levels: zkLevelsIdOwn, Files: *zkIS.files(zkISDir)}
	const nI = 2
	ws := make([]*world, nI)
	for i := range ws {
		w := &world{c: c, r: newRand(c.R.Int63()), mem: db.NewMemoryStorage(), ks: w0.ks, kop: w0.kop, sk: w0.sk,
			chain: w0.chain, off: newOff(c, 8), cfg: w0.cfg, nonces: map[uint32]bool{}}
		w.cfg.ConfirmBlocks = 0
		ws[i] = w
		var extra []claims.Claimer
		var pre [][8]h32
		for j := 0; j <= i; j++ {
			cl := newClaim(c.R, j)
			extra = append(extra, cl)
			pre = append(pre, rentOf(&cl.Entry().Data))
		}
		id, err := issuer.Create(w.cfg, w.kop, extra, w.mem, w.ks)
		c.Assert(err == nil, "create", "%v", err)
		w.modelCreate(extra, pre)
		c.Assert(*id == w.id, "create-id", "Create returned another id")
	}
	h := newHolder(c, ws[0], 1)
	h.read = func(url string, id *core.ID, st *merkletree.Hash) (*idenpuboffchain.PublicData, error) {
		for _, w := range ws {
			if w.id == *id {
				return w.off.GetPublicData(url, id, st)
			}
		}
		return nil, fmt.Errorf("nobody")
	}
	for _, w := range ws {
		w := w
		c.Go(func() {
			is, err := issuer.Load(lazyStore{w.mem, 5}, w.ks, w.chain, conf, w.off)
			c.Assert(err == nil, "c23:load", "loading several issuers at once: %v", err)
			w.is = is
			c.Count("issuers_loaded", 1)
		})
	}
	c.Wait()
	if c.Bad() {
		return
	}
	v := verifier.New(w0.chain)
	var stop int64
	var mu sync.Mutex // of the issued claims
	issued := make([][]*rent, nI)
	for i, w := range ws {
		i, w := i, w
		var cls []claims.Claimer
		for j := 0; j < 4; j++ {
			cls = append(cls, newClaim(c.R, j))
		}
		for _, ic := range w.issued {
			issued[i] = append(issued[i], ic.e)
		}
		c.Go(func() { // issues and publishes
			for _, cl := range cls {
				err := w.is.IssueClaim(cl)
				c.Assert(err == nil, "c23:issue", "%v", err)
				mu.Lock()
				issued[i] = append(issued[i], mkRent(rentOf(&cl.Entry().Data)))
				mu.Unlock()
			}
			for k := 0; k < 4; k++ {
				if k > 0 {
					mu.Lock()
					e := issued[i][len(issued[i])-k]
					mu.Unlock()
					c.Assert(w.is.RevokeClaim(entrier{e.entry()}) == nil, "c23:revoke", "RevokeClaim fails")
				}
				err := w.is.PublishState()
				c.Assert(err == nil, "c23:publish", "%v", err)
				c.Count("published", 1)
				w0.chain.mine(1)
				c.Assert(w.is.SyncIdenStatePublic() == nil, "c23:sync", "sync fails")
				p, _ := w.is.IdenStatePending()
				c.Assert(h32(*p) == h32{}, "c23:still_pending", "a confirmed state is still pending")
			}
		})
	}
	var readers sync.WaitGroup
	for g := 0; g < 4; g++ {
		r := newRand(c.R.Int63())
		readers.Add(1)
		go func() {
			defer readers.Done()
			c.guard(func() {
				for n := 0; atomic.LoadInt64(&stop) == 0 && n < 400; n++ {
					i := r.Intn(nI)
					w := ws[i]
					mu.Lock()
					e := issued[i][r.Intn(len(issued[i]))]
					mu.Unlock()
					if n%2 == 0 {
						w.is.State()
						w.is.IdenStateOnChain()
						w.is.IdenStatePending()
						w.is.StateDataOnChain()
					}
					cr, err := w.is.GenCredentialExistence(entrier{e.entry()})
					if err != nil {
						c.Assert(errors.Is(err, issuer.ErrIdenStateOnChainZero) || errors.Is(err, issuer.ErrClaimNotYetInOnChainState), "c23:credential", "GenCredentialExistence of an issued claim: %v", err)
						time.Sleep(3 * time.Millisecond)
						continue
					}
					c.Assert(v.VerifyCredentialExistence(cr) == nil, "c23:credential_refused", "a credential handed out during concurrent use is refused")
					c.Assert(refExist(w0.chain, cr), "c23:bad_credential", "a credential handed out during concurrent use does not prove its claim")
					c.Count("verified", 1)
					if r.Intn(2) == 0 {
						cv, err := h.h.HolderGetCredentialValidity(cr)
						if err != nil {
							c.Assert(errors.Is(err, holder.ErrRevokedClaim), "c23:validity", "HolderGetCredentialValidity: %v", err)
							continue
						}
						fresh := 100 * 365 * 24 * time.Hour
						want, edge := refValid(w0.chain, cv, time.Now(), fresh)
						err = v.VerifyCredentialValidity(cv, fresh)
						c.Assert(edge || want == (err == nil), "c23:validity_verdict", "a validity credential made during concurrent use: %v, should verify: %v", err, want)
						c.Count("validity", 1)
					}
					sig, err := w.is.SignElems([poseidon.T]*big.Int{big.NewInt(int64(n)), new(big.Int), new(big.Int), new(big.Int), new(big.Int), new(big.Int)})
					c.Assert(err == nil && sig != nil, "c23:sign", "%v", err)
					c.Count("reads", 1)
				}
			})
		}()
	}
	for g := 0; g < 4; g++ {
		g := g
		readers.Add(1)
		go func() { // poll one thing
			defer readers.Done()
			c.guard(func() {
				for atomic.LoadInt64(&stop) == 0 {
					for _, w := range ws {
						switch g {
						case 0:
							p, _ := w.is.IdenStatePending()
							_ = *p
						case 1:
							_ = *w.is.IdenStateOnChain()
						case 2:
							_ = *w.is.StateDataOnChain()
						case 3:
							w.is.State()
						}
					}
					time.Sleep(time.Millisecond)
				}
			})
		}()
	}
	c.Wait()
	atomic.StoreInt64(&stop, 1)
	readers.Wait()
	if c.Bad() {
		return
	}
	for i, w := range ws {
		nonces := map[uint32]bool{}
		t := newRefTree(140)
		for _, e := range issued[i] {
			c.Assert(!nonces[nonceOf(e.d)], "c23:nonce", "a nonce is used twice")
			nonces[nonceOf(e.d)] = true
			t.m[e.hi] = e
		}
		_, roots := w.is.State()
		c.Assert(h32(*roots.ClaimsTreeRoot) == t.root(), "c23:claims_lost", "the claims tree is not the one of the claims acknowledged")
	}
	c.Distinct("%d", c.N)
}
