package main

import (
	"errors"
	"fmt"
	"sync"

	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/identity/issuer"
	"github.com/iden3/go-iden3-core/merkletree"
)

func init() {
	rules["C11"] = "nonce generators over both storages are driven with committed, dropped and failing transactions, up to the maximum, and from several goroutines; issuers issue, re-issue, fail (storage faults at every call), crash, reopen and revoke, sequentially and concurrently, and every nonce handed out is checked against all earlier ones and, through the tree roots, against the stored entry and the revocation leaf; distinct = distinct operation histories"
	reg(Part{Prop: "C11", Name: "generator", Quick: 3000, Thorough: 10000, Need: []string{"committed", "dropped", "max_refused"}, Run: c11gen})
	reg(Part{Prop: "C11", Name: "concurrent", Race: true, Quick: 60, Thorough: 1500, Need: []string{"nonces", "claims"}, Run: c11conc})
	reg(Part{Prop: "C11", Name: "issuer", Quick: 800, Thorough: 20000, Need: []string{"issued", "failed", "crashed", "reopened", "revoked", "rejected"}, Run: c11issuer})
}

func c11gen(c *C) {
	s := openStore(c, storeKind(c))
	defer func() { s.close() }()
	key := []byte(fmt.Sprintf("nonce%d", c.R.Intn(3)))
	g := issuer.NewUniqueNonceGen(db.NewStorageValue(key))
	tx, err := s.s.NewTx()
	c.Must(err, "tx")
	if _, err := g.Next(tx); err == nil {
		c.Fail("uninitialized", "a generator that was never initialized gave a nonce")
	}
	g.Init(tx)
	c.Must(tx.Commit(), "commit")
	next := uint64(0) // committed counter
	if c.R.Intn(3) == 0 {
		next = 0xffffffff - uint64(c.R.Intn(8))
		tx, err := s.s.NewTx()
		c.Must(err, "tx")
		v := db.NewStorageValue(key)
		v.Set(tx, uint32(next))
		c.Must(tx.Commit(), "commit")
	}
	start := next
	hist := ""
	for i := 0; i < 12; i++ {
		tx, err := s.s.NewTx()
		c.Must(err, "tx")
		n := next
		k := 1 + c.R.Intn(3)
		for j := 0; j < k; j++ {
			v, err := g.Next(tx)
			if n == 0xffffffff {
				c.Assert(err != nil, "wrapped", "the generator gave %d after reaching its maximum", v)
				c.Count("max_refused", 1)
				continue
			}
			c.Assert(err == nil, "next", "Next: %v", err)
			c.Assert(uint64(v) == n, "next-value", "Next gave %d, the stored counter is %d", v, n)
			n++
		}
		switch c.R.Intn(3) {
		case 0: // dropped: the nonces were never durable
			tx.Close()
			c.Count("dropped", 1)
			hist += "d"
		default:
			c.Assert(tx.Commit() == nil, "commit", "commit")
			next = n
			c.Count("committed", 1)
			hist += fmt.Sprintf("c%d", k)
		}
		if c.R.Intn(4) == 0 {
			s = s.reopen(c)
			g = issuer.NewUniqueNonceGen(db.NewStorageValue(key))
			hist += "r"
		}
	}
	c.Distinct("%d|%s", start, hist)
}

func c11conc(c *C) {
	w := newWorld(c, worldStore(c, c.N))
	defer w.mem.Close()
	w.create(c.R.Intn(3))
	var mu sync.Mutex
	k := 2 + c.R.Intn(5)
	per := 2 + c.R.Intn(4)
	type res struct {
		cl  claims.Claimer
		pre [8]h32
	}
	var done []res
	shared := newClaim(c.R, 0).(*claims.ClaimBasic)
	winners := 0
	for i := 0; i < k; i++ {
		var cls []claims.Claimer
		for j := 0; j < per; j++ {
			cls = append(cls, newClaim(c.R, i+j))
		}
		var vs [claims.ValueSlotLen]byte
		c.R.Read(vs[:])
		same := claims.NewClaimBasic(shared.IndexSlot, vs)
		c.Go(func() {
			for _, cl := range append(cls, claims.Claimer(same)) {
				pre := rentOf(&cl.Entry().Data)
				err := w.is.IssueClaim(cl)
				mu.Lock()
				if cl == claims.Claimer(same) && err != nil {
					if !errors.Is(err, merkletree.ErrEntryIndexAlreadyExists) {
						c.Report("issue", "concurrent IssueClaim of an index issued before: %v", err)
					}
					mu.Unlock()
					continue
				}
				if err != nil {
					c.Report("issue", "concurrent IssueClaim: %v", err)
				} else {
					if cl == claims.Claimer(same) {
						winners++
					}
					done = append(done, res{cl, pre})
				}
				mu.Unlock()
			}
		})
	}
	c.Wait()
	c.Assert(winners == 1, "winners", "%d of %d claims with the same index were issued", winners, k)
	for _, d := range done {
		got := rentOf(&d.cl.Entry().Data)
		c.Assert(got == withNonce(d.pre, d.cl.Metadata().RevNonce), "issue-claim", "IssueClaim changed more than the nonce of the claim")
		w.addIssued(d.cl, got)
		c.Count("claims", 1)
	}
	w.check("concurrent issuing")
	w.load()
	w.issue()
	w.check("issue after reopening")
	c.Count("nonces", len(w.nonces))
	c.Distinct("%d %d %v", k, per, w.claims.root())
	c.Sample("%d goroutines issued %d claims: nonces %v", k, len(done), len(w.nonces))
}

func c11issuer(c *C) {
	w := newWorld(c, worldStore(c, c.N))
	defer func() { w.mem.Close() }()
	w.create(c.R.Intn(4))
	hist := ""
	maxSeen := uint32(0)
	note := func() {
		for n := range w.nonces {
			if n > maxSeen {
				maxSeen = n
			}
		}
	}
	note()
	step := func(n uint32) {
		c.Assert(n > maxSeen, "nonce-order", "nonce %d was issued after nonce %d", n, maxSeen)
		maxSeen = n
	}
	for i := 0; i < 14; i++ {
		switch k := c.R.Intn(9); k {
		case 0, 1:
			step(w.issue().nonce)
			c.Count("issued", 1)
			hist += "i"
		case 2: // a claim with the index of another one
			old := w.issued[c.R.Intn(len(w.issued))]
			d := old.e.d
			d[6] = h32{1, byte(i)}
			cl := claims.NewClaimGeneric(mkRent(withNonce(d, 77)).entry())
			pre := rentOf(&cl.Entry().Data)
			err := w.is.IssueClaim(cl)
			c.Assert(errors.Is(err, merkletree.ErrEntryIndexAlreadyExists), "dup", "issuing a claim with an index issued before: %v", err)
			c.Assert(rentOf(&cl.Entry().Data) == pre, "dup-changed", "a rejected issuance changed the claim")
			c.Count("rejected", 1)
			hist += "x"
			w.check("rejected issuance")
		case 3, 4: // faults
			cl := newClaim(c.R, i)
			pre := rentOf(&cl.Entry().Data)
			ctl := newCtl()
			w.ctl = ctl
			w.load()
			kind := faultKinds[c.R.Intn(4)]
			at := c.R.Intn(8)
			ctl.arm(at, kind, nil)
			var err error
			crashed := runCrash(func() { err = w.is.IssueClaim(cl) })
			fired := ctl.fired
			ctl.disarm()
			w.ctl = nil
			n := cl.Metadata().RevNonce
			got := rentOf(&cl.Entry().Data)
			hist += fmt.Sprintf("f%d%v%v", at, kind, fired)
			switch {
			case !crashed && err == nil:
				c.Assert(got == withNonce(pre, n), "issue-claim", "IssueClaim changed more than the nonce")
				step(n)
				w.addIssued(cl, got)
			case !crashed:
				c.Assert(errors.Is(err, errInjected), "fault-error", "IssueClaim with a failing storage: %v", err)
				c.Assert(got == pre, "fail-changed", "a failed issuance changed the claim")
				c.Count("failed", 1)
			default:
				c.Count("crashed", 1)
			}
			// the claim may have reached the tree if the process stopped
			// or the error came after the effect
			is, lerr := w.tryLoad()
			c.Assert(lerr == nil, "load", "Load after a fault: %v", lerr)
			w.is = is
			if crashed || (err != nil && kind == fkErrorAfter) {
				_, roots := is.State()
				if h32(*roots.ClaimsTreeRoot) != w.claims.root() {
					found := false
					for d := uint32(1); d < 40 && !found; d++ {
						e := mkRent(withNonce(pre, maxSeen+d))
						t := w.claims.clone()
						t.m[e.hi] = e
						if t.root() == h32(*roots.ClaimsTreeRoot) {
							found = true
							step(maxSeen + d)
							w.addIssued(claims.NewClaimGeneric(e.entry()), e.d)
						}
					}
					c.Assert(found, "fault-root", "after a fault the claims tree is neither the old one nor the one with the claim and a new nonce")
				}
			}
			w.check("fault")
		case 5:
			if w.mem = reopenLevel(c, w.mem); true {
				w.load()
			}
			c.Count("reopened", 1)
			hist += "r"
		case 6:
			w.revoke(w.issued[c.R.Intn(len(w.issued))])
			w.check("revoke")
			c.Count("revoked", 1)
			hist += "v"
		case 7: // the caller's claim carries another nonce than the issued one
			ic := w.issued[c.R.Intn(len(w.issued))]
			x := &issuedClaim{e: ic.e, cl: claims.NewClaimGeneric(mkRent(withNonce(ic.e.d, 0xdeadbeef)).entry()), nonce: ic.nonce, revoked: ic.revoked}
			w.revoke(x)
			ic.revoked = true
			w.check("revoke by index")
			c.Count("revoked", 1)
			hist += "w"
		case 8: // never issued
			err := w.is.RevokeClaim(newClaim(c.R, i))
			c.Assert(err != nil, "revoke-unissued", "a claim that was never issued was revoked")
			w.check("revoke of an unissued claim")
			hist += "u"
		}
	}
	c.Distinct("%s", hist)
	c.Sample("%s: %d nonces, highest %d", hist, len(w.nonces), maxSeen)
}

func reopenLevel(c *C, s db.Storage) db.Storage {
	if _, ok := s.(*db.LevelDbStorage); !ok {
		return s
	}
	s.Close()
	return worldStore(c, 3)
}
