package main

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	"github.com/iden3/go-iden3-core/components/idenpubonchain"
	localon "github.com/iden3/go-iden3-core/components/idenpubonchain/local"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/merkletree"
)

func init() {
	rules["C17"] = "local registry: sequences of first states and updates of several identities with valid, foreign, swapped, corrupted and missing proofs, synchronisations, and block and time steps of 0 and more, compared after every step with a model by querying every block and time around every recorded one; chain client: the same through JSON-RPC to a node that keeps the contract's records (proofs checked from the call data as the contract's verifier does), with pending, failed and confirmed transactions and failing or malformed answers, alone and under an issuer; concurrent readers; distinct = distinct histories"
	reg(Part{Prop: "C17", Name: "registry", Quick: 120, Thorough: 6000, Need: []string{"accepted", "refused_proof", "refused_kind", "synced", "superseded", "queries", "same_block"}, Run: c17local})
	reg(Part{Prop: "C17", Name: "chainclient", Quick: 60, Thorough: 2500, Need: []string{"queries", "sent", "confirmed", "nodes_behind", "pending_tx", "failed_tx", "rpc_faults", "issuer_rounds"}, Run: c17client})
	reg(Part{Prop: "C17", Name: "concurrent", Race: true, Quick: 12, Thorough: 300, Workers: 2, Need: []string{"concurrent_reads", "concurrent_same", "concurrent_other"}, Run: c17conc})
}

type regPend struct {
	init    bool
	id      core.ID
	old, st h32
	at      chainState
}

// regModel is the model of the local registry.
type regModel struct {
	hist map[core.ID][]chainState
	pend []regPend
}

func (m *regModel) last(id core.ID) (chainState, bool) {
	h := m.hist[id]
	if len(h) == 0 {
		return chainState{}, false
	}
	return h[len(h)-1], true
}

func (m *regModel) sync(c *C) {
	for _, init := range []bool{true, false} {
		for _, p := range m.pend {
			if p.init != init {
				continue
			}
			l, ok := m.last(p.id)
			if (init && ok) || (!init && l.st != p.old) {
				c.Count("superseded", 1)
				continue
			}
			if !init && l.blockN == p.at.blockN {
				c.Count("same_block", 1)
			}
			m.hist[p.id] = append(m.hist[p.id], p.at)
			c.Count("synced", 1)
		}
	}
	m.pend = nil
}

// at returns the newest state recorded at the block (or time).
func (m *regModel) at(id core.ID, f func(chainState) bool) (chainState, bool) {
	h := m.hist[id]
	for i := len(h) - 1; i >= 0; i-- {
		if f(h[i]) {
			return h[i], true
		}
	}
	return chainState{}, false
}

func isData(d *proof.IdenStateData, s chainState) bool {
	return d != nil && d.IdenState != nil && h32(*d.IdenState) == s.st && d.BlockN == s.blockN && d.BlockTs == s.ts
}

// badProof makes a proof that is not one of the transition.
func badProof(c *C, id core.ID, old, st h32, other core.ID) (*zktypes.Proof, string) {
	sig := []*big.Int{leBig(id[:]), leBigE(old), leBigE(st)}
	p := zkIS.forge(c.R, sig...)
	k := c.R.Intn(11)
	switch k {
	case 0:
		return zkIS.forge(c.R, leBig(other[:]), sig[1], sig[2]), "for another identity"
	case 1:
		return zkIS.forge(c.R, sig[0], new(big.Int).Rand(c.R, fR), sig[2]), "from another state"
	case 2:
		return zkIS.forge(c.R, sig[0], sig[1], new(big.Int).Rand(c.R, fR)), "to another state"
	case 3:
		return zkIS.forge(c.R, sig[0], sig[2], sig[1]), "of the reverse transition"
	case 4:
		p.A = new(bn256.G1).Neg(p.A)
		return p, "A negated"
	case 5:
		p.C = p.A
		return p, "C replaced"
	case 6:
		p.B = new(bn256.G2).Neg(p.B)
		return p, "B negated"
	case 7:
		return nil, "missing"
	case 8:
		p.C = nil
		return p, "without C"
	case 9:
		p.A, p.B = nil, nil
		return p, "without A and B"
	}
	return zkIS.forge(c.R, sig[1], sig[0], sig[2]), "signals out of order"
}

func c17local(c *C) {
	zkInit(c)
	block, ts := uint64(c.R.Intn(1000)), int64(1500000000+c.R.Intn(1000))
	if c.R.Intn(6) == 0 {
		block, ts = 0, int64(c.R.Intn(3))-1
	}
	ip := localon.New(func() time.Time { return time.Unix(ts, int64(c.R.Intn(1e9))) }, func() uint64 { return block }, zkIS.vk)
	m := &regModel{hist: map[core.ID][]chainState{}}
	ids := make([]core.ID, 3)
	for i := range ids {
		ids[i] = randID(c.R)
	}
	var h []string
	gen := func() h32 {
		if c.R.Intn(6) == 0 {
			return randElem(c.R)
		}
		return bigLE(new(big.Int).Rand(c.R, fR))
	}
	check := func(why string) {
		for _, id := range ids {
			id := id
			q := id
			d, err := ip.GetState(&q)
			l, ok := m.last(id)
			blocks, times := map[uint64]bool{block: true, block + 1: true, 0: true, math.MaxUint64: true}, map[int64]bool{ts: true, ts + 1: true, 0: true, -1: true, math.MaxInt64: true, math.MinInt64: true}
			for _, s := range m.hist[id] {
				for o := -1; o <= 1; o++ {
					blocks[s.blockN+uint64(o)], times[s.ts+int64(o)] = true, true
				}
			}
			for _, p := range m.pend {
				blocks[p.at.blockN], times[p.at.ts] = true, true
			}
			if !ok {
				c.Assert(errors.Is(err, idenpubonchain.ErrIdenNotOnChain), "unknown", "%s: the state of an identity that has none: %v %v", why, js(d), err)
			} else {
				c.Assert(err == nil && isData(d, l), "current", "%s: the current state is %s (error %v) instead of %s at block %d, time %d", why, js(d), err, short(l.st), l.blockN, l.ts)
				*d.IdenState, d.BlockN = merkletree.Hash{9}, 7 // the caller's copy
			}
			var bs []uint64
			for b := range blocks {
				bs = append(bs, b)
			}
			sort.Slice(bs, func(i, j int) bool { return bs[i] < bs[j] })
			for _, b := range bs {
				d, err := ip.GetStateByBlock(&q, b)
				w, in := m.at(id, func(s chainState) bool { return s.blockN == b })
				switch {
				case !ok:
					c.Assert(errors.Is(err, idenpubonchain.ErrIdenNotOnChain) || errors.Is(err, idenpubonchain.ErrIdenNotOnChainOrBlockTooNew), "unknown-block", "%s: the state at block %d of an identity that has none: %v", why, b, err)
				case in:
					c.Assert(err == nil && isData(d, w), "by-block", "%s: the state at block %d is %s (error %v) instead of %s", why, b, js(d), err, short(w.st))
					*d.IdenState, d.BlockTs = merkletree.Hash{9}, 7
				default:
					c.Assert(err != nil, "no-block", "%s: block %d has no state, but %s is returned", why, b, js(d))
				}
				c.Count("queries", 1)
			}
			var tt []int64
			for t := range times {
				tt = append(tt, t)
			}
			sort.Slice(tt, func(i, j int) bool { return tt[i] < tt[j] })
			for _, t := range tt {
				d, err := ip.GetStateByTime(&q, t)
				w, in := m.at(id, func(s chainState) bool { return s.ts == t })
				switch {
				case !ok:
					c.Assert(errors.Is(err, idenpubonchain.ErrIdenNotOnChain) || errors.Is(err, idenpubonchain.ErrIdenNotOnChainOrTimeTooNew), "unknown-time", "%s: the state at time %d of an identity that has none: %v", why, t, err)
				case in:
					c.Assert(err == nil && isData(d, w), "by-time", "%s: the state at time %d is %s (error %v) instead of %s", why, t, js(d), err, short(w.st))
					*d.IdenState, d.BlockN = merkletree.Hash{9}, 7
				default:
					c.Assert(err != nil, "no-time", "%s: time %d has no state, but %s is returned", why, t, js(d))
				}
				c.Count("queries", 1)
			}
			c.Assert(q == id, "id-changed", "a query changed the caller's id")
		}
	}
	check("at the start")
	n := 25
	if c.Tier == "thorough" {
		n = 60
	}
	for k := 0; k < n; k++ {
		i := c.R.Intn(len(ids))
		id := ids[i]
		switch x := c.R.Intn(10); {
		case x < 6:
			init := c.R.Intn(2) == 0
			cur, known := m.last(id)
			if c.R.Intn(3) > 0 {
				init = !known
			}
			old, st := cur.st, gen()
			if init {
				old = gen()
			}
			if known && !init && c.R.Intn(8) == 0 {
				st = old
			}
			p, what := zkIS.forge(c.R, leBig(id[:]), leBigE(old), leBigE(st)), "valid"
			good := true
			if c.R.Intn(3) == 0 {
				p, what = badProof(c, id, old, st, ids[(i+1)%len(ids)])
				good = p != nil && p.A != nil && p.B != nil && p.C != nil && zkVerifyState(p, id, old, st)
			}
			if c.R.Intn(12) == 0 { // the state plus the order of the field
				if v := new(big.Int).Add(leBigE(st), fR); v.BitLen() <= 256 {
					st, what, good = bigLE(v), what+", state + R", false
				}
			}
			ok := good && init == !known
			qid, qold, qst := id, hsh(old), hsh(st)
			var err error
			var conf *big.Int
			if init {
				tx, e := ip.InitState(&qid, qold, qst, p)
				if err = e; e == nil {
					conf, e = ip.TxConfirmBlocks(tx)
					c.Assert(e == nil, "confirm", "TxConfirmBlocks: %v", e)
				}
			} else {
				tx, e := ip.SetState(&qid, qst, p)
				if err = e; e == nil {
					conf, e = ip.TxConfirmBlocks(tx)
					c.Assert(e == nil, "confirm", "TxConfirmBlocks: %v", e)
				}
			}
			op := fmt.Sprintf("%v id%d %s>%s proof %s (known %v)", map[bool]string{true: "init", false: "set"}[init], i, short(old), short(st), what, known)
			c.Logf("%s: %v", op, err)
			h = append(h, fmt.Sprintf("%v%d%v%v", init, i, known, what))
			if !ok {
				c.Assert(err != nil, "accepted", "%s was accepted", op)
				if good {
					c.Count("refused_kind", 1)
				} else {
					c.Count("refused_proof", 1)
				}
			} else {
				c.Assert(err == nil, "refused", "%s was refused: %v", op, err)
				c.Assert(conf.Sign() == 0, "confirm", "%v confirmations of a transaction of this block", conf)
				m.pend = append(m.pend, regPend{init, id, old, st, chainState{st, block, ts}})
				c.Count("accepted", 1)
			}
			// the caller's values are the caller's
			qid[4] ^= 1
			*qold, *qst = merkletree.Hash{8}, merkletree.Hash{8}
			h = append(h, "")
		case x < 8:
			ip.Sync()
			m.sync(c)
			c.Logf("sync at block %d", block)
			h = append(h, "S")
		default:
			block += uint64(c.R.Intn(3))
			ts += int64(c.R.Intn(3))
			h = append(h, "B")
		}
		if k%3 == 0 || k == n-1 {
			check(fmt.Sprintf("after %d operations", k+1))
		}
	}
	ip.Sync()
	m.sync(c)
	check("at the end")
	c.Distinct("%v", h)
	tot := 0
	for _, x := range m.hist {
		tot += len(x)
	}
	c.Sample("%d states of %d identities", tot, len(m.hist))
}

func c17conc(c *C) {
	zkInit(c)
	var block uint64 = 10
	ip := localon.New(func() time.Time { return time.Unix(int64(atomic.LoadUint64(&block))*10, 0) }, func() uint64 { return atomic.LoadUint64(&block) }, zkIS.vk)
	id := randID(c.R)
	const n = 8
	sts := make([]h32, n)
	pos := map[h32]int{}
	ps := make([]*zktypes.Proof, n)
	old := h32(bigLE(new(big.Int).Rand(c.R, fR)))
	gen := old
	for i := range sts {
		sts[i] = bigLE(new(big.Int).Rand(c.R, fR))
		pos[sts[i]] = i
		ps[i] = zkIS.forge(c.R, leBig(id[:]), leBigE(old), leBigE(sts[i]))
		old = sts[i]
	}
	var stop int32
	var mu sync.Mutex
	at := map[uint64]h32{}
	for g := 0; g < 4; g++ {
		c.Go(func() {
			last := -1
			for atomic.LoadInt32(&stop) == 0 {
				qid := id
				d, err := ip.GetState(&qid)
				if err != nil {
					c.Assert(last < 0 && errors.Is(err, idenpubonchain.ErrIdenNotOnChain), "conc-lost", "the identity is no longer on chain: %v", err)
					continue
				}
				p, ok := pos[h32(*d.IdenState)]
				c.Assert(ok && p >= last && d.BlockTs == int64(d.BlockN)*10, "conc-state", "after state %d state %d is the current one (known %v)", last, p, ok)
				last = p
				mu.Lock()
				w, seen := at[d.BlockN]
				at[d.BlockN] = h32(*d.IdenState)
				mu.Unlock()
				c.Assert(!seen || w == h32(*d.IdenState), "conc-history", "block %d had two states", d.BlockN)
				b, err := ip.GetStateByBlock(&qid, d.BlockN)
				c.Assert(err == nil && h32(*b.IdenState) == h32(*d.IdenState), "conc-block", "the state of a block changed")
				b, err = ip.GetStateByTime(&qid, d.BlockTs)
				c.Assert(err == nil && h32(*b.IdenState) == h32(*d.IdenState), "conc-time", "the state of a time changed")
				c.Count("concurrent_reads", 1)
			}
		})
	}
	// others write too: the same transitions again, and of other identities
	for g := 0; g < 3; g++ {
		g := g
		oid := randID(rand.New(rand.NewSource(c.R.Int63())))
		ost := make([]h32, 3)
		ops := make([]*zktypes.Proof, len(ost))
		ogen := h32(bigLE(new(big.Int).Rand(c.R, fR)))
		o := ogen
		for i := range ost {
			ost[i] = bigLE(new(big.Int).Rand(c.R, fR))
			ops[i] = zkIS.forge(c.R, leBig(oid[:]), leBigE(o), leBigE(ost[i]))
			o = ost[i]
		}
		c.Go(func() {
			next := 0
			for k := 0; atomic.LoadInt32(&stop) == 0; k++ {
				if g == 0 { // of the same identity
					j := k % n
					var err error
					qid := id
					if j == 0 {
						_, err = ip.InitState(&qid, hsh(gen), hsh(sts[0]), ps[0])
					} else {
						_, err = ip.SetState(&qid, hsh(sts[j]), ps[j])
					}
					if err == nil {
						c.Count("concurrent_same", 1)
					}
					continue
				}
				qid := oid
				d, err := ip.GetState(&qid)
				var cur h32
				if err == nil {
					cur = h32(*d.IdenState)
				}
				c.Assert(next == 0 && err != nil || next > 0 && (err != nil && next == 1 || err == nil && (cur == ost[next-1] || next > 1 && cur == ost[next-2])), "conc-other", "after write %d of another identity its state is %x, %v", next, cur, err)
				if next == len(ost) {
					time.Sleep(time.Millisecond)
					continue
				}
				if next > 0 && (err != nil || cur != ost[next-1]) {
					continue // not synced yet
				}
				if next == 0 {
					_, err = ip.InitState(&qid, hsh(ogen), hsh(ost[0]), ops[0])
				} else {
					_, err = ip.SetState(&qid, hsh(ost[next]), ops[next])
				}
				c.Assert(err == nil, "conc-set", "a valid transition of another identity is refused: %v", err)
				next++
				c.Count("concurrent_other", 1)
			}
		})
	}
	c.Go(func() {
		defer atomic.StoreInt32(&stop, 1)
		for i, st := range sts {
			qid := id
			var err error
			if i == 0 {
				_, err = ip.InitState(&qid, hsh(gen), hsh(st), ps[i])
			} else {
				_, err = ip.SetState(&qid, hsh(st), ps[i])
			}
			if err != nil { // another has sent it, and it was synced before this one
				d, e := ip.GetState(&qid)
				c.Assert(e == nil && h32(*d.IdenState) == st, "conc-set", "a valid transition is refused: %v", err)
			}
			atomic.AddUint64(&block, 1)
			ip.Sync()
			time.Sleep(2 * time.Millisecond)
		}
	})
	c.Wait()
	d, err := ip.GetState(&id)
	c.Assert(err == nil && h32(*d.IdenState) == sts[n-1], "conc-last", "the last state is not the current one")
	c.Distinct("%d", c.N)
}
