package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"net"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/iden3/go-iden3-core/components/idenpuboffchain"
	localoff "github.com/iden3/go-iden3-core/components/idenpuboffchain/local"
	"github.com/iden3/go-iden3-core/components/idenpuboffchain/readerhttp"
	"github.com/iden3/go-iden3-core/components/idenpuboffchain/writerhttp"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/merkletree"
)

func init() {
	rules["C16"] = "sequences of publications (new states, the last one again, older ones again) with cache lengths 1 to 255 on every storage, with reloads; after each step the latest publication and publications by state (all recent ones, evicted, unknown) are read and compared with the record of what was published, node by node; a fault at every storage call of a publication; the data served over HTTP by a server that is honest, altered, truncated or failing; readers during publications; distinct = distinct (cache length, publications) and (alteration)"
	reg(Part{Prop: "C16", Name: "publisher", Quick: 130, Thorough: 6000, Need: []string{"published", "read_last", "read_recent", "read_unknown", "evicted", "wrapped", "reloads", "local"}, Run: c16pub})
	reg(Part{Prop: "C16", Name: "faults", Quick: 60, Thorough: 3000, Need: []string{"faults", "crashes", "failed", "kept"}, Run: c16fault})
	reg(Part{Prop: "C16", Name: "http", Quick: 40, Thorough: 1500, Need: []string{"http_reads", "http_rejected", "http_errors"}, Run: c16http})
	reg(Part{Prop: "C16", Name: "unreadable", Quick: 150, Thorough: 3000, Need: []string{"unreadable"}, Run: c16unreadable})
	reg(Part{Prop: "C16", Name: "serving", Quick: 40, Thorough: 1500, Need: []string{"read_faults", "reported", "load_faults", "new_faults"}, Run: c16serving})
	reg(Part{Prop: "C16", Name: "concurrent", Race: true, Quick: 20, Thorough: 500, Workers: 2, Need: []string{"concurrent_reads", "overlapped"}, Run: c16conc})
}

// pubSrc makes states of one identity whose trees grow.
type pubSrc struct {
	c           *C
	revs, roots *refTree
	rt, ot      *merkletree.MerkleTree
	made        []*pubRec
}

func newPubSrc(c *C) *pubSrc {
	return &pubSrc{c: c, revs: newRefTree(140), roots: newRefTree(140), rt: memTree(c, newRefTree(140)), ot: memTree(c, newRefTree(140))}
}

// next makes a new state; grow: the trees grow.
func (p *pubSrc) next(grow int) *pubRec {
	c := p.c
	for i := 0; i < grow; i++ {
		l := leafRev(c.R.Uint32())
		if p.revs.m[l.hi] == nil && c.R.Intn(2) == 0 {
			c.Must(p.rt.AddEntry(l.entry()), "rev")
			p.revs = p.revs.clone()
			p.revs.m[l.hi] = l
		}
		l = leafRoot(bigLE(new(big.Int).Rand(c.R, fR)))
		c.Must(p.ot.AddEntry(l.entry()), "root")
		p.roots = p.roots.clone()
		p.roots.m[l.hi] = l
	}
	r := &pubRec{revs: p.revs, roots: p.roots, clr: bigLE(new(big.Int).Rand(c.R, fR))}
	r.rer, r.ror = h32(*p.rt.RootKey()), h32(*p.ot.RootKey())
	r.st = refState(r.clr, r.rer, r.ror)
	p.made = append(p.made, r)
	return r
}

// data is the argument of Publish for r; the trees are the live ones, which
// may have grown since.
func (p *pubSrc) data(r *pubRec) *idenpuboffchain.PublicData {
	return &idenpuboffchain.PublicData{IdenState: hsh(r.st), ClaimsTreeRoot: hsh(r.clr), RevocationsTreeRoot: hsh(r.rer), RootsTreeRoot: hsh(r.ror), RevocationsTree: p.rt, RootsTree: p.ot}
}

// otherBlobs puts something in b that is valid by itself but not what its
// other parts name.
func (p *pubSrc) otherBlobs(b *idenpuboffchain.PublicDataBlobs) string {
	c := p.c
	dump := func(t *merkletree.MerkleTree, root h32) []byte {
		var w bytes.Buffer
		c.Must(t.DumpTree(&w, hsh(root)), "dump")
		return w.Bytes()
	}
	o := p.made[c.R.Intn(len(p.made))]
	one := func(l *rent) (*merkletree.MerkleTree, h32) {
		t, err := merkletree.NewMerkleTree(db.NewMemoryStorage(), 140)
		c.Must(err, "tree")
		c.Must(t.AddEntry(l.entry()), "entry")
		return t, h32(*t.RootKey())
	}
	switch c.R.Intn(8) {
	case 0:
		b.RootsTree = dump(p.ot, o.ror)
		return "roots tree of another publication"
	case 1:
		b.RevocationsTree = dump(p.rt, o.rer)
		return "revocations tree of another publication"
	case 2:
		t, r := one(leafRoot(bigLE(new(big.Int).Rand(c.R, fR))))
		b.RootsTree = dump(t, r)
		return "a roots tree of its own"
	case 3:
		t, r := one(leafRev(c.R.Uint32()))
		b.RevocationsTree = dump(t, r)
		return "a revocations tree of its own"
	case 4:
		t, r := one(leafRoot(bigLE(new(big.Int).Rand(c.R, fR))))
		b.RootsTree, b.RootsTreeRoot = dump(t, r), *hsh(r)
		return "a roots tree of its own with its root"
	case 5:
		t, r := one(leafRev(c.R.Uint32()))
		b.RevocationsTree, b.RevocationsTreeRoot = dump(t, r), *hsh(r)
		return "a revocations tree of its own with its root"
	case 6:
		b.RevocationsTree, b.RevocationsTreeRoot, b.RootsTree, b.RootsTreeRoot = b.RootsTree, b.RootsTreeRoot, b.RevocationsTree, b.RevocationsTreeRoot
		return "trees swapped with their roots"
	}
	v := new(big.Int).Add(leBigE(h32(b.ClaimsTreeRoot)), fR)
	if v.BitLen() <= 256 {
		b.ClaimsTreeRoot = *hsh(bigLE(v))
	}
	return "claims root plus the order of the field"
}

// blobChecker compares served data with records; memo holds blobs known good.
type blobChecker struct{ memo map[string]bool }

func (b *blobChecker) same(c *C, pd *idenpuboffchain.PublicDataBlobs, r *pubRec, why string) {
	c.Assert(pd != nil && h32(pd.IdenState) == r.st, "served-state", "%s: another state than the one published is served", why)
	c.Assert(h32(pd.ClaimsTreeRoot) == r.clr && h32(pd.RevocationsTreeRoot) == r.rer && h32(pd.RootsTreeRoot) == r.ror, "served-roots", "%s: other roots than the ones published with the state are served", why)
	k := string(pd.RevocationsTree) + "|" + string(pd.RootsTree) + string(r.rer[:]) + string(r.ror[:])
	if b.memo[k] {
		return
	}
	full, err := idenpuboffchain.NewPublicDataFromBlobs(pd)
	c.Assert(err == nil, "served-trees", "%s: the served data is not accepted: %v", why, err)
	sameTree(c, full.RevocationsTree, r.revs, nil, "served revocations tree")
	sameTree(c, full.RootsTree, r.roots, nil, "served roots tree")
	b.memo[k] = true
}

// pubModel is what a publisher must hold.
type pubModel struct {
	n   int
	seq []*pubRec // publications, without immediate repetitions
}

func (m *pubModel) publish(r *pubRec) {
	if len(m.seq) == 0 || m.seq[len(m.seq)-1].st != r.st {
		m.seq = append(m.seq, r)
	}
}

func (m *pubModel) recent() map[h32]*pubRec {
	o := map[h32]*pubRec{}
	for i := len(m.seq) - 1; i >= 0 && i >= len(m.seq)-m.n; i-- {
		o[m.seq[i].st] = m.seq[i]
	}
	return o
}

// check reads everything from w.
func (m *pubModel) check(c *C, b *blobChecker, w *writerhttp.IdenPubOffChainWriteHttp, made []*pubRec, few bool, why string) {
	pd, err := w.GetPublicData(nil)
	if len(m.seq) == 0 {
		c.Assert(errors.Is(err, writerhttp.ErrIdenStateNotFound), "empty", "%s: the last publication of none: %v", why, err)
	} else {
		c.Assert(err == nil, "last", "%s: reading the last publication: %v", why, err)
		b.same(c, pd, m.seq[len(m.seq)-1], why+", last publication")
		c.Count("read_last", 1)
	}
	rec := m.recent()
	for i, r := range made {
		if few && i < len(made)-3 && c.R.Intn(8) > 0 {
			continue
		}
		st := hsh(r.st)
		pd, err := w.GetPublicData(st)
		if rec[r.st] != nil {
			c.Assert(err == nil, "recent", "%s: one of the last %d publications is not served: %v", why, m.n, err)
			b.same(c, pd, r, why)
			c.Count("read_recent", 1)
			continue
		}
		if err == nil {
			b.same(c, pd, r, why+", old publication")
			continue
		}
		c.Assert(errors.Is(err, writerhttp.ErrIdenStateNotFound), "old", "%s: an old publication: %v", why, err)
		c.Count("evicted", 1)
	}
	x := h32(randElem(c.R))
	if len(m.seq) > 0 {
		x = m.seq[c.R.Intn(len(m.seq))].st
		x[c.R.Intn(32)] ^= 1
	}
	for _, q := range []h32{x, {}} {
		_, err = w.GetPublicData(hsh(q))
		c.Assert(errors.Is(err, writerhttp.ErrIdenStateNotFound), "unknown", "%s: a state never published: %v", why, err)
		c.Count("read_unknown", 1)
	}
}

func scribble(pd *idenpuboffchain.PublicDataBlobs) {
	for _, b := range [][]byte{pd.RevocationsTree, pd.RootsTree} {
		for i := range b {
			b[i] ^= 0x55
		}
	}
}

func cacheLen(c *C) byte {
	switch c.R.Intn(4) {
	case 0:
		return byte(1 + c.R.Intn(3))
	case 1:
		return byte(4 + c.R.Intn(12))
	case 2:
		return []byte{1, 2, 127, 128, 129, 254, 255, 4}[c.R.Intn(8)]
	}
	return byte(1 + c.R.Intn(255))
}

func c16pub(c *C) {
	n := cacheLen(c)
	st := openStore(c, storeKind(c))
	defer func() { st.close() }()
	url := fmt.Sprintf("http://h%d", c.N)
	w, err := writerhttp.NewIdenPubOffChainWriteHttp(&writerhttp.Config{CacheLen: n, Url: url}, st.s)
	c.Assert(err == nil, "new", "a publisher with a cache of %d: %v", n, err)
	src := newPubSrc(c)
	id := randID(c.R)
	m := &pubModel{n: int(n)}
	b := &blobChecker{memo: map[string]bool{}}
	m.check(c, b, w, nil, false, "before any publication")
	total := c.R.Intn(2*int(n)+4) + 1
	if total < 4 {
		total += 3
	}
	big := total > 60
	step := 1
	if big {
		step = 1 + total/15
	}
	// the local publisher, with another identity
	lp := localoff.NewIdenPubOffChain(url)
	id2 := randID(c.R)
	lm := map[core.ID][]*pubRec{}
	lcheck := func(why string) {
		for _, i := range []core.ID{id, id2} {
			i := i
			l := lm[i]
			pd, err := lp.GetPublicData(url, &i, nil)
			c.Assert((err == nil) == (len(l) > 0), "local-last", "%s: the last local publication: %v", why, err)
			if len(l) == 0 {
				continue
			}
			cmp := func(pd *idenpuboffchain.PublicData, r *pubRec, what string) {
				c.Assert(h32(*pd.IdenState) == r.st && h32(*pd.ClaimsTreeRoot) == r.clr && h32(*pd.RevocationsTreeRoot) == r.rer && h32(*pd.RootsTreeRoot) == r.ror, "local-roots", "%s: %s is not the one published", why, what)
				sameTree(c, pd.RevocationsTree, r.revs, nil, "local revocations tree")
				sameTree(c, pd.RootsTree, r.roots, nil, "local roots tree")
				c.Count("local", 1)
			}
			cmp(pd, l[len(l)-1], "the last local publication")
			r := l[c.R.Intn(len(l))]
			pd, err = lp.GetPublicData(url, &i, hsh(r.st))
			c.Assert(err == nil, "local", "%s: a local publication: %v", why, err)
			cmp(pd, r, "a local publication")
			x := r.st
			x[3] ^= 4
			_, err = lp.GetPublicData(url, &i, hsh(x))
			c.Assert(err != nil, "local-unknown", "%s: a state never published is served", why)
			_, err = lp.GetPublicData(url+"x", &i, hsh(r.st))
			c.Assert(err != nil, "local-url", "%s: another server's url is served", why)
		}
	}
	var log strings.Builder
	for k := 0; k < total; k++ {
		var r *pubRec
		switch x := c.R.Intn(10); {
		case x < 7 || len(src.made) == 0:
			g := c.R.Intn(3)
			if big {
				g = 0
				if c.R.Intn(20) == 0 {
					g = 1
				}
			}
			r = src.next(g)
			fmt.Fprintf(&log, "n")
		case x < 9:
			r = m.seq[len(m.seq)-1]
			fmt.Fprintf(&log, "l")
		default:
			j := c.R.Intn(len(src.made))
			r = src.made[j]
			fmt.Fprintf(&log, "o%d", j)
		}
		pd := src.data(r)
		err := w.Publish(&id, pd)
		c.Assert(err == nil, "publish", "publication %d: %v", k, err)
		// what the caller does with its values afterwards changes nothing
		*pd.IdenState, *pd.ClaimsTreeRoot = merkletree.Hash{1}, merkletree.Hash{2}
		*pd.RevocationsTreeRoot, *pd.RootsTreeRoot = merkletree.Hash{3}, merkletree.Hash{4}
		m.publish(r)
		c.Count("published", 1)
		if len(m.seq) > int(n) {
			c.Count("wrapped", 1)
		}
		if !big && c.R.Intn(3) == 0 {
			i := []core.ID{id, id2}[c.R.Intn(2)]
			pd := src.data(r)
			c.Assert(lp.Publish(&i, pd) == nil, "local-publish", "local publication")
			*pd.IdenState, *pd.ClaimsTreeRoot = merkletree.Hash{1}, merkletree.Hash{2}
			*pd.RevocationsTreeRoot, *pd.RootsTreeRoot = merkletree.Hash{3}, merkletree.Hash{4}
			lm[i] = append(lm[i], r)
		}
		if c.R.Intn(6) == 0 {
			st = st.reopen(c)
			w, err = writerhttp.LoadIdenPubOffChainWriteHttp(st.s)
			c.Assert(err == nil, "load", "loading the publisher: %v", err)
			c.Assert(w.Url() == url, "url", "after loading, the url is %q instead of %q", w.Url(), url)
			c.Count("reloads", 1)
			fmt.Fprintf(&log, "R")
		}
		if k%step == 0 || k == total-1 {
			m.check(c, b, w, src.made, big && k < total-1, fmt.Sprintf("cache length %d, after %s", n, short2(log.String())))
			if pd, err := w.GetPublicData(nil); err == nil {
				scribble(pd)
				m.check(c, b, w, nil, true, "after the served data was written to")
			}
			if k%(3*step) == 0 {
				lcheck("local")
			}
		}
	}
	lcheck("local")
	c.Distinct("%d %s", n, log.String())
	c.Sample("cache %d on %s: %s", n, st.name, short2(log.String()))
}

func short2(s string) string {
	if len(s) > 60 {
		return "…" + s[len(s)-60:]
	}
	return s
}

func c16fault(c *C) {
	n := byte(1 + c.R.Intn(4))
	mem := db.NewMemoryStorage()
	w, err := writerhttp.NewIdenPubOffChainWriteHttp(&writerhttp.Config{CacheLen: n, Url: "u"}, mem)
	c.Assert(err == nil, "new", "%v", err)
	src := newPubSrc(c)
	id := randID(c.R)
	m := &pubModel{n: int(n)}
	b := &blobChecker{memo: map[string]bool{}}
	for k := c.R.Intn(2*int(n) + 2); k > 0; k-- {
		r := src.next(c.R.Intn(2))
		c.Assert(w.Publish(&id, src.data(r)) == nil, "publish", "publish")
		m.publish(r)
	}
	r := src.next(1)
	again := len(m.seq) > 0 && c.R.Intn(4) == 0
	if again {
		r = m.seq[len(m.seq)-1]
	}
	for at := 0; ; at++ {
		fired := false
		for _, kind := range []faultKind{fkError, fkErrorAfter, fkCrashBefore, fkCrashAfter} {
			cp := copyStore(c, mem)
			ctl := newCtl()
			fw, err := writerhttp.LoadIdenPubOffChainWriteHttp(newFaultStore(cp, ctl))
			c.Assert(err == nil, "load", "%v", err)
			ctl.arm(at, kind, nil)
			var perr error
			crashed := runCrash(func() { perr = fw.Publish(&id, src.data(r)) })
			ctl.disarm()
			if !ctl.fired {
				break
			}
			fired = true
			c.Count("faults", 1)
			if crashed {
				c.Count("crashes", 1)
			}
			c.Assert(crashed || perr != nil, "fault-hidden", "a failing storage call (%s) is not reported by Publish", ctl.firedOp)
			c.Count("failed", 1)
			for _, reload := range []bool{true, false} {
				x := fw
				if reload {
					if x, err = writerhttp.LoadIdenPubOffChainWriteHttp(copyStore(c, cp)); err != nil {
						c.Fail("fault-load", "after %v at %s the publisher does not load: %v", kind, ctl.firedOp, err)
					}
				}
				why := fmt.Sprintf("after %v at call %d (%s) of a publication, cache length %d", kind, at, ctl.firedOp, n)
				m2 := &pubModel{n: m.n, seq: append([]*pubRec{}, m.seq...)}
				if pd, err := x.GetPublicData(nil); err == nil && h32(pd.IdenState) == r.st && !again {
					c.Assert(kind == fkErrorAfter || kind == fkCrashAfter, "fault-effect", "%s: the failed publication is served", why)
					m2.publish(r)
				}
				m2.check(c, b, x, src.made[:len(src.made)-1], false, why)
				c.Count("kept", 1)
				// and the next publication works
				r2 := src.made[len(src.made)-1]
				c.Assert(x.Publish(&id, src.data(r2)) == nil, "fault-next", "%s: the next publication fails", why)
				m2.publish(r2)
				m2.check(c, b, x, src.made, false, why+" and another publication")
				if crashed {
					break
				}
			}
			c.Distinct("%d|%d|%d|%v|%v", n, len(m.seq), at, kind, again)
		}
		if !fired {
			break
		}
	}
}

// c16unreadable: publications whose trees can not be read (completely) are
// refused as a whole, by the publisher and the local one.
func c16unreadable(c *C) {
	n := byte(1 + c.R.Intn(4))
	w, err := writerhttp.NewIdenPubOffChainWriteHttp(&writerhttp.Config{CacheLen: n, Url: "u"}, db.NewMemoryStorage())
	c.Assert(err == nil, "new", "%v", err)
	lp := localoff.NewIdenPubOffChain("u")
	src := newPubSrc(c)
	id := randID(c.R)
	m := &pubModel{n: int(n)}
	b := &blobChecker{memo: map[string]bool{}}
	for k := c.R.Intn(int(n) + 2); k > 0; k-- {
		r := src.next(c.R.Intn(3))
		c.Assert(w.Publish(&id, src.data(r)) == nil && lp.Publish(&id, src.data(r)) == nil, "publish", "publish")
		m.publish(r)
	}
	pubs := append([]*pubRec{}, src.made...)
	check := func(why string) {
		m.check(c, b, w, src.made, false, why)
		for _, x := range src.made {
			known := false
			for _, p := range pubs {
				known = known || p == x
			}
			pd, err := lp.GetPublicData("u", &id, hsh(x.st))
			c.Assert((err == nil) == known, "local-unreadable", "%s: the local publisher: %v (published: %v)", why, err, known)
			if known {
				c.Assert(h32(*pd.RevocationsTree.RootKey()) == x.rer && h32(*pd.RootsTree.RootKey()) == x.ror, "local-unreadable", "%s: the local publisher has other trees", why)
			}
		}
	}
	src.next(1)
	for k := 0; k < 12; k++ {
		r := src.next(1 + c.R.Intn(2))
		pd := src.data(r)
		why := ""
		ctl := newCtl()
		bad := func(t *merkletree.MerkleTree) *merkletree.MerkleTree {
			x, err := merkletree.NewMerkleTree(newFaultStore(copyStore(c, t.Storage()), ctl), 140)
			c.Must(err, "tree")
			return x
		}
		localToo := true
		switch k % 4 {
		case 0:
			*pd.RevocationsTreeRoot = *hsh(bigLE(new(big.Int).Rand(c.R, fR)))
			why = "an unknown root of the revocations tree"
		case 1:
			*pd.RootsTreeRoot = *hsh(bigLE(new(big.Int).Rand(c.R, fR)))
			why = "an unknown root of the roots tree"
		case 2:
			pd.RevocationsTree = bad(pd.RevocationsTree)
			why = "an unreadable revocations tree"
		case 3:
			pd.RootsTree = bad(pd.RootsTree)
			why = "an unreadable roots tree"
		}
		if k%4 >= 2 {
			ctl.arm(c.R.Intn(1+c.R.Intn(1+2*len(src.roots.m))), fkError, nil)
			localToo = false // it does not read the whole tree
		}
		err := w.Publish(&id, pd)
		if k%4 >= 2 && !ctl.fired {
			c.Assert(err == nil, "publish", "%v", err)
			m.publish(r)
			continue
		}
		c.Assert(err != nil, "unreadable-published", "a publication with %s is accepted", why)
		if localToo {
			c.Assert(lp.Publish(&id, pd) != nil, "unreadable-local", "the local publisher accepts a publication with %s", why)
		}
		c.Count("unreadable", 1)
		check("after a refused publication with " + why)
		if c.R.Intn(3) == 0 {
			r := src.next(c.R.Intn(2))
			c.Assert(w.Publish(&id, src.data(r)) == nil && lp.Publish(&id, src.data(r)) == nil, "unreadable-next", "after a refused publication with %s the next one fails", why)
			m.publish(r)
			pubs = append(pubs, r)
			check("after another publication")
		}
	}
	c.Distinct("%d %d %x", n, len(src.made), src.made[0].st)
}

// c16serving: a storage call that fails while a publication is read (or the
// publisher is created or loaded) is reported: no reader is given other data,
// nor told that a published state is unknown.
func c16serving(c *C) {
	n := byte(1 + c.R.Intn(5))
	mem := db.NewMemoryStorage()
	if c.R.Intn(12) == 0 {
		x, err := writerhttp.NewIdenPubOffChainWriteHttp(&writerhttp.Config{CacheLen: 0, Url: "u"}, mem)
		c.Assert(err != nil && x == nil, "cache-zero", "a cache of length 0 is accepted")
	}
	for at := 0; ; at++ {
		st := db.NewMemoryStorage()
		ctl := newCtl()
		ctl.arm(at, fkError, nil)
		x, err := writerhttp.NewIdenPubOffChainWriteHttp(&writerhttp.Config{CacheLen: n, Url: "u"}, newFaultStore(st, ctl))
		ctl.disarm()
		if !ctl.fired {
			c.Assert(err == nil, "new", "%v", err)
			break
		}
		c.Assert(err != nil && x == nil, "new-fault", "creating a publisher whose storage fails (%s) is reported as done", ctl.firedOp)
		_, lerr := writerhttp.LoadIdenPubOffChainWriteHttp(st)
		c.Assert(lerr != nil, "new-fault-load", "a publisher that could not be created loads")
		c.Count("new_faults", 1)
	}
	w, err := writerhttp.NewIdenPubOffChainWriteHttp(&writerhttp.Config{CacheLen: n, Url: "u"}, mem)
	c.Assert(err == nil, "new", "%v", err)
	src := newPubSrc(c)
	id := randID(c.R)
	m := &pubModel{n: int(n)}
	b := &blobChecker{memo: map[string]bool{}}
	for k := 1 + c.R.Intn(2*int(n)+2); k > 0; k-- {
		r := src.next(c.R.Intn(3))
		c.Assert(w.Publish(&id, src.data(r)) == nil, "publish", "publish")
		m.publish(r)
	}
	src.next(1) // never published
	ctl := newCtl()
	fs := newFaultStore(mem, ctl)
	ctl.arm(0, fkError, nil)
	_, err = writerhttp.LoadIdenPubOffChainWriteHttp(fs)
	ctl.disarm()
	c.Assert(!ctl.fired || err != nil, "load-fault", "loading a publisher whose storage fails is reported as done")
	c.Count("load_faults", 1)
	fw, err := writerhttp.LoadIdenPubOffChainWriteHttp(fs)
	c.Assert(err == nil, "load", "%v", err)
	qs := []*merkletree.Hash{nil}
	for _, r := range src.made {
		qs = append(qs, hsh(r.st))
	}
	for _, q := range qs {
		want, werr := w.GetPublicData(q)
		for at := 0; at < 200; at++ {
			ctl.arm(at, fkError, nil)
			pd, err := fw.GetPublicData(q)
			ctl.disarm()
			if !ctl.fired {
				c.Assert((err == nil) == (werr == nil), "serving", "without a fault: %v, before %v", err, werr)
				break
			}
			c.Count("read_faults", 1)
			if err == nil {
				// a call whose result is not needed
				c.Assert(werr == nil && fmt.Sprint(*pd) == fmt.Sprint(*want), "serving-fault-data", "with a failing storage call (%s) other data is served", ctl.firedOp)
				continue
			}
			c.Assert(pd == nil, "serving-fault-both", "data and an error (%v) are returned", err)
			if err == writerhttp.ErrIdenStateNotFound {
				c.Assert(werr == writerhttp.ErrIdenStateNotFound, "serving-fault-unknown", "with a failing storage call (%s, %d) a published state is reported as unknown", ctl.firedOp, at)
			}
			c.Count("reported", 1)
		}
	}
	m.check(c, b, fw, src.made, false, "after reads with failing storage")
	c.Distinct("%d %d %x", n, len(src.made), src.made[0].st)
}

// c16srv serves publications over HTTP as the issuer's server does.
type c16srv struct {
	w       *writerhttp.IdenPubOffChainWriteHttp
	id      core.ID
	mangle  func([]byte) (int, []byte)
	lastReq string
}

func (s *c16srv) ServeHTTP(rw http.ResponseWriter, q *http.Request) {
	s.lastReq = q.URL.Path
	code, body := 404, []byte(`{"error":"not found"}`)
	f := strings.Split(strings.Trim(q.URL.Path, "/"), "/")
	if f[0] == "base" {
		f = f[1:]
	}
	var st *merkletree.Hash
	ok := len(f) >= 2 && f[0] == s.id.String()
	if ok && len(f) == 3 && f[1] == "state" {
		st = new(merkletree.Hash)
		ok = st.UnmarshalText([]byte(f[2])) == nil
	} else if !ok || len(f) != 2 || f[1] != "laststate" {
		ok = false
	}
	if ok {
		if pd, err := s.w.GetPublicData(st); err == nil {
			code = 200
			body, _ = json.Marshal(pd)
		}
	}
	if s.mangle != nil && code == 200 {
		code, body = s.mangle(body)
	}
	rw.Header().Set("Content-Type", "application/json")
	rw.WriteHeader(code)
	_, _ = rw.Write(body)
}

func c16http(c *C) {
	n := byte(1 + c.R.Intn(4))
	w, err := writerhttp.NewIdenPubOffChainWriteHttp(&writerhttp.Config{CacheLen: n, Url: "u"}, db.NewMemoryStorage())
	c.Assert(err == nil, "new", "%v", err)
	src := newPubSrc(c)
	id := randID(c.R)
	m := &pubModel{n: int(n)}
	s := &c16srv{w: w, id: id}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	c.Must(err, "listen")
	srv := &httptest.Server{Listener: ln, Config: &http.Server{Handler: s}}
	srv.Start()
	defer srv.Close()
	rd := readerhttp.NewIdenPubOffChainHttp()
	url := srv.URL
	switch c.R.Intn(3) {
	case 0:
		url += "/"
	case 1:
		url += "/base"
	}
	cmp := func(pd *idenpuboffchain.PublicData, r *pubRec) {
		c.Assert(h32(*pd.IdenState) == r.st && h32(*pd.ClaimsTreeRoot) == r.clr && h32(*pd.RevocationsTreeRoot) == r.rer && h32(*pd.RootsTreeRoot) == r.ror, "http-roots", "other data is read over HTTP than was published")
		sameTree(c, pd.RevocationsTree, r.revs, r.revs.list(), "revocations tree over HTTP")
		sameTree(c, pd.RootsTree, r.roots, nil, "roots tree over HTTP")
		c.Count("http_reads", 1)
	}
	_, err = rd.GetPublicData(url, &id, nil)
	c.Assert(err != nil, "http-none", "data was read although nothing was published")
	for k := 0; k < int(n)+3; k++ {
		r := src.next(c.R.Intn(4))
		c.Assert(w.Publish(&id, src.data(r)) == nil, "publish", "publish")
		m.publish(r)
		pd, err := rd.GetPublicData(url, &id, nil)
		c.Assert(err == nil, "http-last", "reading the last publication over HTTP: %v", err)
		cmp(pd, r)
		rec := m.recent()
		for _, x := range src.made {
			pd, err := rd.GetPublicData(url, &id, hsh(x.st))
			if rec[x.st] != nil {
				c.Assert(err == nil, "http-read", "reading a publication over HTTP: %v", err)
				cmp(pd, x)
			} else {
				c.Assert(err != nil, "http-evicted", "a publication that is not served is read")
				c.Count("http_errors", 1)
			}
		}
		other := randID(c.R)
		_, err = rd.GetPublicData(url, &other, hsh(r.st))
		c.Assert(err != nil, "http-other", "the data of another identity is read")
		// a server that alters what it serves
		last := r
		var good idenpuboffchain.PublicDataBlobs
		g, _ := w.GetPublicData(nil)
		gb, _ := json.Marshal(g)
		c.Must(json.Unmarshal(gb, &good), "json")
		for j := 0; j < 18; j++ {
			bad := good
			bad.RevocationsTree = append([]byte{}, good.RevocationsTree...)
			bad.RootsTree = append([]byte{}, good.RootsTree...)
			o := src.made[c.R.Intn(len(src.made))]
			code, what := 200, ""
			var body []byte
			lines := func(b []byte, drop bool) []byte {
				l := strings.SplitAfter(string(b), "\n")
				if len(b) == 0 {
					return []byte("00")
				}
				i := c.R.Intn(len(l))
				if drop {
					l = append(l[:i:i], l[i+1:]...)
				} else {
					l = append(l, l[i])
				}
				return []byte(strings.Join(l, ""))
			}
			switch j {
			case 0:
				bad.IdenState[c.R.Intn(32)] ^= 8
				what = "state bit"
			case 1:
				bad.ClaimsTreeRoot[c.R.Intn(32)] ^= 8
				what = "claims root bit"
			case 2:
				bad.RevocationsTreeRoot[c.R.Intn(32)] ^= 8
				what = "revocations root bit"
			case 3:
				bad.RootsTreeRoot[c.R.Intn(32)] ^= 8
				what = "roots root bit"
			case 4:
				bad.RootsTree = lines(bad.RootsTree, true)
				what = "a piece of the roots tree missing"
			case 5:
				bad.RevocationsTree = lines(bad.RevocationsTree, true)
				what = "a piece of the revocations tree missing"
			case 6:
				if len(bad.RootsTree) > 0 {
					bad.RootsTree[c.R.Intn(len(bad.RootsTree))] ^= 1 << uint(c.R.Intn(8))
				}
				what = "roots tree bit"
			case 7:
				if len(bad.RevocationsTree) > 0 {
					bad.RevocationsTree[c.R.Intn(len(bad.RevocationsTree))] ^= 1 << uint(c.R.Intn(8))
				}
				what = "revocations tree bit"
			case 8:
				bad.RevocationsTree, bad.RootsTree = bad.RootsTree, bad.RevocationsTree
				what = "trees swapped"
			case 9:
				bad.IdenState = *hsh(o.st)
				what = "state of another publication"
			case 10:
				bad.ClaimsTreeRoot = *hsh(o.clr)
				what = "claims root of another publication"
			case 11:
				bad.RevocationsTree, bad.RootsTree = nil, nil
				what = "no trees"
			case 12:
				code, what = []int{500, 404, 400, 503, 302, 204}[c.R.Intn(6)], "error status"
			case 13:
				what = "truncated body"
				body = gb[:c.R.Intn(len(gb))]
			default:
				what = src.otherBlobs(&bad)
			}
			if body == nil {
				body, _ = json.Marshal(bad)
			}
			s.mangle = func([]byte) (int, []byte) { return code, body }
			pd, err := rd.GetPublicData(url, &id, hsh(last.st))
			s.mangle = nil
			if err == nil {
				// accepted only if it is, in full, the data of the state asked for
				st := h32(*pd.IdenState)
				ok := false
				for _, x := range src.made {
					if x.st == st && st == last.st && code == 200 {
						cmp(pd, x)
						ok = true
					}
				}
				c.Assert(ok, "http-accepted", "altered data (%s) was accepted", what)
				continue
			}
			c.Count("http_rejected", 1)
			c.Distinct("%s|%x", what, short(last.st))
		}
	}
	srv.Close()
	_, err = rd.GetPublicData(url, &id, nil)
	c.Assert(err != nil, "http-down", "data was read from a server that is down")
}

func c16conc(c *C) {
	n := byte(2 + c.R.Intn(6))
	st := openStore(c, c.N)
	defer func() { st.close() }()
	w, err := writerhttp.NewIdenPubOffChainWriteHttp(&writerhttp.Config{CacheLen: n, Url: "u"}, st.s)
	c.Assert(err == nil, "new", "%v", err)
	lp := localoff.NewIdenPubOffChain("u")
	src := newPubSrc(c)
	id := randID(c.R)
	var recs []*pubRec
	byState := map[h32]*pubRec{}
	pos := map[h32]int{}
	for i := 0; i < 24; i++ {
		r := src.next(c.R.Intn(2))
		recs = append(recs, r)
		byState[r.st], pos[r.st] = r, i
	}
	var started, done int64 = 0, 0 // publications started and finished
	var mu sync.Mutex
	checked := map[string]bool{}
	stop := int64(0)
	verify := func(pd *idenpuboffchain.PublicDataBlobs) *pubRec {
		r := byState[h32(pd.IdenState)]
		c.Assert(r != nil, "conc-state", "a state never published is served")
		c.Assert(h32(pd.ClaimsTreeRoot) == r.clr && h32(pd.RevocationsTreeRoot) == r.rer && h32(pd.RootsTreeRoot) == r.ror, "conc-mixed", "parts of two publications are served together")
		k := string(r.st[:]) + string(pd.RevocationsTree) + string(pd.RootsTree)
		mu.Lock()
		seen := checked[k]
		checked[k] = true
		mu.Unlock()
		if !seen {
			_, err := idenpuboffchain.NewPublicDataFromBlobs(pd)
			c.Assert(err == nil, "conc-trees", "the data served during a publication is not accepted: %v", err)
		}
		return r
	}
	for g := 0; g < 4; g++ {
		rr := newRand(c.R.Int63())
		c.Go(func() {
			for atomic.LoadInt64(&stop) == 0 {
				d0, s0 := atomic.LoadInt64(&done), atomic.LoadInt64(&started)
				if rr.Intn(2) == 0 {
					pd, err := w.GetPublicData(nil)
					s1 := atomic.LoadInt64(&started)
					if d0 == 0 && err != nil {
						continue
					}
					c.Assert(err == nil, "conc-last", "reading the last publication: %v", err)
					r := verify(pd)
					c.Assert(int64(pos[r.st]) >= d0-1 && int64(pos[r.st]) < s1, "conc-stale", "publication %d is served as the last one, between %d finished before and %d started", pos[r.st], d0, s1)
					if s0 != d0 || s1 != s0 {
						c.Count("overlapped", 1)
					}
				} else if d0 > 0 {
					i := d0 - 1 - int64(rr.Intn(int(n)))
					if i < 0 {
						continue
					}
					pd, err := w.GetPublicData(hsh(recs[i].st))
					s1 := atomic.LoadInt64(&started)
					if s1-i > int64(n) && err != nil { // may have been evicted
						c.Assert(errors.Is(err, writerhttp.ErrIdenStateNotFound), "conc-evicted", "%v", err)
						continue
					}
					c.Assert(err == nil, "conc-read", "reading one of the last %d publications: %v", n, err)
					c.Assert(verify(pd).st == recs[i].st, "conc-other", "another state than the one asked for is served")
				}
				pd, err := lp.GetPublicData("u", &id, nil)
				if err == nil {
					r := byState[h32(*pd.IdenState)]
					c.Assert(r != nil && h32(*pd.ClaimsTreeRoot) == r.clr && h32(*pd.RevocationsTree.RootKey()) == r.rer && h32(*pd.RootsTree.RootKey()) == r.ror, "conc-local", "parts of two publications are served together")
				}
				c.Count("concurrent_reads", 1)
			}
		})
	}
	c.Go(func() {
		defer atomic.StoreInt64(&stop, 1)
		for _, r := range recs {
			atomic.AddInt64(&started, 1)
			c.Assert(w.Publish(&id, src.data(r)) == nil, "conc-publish", "publish")
			atomic.AddInt64(&done, 1)
			c.Assert(lp.Publish(&id, src.data(r)) == nil, "conc-publish", "publish")
		}
	})
	c.Wait()
	c.Distinct("%d %s %d", n, st.name, c.N)
}
