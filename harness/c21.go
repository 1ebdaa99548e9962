package main

// C21: the challenge nonce store.

import (
	"fmt"
	"math"
	"sync"
	"sync/atomic"
	"time"

	nonces "github.com/iden3/go-iden3-core/utils/noncedb"
)

func init() {
	rules["C21"] = "a case is a history of adds, aux attachments, searches, consumptions and purges of a few nonces (real clock, lifetimes from negative over a second to the maximum), checked call by call against a model, or a burst of goroutines doing the same, checked for linearizability; non-trivial when a nonce was consumed, expired or added again"
	assumptions["C21"] = []string{"the wall clock does not jump during a run; calls made within the second a nonce expires in may answer either way"}
	reg(Part{Prop: "C21", Name: "model", Quick: 240, Thorough: 2400, Workers: 80, Run: c21Model,
		Need: []string{"found", "consumed", "refused after consumption", "refused after expiry", "re-added", "purges", "survived a purge", "aux attached", "aux refused", "huge lifetimes"}})
	reg(Part{Prop: "C21", Name: "fresh", Quick: 40, Thorough: 400, Run: c21Fresh, Need: []string{"fresh nonces"}})
	reg(Part{Prop: "C21", Name: "concurrent", Race: true, Quick: 4000, Thorough: 40000, Run: c21Conc,
		Need: []string{"histories", "operations", "overlapping pairs"}})
	reg(Part{Prop: "C21", Name: "storm", Race: true, Quick: 100, Thorough: 1000, Run: c21Storm,
		Need: []string{"consumed once", "attempts", "purges"}})
}

type c21N struct {
	in     bool // added and not consumed
	exp    int64
	aux    interface{}
	purged bool // removed for sure if expired
	times  int  // times added
	dead   bool // refused once as expired
}

func c21Model(c *C) {
	db := nonces.NewNonceDb()
	names := []string{}
	for i := 0; i < 2+c.R.Intn(5); i++ {
		names = append(names, fmt.Sprintf("n%d", i))
	}
	if c.R.Intn(3) == 0 {
		names = append(names, "")
	}
	m := map[string]*c21N{}
	for _, n := range names {
		m[n] = &c21N{}
	}
	ops := 30 + c.R.Intn(200)
	burst := 1 + c.R.Intn(20)
	budget := 3500 * time.Millisecond
	var kinds string
	type held struct {
		o   *nonces.NonceObj
		cpy nonces.NonceObj
	}
	var helds []held
	// state of a nonce in a call made between the seconds t0 and t1
	const (
		absent = iota
		alive
		expired
		edge
	)
	state := func(s *c21N, t0, t1 int64) int {
		switch {
		case !s.in:
			return absent
		case s.exp < t0:
			return expired
		case s.exp >= t1:
			return alive
		}
		return edge
	}
	for i := 0; i < ops; i++ {
		if i%burst == 0 && budget > 0 {
			d := time.Duration(c.R.Intn(500)) * time.Millisecond
			budget -= d
			time.Sleep(d)
		}
		n := names[c.R.Intn(len(names))]
		s := m[n]
		switch op := c.R.Intn(20); {
		case op < 5 || (op < 8 && !s.in):
			var delta int64
			switch c.R.Intn(8) {
			case 0:
				delta = -int64(c.R.Intn(4))
			case 1:
				delta = 0
			case 2, 3:
				delta = 1
			case 4:
				delta = 2
			case 5:
				delta = 3 + int64(c.R.Intn(100))
			case 6:
				delta = int64(1) << uint(c.R.Intn(63))
				c.Count("huge lifetimes", 1)
			default:
				delta = math.MaxInt64 - int64(c.R.Intn(2))
				c.Count("huge lifetimes", 1)
			}
			var aux interface{}
			if c.R.Intn(2) == 0 {
				aux = fmt.Sprintf("aux%d", i)
			}
			t0 := time.Now().Unix()
			o := db.Add(n, delta, aux)
			t1 := time.Now().Unix()
			c.Logf("%d Add(%q,%d,%v) = %v", t0, n, delta, aux, o)
			st := state(s, t0, t1)
			switch {
			case o == nil && st == absent:
				c.Fail("add-refused", "Add of the nonce %q, which is not in the store, was refused", n)
			case o == nil && st == expired && s.purged:
				c.Fail("purge-missed", "Add of the nonce %q was refused although it expired at %d and DeleteOld ran after that", n, s.exp)
			case o != nil && st == alive:
				c.Fail("added-twice", "Add of the nonce %q succeeded although it is in the store until %d (now %d)", n, s.exp, t1)
			}
			if o == nil {
				c.Count("existing refused", 1)
				break
			}
			lo, hi := t0+delta, t1+delta
			if delta > 0 && lo < 0 {
				lo = math.MaxInt64
			}
			if delta > 0 && hi < 0 {
				hi = math.MaxInt64
			}
			c.Assert(o.Nonce == n && o.Aux == aux && o.Expiration >= lo && o.Expiration <= hi, "add-object",
				"Add(%q,%d,%v) at %d..%d returned %+v", n, delta, aux, t0, t1, *o)
			if s.times > 0 {
				c.Count("re-added", 1)
			}
			*s = c21N{in: true, exp: o.Expiration, aux: aux, times: s.times + 1}
			helds = append(helds, held{o, *o})
			kinds += "a"
		case op < 10:
			var o *nonces.NonceObj
			var ok bool
			del := c.R.Intn(2) == 0
			t0 := time.Now().Unix()
			if del {
				o, ok = db.SearchAndDelete(n)
			} else {
				o, ok = db.Search(n)
			}
			t1 := time.Now().Unix()
			c.Logf("%d Search(%q, delete=%v) = %v %v", t0, n, del, o, ok)
			st := state(s, t0, t1)
			if ok {
				c.Assert(st != absent, "accepted-absent", "the nonce %q was accepted although it was %s", n, either(s.times > 0, "consumed before and not added again", "never added"))
				c.Assert(st != expired, "accepted-expired", "the nonce %q was accepted at %d although it expired at %d", n, t0, s.exp)
				c.Assert(!s.dead, "accepted-expired", "the nonce %q was accepted again after it had been refused as expired", n)
				c.Assert(o != nil && o.Nonce == n && o.Expiration == s.exp && o.Aux == s.aux, "found-object",
					"the nonce %q (until %d, aux %v) was returned as %+v", n, s.exp, s.aux, o)
				c.Count("found", 1)
				helds = append(helds, held{o, *o})
				if del {
					c.Count("consumed", 1)
					kinds += "c"
				}
			} else {
				c.Assert(st != alive, "lost", "the nonce %q, in the store until %d, was not found at %d (added %d times)", n, s.exp, t1, s.times)
				if st == absent && s.times > 0 {
					c.Count("refused after consumption", 1)
				}
				if st == expired {
					c.Count("refused after expiry", 1)
					kinds += "x"
				}
				if st == edge {
					s.dead = true
				}
			}
			if del {
				s.in = false
			}
		case op < 13:
			aux := fmt.Sprintf("later%d", i)
			t0 := time.Now().Unix()
			ok := db.AddAux(n, aux)
			t1 := time.Now().Unix()
			c.Logf("%d AddAux(%q,%v) = %v", t0, n, aux, ok)
			switch st := state(s, t0, t1); {
			case st == absent:
				c.Assert(!ok, "aux-absent", "AddAux succeeded for the nonce %q, which is not in the store", n)
			case s.aux != nil:
				c.Assert(!ok, "aux-replaced", "AddAux succeeded for the nonce %q, which already has aux %v", n, s.aux)
				c.Count("aux refused", 1)
			case st == alive:
				c.Assert(ok, "aux-refused", "AddAux was refused for the valid nonce %q without aux", n)
			}
			if ok {
				s.aux = aux
				c.Count("aux attached", 1)
			}
		case op < 15:
			t0 := time.Now().Unix()
			many := c.R.Intn(3) == 0
			if many {
				for j := 0; j < 4096; j++ {
					db.DeleteOldOportunistic()
				}
			} else {
				db.DeleteOld()
			}
			c.Logf("%d DeleteOld many=%v", t0, many)
			for _, q := range names {
				if s := m[q]; s.in && s.exp < t0 {
					s.purged = true
				}
			}
			c.Count("purges", 1)
			// every nonce that is still valid is still there
			for _, q := range names {
				s := m[q]
				o, ok := db.Search(q)
				t1 := time.Now().Unix()
				if st := state(s, t0, t1); st == alive {
					c.Assert(ok && o.Expiration == s.exp, "purge-valid", "DeleteOld removed the nonce %q, valid until %d (now %d; added %d times)", q, s.exp, t1, s.times)
					c.Count("survived a purge", 1)
				}
			}
		case op < 16:
			aux := c.R.Intn(1000)
			t0 := time.Now().Unix()
			o := db.New(5, aux)
			t1 := time.Now().Unix()
			c.Assert(o != nil, "new-refused", "New gave no nonce")
			_, dup := m[o.Nonce]
			c.Assert(!dup && o.Aux == aux && o.Expiration >= t0+5 && o.Expiration <= t1+5, "new-object", "New(5,%d) at %d gave %+v", aux, t0, *o)
			names = append(names, o.Nonce)
			m[o.Nonce] = &c21N{in: true, exp: o.Expiration, aux: aux, times: 1}
		default:
			// what a caller does with a returned object stays with the caller
			if len(helds) > 0 {
				h := &helds[c.R.Intn(len(helds))]
				c.Assert(*h.o == h.cpy, "object-changed", "the returned object %+v changed to %+v", h.cpy, *h.o)
				h.o.Expiration = []int64{0, math.MaxInt64}[c.R.Intn(2)]
				h.o.Aux = "caller"
				h.o.Nonce = "caller"
				h.cpy = *h.o
			}
		}
	}
	c.Distinct("%s", kinds)
	if c.N == 0 {
		c.Sample("%d calls, %d nonces: %s", ops, len(names), kinds)
	}
}

func c21Fresh(c *C) {
	db := nonces.NewNonceDb()
	seen := map[string]bool{}
	n := 500
	for i := 0; i < n; i++ {
		o := db.New(100, i)
		c.Assert(o != nil && !seen[o.Nonce], "fresh-repeated", "New returned %v, which is not new", o)
		c.Assert(len(o.Nonce) >= 32, "fresh-short", "New returned the guessable nonce %q", o.Nonce)
		seen[o.Nonce] = true
	}
	// other stores do not repeat them either
	db2 := nonces.NewNonceDb()
	for i := 0; i < n; i++ {
		o := db2.New(100, nil)
		c.Assert(o != nil && !seen[o.Nonce], "fresh-repeated", "New of a second store returned %v again", o)
		seen[o.Nonce] = true
	}
	i := 0
	for k := range seen {
		o1, ok1 := db.SearchAndDelete(k)
		o2, ok2 := db2.SearchAndDelete(k)
		c.Assert(ok1 != ok2, "fresh-lost", "the nonce %s is in %v stores", k, either(ok1, "two", "no"))
		_, again1 := db.SearchAndDelete(k)
		_, again2 := db2.Search(k)
		c.Assert(!again1 && !again2, "accepted-absent", "the nonce %s was accepted twice (%v %v)", k, o1, o2)
		i++
	}
	c.Count("fresh nonces", i)
	c.Distinct("%d", c.N)
}

type c21S struct {
	in    bool
	alive bool
	aux   string
}

// c21Conc: bursts on few nonces; every per-nonce history must be linearizable.
func c21Conc(c *C) {
	db := nonces.NewNonceDb()
	names := []string{"a", "b"}[:1+c.R.Intn(2)]
	g, per := 3+c.R.Intn(3), 3+c.R.Intn(4)
	kinds := make([][]int, g)
	targets := make([][]string, g)
	for i := range kinds {
		for j := 0; j < per; j++ {
			kinds[i] = append(kinds[i], c.R.Intn(12))
			targets[i] = append(targets[i], names[c.R.Intn(len(names))])
		}
	}
	type rec struct {
		n  string
		op linOp
	}
	recs := make([][]rec, g)
	var start sync.WaitGroup
	start.Add(1)
	for i := 0; i < g; i++ {
		i := i
		c.Go(func() {
			start.Wait()
			for j, k := range kinds[i] {
				n := targets[i][j]
				inv := linNow()
				var name string
				var step func(s c21S) []c21S
				switch {
				case k < 4:
					delta := int64(1000)
					if k == 0 {
						delta = -1000
					}
					aux := ""
					var auxI interface{}
					if k == 1 {
						aux = fmt.Sprintf("%d.%d", i, j)
						auxI = aux
					}
					ok := db.Add(n, delta, auxI) != nil
					name = fmt.Sprintf("Add(%s,%d,%s)=%v", n, delta, aux, ok)
					step = func(s c21S) []c21S {
						if ok {
							if s.in && s.alive {
								return nil
							}
							return []c21S{{true, delta > 0, aux}}
						}
						if !s.in {
							return nil
						}
						return []c21S{s}
					}
				case k < 6:
					o, ok := db.Search(n)
					aux := ""
					if ok {
						if o.Aux != nil {
							aux = o.Aux.(string)
						}
						o.Aux = "caller"
					}
					name = fmt.Sprintf("Search(%s)=%v,%s", n, ok, aux)
					step = func(s c21S) []c21S {
						if ok != (s.in && s.alive) || (ok && s.aux != aux) {
							return nil
						}
						return []c21S{s}
					}
				case k < 9:
					o, ok := db.SearchAndDelete(n)
					aux := ""
					if ok && o.Aux != nil {
						aux = o.Aux.(string)
					}
					name = fmt.Sprintf("SearchAndDelete(%s)=%v,%s", n, ok, aux)
					step = func(s c21S) []c21S {
						if ok != (s.in && s.alive) || (ok && s.aux != aux) {
							return nil
						}
						return []c21S{{}}
					}
				case k < 11:
					aux := fmt.Sprintf("x%d.%d", i, j)
					ok := db.AddAux(n, aux)
					name = fmt.Sprintf("AddAux(%s,%s)=%v", n, aux, ok)
					step = func(s c21S) []c21S {
						can := s.in && s.aux == ""
						if s.in && !s.alive && !ok {
							return []c21S{s, {}} // may have been purged
						}
						if ok != can {
							return nil
						}
						if ok {
							s.aux = aux
						}
						return []c21S{s}
					}
				default:
					db.DeleteOld()
					name = "DeleteOld"
					step = func(s c21S) []c21S {
						if s.in && !s.alive {
							return []c21S{{}}
						}
						return []c21S{s}
					}
				}
				op := linOp{inv: inv, ret: linNow(), name: name, step: func(s interface{}) []interface{} {
					var r []interface{}
					for _, x := range step(s.(c21S)) {
						r = append(r, x)
					}
					return r
				}}
				if name == "DeleteOld" {
					for _, n := range names {
						recs[i] = append(recs[i], rec{n, op})
					}
				} else {
					recs[i] = append(recs[i], rec{n, op})
				}
			}
		})
	}
	start.Done()
	c.Wait()
	var order string
	for _, n := range names {
		var ops []linOp
		for i := range recs {
			for _, r := range recs[i] {
				if r.n == n {
					ops = append(ops, r.op)
					order += fmt.Sprint(i)
				}
			}
		}
		ov := 0
		for i := range ops {
			for j := range ops[:i] {
				if ops[i].inv <= ops[j].ret && ops[j].inv <= ops[i].ret {
					ov++
				}
			}
		}
		ok, _ := linCheck(c21S{}, ops)
		if !ok {
			for _, o := range ops {
				c.Logf("%d..%d %s", o.inv, o.ret, o.name)
			}
			c.Fail("not-linearizable", "no order of the %d calls on the nonce %s gives their answers", len(ops), n)
		}
		c.Count("histories", 1)
		c.Count("operations", len(ops))
		c.Count("overlapping pairs", ov)
	}
	c.Distinct("%v %v", kinds, targets)
}

// c21Storm: many goroutines fight for many nonces; each is consumed once.
func c21Storm(c *C) {
	db := nonces.NewNonceDb()
	const g, n = 8, 150
	keys := make([]string, n)
	for i := range keys {
		keys[i] = db.New(1000, i).Nonce
		if i%3 == 0 { // with a stale first life
			k := fmt.Sprintf("again%d", i)
			db.Add(k, -100, nil)
			db.SearchAndDelete(k)
			db.Add(k, 1000, i)
			keys[i] = k
		}
	}
	perms := make([][]int, g)
	for i := range perms {
		perms[i] = c.R.Perm(n)
	}
	wins := make([]int32, n)
	added := make([]int32, n)
	var stop int32
	for i := 0; i < g; i++ {
		i := i
		c.Go(func() {
			for _, k := range perms[i] {
				if o, ok := db.SearchAndDelete(keys[k]); ok {
					atomic.AddInt32(&wins[k], 1)
					c.Assert(o.Nonce == keys[k] && o.Aux == k, "found-object", "the nonce %s with aux %d was returned as %+v", keys[k], k, *o)
				}
				if db.Add(fmt.Sprintf("once%d", k), 1000, i) != nil {
					atomic.AddInt32(&added[k], 1)
				}
			}
		})
	}
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for atomic.LoadInt32(&stop) == 0 {
			db.DeleteOld()
			c.Count("purges", 1)
			time.Sleep(100 * time.Microsecond)
		}
	}()
	c.Wait()
	atomic.StoreInt32(&stop, 1)
	wg.Wait()
	for k := range wins {
		c.Assert(wins[k] == 1, "consumed-count", "the nonce %s was consumed %d times by %d goroutines", keys[k], wins[k], g)
		c.Assert(added[k] == 1, "added-count", "Add of a nonce succeeded %d times in %d goroutines", added[k], g)
	}
	c.Count("consumed once", n)
	c.Count("attempts", g*n)
	c.Distinct("%d", c.N)
}
