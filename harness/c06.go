package main

import (
	"bytes"
	"errors"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"github.com/iden3/go-iden3-core/db"
)

func init() {
	rules["C06"] = "random programs over a storage kind (memory, LevelDB), nested prefix views (alphabet with empty, overlapping and 0xff prefixes) and several interleaved transactions are run beside a flat ordered-map model that compares every read, listing and iteration (limits, early stop, callback errors, commits inside callbacks) and the complete contents at the end, after buffers were scrambled and (LevelDB) after closing, reopening and copying the files of a running store; a concurrent part commits pairs and watches iterations for torn pairs; distinct = distinct operation sequences"
	reg(Part{Prop: "C06", Name: "model", Quick: 4000, Thorough: 60000, Need: []string{"commit", "tx_closed", "tx_add", "list", "iterate", "iterate_err", "iterate_stop", "reopen", "notfound"}, Run: c06model})
	reg(Part{Prop: "C06", Name: "atomic", Race: true, Quick: 10, Thorough: 120, Workers: 2, Need: []string{"snapshots", "commits"}, Run: c06atomic})
	reg(Part{Prop: "C06", Name: "bigtx", Quick: 16, Thorough: 60, Workers: 2, Need: []string{"big_snapshots", "big_commits"}, Run: c06bigtx})
}

// kvModel is one flat ordered map; views are prefixes.
type kvModel map[string]string

func (m kvModel) under(p string) (out [][2]string) {
	for k, v := range m {
		if strings.HasPrefix(k, p) {
			out = append(out, [2]string{k[len(p):], v})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i][0] < out[j][0] })
	return out
}

type mview struct {
	s db.Storage
	p string
}

type mtx struct {
	tx    db.Tx
	p     string
	w     map[string]string // full key -> value
	close bool
}

func randKey(r *rand.Rand) []byte {
	alpha := []byte{0, 1, 'a', 0xfe, 0xff}
	n := r.Intn(5)
	if r.Intn(8) == 0 {
		n = 30 + r.Intn(60)
	}
	k := make([]byte, n)
	for i := range k {
		k[i] = alpha[r.Intn(len(alpha))]
		if n > 5 {
			k[i] = alpha[i%len(alpha)]
		}
	}
	return k
}

func randVal(r *rand.Rand) []byte {
	n := r.Intn(6)
	if r.Intn(10) == 0 {
		n = r.Intn(5000)
	}
	v := make([]byte, n)
	r.Read(v)
	return v
}

func scramble(bs ...[]byte) {
	for _, b := range bs {
		for i := range b {
			b[i] ^= 0x5a
		}
	}
}

// sameKVs compares a listing with the model.
func sameKVs(got []db.KV, want [][2]string) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d pairs instead of %d: got %x want %x", len(got), len(want), got, want)
	}
	for i := range got {
		if string(got[i].K) != want[i][0] || string(got[i].V) != want[i][1] {
			return fmt.Sprintf("pair %d is %x=%x instead of %x=%x", i, got[i].K, got[i].V, want[i][0], want[i][1])
		}
	}
	return ""
}

func c06checkView(c *C, v mview, m kvModel, why string) {
	l, err := v.s.List(1 << 30)
	c.Assert(err == nil, "c06:list_err", "List under %x (%s): %v", v.p, why, err)
	d := sameKVs(l, m.under(v.p))
	c.Assert(d == "", "c06:contents", "contents under prefix %x (%s): %s", v.p, why, d)
}

func c06model(c *C) {
	ldb := c.N%3 == 0
	var root db.Storage
	path := ""
	if ldb {
		path = filepath.Join(c.Dir(), "ldb")
		s, err := db.NewLevelDbStorage(path, false)
		c.Must(err, "open leveldb")
		root = s
	} else {
		root = db.NewMemoryStorage()
	}
	closed := false
	defer func() {
		if !closed {
			root.Close()
		}
	}()
	m := kvModel{}
	views := []mview{{root, ""}}
	var txs []*mtx
	var keep [][2][]byte // buffers handed to the store, scrambled later
	pick := func() mview { return views[c.R.Intn(len(views))] }
	steps := 40 + c.R.Intn(160)
	for i := 0; i < steps; i++ {
		op := c.R.Intn(16)
		switch {
		case op == 0 && len(views) < 12:
			v := pick()
			p := randKey(c.R)
			// prefix slices with spare capacity: views must not share it
			buf := make([]byte, len(p), len(p)+40)
			copy(buf, p)
			nv := mview{v.s.WithPrefix(buf), v.p + string(p)}
			scramble(buf)
			views = append(views, nv)
			c.Logf("view %x of %x", p, v.p)
		case op == 1 && len(txs) < 5:
			v := pick()
			tx, err := v.s.NewTx()
			c.Assert(err == nil, "c06:newtx", "NewTx: %v", err)
			txs = append(txs, &mtx{tx: tx, p: v.p, w: map[string]string{}})
			c.Logf("tx%d opened under %x", len(txs)-1, v.p)
		case op >= 2 && op <= 6 && len(txs) > 0:
			t := txs[c.R.Intn(len(txs))]
			k, val := randKey(c.R), randVal(c.R)
			t.w[t.p+string(k)] = string(val)
			c.Logf("tx under %x: put %x=%.20x", t.p, k, val)
			t.tx.Put(k, val)
			if c.R.Intn(2) == 0 {
				scramble(k, val)
			} else {
				keep = append(keep, [2][]byte{k, val})
			}
		case op == 7 && len(txs) > 0:
			ti := c.R.Intn(len(txs))
			t := txs[ti]
			k := randKey(c.R)
			if len(t.w) > 0 && c.R.Intn(2) == 0 {
				for fk := range t.w {
					if strings.HasPrefix(fk, t.p) {
						k = []byte(fk[len(t.p):])
						break
					}
				}
			}
			want, ok := t.w[t.p+string(k)]
			if !ok {
				want, ok = m[t.p+string(k)]
			}
			kk := append([]byte{}, k...)
			got, err := t.tx.Get(kk)
			c06get(c, "tx", t.p, k, got, err, want, ok)
			scramble(got, kk)
		case op == 8:
			v := pick()
			k := randKey(c.R)
			if l := m.under(v.p); len(l) > 0 && c.R.Intn(3) > 0 {
				k = []byte(l[c.R.Intn(len(l))][0])
			}
			want, ok := m[v.p+string(k)]
			got, err := v.s.Get(k)
			c06get(c, "store", v.p, k, got, err, want, ok)
			scramble(got)
		case op == 9 && len(txs) > 1:
			a, b := c.R.Intn(len(txs)), c.R.Intn(len(txs))
			if a == b {
				continue
			}
			c.Logf("tx under %x: add tx under %x (%d writes)", txs[a].p, txs[b].p, len(txs[b].w))
			txs[a].tx.Add(txs[b].tx)
			for k, v := range txs[b].w {
				txs[a].w[k] = v
			}
			c.Count("tx_add", 1)
		case op == 10 && len(txs) > 0:
			ti := c.R.Intn(len(txs))
			t := txs[ti]
			c.Logf("commit tx under %x (%d writes)", t.p, len(t.w))
			err := t.tx.Commit()
			c.Assert(err == nil, "c06:commit_err", "Commit: %v", err)
			for k, v := range t.w {
				m[k] = v
			}
			for _, b := range keep {
				scramble(b[0], b[1])
			}
			keep = nil
			txs = append(txs[:ti], txs[ti+1:]...)
			if c.R.Intn(2) == 0 {
				t.tx.Close()
			}
			c.Count("commit", 1)
			c06checkView(c, pick(), m, "after commit")
		case op == 11 && len(txs) > 0:
			ti := c.R.Intn(len(txs))
			c.Logf("close tx under %x (%d writes)", txs[ti].p, len(txs[ti].w))
			txs[ti].tx.Close()
			if len(txs[ti].w) > 0 {
				c.Count("tx_closed", 1)
			}
			txs = append(txs[:ti], txs[ti+1:]...)
			c06checkView(c, pick(), m, "after close")
		case op == 12:
			v := pick()
			want := m.under(v.p)
			lim := 1 + c.R.Intn(len(want)+2)
			got, err := v.s.List(lim)
			c.Assert(err == nil, "c06:list_err", "List: %v", err)
			if len(want) > lim {
				want = want[:lim]
			}
			d := sameKVs(got, want)
			c.Assert(d == "", "c06:list", "List(%d) under %x: %s", lim, v.p, d)
			// what was listed stays what it was
			for _, kv := range got {
				scramble(kv.K, kv.V)
			}
			c06checkView(c, v, m, "after the listed slices were changed")
			c.Count("list", 1)
		case op == 13 || op == 14:
			c06iterate(c, pick(), views, m)
		case op == 15 && ldb && c.R.Intn(4) == 0:
			// reopen: open transactions are lost
			for _, t := range txs {
				t.tx.Close()
			}
			txs = nil
			p2 := path
			if c.R.Intn(2) == 0 {
				// the files of a store that is never closed: what a stopped process leaves
				p2 = filepath.Join(c.Dir(), fmt.Sprintf("copy%d", i))
				if !copyLive(c, path, p2) {
					p2 = path
				}
				c.Count("reopen_unclosed", 1)
			}
			root.Close()
			closed = true
			s, err := db.NewLevelDbStorage(p2, true)
			c.Assert(err == nil, "c06:reopen", "reopening the LevelDB storage: %v", err)
			path, root, closed = p2, s, false
			nv := []mview{{root, ""}}
			for _, v := range views[1:] {
				nv = append(nv, mview{root.WithPrefix([]byte(v.p)), v.p})
			}
			views = nv
			c.Count("reopen", 1)
			c06checkView(c, views[0], m, "after reopening")
		}
	}
	for _, v := range views {
		c06checkView(c, v, m, "at the end")
	}
	for k, want := range m {
		v := views[0]
		for _, w := range views {
			if strings.HasPrefix(k, w.p) && c.R.Intn(2) == 0 {
				v = w
			}
		}
		got, err := v.s.Get([]byte(k[len(v.p):]))
		c06get(c, "store", v.p, []byte(k[len(v.p):]), got, err, want, true)
	}
	p, st := c.Catch(func() { root.Info() })
	c.Assert(p == nil, "c06:info_panic", "Info() panics: %v\n%s", p, st)
	c.Distinct("%s", strings.Join(c.logb, "\n"))
	if c.N < 3 {
		c.Sample("%d steps, %d views, %d pairs: %s", steps, len(views), len(m), strings.Join(c.logb, "; "))
	}
}

// copyLive copies the files of an open LevelDB.  Copying is not atomic, so the
// copy counts only if no file was added, removed or changed meanwhile.
func copyLive(c *C, from, to string) bool {
	list := func() string {
		es, err := ioutil.ReadDir(from)
		c.Must(err, "readdir")
		var b strings.Builder
		for _, e := range es {
			fmt.Fprintf(&b, "%s %d %d;", e.Name(), e.Size(), e.ModTime().UnixNano())
		}
		return b.String()
	}
	for try := 0; try < 20; try++ {
		os.RemoveAll(to)
		l := list()
		out, err := exec.Command("cp", "-r", from, to).CombinedOutput()
		if err == nil && l == list() {
			os.Remove(filepath.Join(to, "LOCK"))
			return true
		}
		_ = out
		time.Sleep(10 * time.Millisecond)
	}
	c.Count("copy_unstable", 1)
	return false
}

func c06get(c *C, what, p string, k, got []byte, err error, want string, ok bool) {
	if ok {
		c.Assert(err == nil && string(got) == want, "c06:get", "%s.Get(%x) under %x = %x, %v; the last value is %x", what, k, p, got, err, want)
		c.Count("get", 1)
		return
	}
	c.Assert(err != nil && errors.Is(err, db.ErrNotFound), "c06:notfound", "%s.Get(%x) under %x = %x, %v; the key was never stored", what, k, p, got, err)
	c.Count("notfound", 1)
}

func c06iterate(c *C, v mview, views []mview, m kvModel) {
	want := m.under(v.p)
	stop := c.R.Intn(len(want) + 2)
	mode := c.R.Intn(4) // 0 all, 1 stop, 2 error, 3 commit inside
	myErr := errors.New("callback")
	var got []db.KV
	during := map[string]string{}
	err := v.s.Iterate(func(k, val []byte) (bool, error) {
		got = append(got, db.KV{K: append([]byte{}, k...), V: append([]byte{}, val...)})
		if mode == 3 && len(got) == 1+stop/2 {
			w := views[c.R.Intn(len(views))]
			tx, err := w.s.NewTx()
			if err != nil {
				return false, err
			}
			nk := append(randKey(c.R), "new"...)
			nv := []byte("v")
			tx.Put(nk, nv)
			if _, ok := m[w.p+string(nk)]; ok {
				tx.Close()
			} else if err := tx.Commit(); err != nil {
				return false, err
			} else {
				during[w.p+string(nk)] = string(nv)
			}
		}
		if len(got) == stop {
			switch mode {
			case 1:
				return false, nil
			case 2:
				return c.R.Intn(2) == 0, myErr
			}
		}
		return true, nil
	})
	hit := stop >= 1 && stop <= len(want)
	switch {
	case mode == 2 && hit:
		c.Assert(err == myErr, "c06:iterate_cberr", "Iterate returned %v instead of the callback's error", err)
		want = want[:stop]
		c.Count("iterate_err", 1)
	case mode == 1 && hit:
		c.Assert(err == nil, "c06:iterate_err", "Iterate: %v", err)
		want = want[:stop]
		c.Count("iterate_stop", 1)
	default:
		c.Assert(err == nil, "c06:iterate_err", "Iterate: %v", err)
	}
	if len(during) > 0 {
		// pairs committed meanwhile may or may not appear; the others appear exactly once
		var rest []db.KV
		for _, kv := range got {
			if _, ok := during[v.p+string(kv.K)]; !ok {
				rest = append(rest, kv)
			}
		}
		got = rest
		for k, x := range during {
			m[k] = x
		}
		c.Count("iterate_commit", 1)
	}
	d := sameKVs(got, want)
	c.Assert(d == "", "c06:iterate", "Iterate under %x (mode %d, stop %d): %s", v.p, mode, stop, d)
	c.Count("iterate", 1)
}

// c06atomic: writers commit the same stamp under two keys each; every
// iteration, listing and pair of reads in one iteration sees equal stamps.
func c06atomic(c *C) {
	var root db.Storage = db.NewMemoryStorage()
	if c.N%2 == 0 {
		s, err := db.NewLevelDbStorage(filepath.Join(c.Dir(), "ldb"), false)
		c.Must(err, "open")
		root = s
	}
	defer root.Close()
	const W = 3
	writersLeft := int32(W)
	for w := 0; w < W; w++ {
		w := w
		c.Go(func() {
			defer atomic.AddInt32(&writersLeft, -1)
			a, b := root.WithPrefix([]byte{'x', byte(w)}), root.WithPrefix([]byte{'y', byte(w)})
			for i := 1; i <= 60; i++ {
				ta, err := a.NewTx()
				c.Assert(err == nil, "c06:newtx", "%v", err)
				tb, _ := b.NewTx()
				val := []byte(fmt.Sprintf("%d", i))
				ta.Put([]byte("k"), val)
				tb.Put([]byte("k"), val)
				ta.Add(tb)
				scramble(val)
				err = ta.Commit()
				c.Assert(err == nil, "c06:commit_err", "%v", err)
				c.Count("commits", 1)
				got, err := b.Get([]byte("k"))
				c.Assert(err == nil && string(got) == fmt.Sprint(i), "c06:own_commit", "writer %d reads %q, %v after committing %d", w, got, err, i)
			}
		})
	}
	for g := 0; g < 3; g++ {
		g := g
		c.Go(func() {
			last := map[string]int{}
			for atomic.LoadInt32(&writersLeft) > 0 {
				seen := map[string]string{}
				var prev []byte
				f := func(k, v []byte) {
					if prev != nil && bytes.Compare(prev, k) >= 0 {
						c.Fail("c06:order", "iteration not in key order")
					}
					prev = append([]byte{}, k...)
					seen[string(k)] = string(v)
				}
				if g == 0 {
					l, err := root.List(1000)
					c.Assert(err == nil, "c06:list_err", "%v", err)
					for _, kv := range l {
						f(kv.K, kv.V)
					}
				} else {
					err := root.Iterate(func(k, v []byte) (bool, error) { f(k, v); return true, nil })
					c.Assert(err == nil, "c06:iterate_err", "%v", err)
				}
				for w := 0; w < W; w++ {
					x, y := seen["x"+string([]byte{byte(w)})+"k"], seen["y"+string([]byte{byte(w)})+"k"]
					c.Assert(x == y, "c06:torn", "an iteration saw %q and %q, committed together", x, y)
					n := 0
					fmt.Sscan(x, &n)
					c.Assert(n >= last[fmt.Sprint(w)], "c06:back", "stamp of writer %d went from %d to %q", w, last[fmt.Sprint(w)], x)
					last[fmt.Sprint(w)] = n
				}
				c.Count("snapshots", 1)
			}
		})
	}
	c.Wait()
	c.Distinct("%d", c.N)
	c.Sample("3 writers x 60 commits of pairs, 3 iterating readers")
}

// c06bigtx: a writer commits transactions of many keys and many bytes, all
// with one stamp; whatever reads the whole storage at once sees one stamp.
func c06bigtx(c *C) {
	var root db.Storage = db.NewMemoryStorage()
	if c.N%3 != 0 {
		s, err := db.NewLevelDbStorage(filepath.Join(c.Dir(), "ldb"), false)
		c.Must(err, "open")
		root = s
	}
	defer root.Close()
	n := []int{300, 1500, 4000}[c.R.Intn(3)]
	pad := bytes.Repeat([]byte{'.'}, []int{1, 60, 2500}[c.R.Intn(3)])
	views := []db.Storage{root, root.WithPrefix([]byte("a")), root.WithPrefix([]byte("b:"))}
	put := func(i int) {
		tx, err := root.NewTx()
		c.Must(err, "tx")
		for j, v := range views {
			t, err := v.NewTx()
			c.Must(err, "tx")
			for k := j; k < n; k += len(views) {
				t.Put([]byte(fmt.Sprintf("k%05d", k)), append([]byte(fmt.Sprintf("%04d", i)), pad...))
			}
			tx.Add(t)
		}
		err = tx.Commit()
		c.Assert(err == nil, "c06:commit_err", "commit of %d keys: %v", n, err)
		c.Count("big_commits", 1)
	}
	put(0)
	rounds := 12
	var done int32
	c.Go(func() {
		defer atomic.StoreInt32(&done, 1)
		for i := 1; i <= rounds; i++ {
			put(i)
		}
	})
	for g := 0; g < 2; g++ {
		g := g
		c.Go(func() {
			last := ""
			for end := false; !end; {
				end = atomic.LoadInt32(&done) == 1
				seen := map[string]int{}
				f := func(v []byte) {
					if len(v) != 4+len(pad) {
						c.Fail("c06:big_value", "a value of %d bytes reads as %d bytes", 4+len(pad), len(v))
						return
					}
					seen[string(v[:4])]++
				}
				if g == 0 {
					l, err := root.List(0)
					c.Assert(err == nil, "c06:list_err", "%v", err)
					for _, kv := range l {
						f(kv.V)
					}
				} else {
					err := root.Iterate(func(k, v []byte) (bool, error) { f(v); return true, nil })
					c.Assert(err == nil, "c06:iterate_err", "%v", err)
				}
				if len(seen) != 1 {
					c.Fail("c06:big_torn", "a part of a commit of %d keys is visible: %v", n, seen)
					return
				}
				for s, k := range seen {
					c.Assert(k == n, "c06:big_lost", "%d keys of %d", k, n)
					c.Assert(s >= last, "c06:back", "stamp went from %s to %s", last, s)
					last = s
				}
				if end {
					c.Assert(last == fmt.Sprintf("%04d", rounds), "c06:big_last", "stamp %s after the last commit", last)
				}
				c.Count("big_snapshots", 1)
			}
		})
	}
	c.Wait()
	c.Distinct("%d keys of %d bytes", n, len(pad))
}
