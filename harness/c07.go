package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"path/filepath"
	"strings"

	"github.com/iden3/go-iden3-core/db"
)

func init() {
	rules["C07"] = "random programs over several counters, lists and JSON records whose keys and prefixes are slices of one shared, over-allocated buffer, in one storage (memory or LevelDB) and interleaved transactions that commit, close or get lost on reopening, beside a model of committed values; every read of every object is compared after every commit; distinct = distinct operation sequences"
	reg(Part{Prop: "C07", Name: "model", Quick: 2500, Thorough: 40000, Need: []string{"commit", "abandoned", "append", "append_same_key", "reopen", "oob", "json", "counter"}, Run: c07model})
	reg(Part{Prop: "C07", Name: "values", Workers: 1, Quick: 6, Thorough: 40, Need: []string{"values"}, Run: c07values})
	reg(Part{Prop: "C07", Name: "long", Workers: 2, Quick: 2, Thorough: 8, Need: []string{"long_elements"}, Run: c07long})
}

type jrec struct {
	A int64             `json:"a"`
	B string            `json:"b"`
	C []byte            `json:"c"`
	D map[string]uint64 `json:"d"`
	E *jrec             `json:"e"`
}

func randJrec(c *C, d int) jrec {
	j := jrec{A: int64(c.R.Uint64()), B: fmt.Sprintf("<%c\u2028&é%d>", rune(c.R.Intn(0x3000)), c.R.Intn(100))}
	if j.B != strings.ToValidUTF8(j.B, "") {
		j.B = "x"
	}
	if c.R.Intn(2) == 0 {
		j.C = make([]byte, 1+c.R.Intn(40))
		c.R.Read(j.C)
	}
	if c.R.Intn(2) == 0 {
		j.D = map[string]uint64{fmt.Sprint(c.R.Intn(9)): c.R.Uint64()}
	}
	if d > 0 && c.R.Intn(2) == 0 {
		e := randJrec(c, d-1)
		j.E = &e
	}
	return j
}

func js(v interface{}) string { b, _ := json.Marshal(v); return string(b) }

// c07state is the model: counters, lists, records.
type c07state struct {
	cnt  map[int]uint32
	list map[int]*mlist
	rec  map[string]string
}

type mlist struct {
	keys []string
	val  map[string]string
}

func (s *c07state) clone() *c07state {
	n := &c07state{map[int]uint32{}, map[int]*mlist{}, map[string]string{}}
	for k, v := range s.cnt {
		n.cnt[k] = v
	}
	for k, l := range s.list {
		nl := &mlist{append([]string{}, l.keys...), map[string]string{}}
		for a, b := range l.val {
			nl.val[a] = b
		}
		n.list[k] = nl
	}
	for k, v := range s.rec {
		n.rec[k] = v
	}
	return n
}

func c07model(c *C) {
	ldb := c.N%4 == 0
	path := ""
	var root db.Storage
	var prefix []byte
	if c.R.Intn(2) == 0 {
		prefix = []byte("sto:")
	}
	if ldb {
		path = filepath.Join(c.Dir(), "ldb")
		s, err := db.NewLevelDbStorage(path, false)
		c.Must(err, "open")
		root = s
	} else {
		root = db.NewMemoryStorage()
	}
	defer func() { root.Close() }()
	sto := root.WithPrefix(prefix)
	// all names are cut from one buffer with spare capacity
	back := make([]byte, 256)
	name := func(i int, pre string) []byte {
		b := back[:0]
		b = append(b, pre...)
		b = append(b, byte('0'+i), ':')
		if c.R.Intn(2) == 0 {
			return append(make([]byte, 0, 60), b...)
		}
		return b
	}
	const nc, nl = 3, 3
	var cnt [nc]*db.StorageValue
	var lst [nl]*db.StorageList
	mk := func() {
		for i := 0; i < nc; i++ {
			cnt[i] = db.NewStorageValue(name(i, "cnt"))
		}
		for i := 0; i < nl; i++ {
			lst[i] = db.NewStorageList(name(i, "lst"))
		}
		scramble(back)
	}
	mk()
	com := &c07state{map[int]uint32{}, map[int]*mlist{}, map[string]string{}}
	steps := 30 + c.R.Intn(60)
	var tx db.Tx
	var cur *c07state
	begin := func() {
		if tx == nil {
			t, err := sto.NewTx()
			c.Assert(err == nil, "c07:newtx", "%v", err)
			tx, cur = t, com.clone()
		}
	}
	recKey := func(i int) []byte { return name(i, "rec") }
	check := func(t db.Tx, m *c07state, why string) {
		for i := 0; i < nc; i++ {
			got, err := cnt[i].Get(t)
			want, ok := m.cnt[i]
			if ok {
				c.Assert(err == nil && got == want, "c07:counter", "%s: counter %d reads %d, %v instead of %d", why, i, got, err, want)
			} else {
				c.Assert(errors.Is(err, db.ErrNotFound), "c07:counter_absent", "%s: counter %d, never set, reads %d, %v", why, i, got, err)
			}
		}
		for i := 0; i < nl; i++ {
			l := m.list[i]
			n, err := lst[i].Length(t)
			if l == nil {
				c.Assert(errors.Is(err, db.ErrNotFound), "c07:list_absent", "%s: list %d, never initialised, has length %d, %v", why, i, n, err)
				continue
			}
			c.Assert(err == nil && int(n) == len(l.keys), "c07:length", "%s: list %d has length %d, %v instead of %d", why, i, n, err, len(l.keys))
			for j, k := range l.keys {
				var v json.RawMessage
				key, err := lst[i].GetByIdx(t, uint32(j), &v)
				c.Assert(err == nil && string(key) == k && string(v) == l.val[k], "c07:byidx", "%s: list %d index %d is %q=%s, %v instead of %q=%s", why, i, j, key, v, err, k, l.val[k])
				var w json.RawMessage
				err = lst[i].Get(t, []byte(k), &w)
				c.Assert(err == nil && string(w) == l.val[k], "c07:bykey", "%s: list %d key %q is %s, %v instead of %s", why, i, k, w, err, l.val[k])
			}
			for _, j := range []uint32{uint32(len(l.keys)), uint32(len(l.keys)) + 256, math.MaxUint32, uint32(len(l.keys)) | 1<<24} {
				v := json.RawMessage("untouched")
				_, err := lst[i].GetByIdx(t, j, &v)
				c.Assert(err != nil && string(v) == "untouched", "c07:oob", "%s: list %d index %d of %d gives %s without error", why, i, j, len(l.keys), v)
				c.Count("oob", 1)
			}
			var v json.RawMessage
			err = lst[i].Get(t, []byte("never appended"), &v)
			c.Assert(errors.Is(err, db.ErrNotFound), "c07:absent_key", "%s: absent key of list %d: %v", why, i, err)
		}
	}
	checkRecs := func() {
		for i := 0; i < 4; i++ {
			var v jrec
			err := db.LoadJSON(sto, recKey(i), &v)
			want, ok := com.rec[fmt.Sprint(i)]
			if ok {
				c.Assert(err == nil && js(v) == want, "c07:json", "record %d loads as %s, %v instead of %s", i, js(v), err, want)
			} else {
				c.Assert(errors.Is(err, db.ErrNotFound), "c07:json_absent", "record %d, never stored, loads as %s, %v", i, js(v), err)
			}
		}
	}
	for i := 0; i < steps; i++ {
		begin()
		switch op := c.R.Intn(10); {
		case op == 0:
			k := c.R.Intn(nc)
			v := []uint32{0, 1, 255, 256, 65535, 65536, 1 << 24, 1 << 31, math.MaxUint32, c.R.Uint32()}[c.R.Intn(10)]
			cnt[k].Set(tx, v)
			cur.cnt[k] = v
			c.Logf("cnt%d=%d", k, v)
			c.Count("counter", 1)
		case op == 1:
			k := c.R.Intn(nl)
			if cur.list[k] != nil {
				continue
			}
			var v json.RawMessage
			c.Assert(lst[k].Append(tx, []byte("k"), 1) != nil, "c07:append_uninit", "Append to a list never initialised succeeds")
			_ = v
			lst[k].Init(tx)
			cur.list[k] = &mlist{nil, map[string]string{}}
			c.Logf("init%d", k)
		case op <= 5:
			k := c.R.Intn(nl)
			l := cur.list[k]
			if l == nil {
				continue
			}
			key := randKey(c.R)
			if len(l.keys) > 0 && c.R.Intn(4) == 0 {
				key = []byte(l.keys[c.R.Intn(len(l.keys))])
				c.Count("append_same_key", 1)
			}
			if c.R.Intn(12) == 0 {
				err := lst[k].Append(tx, key, make(chan int))
				c.Assert(err != nil, "c07:append_bad", "Append of a value without JSON form succeeds")
				continue
			}
			var val interface{} = randJrec(c, 1)
			switch c.R.Intn(4) {
			case 0:
				val = c.R.Uint32()
			case 1:
				val = fmt.Sprint("s", c.R.Intn(100))
			case 2:
				val = nil
			}
			ks := string(key)
			err := lst[k].Append(tx, key, val)
			c.Assert(err == nil, "c07:append", "Append: %v", err)
			scramble(key)
			l.keys = append(l.keys, ks)
			l.val[ks] = js(val)
			c.Logf("append%d %q=%s", k, ks, js(val))
			c.Count("append", 1)
		case op == 6:
			k := c.R.Intn(4)
			v := randJrec(c, 2)
			key := recKey(k)
			err := db.StoreJSON(tx, key, &v)
			c.Assert(err == nil, "c07:storejson", "StoreJSON: %v", err)
			scramble(key)
			cur.rec[fmt.Sprint(k)] = js(v)
			c.Logf("rec%d=%s", k, js(v))
			c.Count("json", 1)
		case op == 7:
			check(tx, cur, "inside the transaction")
			err := tx.Commit()
			c.Assert(err == nil, "c07:commit", "%v", err)
			com, tx = cur, nil
			c.Logf("commit")
			c.Count("commit", 1)
			t, err := sto.NewTx()
			c.Assert(err == nil, "c07:newtx", "%v", err)
			check(t, com, "after commit")
			t.Close()
			checkRecs()
		case op == 8:
			tx.Close()
			tx = nil
			c.Logf("close")
			t, err := sto.NewTx()
			c.Assert(err == nil, "c07:newtx", "%v", err)
			check(t, com, "after abandoning a transaction")
			t.Close()
			checkRecs()
			c.Count("abandoned", 1)
		case op == 9 && c.R.Intn(3) == 0:
			tx.Close()
			tx = nil
			if ldb {
				root.Close()
				s, err := db.NewLevelDbStorage(path, true)
				c.Must(err, "reopen")
				root = s
				sto = root.WithPrefix(prefix)
				c.Count("reopen", 1)
			}
			mk()
			c.Logf("reopen")
			t, err := sto.NewTx()
			c.Assert(err == nil, "c07:newtx", "%v", err)
			check(t, com, "after reopening")
			t.Close()
			checkRecs()
		}
	}
	if tx != nil {
		tx.Close()
	}
	c.Distinct("%s", strings.Join(c.logb, "\n"))
	if c.N < 3 {
		c.Sample("%s", strings.Join(c.logb, "; "))
	}
}

// c07values: a counter holds every value; consecutive values, powers of two and random ones.
func c07values(c *C) {
	sto := openStore(c, c.N%2)
	defer sto.close()
	sv := db.NewStorageValue([]byte("v"))
	n := 20000
	for i := 0; i < n; i++ {
		v := c.R.Uint32()
		switch i % 3 {
		case 0:
			v = uint32(i)
		case 1:
			v = uint32(1)<<uint(i%32) + uint32(c.R.Intn(3)) - 1
		}
		tx, err := sto.s.NewTx()
		c.Must(err, "tx")
		sv.Set(tx, v)
		got, err := sv.Get(tx)
		c.Assert(err == nil && got == v, "c07:counter", "counter set to %d reads %d, %v", v, got, err)
		c.Assert(tx.Commit() == nil, "c07:commit", "commit")
		tx, _ = sto.s.NewTx()
		got, err = sv.Get(tx)
		c.Assert(err == nil && got == v, "c07:counter", "counter set to %d reads %d, %v after commit", v, got, err)
		tx.Close()
	}
	c.Count("values", n)
	c.Distinct("%d", c.N)
}

// c07long: a list that outgrows every index size below 32 bits.
func c07long(c *C) {
	sto := openStore(c, c.N%2)
	defer sto.close()
	sl := db.NewStorageList([]byte("long:"))
	tx, err := sto.s.NewTx()
	c.Must(err, "tx")
	sl.Init(tx)
	n := 66000 + c.R.Intn(10000)
	commit := func() {
		c.Assert(tx.Commit() == nil, "c07:commit", "commit")
		tx, err = sto.s.NewTx()
		c.Must(err, "tx")
	}
	for i := 0; i < n; i++ {
		err := sl.Append(tx, []byte(fmt.Sprintf("%x", i)), i)
		c.Assert(err == nil, "c07:append", "append number %d: %v", i, err)
		if i%5000 == 4999 {
			commit()
		}
	}
	commit()
	l, err := sl.Length(tx)
	c.Assert(err == nil && l == uint32(n), "c07:length", "length %d, %v after %d appends", l, err, n)
	for i := 0; i < n; i++ {
		v := -1
		k, err := sl.GetByIdx(tx, uint32(i), &v)
		c.Assert(err == nil && string(k) == fmt.Sprintf("%x", i) && v == i, "c07:byidx", "element %d of %d: key %q value %d, %v", i, n, k, v, err)
	}
	c.Count("long_elements", n)
	tx.Close()
	c.Distinct("%d", n)
}
