package main

// A small linearizability checker for recorded concurrent histories.

import (
	"time"
)

// linOp is one completed operation: step tells which states the object may be
// in after it, when it was in state s and the operation gave its recorded result.
type linOp struct {
	inv, ret int64
	name     string
	step     func(s interface{}) []interface{}
}

var linBase = time.Now()

// linNow reads the monotonic clock (not an atomic counter: that would order
// the goroutines for the race detector).
func linNow() int64 { return int64(time.Since(linBase)) }

// linCheck says whether the operations (at most 64) can be put in an order
// that respects real time and gives the recorded results.  States must be
// comparable.
func linCheck(init interface{}, ops []linOp) (ok bool, states int) {
	if len(ops) > 64 {
		panic("history too long")
	}
	type key struct {
		mask uint64
		s    interface{}
	}
	seen := map[key]bool{}
	var full uint64
	for i := range ops {
		full |= 1 << uint(i)
	}
	var rec func(mask uint64, s interface{}) bool
	rec = func(mask uint64, s interface{}) bool {
		if mask == full {
			return true
		}
		k := key{mask, s}
		if seen[k] {
			return false
		}
		seen[k] = true
		min := int64(1) << 62
		for i, o := range ops {
			if mask>>uint(i)&1 == 0 && o.ret < min {
				min = o.ret
			}
		}
		for i, o := range ops {
			if mask>>uint(i)&1 == 0 && o.inv <= min {
				for _, t := range o.step(s) {
					if rec(mask|1<<uint(i), t) {
						return true
					}
				}
			}
		}
		return false
	}
	ok = rec(0, init)
	return ok, len(seen)
}

// either chooses a text.
func either(b bool, x, y string) string {
	if b {
		return x
	}
	return y
}
