package main

import (
	"fmt"
	"sort"
	"strings"
	"sync/atomic"
)

// ---------- linearizability of small concurrent histories ----------

// linOp is one completed call: it took effect somewhere between begin and end.
type linOp struct {
	begin, end int64
	name       string
	// step applies the call to a model state; false when the observed result does not fit there.
	step func(state string) (string, bool)
}

type linClock struct{ n int64 }

func (c *linClock) tick() int64 { return atomic.AddInt64(&c.n, 1) }

// linearize tells whether some order of the calls, respecting their real-time order, explains all results
// and ends in a state accepted by final. The second result is false if the search was given up.
func linearize(ops []linOp, init string, final func(string) bool) (ok, decided bool) {
	sort.Slice(ops, func(i, j int) bool { return ops[i].begin < ops[j].begin })
	if len(ops) > 62 {
		return false, false
	}
	type key struct {
		done  uint64
		state string
	}
	seen := map[key]bool{}
	budget := 400000
	var rec func(done uint64, state string) bool
	rec = func(done uint64, state string) bool {
		if done == 1<<uint(len(ops))-1 {
			return final == nil || final(state)
		}
		k := key{done, state}
		if seen[k] {
			return false
		}
		seen[k] = true
		if budget--; budget < 0 {
			return false
		}
		// only a call that began before every pending call ended can be next
		minEnd := int64(1) << 62
		for i, o := range ops {
			if done&(1<<uint(i)) == 0 && o.end < minEnd {
				minEnd = o.end
			}
		}
		for i, o := range ops {
			if done&(1<<uint(i)) != 0 || o.begin > minEnd {
				continue
			}
			if s, fits := o.step(state); fits && rec(done|1<<uint(i), s) {
				return true
			}
		}
		return false
	}
	r := rec(0, init)
	return r, r || budget >= 0
}

func linRender(ops []linOp) string {
	var s []string
	for _, o := range ops {
		s = append(s, fmt.Sprintf("[%d,%d] %s", o.begin, o.end, o.name))
	}
	return strings.Join(s, "; ")
}
