package scen

import (
	"fmt"
	"sort"
	"strings"
)

// linOp is one operation of a concurrent history.
type linOp struct {
	span
	desc string
	// apply runs the operation on a model state (in canonical text form) and
	// reports every state it may lead to; none: the recorded result is impossible.
	apply func(state string) []string
}

// linearizable searches for an order of the operations, consistent with when
// they ran, that the model explains. Operations that never returned may be
// placed anywhere after their start or left out.
func linearizable(ops []*linOp, init string) (bool, string) {
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].start < ops[j].start })
	n := len(ops)
	oneByOne := true
	for i := range ops {
		oneByOne = oneByOne && ops[i].end != 0 && (i+1 == n || ops[i].end <= ops[i+1].start)
	}
	if oneByOne { // there is only one order
		states := map[string]bool{init: true}
		for i, o := range ops {
			next := map[string]bool{}
			for st := range states {
				for _, s := range o.apply(st) {
					next[s] = true
				}
			}
			if len(next) == 0 {
				from := i - 12
				if from < 0 {
					from = 0
				}
				var l []string
				for _, x := range ops[from : i+1] {
					l = append(l, x.desc)
				}
				return false, fmt.Sprintf("operation %d, one after the other: %s", i+1, strings.Join(l, "; "))
			}
			states = next
		}
		return true, ""
	}
	if n > 62 {
		panic("harness: history too long")
	}
	var must uint64
	for i, o := range ops {
		if o.end != 0 {
			must |= 1 << uint(i)
		}
	}
	type key struct {
		m uint64
		s string
	}
	seen := map[key]bool{}
	var best uint64
	var rec func(done uint64, st string) bool
	rec = func(done uint64, st string) bool {
		if done&must == must {
			return true
		}
		k := key{done, st}
		if seen[k] {
			return false
		}
		seen[k] = true
		if bits(done) > bits(best) {
			best = done
		}
		// an operation may go next if no operation still to come ended before it began
		min := ^uint64(0)
		for i := 0; i < n; i++ {
			if done>>uint(i)&1 == 0 && ops[i].end != 0 && ops[i].end < min {
				min = ops[i].end
			}
		}
		for i := 0; i < n; i++ {
			if done>>uint(i)&1 == 1 || ops[i].start > min {
				continue
			}
			for _, s := range ops[i].apply(st) {
				if rec(done|1<<uint(i), s) {
					return true
				}
			}
		}
		return false
	}
	if rec(0, init) {
		return true, ""
	}
	var left []string
	for i := 0; i < n; i++ {
		p := " "
		if best>>uint(i)&1 == 0 {
			p = "?"
		}
		left = append(left, fmt.Sprintf("%s[%d-%d] %s", p, ops[i].start, ops[i].end, ops[i].desc))
	}
	return false, strings.Join(left, "; ")
}

func bits(x uint64) int {
	n := 0
	for ; x != 0; x &= x - 1 {
		n++
	}
	return n
}
