package harness

import (
	"sort"
	"time"

	"simverif/rt"
)

// Shrink minimises a failing record while the violation class stays the same.
func Shrink(p *Prop, rec rt.Record, class string, seed uint64, budget time.Duration) (rt.Record, int) {
	deadline := time.Now().Add(budget)
	tries := 0
	best := rec.Clone()
	fails := func(c rt.Record) bool {
		tries++
		o := Execute(p, rt.Replay(c), false)
		return o.Viol != nil && o.Viol.Class == class && o.Err == ""
	}
	// same workload and faults, another schedule
	research := func(c rt.Record, n int) (rt.Record, bool) {
		if fails(c) {
			return c, true
		}
		for i := 0; i < n && time.Now().Before(deadline); i++ {
			tries++
			ch := rt.ReplayWF(c, rt.Mix(seed, uint64(1000+i)))
			o := Execute(p, ch, false)
			if o.Viol != nil && o.Viol.Class == class && o.Err == "" {
				return ch.Rec.Clone(), true
			}
		}
		return c, false
	}
	late := func() bool { return time.Now().After(deadline) }
	if !fails(best) {
		return best, tries
	}
	for round := 0; round < 4 && !late(); round++ {
		before := cost(best)
		// faults: whole kinds, then single ones
		for _, k := range SortedKeys(best.F) {
			c := best.Clone()
			delete(c.F, k)
			if d, ok := research(c, 6); ok {
				best = d
			}
		}
		for _, k := range SortedKeys(best.F) {
			var is []int
			for i := range best.F[k] {
				is = append(is, i)
			}
			sort.Ints(is)
			for _, i := range is {
				if late() {
					break
				}
				c := best.Clone()
				delete(c.F[k], i)
				if d, ok := research(c, 3); ok {
					best = d
					continue
				}
				if best.F[k][i] > 1 {
					c = best.Clone()
					c.F[k][i] = 1
					if d, ok := research(c, 2); ok {
						best = d
					}
				}
			}
		}
		// workload: truncate, delete chunks, zero, halve
		for n := len(best.W) / 2; n >= 1 && !late(); n /= 2 {
			for len(best.W) > n {
				c := best.Clone()
				c.W = c.W[:len(c.W)-n]
				d, ok := research(c, 4)
				if !ok || late() {
					break
				}
				best = d
			}
		}
		for n := 8; n >= 1 && !late(); n /= 2 {
			for i := 0; i+n <= len(best.W) && !late(); i++ {
				c := best.Clone()
				c.W = append(append([]int{}, c.W[:i]...), c.W[i+n:]...)
				if d, ok := research(c, 3); ok {
					best = d
					i--
				}
			}
		}
		for i := 0; i < len(best.W) && !late(); i++ {
			for best.W[i] != 0 && !late() {
				c := best.Clone()
				c.W[i] = 0
				if d, ok := research(c, 4); ok {
					best = d
					break
				}
				c = best.Clone()
				c.W[i] /= 2
				if c.W[i] == 0 {
					c.W[i] = best.W[i] - 1
				}
				if c.W[i] == 0 {
					break
				}
				if d, ok := research(c, 2); ok {
					best = d
					continue
				}
				break
			}
		}
		// schedule
		best = shrinkSchedule(best, fails, late)
		if cost(best) >= before {
			break
		}
	}
	best = shrinkSchedule(best, fails, late)
	return best, tries
}

func cost(r rt.Record) int {
	_, f, s := r.Size()
	sum := 0
	for _, w := range r.W {
		sum += w
	}
	return len(r.W)*50 + sum + f*100 + s*10
}

func shrinkSchedule(best rt.Record, fails func(rt.Record) bool, late func() bool) rt.Record {
	// everything at once
	try := func(mut func(*rt.Record)) {
		if late() {
			return
		}
		c := best.Clone()
		mut(&c)
		if fails(c) {
			best = c
		}
	}
	try(func(c *rt.Record) { c.Stmt = nil; c.Sync = nil; c.Pick = map[int]int{} })
	try(func(c *rt.Record) { c.Stmt = nil })
	try(func(c *rt.Record) { c.Sync = nil })
	try(func(c *rt.Record) { c.Pick = map[int]int{} })
	for n := len(best.Stmt); n >= 1; n /= 2 {
		for i := 0; i+n <= len(best.Stmt) && !late(); {
			c := best.Clone()
			c.Stmt = append(append([]uint64{}, c.Stmt[:i]...), c.Stmt[i+n:]...)
			if fails(c) {
				best = c
			} else {
				i += n
			}
		}
	}
	for n := len(best.Sync); n >= 1; n /= 2 {
		for i := 0; i+n <= len(best.Sync) && !late(); {
			c := best.Clone()
			c.Sync = append(append([]int{}, c.Sync[:i]...), c.Sync[i+n:]...)
			if fails(c) {
				best = c
			} else {
				i += n
			}
		}
	}
	keys := func() []int {
		var ks []int
		for k := range best.Pick {
			ks = append(ks, k)
		}
		sort.Ints(ks)
		return ks
	}
	for n := len(best.Pick); n >= 1; n /= 2 {
		ks := keys()
		for i := 0; i < len(ks) && !late(); i += n {
			c := best.Clone()
			for j := i; j < i+n && j < len(ks); j++ {
				delete(c.Pick, ks[j])
			}
			if len(c.Pick) < len(best.Pick) && fails(c) {
				best = c
			}
		}
	}
	return best
}
