package scen

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	"github.com/BTBurke/monny/pkg/metric"

	"simverif/harness"
	"simverif/rt"
)

var metricReal = []string{"pkg/metric (all of it, rewritten from source)"}

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

// --- M01 -------------------------------------------------------------------------

func m01(r *harness.Run) {
	c := metric.NewConcurrentCounter()
	nt := r.Between(1, 5)
	long := r.W(4) == 3 // many additions, only the total is judged
	var ops []*linOp
	g := newGroup("client")
	total := 0
	for t := 0; t < nt; t++ {
		n := r.Between(1, 6)
		if long {
			n = r.Between(10, 60)
		}
		type step struct {
			k   int
			amt uint
			gap time.Duration
		}
		var st []step
		for i := 0; i < n; i++ {
			k := r.W(5)
			if long {
				k = 0
			}
			st = append(st, step{k, uint([]int{1, 0, 7, 100, 1 << 20, 3_000_000_000, 1 << 42}[r.W(7)]), pickDur(r, 0, 0, time.Millisecond)})
		}
		r.Note("task %d: %v", t, st)
		g.run(fmt.Sprintf("task%d", t), func() {
			for _, s := range st {
				if s.gap > 0 {
					rt.Sleep(s.gap)
				}
				o := &linOp{}
				switch {
				case s.k <= 2:
					amt := int(s.amt)
					total += amt
					o.desc = fmt.Sprintf("Add(%d)", amt)
					o.apply = func(x string) []string { return []string{strconv.Itoa(atoi(x) + amt)} }
					o.begin()
					ops = append(ops, o)
					c.Add(s.amt)
				case s.k == 3:
					o.begin()
					ops = append(ops, o)
					v := c.Value()
					o.desc = fmt.Sprintf("Value()=%d", v)
					o.apply = func(x string) []string {
						if atoi(x) == v {
							return []string{x}
						}
						return nil
					}
				case s.k == 4:
					o.desc = "Reset()"
					o.apply = func(string) []string { return []string{"0"} }
					o.begin()
					ops = append(ops, o)
					c.Reset()
				}
				o.done()
			}
		})
	}
	g.wait()
	o := &linOp{}
	o.begin()
	v := c.Value()
	o.done()
	if long {
		r.Check(v == total, "additions lost or doubled", "the counter is %d after additions of %d", v, total)
		r.Nontrivial()
		return
	}
	o.desc = fmt.Sprintf("final Value()=%d", v)
	o.apply = func(x string) []string {
		if atoi(x) == v {
			return []string{x}
		}
		return nil
	}
	ops = append(ops, o)
	if len(ops) > 3 && nt > 1 {
		r.Nontrivial()
	}
	if ok, why := linearizable(ops, "0"); !ok {
		r.Fail("counter is not atomic", "no order of these operations explains their results: %s", why)
	}
}

// --- M02 -------------------------------------------------------------------------

// the part of a windowed counter both forms have
type windowed interface {
	Value() int
	Add(uint)
	Reset()
	History() []metric.Counter
	HistoryInclusive() []metric.Counter
}

type wstate struct {
	start time.Duration
	val   int
	hist  []wwin
}

type wwin struct {
	start time.Duration
	val   int
}

func (w wstate) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d/%d", w.start, w.val)
	for _, h := range w.hist {
		fmt.Fprintf(&b, ",%d/%d", h.start, h.val)
	}
	return b.String()
}

func parseW(s string) wstate {
	var w wstate
	for i, p := range strings.Split(s, ",") {
		k := strings.IndexByte(p, '/')
		a, _ := strconv.ParseInt(p[:k], 10, 64)
		v := atoi(p[k+1:])
		if i == 0 {
			w.start, w.val = time.Duration(a), v
		} else {
			w.hist = append(w.hist, wwin{time.Duration(a), v})
		}
	}
	return w
}

type kept struct {
	what string
	live []metric.Counter
	copy []metric.Counter
	cut  bool
}

func m02(r *harness.Run) {
	exact := r.Sim.Cfg.StepCost == 0 && !stalls(&r.Sim.Cfg)
	if !exact {
		m02conserve(r)
		return
	}
	dur := pickDur(r, 100*time.Millisecond, 0, time.Second, time.Hour)
	nt := r.W(4) // 0: the plain form, used by one task
	var c windowed
	maxH, maxD := 0, time.Duration(0)
	var plain *metric.WindowedCounter
	born := rt.Elapsed()
	empty := false
	if nt == 0 {
		plain = metric.NewWindowedCounter(dur)
		if dur == 0 && r.W(2) == 1 {
			plain = &metric.WindowedCounter{}
			empty = true
		}
		maxH = r.W(4)
		maxD = pickDur(r, 0, 0, dur*3/2, dur*5)
		plain.MaxHistory, plain.MaxHistoryDuration = maxH, maxD
		c = plain
		nt = 1
	} else {
		c = metric.NewConcurrentWindowedCounter(dur)
	}
	r.Note("window %v, %d tasks, max history %d, max age %v, empty struct %v", dur, nt, maxH, maxD, empty)
	// limit filters a full history to what may be kept at time now (two
	// readings where an age is exactly the limit)
	limit := func(h []wwin, now time.Duration) []wwin {
		if maxH > 0 && len(h) > maxH {
			h = h[len(h)-maxH:]
		}
		if maxD > 0 {
			var o []wwin
			for _, x := range h {
				if now-x.start <= maxD {
					o = append(o, x)
				}
			}
			h = o
		}
		return h
	}
	same := func(got []metric.Counter, want []wwin) bool {
		if len(got) != len(want) {
			return false
		}
		for i, g := range got {
			if g.Value() != want[i].val || !g.Start().Equal(rt.At(want[i].start)) || g.Duration() != dur {
				return false
			}
		}
		return true
	}
	show := func(got []metric.Counter) string {
		var o []string
		for _, g := range got {
			o = append(o, fmt.Sprintf("%d@%v/%v", g.Value(), g.Start().Sub(rt.At(0)), g.Duration()))
		}
		return "[" + strings.Join(o, " ") + "]"
	}
	var ops []*linOp
	var saved []*kept
	g := newGroup("client")
	perTask := 18 / nt
	if nt == 1 && r.W(30) == 29 { // a long life
		perTask = 500
	}
	for t := 0; t < nt; t++ {
		n := r.Between(1, perTask)
		type step struct {
			k   int
			amt uint
			gap time.Duration
		}
		var st []step
		for i := 0; i < n; i++ {
			k := r.W(8)
			if k == 7 && perTask > 18 && r.W(40) > 0 {
				k = r.W(7)
			}
			unit := dur
			if unit == 0 {
				unit = time.Second
			}
			st = append(st, step{k, uint([]int{1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 0, 1 << 33}[r.W(12)]), pickDur(r, 0, 0, unit/4, unit/4, unit*3/8, unit, unit*9/8, unit*3)})
		}
		r.Note("task %d: %v", t, st)
		g.run(fmt.Sprintf("task%d", t), func() {
			for _, s := range st {
				if s.gap > 0 {
					rt.Sleep(s.gap)
				}
				now := rt.Elapsed()
				elapsed := func(w wstate) (bool, bool) { // has the window certainly / possibly elapsed
					if dur == 0 {
						return false, false
					}
					return now > w.start+dur, now >= w.start+dur
				}
				both := func(w wstate, open, shut func(w wstate) []string) []string {
					must, may := elapsed(w)
					var o []string
					if !must {
						o = append(o, open(w)...)
					}
					if may {
						o = append(o, shut(w)...)
					}
					return o
				}
				o := &linOp{}
				ops = append(ops, o)
				o.begin()
				switch {
				case s.k <= 3:
					amt := int(s.amt)
					o.desc = fmt.Sprintf("%v Add(%d)", now, amt)
					o.apply = func(x string) []string {
						return both(parseW(x), func(w wstate) []string { w.val += amt; return []string{w.String()} },
							func(w wstate) []string {
								w.hist = limit(append(append([]wwin{}, w.hist...), wwin{w.start, w.val}), now)
								w.start, w.val = now, amt
								return []string{w.String()}
							})
					}
					c.Add(s.amt)
				case s.k == 4:
					v := c.Value()
					o.desc = fmt.Sprintf("%v Value()=%d", now, v)
					o.apply = func(x string) []string {
						is := func(want int) []string {
							if v == want {
								return []string{x}
							}
							return nil
						}
						return both(parseW(x), func(w wstate) []string { return is(w.val) }, func(w wstate) []string { return is(0) })
					}
				case s.k == 5 || s.k == 6:
					incl := s.k == 6
					var h []metric.Counter
					if incl {
						h = c.HistoryInclusive()
					} else {
						h = c.History()
					}
					rt.Logf("history inclusive=%v: %s", incl, show(h))
					kp := &kept{what: fmt.Sprintf("history (inclusive %v) returned at %v", incl, now), live: h, copy: append([]metric.Counter{}, h...)}
					saved = append(saved, kp)
					if s.amt > 6 {
						// what a caller does to its history is not seen by anyone else
						for i := range h {
							h[i] = metric.Counter{}
						}
						kp.cut = true
						_ = append(h, metric.Counter{})
					}
					o.desc = fmt.Sprintf("%v History(inclusive %v)=%s", now, incl, show(h))
					o.apply = func(x string) []string {
						if dur == 0 {
							return []string{x} // what a counter without windows lists is not specified
						}
						is := func(want []wwin) []string {
							if same(kp.copy, limit(want, now)) {
								return []string{x}
							}
							return nil
						}
						all := func(w wstate) []wwin { return append(append([]wwin{}, w.hist...), wwin{w.start, w.val}) }
						if incl {
							return is(all(parseW(x)))
						}
						return both(parseW(x), func(w wstate) []string { return is(w.hist) }, func(w wstate) []string { return is(all(w)) })
					}
				case s.k == 7:
					o.desc = fmt.Sprintf("%v Reset()", now)
					o.apply = func(string) []string { return []string{wstate{start: now}.String()} }
					c.Reset()
				}
				o.done()
			}
		})
	}
	g.wait()
	r.Nontrivial()
	for _, k := range saved {
		if k.cut {
			continue
		}
		for i := range k.copy {
			if k.live[i].Value() != k.copy[i].Value() || !k.live[i].Start().Equal(k.copy[i].Start()) {
				r.Fail("returned history changed", "%s was %s and is now %s", k.what, show(k.copy), show(k.live))
			}
		}
	}
	if ok, why := linearizable(ops, (wstate{start: born}).String()); !ok {
		r.Fail("windowed counter wrong", "no order of these operations explains their results: %s", why)
	}
}

// m02conserve: with operations taking time nothing may be lost or put in two windows.
func m02conserve(r *harness.Run) {
	dur := pickDur(r, 100*time.Millisecond, time.Second)
	c := metric.NewConcurrentWindowedCounter(dur)
	g := newGroup("client")
	total := 0
	nt := r.Between(1, 4)
	r.Note("conservation: window %v, %d tasks", dur, nt)
	for t := 0; t < nt; t++ {
		n := r.Between(5, 30)
		gap := pickDur(r, 0, dur/10, dur/2, dur*2)
		amt := 1 + r.W(5)
		g.run(fmt.Sprintf("task%d", t), func() {
			for i := 0; i < n; i++ {
				rt.Sleep(gap)
				total += amt
				c.Add(uint(amt))
				if i%7 == 6 {
					c.Value()
					c.History()
				}
			}
		})
	}
	g.wait()
	h := c.HistoryInclusive()
	sum := 0
	for i, w := range h {
		sum += w.Value()
		if w.Duration() != dur {
			r.Fail("window has the wrong length", "window %d has duration %v", i, w.Duration())
		}
		if i > 0 && w.Start().Before(h[i-1].Start().Add(dur)) {
			r.Fail("windows overlap", "window %d starts at %v, the one before at %v", i, w.Start(), h[i-1].Start())
		}
	}
	r.Nontrivial()
	r.Check(sum == total, "counts lost or doubled", "the windows add up to %d, %d was added", sum, total)
}

// --- M03 -------------------------------------------------------------------------

type m3op struct {
	span
	bit int
}

type m3read struct {
	span
	vals  []float64
	live  []float64
	count int
}

func m03(r *harness.Run) {
	exact := r.Sim.Cfg.StepCost == 0 && !stalls(&r.Sim.Cfg)
	capn := 1 + r.W(6)
	win := pickDur(r, 80*time.Millisecond, time.Second, 0, 400*time.Microsecond)
	kind := []int{0, 1, 2, 3, 4}[r.W(5)]
	tr := []func([]float64) float64{metric.SampleSum, metric.SampleSum, metric.SampleMax, metric.SampleMin, metric.SampleAverage}[kind]
	sign := 1.0
	if kind >= 2 && r.W(2) == 1 {
		sign = -1
	}
	if win == 0 {
		m03direct(r, capn)
		return
	}
	if r.W(40) == 39 && win >= time.Second && !stalls(&r.Sim.Cfg) {
		m03many(r, win)
		return
	}
	ss, stop, err := metric.NewSampledSeries(capn, win, tr)
	if err != nil {
		r.Fail("series not created", "%v", err)
	}
	born := rt.Elapsed()
	g := newGroup("client")
	var recs []*m3op
	var reads []*m3read
	var resets []*m3op
	nt := r.Between(1, 4)
	bitn := 0
	if kind >= 2 {
		r.Note("transform %d, sign %v", kind, sign)
	}
	r.Note("capacity %d window %v tasks %d exact %v", capn, win, nt, exact)
	unit := win / 8
	burst := r.W(6) == 5 // many observations in one window
	for t := 0; t < nt; t++ {
		n := r.Between(1, 10)
		if burst {
			n = r.Between(20, 44) / nt
		}
		type step struct {
			k   int
			bit int
			gap time.Duration
		}
		var st []step
		for i := 0; i < n; i++ {
			k := r.W(8)
			s := step{k: k, gap: unit * time.Duration([]int{0, 1, 2, 3, 5, 8, 11}[r.W(7)])}
			if burst && r.W(8) < 7 {
				s.gap = 0
			}
			if k <= 4 {
				s.bit = bitn
				bitn++
			}
			st = append(st, s)
		}
		r.Note("task %d: %v", t, st)
		g.run(fmt.Sprintf("task%d", t), func() {
			for _, s := range st {
				if s.gap > 0 {
					rt.Sleep(s.gap)
				}
				switch {
				case s.k <= 4:
					o := &m3op{bit: s.bit}
					recs = append(recs, o)
					o.begin()
					ss.Record(sign * math.Ldexp(1, s.bit))
					o.done()
				case s.k <= 6:
					o := &m3read{}
					o.begin()
					v := ss.Values()
					o.count = ss.Count()
					o.done()
					o.live = v
					o.vals = append([]float64{}, v...)
					reads = append(reads, o)
				case s.k == 7:
					o := &m3op{}
					o.begin()
					ss.Reset()
					o.done()
					resets = append(resets, o)
				}
			}
		})
	}
	g.wait()
	// let the last window close, then stop
	rt.Sleep(win * time.Duration(1+r.W(3)))
	if r.W(2) == 1 {
		rt.Sleep(unit * time.Duration(r.W(9)))
	}
	rt.FaultsOff()
	fin := &m3read{}
	sd := &span{}
	g.run("stop", func() {
		sd.begin()
		stop()
		sd.done()
		fin.begin()
		fin.vals = ss.Values()
		fin.count = ss.Count()
		fin.done()
	})
	rt.Sleep(time.Second)
	rt.Settle()
	if sd.end == 0 {
		r.Fail("stop never returned", "stopping the series at %v has not returned by %v", sd.at, rt.Elapsed())
	}
	rt.Sleep(20 * win)
	after := ss.Values()
	if fmt.Sprint(after) != fmt.Sprint(fin.vals) || ss.Count() != fin.count {
		r.Fail("sampled after stop", "values were %v after stopping and are %v later", fin.vals, after)
	}
	for _, x := range reads {
		if fmt.Sprint(x.live) != fmt.Sprint(x.vals) {
			r.Fail("returned values changed", "values read at %v were %v and are now %v", x.at, x.vals, x.live)
		}
	}
	r.Nontrivial()
	if exact {
		m03exact(r, kind, sign, capn, win, born, sd, recs, resets, append(reads, fin))
	} else if len(resets) == 0 && kind < 2 {
		m03conserve(r, capn, recs, append(reads, fin), fin)
	}
}

// m03exact: operations take no time, so the window of each is known except at
// the very instant of a tick.
func m03exact(r *harness.Run, kind int, sign float64, capn int, win, born time.Duration, sd *span, recs, resets []*m3op, reads []*m3read) {
	tickAt := func(k int) time.Duration { return born + time.Duration(k)*win }
	for _, x := range reads {
		at := x.at
		if at > sd.at {
			at = sd.at // nothing is sampled after the stop
		}
		// the last reset before the read; at the same instant anything goes
		var rs time.Duration = -1
		amb := false
		for _, q := range resets {
			if q.at == x.at {
				amb = true
			}
			if q.at < x.at && q.at > rs {
				rs = q.at
			}
		}
		if amb {
			continue
		}
		first := 1
		for rs >= 0 && tickAt(first) < rs {
			first++
		}
		firstMay := first // a tick at the instant of the reset may count or not
		if rs >= 0 && tickAt(first) == rs {
			first++
		}
		last := 0
		for tickAt(last+1) < at {
			last++
		}
		lastMax := last
		if tickAt(last+1) == at {
			lastMax++
		}
		minN, maxN := last-first+1, lastMax-firstMay+1
		if minN < 0 {
			minN = 0
		}
		if maxN < 0 {
			maxN = 0
		}
		if x.count < minN || x.count > maxN {
			r.Fail("wrong number of samples", "read at %v (window %v, last reset %v): %d samples, expected %d to %d", x.at, win, rs, x.count, minN, maxN)
		}
		if kind >= 2 {
			// transforms that pick one observation: every value is one recorded in that window, or zero
			m03pick(r, kind, sign, capn, win, born, rs, recs, x, first, firstMay, last, lastMax)
			continue
		}
		// with Count and Values read apart, only a read without a tick in between is exact
		if minN != maxN {
			continue
		}
		n := x.count
		shown := n
		if shown > capn {
			shown = capn
		}
		vals, ok := m03shape(x.vals, shown, capn)
		if !ok {
			r.Fail("values have the wrong shape", "read at %v: %d samples, capacity %d, values %v", x.at, n, capn, x.vals)
		}
		used := map[int]int{}
		for i, v := range vals {
			tick := last - len(vals) + 1 + i
			lo, hi := tickAt(tick-1), tickAt(tick)
			if v < 0 || v != math.Trunc(v) {
				r.Fail("sample is no sum of observations", "sample %v of tick %d", v, tick)
			}
			set := uint64(v)
			for _, o := range recs {
				in := set>>uint(o.bit)&1 == 1
				gone := rs >= 0 && o.at < rs
				may := o.at >= lo && o.at <= hi && !gone && o.at >= rs
				must := o.at > lo && o.at < hi && !gone && o.at > rs
				if in {
					used[o.bit]++
					set &^= 1 << uint(o.bit)
					if !may {
						r.Fail("observation in the wrong sample", "the observation recorded at %v is in the sample of (%v,%v], last reset %v", o.at, lo, hi, rs)
					}
				} else if must {
					r.Fail("observation lost", "the observation recorded at %v is not in the sample of (%v,%v] (values %v, last reset %v)", o.at, lo, hi, x.vals, rs)
				}
			}
			if set != 0 {
				r.Fail("observation counted twice", "the sample of (%v,%v] is %v, which is no sum of distinct observations", lo, hi, v)
			}
		}
		for bit, n := range used {
			if n > 1 {
				r.Fail("observation in two samples", "observation %d is in %d samples: %v", bit, n, x.vals)
			}
		}
		// one at the instant of a tick is in one of the two samples, if both are shown
		for _, o := range recs {
			for k := last - len(vals) + 1; k < last; k++ {
				if o.at == tickAt(k) && o.at > rs && used[o.bit] == 0 {
					r.Fail("observation lost", "the observation recorded at %v, the instant of tick %d, is in no sample: %v", o.at, k, x.vals)
				}
			}
		}
	}
}

func m03pick(r *harness.Run, kind int, sign float64, capn int, win, born, rs time.Duration, recs []*m3op, x *m3read, first, firstMay, last, lastMax int) {
	if first != firstMay || last != lastMax {
		return
	}
	shown := x.count
	if shown > capn {
		shown = capn
	}
	vals, ok := m03shape(x.vals, shown, capn)
	if !ok {
		r.Fail("values have the wrong shape", "read at %v: %d samples, capacity %d, values %v", x.at, x.count, capn, x.vals)
	}
	for i, v := range vals {
		tick := last - len(vals) + 1 + i
		lo, hi := born+time.Duration(tick-1)*win, born+time.Duration(tick)*win
		var sure, maybe []float64
		for _, o := range recs {
			f := sign * math.Ldexp(1, o.bit)
			if o.at <= rs && rs >= 0 {
				if o.at == rs {
					maybe = append(maybe, f)
				}
				continue
			}
			if o.at > lo && o.at < hi {
				sure = append(sure, f)
			} else if o.at == lo || o.at == hi {
				maybe = append(maybe, f)
			}
		}
		if len(maybe) > 8 {
			continue
		}
		// one of the ways to place the observations at its edges explains it
		okv := false
		for set := 0; set < 1<<len(maybe); set++ {
			all := append([]float64{}, sure...)
			for j, f := range maybe {
				if set>>j&1 == 1 {
					all = append(all, f)
				}
			}
			want := 0.0
			for j, f := range all {
				switch kind {
				case 2:
					if j == 0 || f > want {
						want = f
					}
				case 3:
					if j == 0 || f < want {
						want = f
					}
				case 4:
					want += f
				}
			}
			if kind == 4 && len(all) > 0 {
				want /= float64(len(all))
			}
			if v == want || kind == 4 && near(v, want) {
				okv = true
			}
		}
		if !okv {
			r.Fail("wrong sample", "the sample of (%v,%v] is %v, observations %v (and at its edges %v)", lo, hi, v, sure, maybe)
		}
	}
}

// m03shape takes the padding off.
func m03shape(vals []float64, shown, capn int) ([]float64, bool) {
	if len(vals) < shown || len(vals) > capn {
		return nil, false
	}
	for _, v := range vals[shown:] {
		if v != 0 {
			return nil, false
		}
	}
	return vals[:shown], true
}

// m03conserve: in any timing, each observation is in exactly one sample and order is kept.
func m03conserve(r *harness.Run, capn int, recs []*m3op, reads []*m3read, fin *m3read) {
	for _, x := range reads {
		where := map[int]int{}
		for i, v := range x.vals {
			set := uint64(v)
			for _, o := range recs {
				if set>>uint(o.bit)&1 == 1 {
					set &^= 1 << uint(o.bit)
					if _, dup := where[o.bit]; dup {
						r.Fail("observation in two samples", "observation %d: %v", o.bit, x.vals)
					}
					where[o.bit] = i
					if o.start > x.end {
						r.Fail("observation from the future", "read %v", x.vals)
					}
				}
			}
			if set != 0 {
				r.Fail("observation counted twice", "sample %v is no sum of distinct observations", v)
			}
		}
		for _, a := range recs {
			for _, b := range recs {
				i, oka := where[a.bit]
				j, okb := where[b.bit]
				if oka && okb && a.end != 0 && a.end < b.start && i > j {
					r.Fail("observations out of order", "observation %d ended before %d began but is in a later sample: %v", a.bit, b.bit, x.vals)
				}
				// within one reading everything between two sampled observations is sampled
				if a.end != 0 && a.end < b.start && okb && !oka && x.count <= capn {
					r.Fail("observation lost", "observation %d ended before %d began and is in no sample: %v", a.bit, b.bit, x.vals)
				}
			}
		}
	}
	if fin.count <= capn {
		for _, o := range recs {
			n := 0
			for _, v := range fin.vals {
				if uint64(v)>>uint(o.bit)&1 == 1 {
					n++
				}
			}
			if n != 1 {
				r.Fail("observation lost", "observation %d is in %d of the samples %v", o.bit, n, fin.vals)
			}
		}
	}
}

// m03many: a window may see any number of observations.
func m03many(r *harness.Run, win time.Duration) {
	ss, stop, err := metric.NewSampledSeries(40, win, metric.SampleSum)
	if err != nil {
		r.Fail("series not created", "%v", err)
	}
	g := newGroup("client")
	total := 0
	nt := r.Between(1, 3)
	for t := 0; t < nt; t++ {
		n := []int{300, 1100, 120}[r.W(3)]
		pause := pickDur(r, 0, win/2, win*2)
		total += n
		r.Note("task %d: %d observations, pausing %v halfway", t, n, pause)
		g.run(fmt.Sprintf("task%d", t), func() {
			for i := 0; i < n; i++ {
				if i == n/2 {
					rt.Sleep(pause)
				}
				ss.Record(1)
			}
		})
	}
	g.wait()
	rt.FaultsOff()
	rt.Sleep(win * 2)
	stop()
	sum := 0.0
	for _, v := range ss.Values() {
		sum += v
	}
	r.Nontrivial()
	if ss.Count() <= 40 {
		r.Check(sum == float64(total), "observations lost or doubled", "the samples add up to %v after %d observations of one", sum, total)
	}
}

func m03direct(r *harness.Run, capn int) {
	ss, stop, err := metric.NewSampledSeries(capn, 0, metric.SampleSum)
	if err != nil {
		r.Fail("series not created", "%v", err)
	}
	var ops []*linOp
	g := newGroup("client")
	nt := r.Between(1, 3)
	odd := r.W(4) // some values are unusual, and kept all the same
	r.Note("direct mode, capacity %d, %d tasks", capn, nt)
	id := 0
	type live struct{ a, b []float64 }
	var lives []live
	for t := 0; t < nt; t++ {
		n := r.Between(1, 6)
		var ks []int
		for i := 0; i < n; i++ {
			ks = append(ks, r.W(7))
		}
		r.Note("task %d: %v", t, ks)
		g.run(fmt.Sprintf("task%d", t), func() {
			for _, k := range ks {
				o := &linOp{}
				ops = append(ops, o)
				switch {
				case k <= 3:
					id++
					v := float64(id)
					switch {
					case odd == 1 && id%4 == 2:
						v = math.NaN()
					case odd == 1 && id%4 == 3:
						v = math.Inf(-1)
					case odd == 2 && id%3 == 1:
						v = -v / 3
					case odd == 2 && id%3 == 2:
						v = 0
					}
					o.desc = fmt.Sprintf("Record(%v)", v)
					o.apply = func(s string) []string { return []string{s + "," + fmt.Sprint(v)} }
					o.begin()
					ss.Record(v)
				case k == 4 || k == 5:
					o.begin()
					v := ss.Values()
					vc := append([]float64{}, v...)
					lives = append(lives, live{v, vc})
					o.desc = fmt.Sprintf("Values()=%v", vc)
					o.apply = func(s string) []string {
						want := strings.Split(s, ",")[1:]
						if len(want) > capn {
							want = want[len(want)-capn:]
						}
						got, ok := m03shape(vc, len(want), capn)
						if !ok {
							return nil
						}
						for i := range want {
							if want[i] != fmt.Sprint(got[i]) {
								return nil
							}
						}
						return []string{s}
					}
				case k == 6:
					if id%3 == 2 {
						o.desc = "Reset()"
						o.apply = func(string) []string { return []string{"#"} }
						o.begin()
						ss.Reset()
						break
					}
					o.begin()
					n := ss.Count()
					o.desc = fmt.Sprintf("Count()=%d", n)
					o.apply = func(s string) []string {
						if len(strings.Split(s, ","))-1 == n {
							return []string{s}
						}
						return nil
					}
				}
				o.done()
			}
		})
	}
	g.wait()
	stop()
	for _, l := range lives {
		if fmt.Sprint(l.a) != fmt.Sprint(l.b) {
			r.Fail("returned values changed", "values were %v and are now %v", l.b, l.a)
		}
	}
	r.Nontrivial()
	if ok, why := linearizable(ops, "#"); !ok {
		r.Fail("direct series wrong", "no order of these operations explains their results: %s", why)
	}
}

func metricPlan(r *harness.Run) rt.Config {
	c := r.Sched()
	if r.W(3) != 2 {
		c.StepCost = 0 // exact timing
	} else {
		r.Stalls(&c)
	}
	c.MaxSteps = 1500000
	return c
}

func init() {
	reg := func(id, title, rule string, quick, thorough int, body func(*harness.Run)) {
		harness.Register(&harness.Prop{ID: id, Title: title, Rule: rule, Plan: metricPlan, Body: body, Real: metricReal,
			Stub: []string{"goroutine scheduler, locks, timers and clock (simulator)"}, Quick: quick, Thorough: thorough})
	}
	reg("M01", "concurrent counter", "Each run draws 1-5 tasks with additions, reads and resets; non-trivial when several tasks make more than three operations.", 100000, 5000000, m01)
	reg("M02", "windowed counters", "Each run draws a window, limits and 1-3 tasks with additions, reads, histories and resets around the window's ends; non-trivial when the history is judged against the model.", 100000, 5000000, m02)
	reg("M03", "sampled series", "Each run draws capacity, window, transform and 1-4 tasks recording, reading and resetting; non-trivial when the final reading is judged.", 100000, 5000000, m03)
}
