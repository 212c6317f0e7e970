package scen

import (
	"bytes"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/BTBurke/monny/pkg/eventbus"
	"github.com/BTBurke/monny/pkg/fsm"
	"github.com/BTBurke/monny/pkg/metric"
	"github.com/BTBurke/monny/pkg/monny/proc"
	"github.com/BTBurke/monny/pkg/stat"

	"simverif/harness"
	"simverif/rt"
	"simverif/shim/context"
	crand "simverif/shim/crand"
)

// --- L03 -------------------------------------------------------------------------

func l03(r *harness.Run) {
	if r.W(5) == 4 {
		logBody("L03")(r) // the histories of a log processor at work
		return
	}
	capn := []int{1, 2, 3, 4, 5, 0, 30}[r.W(7)]
	g := newGroup("client")
	nt, most := r.Between(1, 4), 20
	if r.W(10) == 9 { // one task, many operations
		nt, most = 1, 120
		capn = []int{1, 8, 15, 17, 33, 50}[r.W(6)]
	}
	q := proc.NewQueue(capn)
	r.Note("capacity %d, %d tasks", capn, nt)
	var ops []*linOp
	id := 0
	type live struct{ a, b []string }
	var lives []live
	for t := 0; t < nt; t++ {
		n := r.Between(1, most/nt)
		var ks []int
		for i := 0; i < n; i++ {
			k := r.W(8)
			if k == 7 && most > 20 && r.W(6) > 0 {
				k = 0
			}
			ks = append(ks, k)
		}
		r.Note("task %d: %v", t, ks)
		g.run(fmt.Sprintf("task%d", t), func() {
			for _, k := range ks {
				o := &linOp{}
				ops = append(ops, o)
				switch {
				case k <= 4:
					id++
					s := fmt.Sprintf("%d", id)
					if id%6 == 0 {
						s = "" // an empty line is an entry like any other
					}
					o.desc = fmt.Sprintf("Add(%q)", s)
					o.apply = func(x string) []string {
						l := append(strings.Split(x, ",")[1:], s)
						if len(l) > capn {
							l = l[len(l)-capn:]
						}
						return []string{strings.Join(append([]string{"#"}, l...), ",")}
					}
					o.begin()
					q.Add(s)
				case k <= 6:
					o.begin()
					v := q.Copy()
					vc := append([]string{}, v...)
					if k == 6 {
						// the copy is the caller's to change
						for i := range v {
							v[i] = "changed by the reader"
						}
						v = append(v, "more")
					} else {
						lives = append(lives, live{v, vc})
					}
					o.desc = fmt.Sprintf("Copy()=%q", vc)
					o.apply = func(x string) []string {
						if strings.Join(append([]string{"#"}, vc...), ",") == x {
							return []string{x}
						}
						return nil
					}
				case k == 7:
					o.desc = "Clear()"
					o.apply = func(string) []string { return []string{"#"} }
					o.begin()
					q.Clear()
				}
				o.done()
			}
		})
	}
	g.wait()
	for _, l := range lives {
		if fmt.Sprint(l.a) != fmt.Sprint(l.b) {
			r.Fail("copy changed", "a copy was %q and is now %q", l.b, l.a)
		}
	}
	if id > 1 {
		r.Nontrivial()
	}
	if ok, why := linearizable(ops, "#"); !ok {
		r.Fail("queue is not a bounded FIFO", "capacity %d; no order of these operations explains their results: %s", capn, why)
	}
}

// --- T01 -------------------------------------------------------------------------

type tickRec struct {
	at  time.Duration
	typ eventbus.EventType
}

func t01(r *harness.Run) {
	exact := r.Sim.Cfg.StepCost == 0 && !stalls(&r.Sim.Cfg)
	eb := eventbus.New()
	g := newGroup("client")
	type tk struct {
		d   time.Duration
		typ eventbus.EventType
		at  time.Duration
	}
	var tks []*tk
	n := r.Between(1, 3)
	for i := 0; i < n; i++ {
		tks = append(tks, &tk{d: pickDur(r, time.Second, 10*time.Millisecond*3, 0, 7*time.Second, 100*time.Millisecond), typ: eventbus.EventType(fmt.Sprintf("tick%d", i))})
	}
	span := pickDur(r, 3*time.Second, 0, 12*time.Second, 500*time.Millisecond)
	switch r.W(48) {
	case 46: // very long periods
		for _, t := range tks {
			t.d = pickDur(r, 24*time.Hour, 25*time.Hour, 7*24*time.Hour, 90*time.Minute)
		}
		span = pickDur(r, 8*24*time.Hour+time.Second, 19*24*time.Hour)
	case 47: // very short ones, and many ticks
		if !exact {
			break
		}
		for _, t := range tks {
			t.d = pickDur(r, 500*time.Microsecond, time.Millisecond, 300*time.Microsecond)
		}
		span = pickDur(r, 40*time.Millisecond, 300*time.Millisecond)
		if r.W(4) == 3 {
			tks = tks[:1]
			tks[0].d, span = time.Millisecond, 1200*time.Millisecond
		}
	}
	gen := r.W(2) == 0
	withOther := r.W(2) == 1
	stuck := r.W(4) == 3
	jump := pickDur(r, 0, 0, -time.Hour, 26*time.Hour)
	r.Note("tickers %v for %v, another publisher %v, wall clock jump %v, a subscriber that never reads %v", n, span, withOther, jump, stuck)
	var got []tickRec
	ch, fin := eb.Subscribe()
	subDone := false
	g.run("listener", func() {
		for {
			ev, ok := rt.Recv2(ch)
			if !ok {
				break
			}
			got = append(got, tickRec{rt.Elapsed(), ev.Type()})
		}
		fin()
		subDone = true
	})
	var stuckFin eventbus.ShutdownFunc
	if stuck {
		_, stuckFin = eb.Subscribe()
	}
	for _, t := range tks {
		t := t
		g.run("start", func() {
			t.at = rt.Elapsed()
			proc.NewTicker(t.d, eb, t.typ)
			r.Note("ticker %s every %v", t.typ, t.d)
		})
	}
	if withOther {
		g.run("other", func() {
			for i := 0; i < 20; i++ {
				if span < time.Hour {
					rt.Sleep(span / 10)
				} else {
					rt.Sleep(span / 20)
				}
				ev, _ := eventbus.NewEvent("other", nil)
				eb.Dispatch(ev)
			}
		})
	}
	if jump != 0 {
		g.run("clock", func() {
			rt.Sleep(span / 2)
			rt.Stat("fault.clock-jump")
			rt.StepWall(jump)
		})
	}
	var sdErr error
	var sd rt.WaitGroup
	sd.Add(1)
	var sdAt, sdTill time.Duration
	g.run("shutdown", func() {
		defer sd.Done()
		rt.Sleep(span)
		d := 10 * time.Minute
		if !gen {
			d = time.Minute
		}
		ctx, cancel := context.WithTimeout(context.Background(), d)
		defer cancel()
		if stuckFin != nil {
			stuckFin()
		}
		sdAt = rt.Elapsed()
		sdErr = eb.Shutdown(ctx)
		sdTill = rt.Elapsed()
	})
	sd.Wait()
	r.Check(sdErr == nil, "shutdown not clean", "with only tickers and subscribers that report, Shutdown returned %v", sdErr)
	if !stalls(&r.Sim.Cfg) && sdTill-sdAt > slack {
		r.Fail("shutdown slow", "Shutdown took %v", sdTill-sdAt)
	}
	rt.FaultsOff()
	before := len(got)
	steps := r.Sim.Steps()
	rt.Sleep(30 * time.Minute)
	rt.Settle()
	r.Check(subDone, "channel never closed", "the listener is still waiting")
	if len(got) > before+1 {
		r.Fail("ticks after shutdown", "%d events arrived after Shutdown returned", len(got)-before)
	}
	if used := r.Sim.Steps() - steps; used > 2000 {
		r.Fail("ticker keeps running", "%d scheduling steps were used in half an hour after shutdown", used)
	}
	if n := rt.Tickers(); n > 0 {
		r.Fail("ticker keeps running", "%d timers are still ticking half an hour after shutdown", n)
	}
	if b := rt.Blocked(); b != "" {
		r.Fail("ticker left behind", "half an hour after shutdown these still wait: %s", b)
	}
	ticks := 0
	for _, t := range tks {
		var at []time.Duration
		for _, x := range got {
			if x.typ == t.typ {
				at = append(at, x.at)
			}
		}
		ticks += len(at)
		if t.d == 0 {
			r.Check(len(at) == 0, "period zero ticks", "a ticker of period zero published %d events", len(at))
			continue
		}
		life := sdAt - t.at
		max := int(life / t.d)
		if !exact {
			max = int((sdTill - t.at) / t.d)
		}
		if len(at) > max {
			r.Fail("too many ticks", "%d ticks of period %v in %v", len(at), t.d, life)
		}
		if exact {
			// delivery takes no time here
			want := int((life - 1) / t.d)
			if len(at) < want {
				r.Fail("ticks missing", "%d ticks of period %v in %v", len(at), t.d, life)
			}
			for i, a := range at {
				if a != t.at+time.Duration(i+1)*t.d {
					r.Fail("tick at the wrong time", "tick %d of period %v, started at %v, arrived at %v", i+1, t.d, t.at, a)
				}
			}
		}
	}
	for _, x := range got {
		known := x.typ == "other"
		for _, t := range tks {
			known = known || x.typ == t.typ
		}
		r.Check(known, "wrong event type", "received an event of type %q", x.typ)
	}
	if ticks > 0 {
		r.Nontrivial()
	}
}

// --- F01 -------------------------------------------------------------------------

func f01(r *harness.Run) {
	states := []fsm.State{"a", "b", "c", "d"}
	allowed := map[fsm.State]map[fsm.State]bool{}
	var opts []fsm.MachineOption
	for _, f := range states {
		allowed[f] = map[fsm.State]bool{}
		var tos []fsm.State
		for _, t := range states {
			if r.W(2) == 1 {
				allowed[f][t] = true
				tos = append(tos, t)
			}
		}
		switch r.W(2) {
		case 0:
			opts = append(opts, fsm.WithTransitions(fsm.T(f, tos...)))
		default:
			for _, t := range tos {
				opts = append(opts, fsm.WithTransition(fsm.Transition{From: f, To: t}))
			}
		}
	}
	stoppable := r.W(2) == 1
	if stoppable {
		opts = append(opts, fsm.WithStoppable())
	}
	p := []float64{0, 0, 0.2, 0.5}[r.W(4)]
	rt.S.Local[crand.FailKey] = 0.0
	m, err := fsm.NewMachineNonce(states[0], opts...)
	if err != nil {
		r.Fail("machine not created", "%v", err)
	}
	rt.S.Local[crand.FailKey] = p
	r.Note("allowed %v stoppable %v entropy failure rate %v", allowed, stoppable, p)
	done := make(chan bool, 1)
	g := rt.NewGroup("client")
	rt.GoIn(g, "client", func() {
		f01run(r, m, states, allowed, stoppable)
		rt.TrySend(done, true)
	})
	rt.Recv(done)
}

func f01run(r *harness.Run, m *fsm.MachineNonce, states []fsm.State, allowed map[fsm.State]map[fsm.State]bool, stoppable bool) {
	cur := states[0]
	used := map[string]bool{} // nonces presented so far
	var seen [][]byte
	const (
		no = iota
		maybe
		yes
	)
	stopped := no
	spent := false // the current nonce may be used up: an attempt found no entropy for the next one
	take := func() []byte {
		n := append([]byte{}, m.Nonce()...)
		seen = append(seen, n)
		return n
	}
	take()
	n := r.Between(1, 25)
	accepted := 0
	failures := func() int { return rt.S.Stats["fault.entropy"] }
	for i := 0; i < n; i++ {
		kind := r.W(9)
		to := states[r.W(4)]
		if r.W(3) > 0 { // mostly allowed ones
			for _, t := range states {
				if allowed[cur][t] {
					to = t
					if r.W(2) == 0 {
						break
					}
				}
			}
		}
		if kind == 8 {
			f0 := failures()
			err := m.Reset()
			rt.Logf("Reset: %v", err)
			take()
			if err == nil {
				r.Check(m.State() == states[0], "reset did not reset", "the state is %s after Reset", m.State())
				r.Check(!used[string(m.Nonce())], "nonce issued again", "Reset issued a nonce that was used before")
				stopped = no
				spent = false
			} else {
				spent = true
				r.Check(failures() > f0, "reset failed for nothing", "Reset: %v", err)
				r.Check(m.State() == cur || m.State() == states[0], "failed reset moved", "the state went from %s to %s", cur, m.State())
				stopped = maybe
			}
			cur = m.State()
			continue
		}
		now := append([]byte{}, m.Nonce()...)
		var present []byte
		switch kind {
		case 0, 1, 2, 3, 4:
			present = append([]byte{}, now...)
		case 5:
			present = append([]byte{}, seen[r.W(len(seen))]...)
		case 6:
			present = append([]byte{}, now...)
			if len(present) > 0 {
				present[r.W(len(present))] ^= byte(1 + r.W(255))
			}
		case 7:
			present = [][]byte{nil, {}, make([]byte, 16), append([]byte{}, now...)[:len(now)/2], append(append([]byte{}, now...), 0)}[r.W(5)]
		}
		good := bytes.Equal(present, now) && len(now) > 0 && !used[string(present)]
		legal := allowed[cur][to]
		f0 := failures()
		err := m.Transition(to, present)
		entropy := failures() > f0
		rt.Logf("Transition(%s -> %s, kind %d): %v", cur, to, kind, err)
		if err == nil {
			accepted++
			r.Check(good, "wrong nonce accepted", "step %d: a transition presenting %x was accepted, the current nonce was %x (used before: %v)", i, present, now, used[string(present)])
			r.Check(legal, "illegal transition accepted", "step %d: %s -> %s", i, cur, to)
			r.Check(stopped != yes, "stopped machine moved", "step %d: %s -> %s", i, cur, to)
			r.Check(m.State() == to, "transition did not move", "step %d: accepted %s -> %s, state is %s", i, cur, to, m.State())
			if stopped == maybe {
				stopped = no
			}
		} else {
			r.Check(m.State() == cur, "refused transition moved", "step %d: %s -> %s refused with %v, state is %s", i, cur, to, err, m.State())
			if good && legal && stopped == no && !entropy && !spent {
				r.Fail("rightful transition refused", "step %d: %s -> %s with the current nonce: %v", i, cur, to, err)
			}
			if stoppable {
				if good && legal && stopped != yes && (entropy || spent || stopped == maybe) {
					stopped = maybe // refused only for want of entropy (or already stopped)
				} else {
					stopped = yes
				}
			}
		}
		spent = entropy
		cur = m.State()
		if len(present) > 0 {
			used[string(present)] = true
		}
		nn := take()
		if !entropy && used[string(nn)] {
			r.Fail("presented nonce is current again", "step %d: %x", i, nn)
		}
		for _, f := range states {
			for _, t := range states {
				if m.Allowable(f, t) != allowed[f][t] {
					r.Fail("allowable wrong", "%s -> %s", f, t)
				}
			}
		}
	}
	if accepted > 0 && n > 2 {
		r.Nontrivial()
	}
}

// --- D01 -------------------------------------------------------------------------

// dmodel is the reference change detector.
type dmodel struct {
	name    string
	lambda  float64
	k       float64
	capn    int
	poisson bool
	win     time.Duration
	tr      func([]float64) float64
	born    time.Duration
	ticks   int

	state   fsm.State
	cur     float64
	limit   float64
	samples []float64
	count   int
	obs     []float64
}

func (m *dmodel) tick(now time.Duration) {
	if !m.poisson {
		return
	}
	for m.born+time.Duration(m.ticks+1)*m.win < now {
		m.ticks++
		v := 0.0
		if len(m.obs) > 0 {
			v = m.tr(m.obs)
		}
		m.push(v)
		m.obs = nil
	}
}

func (m *dmodel) push(v float64) {
	m.samples = append(m.samples, v)
	m.count++
	if len(m.samples) > m.capn {
		m.samples = m.samples[1:]
	}
}

func (m *dmodel) clear() { m.samples, m.count, m.obs = nil, 0, nil }

var dnext = map[fsm.State][]fsm.State{
	stat.Reset:      {stat.UCLInitial, stat.LCLInitial},
	stat.UCLInitial: {stat.TestingUCL, stat.Reset},
	stat.TestingUCL: {stat.UCLTrip, stat.Reset},
	stat.UCLTrip:    {stat.LCLInitial, stat.Reset},
	stat.LCLInitial: {stat.TestingLCL, stat.Reset},
	stat.TestingLCL: {stat.LCLTrip, stat.Reset},
	stat.LCLTrip:    {stat.Reset},
}

func dallowed(f, t fsm.State) bool {
	for _, x := range dnext[f] {
		if x == t {
			return true
		}
	}
	return false
}

// record returns (usable, too close to call).
func (m *dmodel) record(o float64) (bool, bool) {
	if !m.poisson {
		o = math.Log(o)
	}
	if math.IsNaN(o) || math.IsInf(o, 0) {
		return false, false
	}
	add := func() {
		if m.poisson {
			m.obs = append(m.obs, o)
		} else {
			m.push(o)
		}
	}
	close := func() bool { return math.Abs(m.cur-m.limit) <= 1e-9*(1+math.Abs(m.limit)) }
	baseline := func(next fsm.State, dir float64) bool {
		if m.count < m.capn {
			return false
		}
		mean, variance := 0.0, 0.0
		for _, v := range m.samples {
			mean += v
		}
		mean /= float64(len(m.samples))
		if m.poisson {
			variance = mean
		} else {
			for _, v := range m.samples {
				variance += (v - mean) * (v - mean)
			}
			variance /= float64(len(m.samples) - 1)
		}
		if flat(m.samples) && (mean == 0 || (!m.poisson && len(m.samples) == 2)) {
			return false // nothing to derive a limit from, and no rounding about it
		}
		if math.Abs(mean) < 1e-9 || (variance < 1e-12 && variance > -1e-12) {
			return true // whether this is a baseline is a matter of rounding
		}
		if mean > 0 && variance > 0 {
			m.state = next
			m.cur = mean
			m.limit = mean + dir*m.k*math.Sqrt(m.lambda/(2-m.lambda)*variance)
		}
		return false
	}
	switch m.state {
	case stat.Reset:
		// a fresh baseline, of which this is the first observation
		m.clear()
		add()
		m.state = stat.UCLInitial
	case stat.UCLInitial:
		add()
		return true, baseline(stat.TestingUCL, 1)
	case stat.LCLInitial:
		add()
		return true, baseline(stat.TestingLCL, -1)
	case stat.TestingUCL:
		add()
		m.cur = m.lambda*o + (1-m.lambda)*m.cur
		if m.cur >= m.limit {
			m.state = stat.UCLTrip
		}
		return true, close()
	case stat.TestingLCL:
		add()
		m.cur = m.lambda*o + (1-m.lambda)*m.cur
		if m.cur <= m.limit {
			m.state = stat.LCLTrip
		}
		return true, close()
	default:
		add()
	}
	return true, false
}

// flat tells whether all samples are the same.
func flat(v []float64) bool {
	for _, x := range v {
		if x != v[0] {
			return false
		}
	}
	return true
}

func near(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 1e-7*(1+math.Abs(a)+math.Abs(b)) || (math.IsNaN(a) && math.IsNaN(b))
}

func d01(r *harness.Run) {
	done := make(chan bool, 1)
	g := rt.NewGroup("client")
	rt.GoIn(g, "client", func() { d01run(r); rt.TrySend(done, true) })
	rt.Recv(done)
}

func d01run(r *harness.Run) {
	poisson := r.W(2) == 1
	ns := 1 + r.W(2) // statistics in the test
	capn := 2 + r.W(6)
	if r.W(8) == 7 {
		capn = 50
	}
	win := pickDur(r, time.Second, 0, 15*time.Second)
	if win == 0 {
		win = 100 * time.Millisecond
	}
	var ms []*dmodel
	var ss []*stat.TestStatistic
	def := capn == 50 && r.W(2) == 1
	lambdas := []float64{0.25, 1.0}
	if r.W(2) == 1 {
		lambdas = []float64{0.1, 0.6}
	}
	if r.W(3) == 2 {
		lambdas[0], lambdas[1] = lambdas[1], lambdas[0]
	}
	var opts []stat.TestOption
	var k stat.K = stat.KFixed([]float64{0.5, 3, 1, 0.1}[r.W(4)])
	if def {
		ns, win, lambdas, k = 2, 15*time.Second, []float64{.25, 1.0}, stat.KErrorRate(0.05)
	} else if r.W(4) == 3 {
		k = stat.KErrorRate([]float64{0.05, 0.5, 0.001}[r.W(3)])
	}
	value := func(k stat.K) float64 {
		var kv float64
		if poisson {
			kv, _ = k.CalculateP()
		} else {
			kv, _ = k.CalculateLN()
		}
		return kv
	}
	ks, caps := []stat.K{k, k}, []int{capn, capn}
	if !def && ns == 2 && r.W(3) == 2 {
		// the statistics of a test have nothing in common but what they are shown
		ks[1] = stat.KFixed([]float64{0.5, 3, 1, 0.1}[r.W(4)])
		caps[1] = 2 + r.W(6)
	}
	trans := []func([]float64) float64{metric.SampleSum, metric.SampleAverage, metric.SampleMax, metric.SampleMin}[r.W(4)]
	if def {
		trans = metric.SampleSum
	}
	born := rt.Elapsed()
	for i := 0; i < ns; i++ {
		m := &dmodel{name: fmt.Sprintf("s%d", i), lambda: lambdas[i], k: value(ks[i]), capn: caps[i], poisson: poisson, win: win, tr: trans, born: born, state: stat.UCLInitial}
		ms = append(ms, m)
		if def {
			continue
		}
		var pdf stat.PDF = stat.NewLogNormal(caps[i], ks[i])
		if poisson {
			pdf = stat.NewPoisson(caps[i], win, trans, ks[i])
		}
		s, err := stat.NewEWMAStatistic(m.name, m.lambda, pdf)
		if err != nil {
			r.Fail("statistic not created", "%v", err)
		}
		ss = append(ss, s)
		opts = append(opts, stat.WithStatistic(s))
	}
	var t *stat.Test
	var err error
	name := metric.NewName("m", nil)
	if poisson {
		t, err = stat.NewPoissonTest(name, opts...)
	} else {
		t, err = stat.NewLogNormalTest(name, opts...)
	}
	if err != nil {
		r.Fail("test not created", "%v", err)
	}
	r.Note("poisson %v default %v capacities %v window %v lambdas %v k %v", poisson, def, caps[:ns], win, lambdas[:ns], ks[:ns])
	check := func(what string) {
		rt.Settle() // the sampler has done what is due
		st := t.State()
		alarm := false
		for i, m := range ms {
			if st[i] != m.state {
				r.Fail("wrong phase", "%s: statistic %d (lambda %v) is in %s, expected %s (current %v limit %v baseline %d/%d %v)", what, i, m.lambda, st[i], m.state, m.cur, m.limit, m.count, m.capn, m.samples)
			}
			alarm = alarm || m.state == stat.UCLTrip || m.state == stat.LCLTrip
			if len(ss) > 0 {
				if !near(ss[i].Value(), m.cur) || !near(ss[i].Limit(), m.limit) {
					r.Fail("wrong statistic", "%s: statistic %d is at %v with limit %v, expected %v and %v", what, i, ss[i].Value(), ss[i].Limit(), m.cur, m.limit)
				}
				if ss[i].HasAlarmed() != (m.state == stat.UCLTrip || m.state == stat.LCLTrip) || ss[i].State() != m.state {
					r.Fail("wrong alarm", "%s: statistic %d in %s alarmed=%v", what, i, m.state, ss[i].HasAlarmed())
				}
			}
		}
		if t.HasAlarmed() != alarm {
			r.Fail("wrong alarm", "%s: HasAlarmed is %v, expected %v", what, t.HasAlarmed(), alarm)
		}
	}
	check("at first")
	steps := r.Between(5, 20+3*capn)
	level := 5.0
	phases := map[fsm.State]bool{}
	steady := r.W(4) == 3
	// observations are made strictly between ticks
	rt.Sleep(win / 16)
	for i := 0; i < steps; i++ {
		if poisson {
			rt.Sleep(win * time.Duration([]int{0, 1, 2, 4, 8, 16, 32}[r.W(7)]) / 16)
			for (rt.Elapsed()-born)%win == 0 {
				rt.Sleep(win / 16)
			}
		}
		for _, m := range ms {
			m.tick(rt.Elapsed())
		}
		// the process drifts so that alarms of both kinds come up
		switch r.W(12) {
		case 9:
			level = 200
		case 10:
			level = 1.6
		case 11:
			level = 5
		}
		kind := r.W(16)
		if kind < 13 {
			o := level * (1 + float64(r.W(64))/100)
			if steady && kind < 9 {
				o = level
			}
			switch kind {
			case 12:
				o = []float64{math.NaN(), math.Inf(1), math.Inf(-1), 0, -3, 1e300, 0.4}[r.W(7)]
			}
			if poisson {
				o = math.Trunc(o)
			}
			// exactly at the limit, or as close to it as can be
			if edge := r.W(8); edge >= 6 && len(ss) > 0 {
				if s0 := ms[0].state; s0 == stat.TestingUCL || s0 == stat.TestingLCL {
					x := ss[0].Limit()
					if edge == 7 {
						x = math.Nextafter(x, ss[0].Value())
					}
					x = (x - (1-ms[0].lambda)*ss[0].Value()) / ms[0].lambda
					if !poisson {
						x = math.Exp(x)
					}
					o = x
				}
			}
			err := t.Record(o)
			usable, amb := true, false
			for j, m := range ms {
				was := m.state
				u, a := m.record(o)
				if a && len(ss) > 0 && (was == stat.TestingUCL || was == stat.TestingLCL) {
					// too close for the model's arithmetic: the statistic's own value decides
					v, l := ss[j].Value(), ss[j].Limit()
					m.state = was
					if was == stat.TestingUCL && v >= l {
						m.state = stat.UCLTrip
					}
					if was == stat.TestingLCL && v <= l {
						m.state = stat.LCLTrip
					}
					a = false
				}
				usable, amb = usable && u, amb || a
			}
			if amb {
				r.Nontrivial()
				break
			}
			if usable && err != nil {
				r.Fail("usable observation refused", "Record(%v) in %v: %v", o, t.State(), err)
			}
			if !usable && err == nil {
				r.Fail("unusable observation accepted", "Record(%v)", o)
			}
			check(fmt.Sprintf("step %d, after Record(%v)", i, o))
		} else {
			all := []fsm.State{stat.Reset, stat.UCLInitial, stat.TestingUCL, stat.UCLTrip, stat.LCLInitial, stat.TestingLCL, stat.LCLTrip}
			to := all[r.W(7)]
			reset := r.W(2) == 1
			if r.W(2) == 0 {
				to = dnext[ms[0].state][r.W(len(dnext[ms[0].state]))]
			}
			if to == stat.Reset && poisson && (ms[0].count == 0 || ms[ns-1].count == 0) {
				reset = true // else observations pending in the open window are a matter of taste
			}
			// a test with several statistics in different phases takes its own way
			if ns == 2 && dallowed(ms[0].state, to) != dallowed(ms[1].state, to) {
				continue
			}
			ok := dallowed(ms[0].state, to)
			err := t.Transition(to, reset)
			rt.Logf("Transition(%s,%v): %v", to, reset, err)
			if ok != (err == nil) {
				r.Fail("transition judged wrongly", "step %d: %s -> %s: %v", i, ms[0].state, to, err)
			}
			if ok {
				for _, m := range ms {
					m.state = to
					if reset {
						m.clear()
					}
				}
			}
			check(fmt.Sprintf("step %d, after Transition(%s, %v)=%v", i, to, reset, err))
		}
		phases[ms[0].state] = true
	}
	t.Done()
	at := r.Sim.Steps()
	rt.Sleep(100 * win)
	if r.Sim.Steps()-at > 60 {
		r.Fail("sampler runs on", "%d steps in 100 windows after Done", r.Sim.Steps()-at)
	}
	if len(phases) > 1 {
		r.Nontrivial()
	}
}

func exactPlan(r *harness.Run) rt.Config {
	c := r.Sched()
	c.StepCost = 0
	c.MaxSteps = 1500000
	return c
}

func init() {
	stub := []string{"goroutine scheduler, channels, locks, timers, clock and entropy (simulator)"}
	harness.Register(&harness.Prop{ID: "L03", Title: "log history queue", Rule: "Each run draws a capacity and 1-4 tasks adding, copying and clearing, or (one in five) a log processor at work on a command or standard input with a configured history or none; non-trivial with at least two additions or lines.",
		Plan: logPlan, Body: l03, Real: []string{"pkg/monny/proc queue, log processor and options"}, Stub: stub, Quick: 100000, Thorough: 5000000})
	harness.Register(&harness.Prop{ID: "T01", Title: "ticker", Rule: "Each run draws tickers, listeners, other traffic, a wall clock jump and the moment of shutdown; non-trivial when a tick was published.",
		Plan: metricPlan, Body: t01, Real: []string{"pkg/monny/proc ticker", "pkg/eventbus"}, Stub: stub, Quick: 30000, Thorough: 1500000})
	harness.Register(&harness.Prop{ID: "F01", Title: "nonce transitions", Rule: "Each run draws a transition graph, a sequence of attempts with current, stale, wrong and empty nonces, resets, and entropy failures; non-trivial when a transition was accepted among several attempts.",
		Plan: exactPlan, Body: f01, Real: []string{"pkg/fsm"}, Stub: stub, Quick: 100000, Thorough: 5000000})
	harness.Register(&harness.Prop{ID: "D01", Title: "change detector", Rule: "Each run draws a detector (distribution, capacity, window, smoothing, limit), a drifting series of observations, explicit transitions and unusable values, with the sampler ticking in between; non-trivial when at least two phases were visited.",
		Plan: exactPlan, Body: d01, Real: []string{"pkg/stat", "pkg/metric", "pkg/fsm"}, Stub: stub, Quick: 60000, Thorough: 3000000})
}
