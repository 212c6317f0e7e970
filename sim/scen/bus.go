package scen

import (
	"bytes"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unsafe"

	"github.com/BTBurke/monny/pkg/eventbus"
	"github.com/BTBurke/monny/pkg/monny/proc"

	"simverif/harness"
	"simverif/rt"
	"simverif/shim/context"
)

// Ev is what the bus scenarios publish.
type Ev struct {
	ID int
	S  string
	B  []byte
}

type subMode int

const (
	eager subMode = iota
	slow
	never
	reenter
	modes
)

var modeName = [...]string{"eager", "slow", "never reads", "re-entrant"}

type busSub struct {
	id      int
	name    string
	topics  []eventbus.Topic
	mode    subMode
	delay   time.Duration
	startAt time.Duration
	// at shutdown
	early   time.Duration // >0: reports finished this long after subscribing
	report  int           // 0 once, 1 twice, 2 never
	lag     time.Duration // between seeing the close and reporting
	unsubAt time.Duration // 0: stays
	closeAt time.Duration // >0: closes its own channel then, which it should leave to the bus
	twice   bool          // unsubscribes again
	self    bool          // unsubscribes itself from its own loop after some events
	selfN   int
	done    chan struct{} // what the bus waits for, where it is known
	forgets bool          // unsubscribing tells the bus not to wait for it either
	again   []int         // re-entrant: events to publish from inside the loop

	c      chan eventbus.Event
	fin    eventbus.ShutdownFunc
	sub    span
	unsub  span
	got    []busGot
	closed bool
	shut   uint64 // seq at which it saw the close
	rep    span   // first report
	gone   bool   // unsubscribed
}

type busGot struct {
	id  int
	seq uint64
	at  time.Duration
}

type busEv struct {
	id     int
	list   []eventbus.Topic // what the caller passes
	topics []eventbus.Topic // a copy of what it meant
	data   Ev
	typ    eventbus.EventType
	pay    interface{} // what is published
	gap    time.Duration
	d      span
	pub    bool
	again  int // how often it is published again
}

type busRun struct {
	r       *harness.Run
	mode    string
	bus     *eventbus.EventBus
	subs    []*busSub
	evs     []*busEv
	g       *group
	firstSD uint64 // when the first Shutdown was called
	quick   bool   // timing may be judged
	calls   []*busCall
	names   []eventbus.Topic
	kind    int // of payloads
	plain   int // the event whose type is empty
	busy    int // calls under way that change who is subscribed
	churned int // and how many there have been
}

type busCall struct {
	what string
	span
}

func (b *busRun) call(what string, f func()) *busCall {
	c := &busCall{what: what}
	b.calls = append(b.calls, c)
	c.begin()
	f()
	c.done()
	return c
}

func (b *busRun) publish(e *busEv) {
	pay, scribble := e.pay, func() {}
	switch x := pay.(type) {
	case Ev:
		x.B = append([]byte{}, x.B...)
		pay, scribble = x, func() {
			for i := range x.B {
				x.B[i] = '#'
			}
		}
	case []string:
		x = append([]string{}, x...)
		pay, scribble = x, func() { x[0] = "scribbled over" }
	}
	ev, err := eventbus.NewEvent(e.typ, pay)
	if err != nil {
		b.r.Fail("event creation failed", "NewEvent: %v", err)
	}
	e.pub = true
	e.d.begin()
	b.call(fmt.Sprintf("Dispatch of event %d", e.id), func() { b.bus.Dispatch(ev, e.list...) })
	for i := 0; i < e.again; i++ { // events may be equal
		if i == 0 {
			if ev, err = eventbus.NewEvent(e.typ, pay); err != nil {
				b.r.Fail("event creation failed", "NewEvent: %v", err)
			}
		}
		b.call(fmt.Sprintf("another Dispatch of event %d", e.id), func() { b.bus.Dispatch(ev, e.list...) })
	}
	e.d.done()
	scribble() // the publisher goes on using what it published
}

func (b *busRun) newEvent(topics []eventbus.Topic) *busEv {
	id := len(b.evs) + 1
	e := &busEv{id: id, list: topics, topics: append([]eventbus.Topic{}, topics...), typ: eventbus.EventType(fmt.Sprintf("t%d-%d", id%3, id))}
	e.data = Ev{ID: id, S: strings.Repeat("x", id%5), B: bytes.Repeat([]byte{byte(id)}, id%4)}
	e.pay = e.data
	switch b.kind {
	case 1: // every kind of payload, empty ones too
		switch id % 9 {
		case 1:
			e.pay = ""
		case 2:
			e.pay = nil
		case 3:
			e.pay = 0
		case 4:
			e.pay = []string{e.data.S, "", "z"}
		case 5:
			e.pay = map[string]int{e.data.S: id}
		case 6:
			e.pay = strings.Repeat("long ", 3000)
			if id == 6 && len(b.subs) < 3 {
				e.pay = strings.Repeat("long ", 30000)
			}
		case 7:
			e.pay = proc.LogEvent{Timestamp: time.Unix(int64(id), 5).UTC(), Line: e.data.B}
		case 8:
			e.pay = false
		}
	}
	if b.plain == 0 && id%5 == 3 && b.kind == 1 {
		b.plain, e.typ = id, ""
	}
	b.evs = append(b.evs, e)
	return e
}

// subscribe also finds out what the bus will wait for, if it keeps that where it can be seen.
func (b *busRun) subscribe(s *busSub) {
	before, busy := doneChans(b.bus), b.busy
	alone := b.churn()
	n := b.churned
	s.sub.begin()
	b.call("Subscribe by "+s.name, func() { s.c, s.fin = b.bus.Subscribe(s.topics...) })
	s.sub.done()
	alone()
	if after := doneChans(b.bus); busy == 0 && b.churned == n && len(after) == len(before)+1 {
		s.done = after[len(before)]
	}
}

// churn marks a call that changes who is subscribed.
func (b *busRun) churn() func() {
	b.busy++
	b.churned++
	return func() { b.busy-- }
}

// doneChans is what the bus waits for when it shuts down.
func doneChans(bus *eventbus.EventBus) []chan struct{} {
	v := reflect.ValueOf(bus).Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Type() == reflect.TypeOf([]chan struct{}{}) {
			return append([]chan struct{}{}, *(*[]chan struct{})(unsafe.Pointer(f.UnsafeAddr()))...)
		}
	}
	return nil
}

func (b *busRun) loop(s *busSub) {
	if s.startAt > 0 {
		rt.Sleep(s.startAt)
	}
	b.subscribe(s)
	rt.Logf("%s subscribed to %v", s.name, s.topics)
	b.extras(s)
	if s.mode == never {
		return
	}
	b.read(s)
}

// extras starts what a subscriber does besides reading.
func (b *busRun) extras(s *busSub) {
	if s.early > 0 {
		b.g.run(s.name+" early", func() { rt.Sleep(s.early); b.report(s) })
	}
	if s.unsubAt > 0 && !s.self {
		b.g.run(s.name+" unsub", func() { rt.Sleep(s.unsubAt); b.unsubscribe(s) })
	}
	if s.closeAt > 0 {
		b.g.run(s.name+" closes", func() {
			rt.Sleep(s.closeAt)
			defer func() { recover() }() // the bus may have closed it
			rt.Logf("%s closes its channel", s.name)
			rt.Close(s.c)
		})
	}
}

func (b *busRun) unsubscribe(s *busSub) {
	var done chan struct{}
	if s.forgets && s.done != nil && (s.rep.start == 0 || s.rep.end != 0) {
		done = s.done
	} else {
		s.forgets = false
	}
	defer b.churn()()
	s.unsub.begin()
	b.call("Unsubscribe of "+s.name, func() { b.bus.Unsubscribe(s.c, done) })
	s.unsub.done()
	s.gone = true
	rt.Logf("%s unsubscribed", s.name)
	if s.twice {
		b.call("another Unsubscribe of "+s.name, func() { b.bus.Unsubscribe(s.c, done) })
	}
}

// strangers unsubscribes channels that were never subscribed, which concerns nobody.
func (b *busRun) strangers() {
	defer b.churn()()
	b.call("Unsubscribe of nothing", func() { b.bus.Unsubscribe(nil, nil) })
	other := make(chan eventbus.Event, 1)
	b.call("Unsubscribe of a stranger", func() { b.bus.Unsubscribe(other, nil) })
	_, rep := b.bus.Subscribe("elsewhere")
	b.g.run("elsewhere", rep)
}

func (b *busRun) report(s *busSub) {
	if s.forgets && s.unsub.start != 0 {
		for s.unsub.end == 0 {
			rt.Sleep(time.Millisecond)
		}
		if s.forgets {
			if _, ok, got := rt.TryRecv(s.done); got && !ok {
				return // the bus has done so
			}
		}
	}
	if s.rep.start == 0 {
		s.rep.begin()
		s.fin()
		s.rep.done()
	} else {
		s.fin()
	}
}

func (b *busRun) read(s *busSub) {
	for {
		ev, ok := rt.Recv2(s.c)
		if !ok {
			s.closed = true
			s.shut = rt.Seq()
			break
		}
		b.took(s, ev)
		if s.mode == slow {
			rt.Sleep(s.delay)
		}
		if s.mode == reenter && len(s.again) > 0 {
			k := s.again[0]
			s.again = s.again[1:]
			switch k {
			case 1:
				at := rt.Seq()
				ended := b.churn()
				b.call("re-entrant Subscribe", func() {
					c, fin := b.bus.Subscribe(b.names[0])
					x := &busSub{id: 100 + len(b.subs), name: fmt.Sprintf("extra%d", len(b.subs)), topics: []eventbus.Topic{b.names[0]}, mode: eager, c: c, fin: fin}
					x.sub = span{start: at, end: rt.Seq()}
					b.subs = append(b.subs, x)
					b.g.run(x.name, func() { b.read(x) })
				})
				ended()
			default:
				e := b.newEvent(s.topics)
				b.publish(e)
			}
		}
		if s.self && len(s.got) >= s.selfN && !s.gone && s.unsub.start == 0 {
			b.unsubscribe(s)
		}
	}
	if s.lag > 0 {
		rt.Sleep(s.lag)
	}
	if s.report != 2 {
		b.report(s)
		if s.report == 1 {
			b.report(s)
		}
	}
}

// took checks one received event against what was published.
func (b *busRun) took(s *busSub, ev eventbus.Event) {
	id := 0
	if _, t, ok := strings.Cut(string(ev.Type()), "-"); ok {
		id, _ = strconv.Atoi(t)
	} else if ev.Type() == "" {
		id = b.plain
	}
	if id < 1 || id > len(b.evs) || !b.evs[id-1].pub {
		b.r.Fail("event invented", "%s received an event of type %s, which nobody published", s.name, ev.Type())
	}
	e := b.evs[id-1]
	if ev.Type() != e.typ || ev.String() != string(e.typ) {
		b.r.Fail("event altered", "%s received type %s (%s), published %s", s.name, ev.Type(), ev.String(), e.typ)
	}
	if e.pay != nil {
		x := reflect.New(reflect.TypeOf(e.pay))
		if err := ev.Decode(x.Interface()); err != nil {
			b.r.Fail("event does not decode", "%s: %v", s.name, err)
		}
		if id%4 == 1 { // decoding does not use an event up
			if err := ev.Decode(x.Interface()); err != nil {
				b.r.Fail("event does not decode", "%s, the second time: %v", s.name, err)
			}
		}
		if got, want := fmt.Sprintf("%+v", x.Elem().Interface()), fmt.Sprintf("%+v", e.pay); got != want {
			b.r.Fail("event altered", "%s received %s, published %s", s.name, clip(got), clip(want))
		}
	}
	rt.Logf("%s received event %d", s.name, id)
	s.got = append(s.got, busGot{id, rt.Seq(), rt.Elapsed()})
}

// shared counts the topics a subscriber and an event have in common; it may name one twice.
func shared(s *busSub, e *busEv) (min, max int) {
	if len(s.topics) == 0 {
		return 1, 1
	}
	for i, a := range s.topics {
		again := false
		for _, x := range s.topics[:i] {
			again = again || x == a
		}
		for _, t := range e.topics {
			if a == t {
				max++
				if !again {
					min++
				}
			}
		}
	}
	return min, max
}

// counts checks that everything due has arrived as often as it should.
func (b *busRun) counts(shutdownAt uint64) {
	for _, s := range b.subs {
		n := map[int]int{}
		for _, g := range s.got {
			n[g.id]++
		}
		for _, e := range b.evs {
			if !e.pub {
				continue
			}
			got := n[e.id]
			min, max := shared(s, e)
			min *= 1 + e.again
			max *= 1 + e.again
			switch {
			case s.sub.end == 0 || (e.d.end != 0 && e.d.end < s.sub.start):
				min, max = 0, 0
			case e.d.start < s.sub.end:
				min = 0
			}
			if s.unsub.start != 0 && s.unsub.end != 0 && e.d.start > s.unsub.end {
				min, max = 0, 0
			} else if s.unsub.start != 0 {
				min = 0 // may still have been on its way
			}
			if s.closeAt > 0 {
				min = 0
			}
			if shutdownAt != 0 {
				min = 0
			}
			if got > max {
				cl := "event duplicated"
				if max == 0 {
					cl = "event delivered to the wrong subscriber"
				}
				b.r.Fail(cl, "%s (topics %v) received event %d (topics %v) %d times, expected at most %d", s.name, s.topics, e.id, e.topics, got, max)
			}
			if got < min {
				b.r.Fail("event lost", "%s (topics %v, %s) received event %d (topics %v) %d times, expected %d", s.name, s.topics, modeName[s.mode], e.id, e.topics, got, min)
			}
		}
	}
}

func (b *busRun) plan() {
	r := b.r
	b.names = [][]eventbus.Topic{{"a", "b", "c", ""}, {"a", "A", "a ", "ab"}, {"a.b", "a.*", "*", "a"}}[Pick3(r, 0, 0, 1, 2)][:r.Between(1, 4)]
	if r.W(3) == 2 { // topics with a meaning elsewhere are topics like any other
		b.names[0] = eventbus.OnErrorTopic()
		if len(b.names) > 1 {
			b.names[1] = proc.LogTopic
		}
	}
	most := 4
	if r.W(16) == 15 { // many topics
		most = 12
		for k := r.Between(5, most); len(b.names) < k; {
			b.names = append(b.names, eventbus.Topic(fmt.Sprintf("topic%d", len(b.names))))
		}
	}
	b.kind = r.W(2)
	subset := func(maxn int) []eventbus.Topic {
		m := r.W(1 << uint(len(b.names)))
		var out []eventbus.Topic
		for i, t := range b.names {
			if m>>uint(i)&1 == 1 && len(out) < maxn {
				out = append(out, t)
			}
		}
		return out
	}
	ns, calm := r.Between(1, 6), false
	if r.W(12) == 11 {
		ns, calm = r.Between(7, 24), r.W(2) == 1
		if r.W(6) == 5 {
			ns = r.Between(25, 70)
		}
	}
	leavers := b.mode == "E01" && r.W(4) == 3
	for i := 0; i < ns; i++ {
		s := &busSub{id: i, name: fmt.Sprintf("sub%d", i), topics: subset(most)}
		s.mode = subMode(r.W(int(modes)))
		if s.mode == reenter && b.mode == "E03" {
			s.mode = slow
		}
		s.delay = pickDur(r, 10*time.Millisecond, time.Second, 20*time.Second)
		if r.W(4) == 3 {
			s.startAt = pickDur(r, time.Millisecond, 500*time.Millisecond, 3*time.Second)
		}
		if s.mode == reenter {
			for k := r.W(4); k > 0; k-- {
				s.again = append(s.again, r.W(3))
			}
			s.self = r.W(3) == 2
			s.selfN = 1 + r.W(3)
		}
		switch b.mode {
		case "E01":
			s.self = false
			for j := range s.again {
				s.again[j] = 0
			}
			// one that leaves concerns nobody who stays or comes later
			if leavers && r.W(3) == 2 && s.mode != reenter {
				s.unsubAt = pickDur(r, time.Millisecond, 400*time.Millisecond, 4*time.Second)
			}
		case "E03":
			s.report = Pick3(r, 0, 0, 0, 1, 2)
			s.lag = pickDur(r, 0, 0, time.Millisecond, 2*time.Second, 30*time.Second)
			if calm {
				s.report, s.lag = s.report%2, s.lag%time.Second
				if s.mode == never {
					s.mode = eager
				}
			}
			if r.W(5) == 4 {
				s.early = pickDur(r, time.Millisecond, time.Second, 5*time.Second)
				if calm {
					s.report = 2 // that was all
				}
			}
		case "E02", "E04":
			if r.W(3) == 2 && s.mode != reenter {
				s.unsubAt = pickDur(r, time.Millisecond, 400*time.Millisecond, 4*time.Second)
			}
			if b.mode == "E04" && i == 0 && s.unsubAt == 0 {
				s.unsubAt = pickDur(r, time.Millisecond, 400*time.Millisecond, 4*time.Second)
				s.self = false
			}
		}
		switch b.mode {
		case "E01", "E02", "E04":
			if r.W(12) == 11 {
				s.closeAt = pickDur(r, time.Millisecond, 400*time.Millisecond, 4*time.Second)
				r.Note("%s closes its channel after %v", s.name, s.closeAt)
			}
			if b.mode != "E01" {
				s.twice = r.W(3) == 2
				s.report = r.W(2)
				s.forgets = r.W(2) == 1
				if len(s.topics) > 0 && r.W(10) == 9 { // how often it receives is its own affair
					s.topics = append(s.topics, s.topics[0])
				}
			}
		}
		b.subs = append(b.subs, s)
		r.Note("%s: topics %v, %s delay %v, starts %v, unsubscribes %v (self %v), reports %d after %v early %v, again %v", s.name, s.topics, modeName[s.mode], s.delay, s.startAt, s.unsubAt, s.self, s.report, s.lag, s.early, s.again)
	}
}

// Pick3 draws one of xs.
func Pick3(r *harness.Run, xs ...int) int { return xs[r.W(len(xs))] }

func (b *busRun) publishers() {
	r := b.r
	np := r.Between(1, 3)
	// a caller may keep one list of topics and publish on prefixes of it
	all := append([]eventbus.Topic{}, b.names...)
	prefix := r.W(2) == 1
	for p := 0; p < np; p++ {
		var mine []*busEv
		k := r.Between(1, 8)
		for i := 0; i < k; i++ {
			var ts []eventbus.Topic
			if prefix {
				ts = all[:r.W(len(all)+1)]
			} else {
				m := r.W(1 << uint(len(all)))
				for i, t := range all {
					if m>>uint(i)&1 == 1 {
						ts = append(ts, t)
					}
				}
			}
			e := b.newEvent(ts)
			e.gap = pickDur(r, 0, 0, time.Millisecond, 700*time.Millisecond)
			if r.W(6) == 5 {
				e.again = r.Between(1, 2)
			}
			mine = append(mine, e)
		}
		b.g.run(fmt.Sprintf("pub%d", p), func() {
			for _, e := range mine {
				if e.gap > 0 {
					rt.Sleep(e.gap)
				}
				// what is published is what the caller's list says at the call
				b.publish(e)
			}
		})
		r.Note("pub%d: %d events", p, k)
	}
}

func (b *busRun) checkPrompt() {
	for _, c := range b.calls {
		if c.end == 0 {
			b.r.Fail("call never returned", "%s, made at %v, has not returned", c.what, c.at)
		}
		if b.quick && c.till-c.at > slack {
			b.r.Fail("call blocked", "%s took %v", c.what, c.till-c.at)
		}
	}
}

func (b *busRun) drainStuck(expectClosed bool, why string) {
	for _, s := range b.subs {
		if s.sub.end == 0 {
			continue
		}
		if s.mode == never {
			for !s.closed {
				ev, ok, done := rt.TryRecv(s.c)
				if !done {
					break
				}
				if !ok {
					s.closed = true
					break
				}
				b.took(s, ev)
				if !expectClosed {
					rt.Settle() // let a waiting delivery through
				}
			}
		}
		if expectClosed && !s.closed {
			b.r.Fail("channel never closed", "%s (%s) is still waiting on an open channel after %s", s.name, modeName[s.mode], why)
		}
	}
}

func busBody(mode string) func(r *harness.Run) {
	return func(r *harness.Run) {
		b := &busRun{r: r, mode: mode, bus: eventbus.New(), g: newGroup("client"), quick: !stalls(&r.Sim.Cfg)}
		b.plan()
		first := append([]*busSub{}, b.subs...)
		for _, s := range first {
			s := s
			if s.startAt == 0 && r.W(2) == 0 {
				// subscribe before anything is published
				b.subscribe(s)
				b.g.run(s.name, func() {
					b.extras(s)
					if s.mode != never {
						b.read(s)
					}
				})
			} else {
				b.g.run(s.name, func() { b.loop(s) })
			}
		}
		b.publishers()
		if (mode == "E02" || mode == "E04") && r.W(6) == 5 {
			after := pickDur(r, time.Millisecond, 400*time.Millisecond)
			b.g.run("strangers", func() { rt.Sleep(after); b.strangers() })
		}
		switch mode {
		case "E01":
			busSettle(b)
			b.drainStuck(false, "")
			b.counts(0)
			if b.deliveries(0) > 0 && b.hindered() {
				r.Nontrivial()
			}
		case "E02":
			var sd *shutdown
			if r.W(2) == 1 {
				sd = b.shutdown(r, pickDur(r, time.Millisecond, time.Second, 3*time.Second), false)
			}
			busSettle(b)
			b.checkPrompt()
			if sd == nil {
				b.drainStuck(false, "")
				b.counts(0)
			}
			// publishing after the shutdown
			if sd != nil {
				if sd.call.end != 0 {
					for _, s := range b.subs {
						if s.id%2 == 1 && s.sub.end != 0 {
							b.unsubscribe(s)
						}
					}
					e := b.newEvent(b.names[:1])
					b.publish(e)
					b.publish(b.newEvent(nil))
					rt.Settle()
					b.checkPrompt()
				}
			}
			if b.hindered() {
				r.Nontrivial()
			}
		case "E04":
			busSettle(b)
			b.checkPrompt()
			for _, s := range b.subs {
				if s.unsub.end == 0 {
					continue
				}
				if s.mode == never {
					b.drainStuckOne(s)
				}
				if !s.closed {
					r.Fail("channel never closed", "%s unsubscribed at %v but its channel is open", s.name, s.unsub.till)
				}
				late := 0
				for _, g := range s.got {
					if g.seq > s.unsub.end {
						late++
					}
				}
				max := cap(s.c) // what is buffered was delivered before
				if s.mode != never && !s.self {
					max++ // and one may have been handed to the waiting reader
				}
				if late > max {
					r.Fail("delivered after unsubscribing", "%s received %d events after Unsubscribe returned", s.name, late)
				}
			}
			b.drainStuck(false, "")
			b.counts(0)
			// the bus still shuts down
			for _, s := range b.subs {
				if s.mode == never {
					s := s
					b.g.run(s.name+" finally", func() {
						s.mode = eager
						if s.closed {
							b.report(s)
						} else {
							b.read(s)
						}
					})
				}
				s.delay = time.Millisecond
			}
			sd := b.shutdown(r, 0, true)
			rt.Sleep(2 * time.Hour)
			rt.Settle()
			if sd.call.end == 0 || sd.err != nil {
				r.Fail("shutdown after unsubscribing", "Shutdown returned %v (returned: %v) although every subscriber reported", sd.err, sd.call.end != 0)
			}
			b.drainStuck(true, "shutdown")
			for _, s := range b.subs {
				if s.unsub.end != 0 && b.deliveries(s.unsub.end) > 0 {
					r.Nontrivial()
				}
			}
		case "E03":
			sd := b.shutdown(r, pickDur(r, 0, time.Millisecond, 600*time.Millisecond, 2*time.Second), false)
			var sd2 *shutdown
			if r.W(6) == 5 {
				sd2 = b.shutdown(r, pickDur(r, time.Millisecond, 3*time.Second), false)
			}
			var lateSub *busSub
			if r.W(4) == 3 {
				lateSub = &busSub{id: 50, name: "latecomer", topics: b.names[:1], startAt: pickDur(r, 0, 600*time.Millisecond, 3*time.Second)}
				b.subs = append(b.subs, lateSub)
				r.Note("latecomer subscribes at %v", lateSub.startAt)
				b.g.run("latecomer", func() { b.loop(lateSub) })
			}
			busSettle(b)
			b.checkShutdown(sd, sd2 == nil)
			if sd2 != nil && sd2.call.end == 0 {
				r.Fail("shutdown never returned", "a second Shutdown has not returned")
			}
			b.drainStuck(true, "shutdown")
			b.counts(sd.call.start)
			for _, e := range b.evs {
				if e.pub && e.d.start < sd.call.start {
					r.Nontrivial()
				}
			}
		}
	}
}

// deliveries counts what arrived after a moment.
func (b *busRun) deliveries(after uint64) int {
	n := 0
	for _, s := range b.subs {
		for _, g := range s.got {
			if g.seq > after {
				n++
			}
		}
	}
	return n
}

// hindered tells whether anything but eager readers was about.
func (b *busRun) hindered() bool {
	for _, s := range b.subs {
		if s.mode != eager || s.closeAt > 0 || s.unsub.start != 0 {
			return true
		}
	}
	return false
}

func (b *busRun) drainStuckOne(s *busSub) {
	for {
		ev, ok, done := rt.TryRecv(s.c)
		if !done {
			return
		}
		if !ok {
			s.closed = true
			return
		}
		b.took(s, ev)
	}
}

// busSettle lets everything run that can.
func busSettle(b *busRun) {
	rt.Sleep(90 * time.Second) // all publications and unsubscriptions have been made
	rt.Settle()
	rt.FaultsOff()
	rt.Sleep(3 * time.Hour) // slow subscribers have read everything
	rt.Settle()
}

type shutdown struct {
	call  *busCall
	err   error
	ctx   context.Context
	limit time.Duration // when the context ends
}

func (b *busRun) shutdown(r *harness.Run, after time.Duration, generous bool) *shutdown {
	sd := &shutdown{call: &busCall{what: "Shutdown"}}
	kind := r.W(3)
	d := pickDur(r, 0, 10*time.Millisecond, 5*time.Second, time.Hour)
	if generous {
		kind, d = 0, time.Hour
	}
	r.Note("shutdown after %v, context kind %d ending after %v", after, kind, d)
	b.g.run("shutdown", func() {
		if after > 0 {
			rt.Sleep(after)
		}
		var ctx context.Context
		sd.limit = rt.Elapsed() + d
		switch kind {
		case 0, 1:
			c, cancel := context.WithTimeout(context.Background(), d)
			ctx = c
			defer cancel()
		case 2:
			c, cancel := context.WithCancel(context.Background())
			ctx = c
			b.g.run("cancel", func() { rt.Sleep(d); cancel() })
		}
		sd.ctx = ctx
		sd.call.begin()
		if b.firstSD == 0 {
			b.firstSD = sd.call.start
		}
		err := b.bus.Shutdown(ctx)
		sd.err = err
		sd.call.done()
		rt.Logf("Shutdown returned %v", err)
		if err != nil && ctx.Err() == nil {
			r.Fail("shutdown gave up early", "Shutdown returned %v although its context has not ended", err)
		}
		if err == nil {
			for _, s := range b.subs {
				if s.sub.end != 0 && s.sub.end < b.firstSD && s.rep.start == 0 && !(s.forgets && s.unsub.start != 0) {
					r.Fail("shutdown did not wait", "Shutdown returned nil although %s has not reported", s.name)
				}
			}
		} else if err != eventbus.ErrShutdownTimeout {
			r.Fail("wrong shutdown error", "Shutdown returned %v", err)
		}
	})
	return sd
}

func (b *busRun) checkShutdown(sd *shutdown, only bool) {
	r := b.r
	if sd.call.end == 0 {
		r.Fail("shutdown never returned", "Shutdown called at %v with a context ending at %v has not returned by %v", sd.call.at, sd.limit, rt.Elapsed())
	}
	if b.quick && sd.call.till > sd.limit+slack && sd.call.till > sd.call.at+slack {
		r.Fail("shutdown outlived its context", "Shutdown called at %v with a context ending at %v returned at %v", sd.call.at, sd.limit, sd.call.till)
	}
	if !b.quick || !only {
		return
	}
	// reported in time?
	var last time.Duration
	all := true
	for _, s := range b.subs {
		if s.sub.start == 0 || s.sub.start > sd.call.end {
			continue
		}
		if s.rep.end == 0 {
			all = false
			break
		}
		if s.rep.till > last {
			last = s.rep.till
		}
	}
	if all && sd.err != nil && last+slack < sd.limit && sd.call.at+slack < sd.limit {
		r.Fail("shutdown timed out needlessly", "Shutdown returned %v at %v, but every subscriber had reported by %v and the context ends at %v", sd.err, sd.call.till, last, sd.limit)
	}
	if all && sd.err == nil && sd.call.till > last+slack && sd.call.till > sd.call.at+slack {
		r.Fail("shutdown late", "Shutdown returned at %v, every subscriber had reported by %v", sd.call.till, last)
	}
}

func busPlan(r *harness.Run) rt.Config {
	c := r.Sched()
	r.Stalls(&c)
	c.MaxSteps = 1200000
	return c
}

var busReal = []string{"pkg/eventbus (all of it, rewritten from source)"}
var busStub = []string{"goroutine scheduler, channels, locks, timers and clock (simulator)"}

func init() {
	reg := func(id, title, rule string, quick, thorough int) {
		harness.Register(&harness.Prop{ID: id, Title: title, Rule: rule, Plan: busPlan, Body: busBody(id), Real: busReal, Stub: busStub, Quick: quick, Thorough: thorough})
	}
	reg("E01", "event bus delivery", "Each run draws subscribers (topics, reading speed including never, joining time), publishers and a schedule; non-trivial when events arrived while some subscriber was slow, did not read, called back or closed its channel.", 60000, 3000000)
	reg("E02", "event bus never blocks", "Each run draws publishers, subscribers incl. re-entrant ones and ones that never read, unsubscriptions and possibly a shutdown; non-trivial when some subscriber was slow, did not read, called back, closed its channel or unsubscribed.", 60000, 3000000)
	reg("E03", "event bus shutdown", "Each run draws subscribers with reporting behaviour, publications in flight, the shutdown moment and its context; non-trivial when something was published before the shutdown.", 60000, 3000000)
	reg("E04", "event bus unsubscribe", "Each run draws at least one unsubscription among publications; non-trivial when something was delivered after an unsubscription.", 60000, 3000000)
}
