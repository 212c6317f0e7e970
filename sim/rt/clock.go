package rt

import (
	"container/heap"
	"runtime"
	"time"
	"unsafe"
)

func (s *Sim) addEvent(at int64, f func()) *event {
	s.seq++
	e := &event{at: at, seq: s.seq, fire: f}
	heap.Push(&s.events, e)
	return e
}

// After runs f (in no task: it must not block) at virtual delay d.
func After(d time.Duration, f func()) (cancel func() bool) {
	if d < 0 {
		d = 0
	}
	e := S.addEvent(S.now+int64(d), f)
	return func() bool {
		if e.dead {
			return false
		}
		e.dead = true
		return true
	}
}

func (s *Sim) sleep(d time.Duration, why string) {
	t := cur
	if d <= 0 {
		return
	}
	s.addEvent(s.now+int64(d), func() { s.ready(t) })
	s.park(why)
}

// Sleep is time.Sleep.
func Sleep(d time.Duration) {
	if dead() {
		runtime.Goexit()
	}
	Sync("sleep", nil)
	if d <= 0 {
		return
	}
	S.sleep(d, "sleep")
}

// goTime is the layout of time.Time, checked in init.
type goTime struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

const (
	hasMonotonic = 1 << 63
	nsecShift    = 30
	wallToInt    = int64(1884*365+1884/4-1884/100+1884/400) * 86400
	unixToInt    = int64(1969*365+1969/4-1969/100+1969/400) * 86400
)

func mkTime(wallNS int64, mono int64) time.Time {
	sec := wallNS / 1e9
	nsec := wallNS % 1e9
	if nsec < 0 {
		nsec += 1e9
		sec--
	}
	g := goTime{
		wall: hasMonotonic | uint64(sec+unixToInt-wallToInt)<<nsecShift | uint64(nsec),
		ext:  mono,
		loc:  time.Local,
	}
	return *(*time.Time)(unsafe.Pointer(&g))
}

// Now reads the virtual clocks: wall and monotonic, as time.Now does.
func Now() time.Time {
	if S == nil {
		return time.Unix(0, Base).Local()
	}
	return mkTime(Base+S.now+S.wallOff, 1+S.now)
}

// StepWall moves the wall clock (an NTP step or an operator), not the monotonic one.
func StepWall(d time.Duration) { S.wallOff += int64(d) }

// WallOffset is the accumulated wall clock step.
func WallOffset() time.Duration { return time.Duration(S.wallOff) }

// At converts a virtual instant to a time, for oracles.
func At(d time.Duration) time.Time { return time.Unix(0, Base+int64(d)) }

func init() {
	time.Local = time.FixedZone("SIM", 2*3600)
	a := mkTime(Base, 5)
	b := mkTime(Base-int64(time.Hour), 5+int64(time.Second))
	if b.Sub(a) != time.Second || !b.After(a) || a.UnixNano() != Base || a.Round(0).UnixNano() != Base ||
		!a.Round(0).After(b.Round(0)) || a.UTC().Hour() != 12 || a.UTC().Sub(b.UTC()) != time.Hour {
		panic("rt: time.Time layout check failed")
	}
}

// Timer is time.Timer with the semantics of Go before 1.23 (the module under test
// declares go 1.13): a buffered channel that Stop and Reset do not drain.
type Timer struct {
	C  <-chan time.Time
	c  chan time.Time
	f  func()
	ev *event
}

// NewTimer is time.NewTimer.
func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

// AfterFunc is time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

func (t *Timer) start(d time.Duration) {
	if dead() {
		return
	}
	if d < 0 {
		d = 0
	}
	s := S
	g := cur.Group
	raceRelease(t)
	t.ev = s.addEvent(s.now+int64(d), func() {
		if g.Dead {
			return
		}
		if t.f != nil {
			s.spawn("timerfunc", g, t.f)
			return
		}
		sendNB[time.Time](t.c, Now())
	})
}

// Stop is Timer.Stop.
func (t *Timer) Stop() bool {
	if dead() {
		return false
	}
	Sync("timer.stop", unsafe.Pointer(t))
	if t.ev == nil {
		panic("time: Stop called on uninitialized Timer")
	}
	was := !t.ev.dead
	t.ev.dead = true
	return was
}

// Reset is Timer.Reset.
func (t *Timer) Reset(d time.Duration) bool {
	if dead() {
		return false
	}
	Sync("timer.reset", unsafe.Pointer(t))
	if t.ev == nil {
		panic("time: Reset called on uninitialized Timer")
	}
	was := !t.ev.dead
	t.ev.dead = true
	t.start(d)
	return was
}

// Ticker is time.Ticker.
type Ticker struct {
	C    <-chan time.Time
	c    chan time.Time
	d    time.Duration
	ev   *event
	next int64
	g    *Group
	stop bool
}

// NewTicker is time.NewTicker.
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	if dead() {
		return t
	}
	t.g = cur.Group
	t.next = S.now + int64(d)
	S.tickers++
	t.arm()
	return t
}

// Tickers is the number of tickers that have not been stopped.
func Tickers() int { return S.tickers }

func (t *Ticker) arm() {
	s := S
	t.ev = s.addEvent(t.next, func() {
		if t.g.Dead || t.stop {
			return
		}
		if !sendNB[time.Time](t.c, Now()) {
			s.Stats["tick.dropped"]++
		}
		// as the runtime does: the next multiple of the period after now
		delta := s.now - t.next
		t.next += int64(t.d) * (1 + delta/int64(t.d))
		t.arm()
	})
}

// Stop is Ticker.Stop.
func (t *Ticker) Stop() {
	if dead() {
		return
	}
	Sync("ticker.stop", unsafe.Pointer(t))
	if !t.stop {
		S.tickers--
	}
	t.stop = true
	if t.ev != nil {
		t.ev.dead = true
	}
}

// Reset is Ticker.Reset.
func (t *Ticker) Reset(d time.Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	if dead() {
		return
	}
	Sync("ticker.reset", unsafe.Pointer(t))
	if t.ev != nil {
		t.ev.dead = true
	}
	if t.stop {
		S.tickers++
	}
	t.stop = false
	t.d = d
	t.next = S.now + int64(d)
	t.arm()
}
