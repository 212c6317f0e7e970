package rt

import (
	"runtime"
	"time"
	"unsafe"
)

// WaitQ is a queue of blocked tasks. Woken tasks re-check their condition.
type WaitQ struct{ q []*Task }

// Wait parks the running task on q.
func (w *WaitQ) Wait(reason string) {
	if dead() {
		runtime.Goexit()
	}
	w.q = append(w.q, cur)
	S.park(reason)
}

// WaitUntil parks until woken or until the clock reads at (ns since start); it
// reports whether it was woken before that.
func (w *WaitQ) WaitTimeout(reason string, d time.Duration) bool {
	if dead() {
		runtime.Goexit()
	}
	s := S
	t := cur
	w.q = append(w.q, t)
	timedOut := false
	ev := s.addEvent(s.now+int64(d), func() {
		for i, x := range w.q {
			if x == t {
				w.q = append(w.q[:i:i], w.q[i+1:]...)
				timedOut = true
				s.ready(t)
				return
			}
		}
	})
	s.park(reason)
	ev.dead = true
	return !timedOut
}

// WakeOne readies the first waiter, if any.
func (w *WaitQ) WakeOne() bool {
	for len(w.q) > 0 {
		t := w.q[0]
		w.q = w.q[1:]
		if alive(t) {
			S.ready(t)
			return true
		}
	}
	return false
}

// WakeAll readies every waiter.
func (w *WaitQ) WakeAll() {
	q := w.q
	w.q = nil
	for _, t := range q {
		if alive(t) {
			S.ready(t)
		}
	}
}

// Len is the number of live waiters.
func (w *WaitQ) Len() int {
	n := 0
	for _, t := range w.q {
		if alive(t) {
			n++
		}
	}
	return n
}

func fatal(msg string) {
	// what the Go runtime reports with a fatal error that cannot be recovered
	s := S
	t := cur
	t.state = stBlocked
	s.EndStk = msg
	s.finish(EndPanic, "fatal error: "+msg)
	s.await(t)
}

// Mutex is sync.Mutex. Unlocking readies the longest waiter, which competes with
// whoever else comes (Go's normal mode).
type Mutex struct {
	locked bool
	q      WaitQ
}

func (m *Mutex) Lock() {
	if dead() {
		return
	}
	Sync("lock", unsafe.Pointer(m))
	m.lock()
}

func (m *Mutex) lock() {
	for m.locked {
		m.q.Wait("mutex lock")
	}
	m.locked = true
	raceAcquire(m)
}

func (m *Mutex) TryLock() bool {
	if dead() {
		return true
	}
	Sync("trylock", unsafe.Pointer(m))
	if m.locked {
		return false
	}
	m.locked = true
	raceAcquire(m)
	return true
}

func (m *Mutex) Unlock() {
	if dead() {
		return
	}
	if !m.locked {
		fatal("sync: unlock of unlocked mutex")
	}
	raceRelease(m)
	m.locked = false
	m.q.WakeOne()
	Sync("unlock", unsafe.Pointer(m))
}

// RWMutex is sync.RWMutex: a writer that has announced itself holds off new
// readers, waits for the readers inside, and on leaving admits every reader that
// waited for it.
type RWMutex struct {
	w         bool // held by a writer (announced or inside)
	wq        WaitQ
	announced bool
	readers   int
	writerW   WaitQ // the announced writer waiting for readers to leave
	readerW   []*rwWaiter
}

type rwWaiter struct {
	t        *Task
	admitted bool
}

func (m *RWMutex) RLock() {
	if dead() {
		return
	}
	Sync("rlock", unsafe.Pointer(m))
	if m.announced {
		w := &rwWaiter{t: cur}
		m.readerW = append(m.readerW, w)
		S.park("rwmutex rlock")
	} else {
		m.readers++
	}
	raceAcquire(m)
}

func (m *RWMutex) TryRLock() bool {
	if dead() {
		return true
	}
	Sync("tryrlock", unsafe.Pointer(m))
	if m.announced {
		return false
	}
	m.readers++
	raceAcquire(m)
	return true
}

func (m *RWMutex) RUnlock() {
	if dead() {
		return
	}
	if m.readers <= 0 {
		fatal("sync: RUnlock of unlocked RWMutex")
	}
	raceRelease(&m.w)
	m.readers--
	if m.readers == 0 && m.announced {
		m.writerW.WakeOne()
	}
	Sync("runlock", unsafe.Pointer(m))
}

func (m *RWMutex) Lock() {
	if dead() {
		return
	}
	Sync("wlock", unsafe.Pointer(m))
	for m.w {
		m.wq.Wait("rwmutex lock")
	}
	m.w = true
	m.announced = true
	for m.readers > 0 {
		m.writerW.Wait("rwmutex lock")
	}
	raceAcquire(m)
	raceAcquire(&m.w)
}

func (m *RWMutex) TryLock() bool {
	if dead() {
		return true
	}
	Sync("trywlock", unsafe.Pointer(m))
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	m.announced = true
	raceAcquire(m)
	raceAcquire(&m.w)
	return true
}

func (m *RWMutex) Unlock() {
	if dead() {
		return
	}
	if !m.w || !m.announced {
		fatal("sync: Unlock of unlocked RWMutex")
	}
	raceRelease(m)
	m.announced = false
	for _, r := range m.readerW {
		if alive(r.t) {
			m.readers++
			r.admitted = true
			S.ready(r.t)
		}
	}
	m.readerW = nil
	m.w = false
	m.wq.WakeOne()
	Sync("wunlock", unsafe.Pointer(m))
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker on the read side.
func (m *RWMutex) RLocker() interface {
	Lock()
	Unlock()
} {
	return (*rlocker)(m)
}

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	n int
	q WaitQ
}

func (w *WaitGroup) Add(d int) {
	if dead() {
		return
	}
	Sync("wg.add", unsafe.Pointer(w))
	raceRelease(w)
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		w.q.WakeAll()
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if dead() {
		return
	}
	Sync("wg.wait", unsafe.Pointer(w))
	if w.n > 0 {
		w.q.Wait("waitgroup wait")
		if w.n != 0 && !dead() {
			panic("sync: WaitGroup is reused before previous Wait has returned")
		}
	}
	raceAcquire(w)
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Once is sync.Once.
type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	if dead() {
		if !o.done {
			o.done = true
			f()
		}
		return
	}
	Sync("once", unsafe.Pointer(o))
	if o.done {
		raceAcquire(o)
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { raceRelease(o); o.done = true }()
		f()
	}
}

// Locker mirrors sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// Cond is sync.Cond.
type Cond struct {
	L Locker
	q []*condWaiter
}

type condWaiter struct {
	t             *Task
	woken, parked bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	if dead() {
		runtime.Goexit()
	}
	// enlist before unlocking so that a signal in between is not lost
	w := &condWaiter{t: cur}
	c.q = append(c.q, w)
	c.L.Unlock()
	if !w.woken {
		w.parked = true
		S.park("cond wait")
	}
	raceAcquire(c)
	c.L.Lock()
}

func (c *Cond) Signal() {
	if dead() {
		return
	}
	Sync("signal", unsafe.Pointer(c))
	raceRelease(c)
	c.wakeOne()
}

func (c *Cond) wakeOne() {
	for len(c.q) > 0 {
		w := c.q[0]
		c.q = c.q[1:]
		if alive(w.t) {
			w.woken = true
			if w.parked {
				S.ready(w.t)
			}
			return
		}
	}
}

func (c *Cond) Broadcast() {
	if dead() {
		return
	}
	Sync("broadcast", unsafe.Pointer(c))
	raceRelease(c)
	for len(c.q) > 0 {
		c.wakeOne()
	}
}
