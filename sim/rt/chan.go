package rt

import (
	"runtime"
	"unsafe"
)

// Channels keep their native type and storage. A native non-blocking operation
// does the buffering and the closed-channel bookkeeping (only one task runs at a
// time, so it is atomic); blocking and the hand-over between a waiting sender and
// a receiver are done here, on queues of simulated tasks.

// node is one blocked operation, possibly waiting on several channels (select).
type node struct {
	t      *Task
	fired  bool
	idx    int
	val    interface{}
	ok     bool
	closed bool
}

type entry struct {
	n    *node
	idx  int
	val  interface{} // value to send
	push func()      // native send of val (buffered channels)
}

type chanState struct {
	recvq []*entry
	sendq []*entry
}

func alive(t *Task) bool { return t.state != stDone && !t.killed && !t.Group.Dead }

func (s *Sim) cs(p unsafe.Pointer) *chanState {
	c := s.chans[p]
	if c == nil {
		c = &chanState{}
		s.chans[p] = c
	}
	return c
}

// first pops the first entry still waiting.
func first(q *[]*entry) *entry {
	for len(*q) > 0 {
		e := (*q)[0]
		*q = (*q)[1:]
		if !e.n.fired && alive(e.n.t) {
			return e
		}
	}
	return nil
}

// peek reports whether an entry is still waiting.
func peek(q *[]*entry) bool {
	for len(*q) > 0 {
		e := (*q)[0]
		if !e.n.fired && alive(e.n.t) {
			return true
		}
		*q = (*q)[1:]
	}
	return false
}

func (s *Sim) fire(e *entry, val interface{}, ok bool, closed bool) {
	n := e.n
	n.fired = true
	n.idx = e.idx
	n.val = val
	n.ok = ok
	n.closed = closed
	s.ready(n.t)
}

func chanPtr[T any](c chan T) unsafe.Pointer    { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }
func rchanPtr[T any](c <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }
func schanPtr[T any](c chan<- T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

// tryRecv receives without blocking; done is false if it would block.
func tryRecv[T any](c <-chan T) (v T, ok bool, done bool) {
	s := S
	p := rchanPtr(c)
	if p == nil {
		return
	}
	select {
	case v, ok = <-c:
		// room in the buffer now: the first waiting sender completes
		if st := s.chans[p]; st != nil {
			if e := first(&st.sendq); e != nil {
				e.push()
				raceChanSend(p, e.n.t)
				s.fire(e, nil, true, false)
			}
		}
		raceAcquire(p)
		return v, ok, true
	default:
	}
	if st := s.chans[p]; st != nil {
		if e := first(&st.sendq); e != nil {
			raceHandoff(e.n.t)
			x, _ := e.val.(T)
			s.fire(e, nil, true, false)
			return x, true, true
		}
	}
	return
}

// trySend sends without blocking. It panics like Go on a closed channel.
func trySend[T any](c chan<- T, v T) bool {
	s := S
	p := schanPtr(c)
	if p == nil {
		return false
	}
	if st := s.chans[p]; st != nil {
		if e := first(&st.recvq); e != nil {
			raceHandoff(e.n.t)
			s.fire(e, v, true, false)
			return true
		}
	}
	raceRelease(p)
	select {
	case c <- v:
		return true
	default:
		return false
	}
}

// Recv2 is the rewritten v, ok := <-c.
func Recv2[T any](c <-chan T) (T, bool) {
	var zero T
	if dead() {
		deadBlock()
		return zero, false
	}
	p := rchanPtr(c)
	Sync("recv", p)
	if p == nil {
		BlockForever()
	}
	if v, ok, done := tryRecv(c); done {
		return v, ok
	}
	n := &node{t: cur}
	st := S.cs(p)
	st.recvq = append(st.recvq, &entry{n: n})
	S.park("chan receive")
	v, _ := n.val.(T)
	if n.closed {
		raceAcquire(p)
		return zero, false
	}
	return v, n.ok
}

// Recv is the rewritten <-c.
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

// SendTo is the rewritten c <- v, as SendTo(c)(v).
func SendTo[T any](c chan<- T) func(T) {
	return func(v T) { Send(c, v) }
}

// Send sends v on c.
func Send[T any](c chan<- T, v T) {
	if dead() {
		deadBlock()
		return
	}
	p := schanPtr(c)
	Sync("send", p)
	if p == nil {
		BlockForever()
	}
	if trySend(c, v) {
		return
	}
	n := &node{t: cur}
	st := S.cs(p)
	st.sendq = append(st.sendq, &entry{n: n, val: v, push: func() { c <- v }})
	S.park("chan send")
	if n.closed {
		c <- v // panics: send on closed channel
	}
}

// Close is the rewritten close(c).
func Close[T any](c chan<- T) {
	if dead() {
		return
	}
	p := schanPtr(c)
	Sync("close", p)
	raceRelease(p)
	close(c)
	s := S
	st := s.chans[p]
	if st == nil {
		return
	}
	for _, e := range st.recvq {
		if !e.n.fired && alive(e.n.t) {
			s.fire(e, nil, false, true)
		}
	}
	for _, e := range st.sendq {
		if !e.n.fired && alive(e.n.t) {
			s.fire(e, nil, false, true)
		}
	}
	delete(s.chans, p)
}

// sendNB is a non-blocking send by the simulator itself (timers).
func sendNB[T any](c chan<- T, v T) bool {
	return trySend(c, v)
}

// Case is one arm of a select.
type Case interface {
	try() bool
	enqueue(n *node, idx int)
	complete(n *node)
	ptr() unsafe.Pointer
	ready() bool
}

// RecvCase holds the received value after Select.
type RecvCaseT[T any] struct {
	c  <-chan T
	V  T
	OK bool
}

// RecvCase makes a receive arm.
func RecvCase[T any](c <-chan T) *RecvCaseT[T] { return &RecvCaseT[T]{c: c} }

func (r *RecvCaseT[T]) ptr() unsafe.Pointer { return rchanPtr(r.c) }
func (r *RecvCaseT[T]) try() bool {
	v, ok, done := tryRecv(r.c)
	if done {
		r.V, r.OK = v, ok
	}
	return done
}
func (r *RecvCaseT[T]) enqueue(n *node, idx int) {
	p := rchanPtr(r.c)
	if p == nil {
		return
	}
	st := S.cs(p)
	st.recvq = append(st.recvq, &entry{n: n, idx: idx})
}
func (r *RecvCaseT[T]) complete(n *node) {
	if n.closed {
		raceAcquire(rchanPtr(r.c))
		return
	}
	v, _ := n.val.(T)
	r.V, r.OK = v, n.ok
}
func (r *RecvCaseT[T]) Val() T          { return r.V }
func (r *RecvCaseT[T]) Get2() (T, bool) { return r.V, r.OK }
func (r *RecvCaseT[T]) ready() bool {
	p := rchanPtr(r.c)
	if p == nil {
		return false
	}
	if len(r.c) > 0 {
		return true
	}
	if st := S.chans[p]; st != nil && peek(&st.sendq) {
		return true
	}
	return chanClosed(p)
}

// SendCaseT is a send arm.
type SendCaseT[T any] struct {
	c chan<- T
	v T
}

// SendCase makes a send arm, as SendCase(c)(v).
func SendCase[T any](c chan<- T) func(T) *SendCaseT[T] {
	return func(v T) *SendCaseT[T] { return &SendCaseT[T]{c: c, v: v} }
}

func (r *SendCaseT[T]) ptr() unsafe.Pointer { return schanPtr(r.c) }
func (r *SendCaseT[T]) try() bool           { return trySend(r.c, r.v) }
func (r *SendCaseT[T]) enqueue(n *node, idx int) {
	p := schanPtr(r.c)
	if p == nil {
		return
	}
	c, v := r.c, r.v
	st := S.cs(p)
	st.sendq = append(st.sendq, &entry{n: n, idx: idx, val: v, push: func() { c <- v }})
}
func (r *SendCaseT[T]) complete(n *node) {
	if n.closed {
		r.c <- r.v // panics: send on closed channel
	}
}
func (r *SendCaseT[T]) ready() bool {
	p := schanPtr(r.c)
	if p == nil {
		return false
	}
	if len(r.c) < cap(r.c) || chanClosed(p) {
		return true
	}
	if st := S.chans[p]; st != nil && peek(&st.recvq) {
		return true
	}
	return false
}

// closedOff is the byte offset of the closed flag, found by SelfCheck.
var closedOff uintptr

func chanClosed(p unsafe.Pointer) bool {
	return *(*uint32)(unsafe.Add(p, closedOff)) != 0
}

func init() {
	// locate the closed flag by comparing a channel before and after close
	a := make(chan int)
	p := chanPtr(a)
	var before [16]uint32
	for i := range before {
		before[i] = *(*uint32)(unsafe.Add(p, uintptr(i)*4))
	}
	close(a)
	off := -1
	for i := range before {
		now := *(*uint32)(unsafe.Add(p, uintptr(i)*4))
		if before[i] == 0 && now == 1 {
			if off >= 0 {
				panic("rt: cannot locate the closed flag")
			}
			off = i * 4
		}
	}
	if off < 0 {
		panic("rt: cannot locate the closed flag")
	}
	closedOff = uintptr(off)
	b := make(chan string, 3)
	if chanClosed(chanPtr(b)) {
		panic("rt: closed flag check")
	}
	close(b)
	if !chanClosed(chanPtr(b)) {
		panic("rt: closed flag check")
	}
}

// Select is the rewritten select statement: it returns the index of the arm taken,
// -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	if dead() {
		deadBlock()
		return -1
	}
	s := S
	var p unsafe.Pointer
	if len(cases) > 0 {
		p = cases[0].ptr()
	}
	Sync("select", p)
	var rdy []int
	for i, c := range cases {
		if c.ready() {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) > 0 {
		i := rdy[pickN(len(rdy))]
		s.mix(uint64(i) + 77)
		if !cases[i].try() {
			panic("rt: ready select arm did not proceed")
		}
		return i
	}
	if hasDefault {
		return -1
	}
	n := &node{t: cur}
	for i, c := range cases {
		c.enqueue(n, i)
	}
	s.park("select")
	cases[n.idx].complete(n)
	return n.idx
}

// deadBlock ends the unwinding of a task being torn down when it reaches an
// operation that would block.
func deadBlock() {
	if S == nil {
		panic("rt: channel operation outside a simulation")
	}
	runtime.Goexit()
}

// TrySend is a non-blocking send by the environment.
func TrySend[T any](c chan<- T, v T) bool {
	if dead() {
		return false
	}
	return trySend(c, v)
}

// TryRecv is a non-blocking receive by the environment.
func TryRecv[T any](c <-chan T) (v T, ok bool, done bool) {
	if dead() {
		return
	}
	return tryRecv(c)
}

// MadeChan registers a channel at its creation, so that it can be put in a
// reproducible order with others.
func MadeChan[C ~chan T, T any](c C) C {
	if S != nil && !S.dead {
		S.objOrd(chanPtr((chan T)(c)))
	}
	return c
}

// SyncAtomic is the scheduling point of an atomic operation.
func SyncAtomic(p unsafe.Pointer) { Sync("atomic", p) }

// Entropy draws 62 bits from the plan.
func Entropy() uint64 {
	return uint64(S.Ch.W(1<<31-1))<<31 | uint64(S.Ch.W(1<<31-1))
}

// Zero clears a variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}
