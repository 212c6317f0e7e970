// Package rt is the deterministic simulator: a seeded scheduler that runs one
// task at a time, a virtual clock, and the primitives (channels, select, locks,
// timers) that the rewritten code under test uses in place of the Go runtime's.
//
// Every task is a real goroutine, but exactly one of them is ever runnable: it
// owns the baton, and gives it away only inside this package. Everything that
// could differ between two executions is drawn from three recorded choice
// streams (see choice.go), so an execution is a pure function of those streams
// and of the code.
package rt

import (
	"container/heap"
	"fmt"
	"hash/fnv"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	"unsafe"
)

// S is the simulation in progress, nil outside one.
var S *Sim

// cur is the task holding the baton.
var cur *Task

type taskState uint8

const (
	stNew taskState = iota
	stRunnable
	stRunning
	stBlocked
	stDone
)

// Group tells code under test (which dies as one process) from its simulated
// environment.
type Group struct {
	Name string
	Dead bool
	// SUT tasks are subject to stall injection and statement-level preemption.
	SUT bool
}

// Task is one simulated thread.
type Task struct {
	ID     int
	Name   string
	Group  *Group
	wake   chan struct{}
	state  taskState
	reason string
	killed bool
	prio   int64
	// set by the waker before making the task runnable
	gone   chan struct{}
	since  uint64 // step at which it last got the baton
	seqno  uint64 // incremented each time it is unparked, so stale wakers are recognised
	daemon bool
	HB     raceToken
}

type event struct {
	at   int64
	seq  uint64
	fire func()
	dead bool
	idx  int
}

type eventHeap []*event

func (h eventHeap) Len() int { return len(h) }
func (h eventHeap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	return h[i].seq < h[j].seq
}
func (h eventHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *eventHeap) Push(x interface{}) { e := x.(*event); e.idx = len(*h); *h = append(*h, e) }
func (h *eventHeap) Pop() interface{} {
	o := *h
	e := o[len(o)-1]
	*h = o[:len(o)-1]
	e.idx = -1
	return e
}

// EndKind says how a run ended.
type EndKind int

const (
	EndRootDone  EndKind = iota // the scenario's root body returned
	EndDeadlock                 // no task can ever run again and the root has not returned
	EndStepLimit                // too many steps
	EndTimeLimit                // virtual time beyond the horizon
	EndPanic                    // an unrecovered panic in a task
	EndAbort                    // the scenario ended the run itself (violation found)
)

func (k EndKind) String() string {
	return [...]string{"done", "deadlock", "steplimit", "timelimit", "panic", "abort"}[k]
}

// Config of one run.
type Config struct {
	MaxSteps   uint64
	MaxTime    time.Duration
	StepCost   time.Duration // virtual time per synchronisation step of code under test
	PStmt      float64       // preemption probability at a statement of code under test
	PSync      float64       // preemption probability at a synchronisation operation
	Strategy   Strategy
	PCTDepth   int
	StallProb  float64 // probability of a stall at a synchronisation step
	StallMax   time.Duration
	TraceLimit int
	SelectRand bool // select picks among ready cases by choice instead of first
}

// Strategy chooses who runs when the running task stops.
type Strategy int

const (
	FIFO Strategy = iota
	LIFO
	RandomWalk
	PCT
	numStrategies
)

// Sim is one simulated execution.
type Sim struct {
	Cfg       Config
	Ch        *Choices
	now       int64 // ns of virtual monotonic time since start
	wallOff   int64 // wall clock = base + now + wallOff
	seq       uint64
	events    eventHeap
	tasks     []*Task
	runq      []*Task
	nextID    int
	steps     uint64
	syncs     uint64
	nextPre   uint64 // step index of the next statement preemption
	ended     bool
	End       EndKind
	EndMsg    string
	EndTask   string
	EndStk    string
	endCh     chan struct{}
	dead      bool
	root      *Task
	h         uint64 // rolling hash of scheduling decisions and trace
	ih        uint64 // rolling hash of sync operations order (interleaving)
	objs      map[unsafe.Pointer]int
	chans     map[unsafe.Pointer]*chanState
	tickers   int                      // running tickers
	mapWriter map[unsafe.Pointer]*Task // tasks in the middle of writing to a map
	Trace     []string
	TraceOn   bool
	Stats     map[string]int
	switchN   uint64
	onEnd     []func()
	Env       *Group
	Local     map[string]interface{} // per-run storage for shims and scenarios
	pctNext   []uint64
	pctLow    int64
	settlers  []*Task
}

// Base of the virtual wall clock.
var Base = time.Date(2020, 3, 1, 12, 0, 0, 0, time.UTC).UnixNano()

// New prepares a simulation.
func New(cfg Config, ch *Choices) *Sim {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 400000
	}
	if cfg.MaxTime == 0 {
		cfg.MaxTime = 30 * 24 * time.Hour
	}
	s := &Sim{Cfg: cfg, Ch: ch, endCh: make(chan struct{}, 1), Stats: map[string]int{},
		objs: map[unsafe.Pointer]int{}, chans: map[unsafe.Pointer]*chanState{}, mapWriter: map[unsafe.Pointer]*Task{}, Local: map[string]interface{}{}}
	s.Env = &Group{Name: "env"}
	return s
}

// Run executes root to completion under the simulator and reaps every task.
func (s *Sim) Run(root func()) {
	S = s
	s.planPreempt()
	s.root = s.spawn("root", s.Env, root)
	s.runq = s.runq[:0]
	s.root.state = stRunning
	cur = s.root
	s.root.wake <- struct{}{}
	<-s.endCh
	s.reap()
	S = nil
	cur = nil
}

func (s *Sim) reap() {
	s.dead = true
	for i := 0; i < len(s.tasks); i++ { // tasks may not grow: spawn is a no-op when dead
		t := s.tasks[i]
		if t.state == stDone {
			continue
		}
		t.killed = true
		cur = t
		t.wake <- struct{}{}
		<-t.gone
	}
}

func (s *Sim) finish(k EndKind, msg string) {
	if s.ended {
		return
	}
	s.ended = true
	s.End = k
	s.EndMsg = msg
	if cur != nil {
		s.EndTask = cur.Name
	}
	s.endCh <- struct{}{}
}

// spawn creates a task; it does not run until scheduled.
func (s *Sim) spawn(name string, g *Group, f func()) *Task {
	if s.dead {
		return nil
	}
	s.nextID++
	t := &Task{ID: s.nextID, Name: name, Group: g, wake: make(chan struct{}, 1), gone: make(chan struct{})}
	t.prio = s.Ch.prio(t.ID)
	s.tasks = append(s.tasks, t)
	s.ready(t)
	raceForked(t)
	go func() {
		normal := false
		defer func() {
			if !normal {
				r := recover()
				if r != nil && !s.dead {
					s.EndStk = trimStack(string(debug.Stack()))
					s.taskEnd(t)
					s.finish(EndPanic, fmt.Sprintf("%v", r))
					close(t.gone)
					return
				}
			}
			if s.dead {
				t.state = stDone
				close(t.gone)
				return
			}
			s.exitTask(t)
		}()
		raceBegin()
		<-t.wake
		raceEnd(t)
		if t.killed {
			runtime.Goexit()
		}
		f()
		normal = true
	}()
	return t
}

func (s *Sim) taskEnd(t *Task) {
	t.state = stDone
}

// exitTask hands the baton on when a task's body has returned.
func (s *Sim) exitTask(t *Task) {
	raceDone(t)
	t.state = stDone
	close(t.gone)
	s.note(t, "exit", nil)
	if t == s.root {
		s.finish(EndRootDone, "")
		return
	}
	if s.ended {
		return
	}
	s.dispatch()
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	out := []string{}
	seen := false
	for i := 0; i+1 < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime.gopanic") {
			out = out[:0]
			seen = true
			continue
		}
		if strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.Contains(l, "debug.Stack") || strings.HasPrefix(l, "goroutine ") {
			continue
		}
		f := l
		if k := strings.LastIndex(f, "("); k > 0 {
			f = f[:k]
		}
		out = append(out, f)
		if len(out) > 8 && seen {
			break
		}
	}
	return strings.Join(out, " < ")
}

// --- baton passing -------------------------------------------------------

// ready puts t on the run queue.
func (s *Sim) ready(t *Task) {
	if t.state == stDone || t.killed {
		return
	}
	if t.state == stRunnable {
		panic("rt: task woken twice")
	}
	t.state = stRunnable
	t.seqno++
	s.runq = append(s.runq, t)
}

func (s *Sim) compactRunq() {
	j := 0
	for _, t := range s.runq {
		if t.state == stRunnable && !t.killed && !t.Group.Dead {
			s.runq[j] = t
			j++
		}
	}
	s.runq = s.runq[:j]
}

// pick selects and removes the next task to run from a non-empty run queue.
func (s *Sim) pick() *Task {
	n := len(s.runq)
	i := 0
	if n > 1 {
		i = s.Ch.Sched(n, func() int { return s.strategyPick(n) })
	}
	t := s.runq[i]
	copy(s.runq[i:], s.runq[i+1:])
	s.runq = s.runq[:n-1]
	return t
}

func (s *Sim) strategyPick(n int) int {
	switch s.Cfg.Strategy {
	case LIFO:
		if s.Ch.srand()%8 == 0 {
			return 0
		}
		return n - 1
	case RandomWalk:
		return int(s.Ch.srand() % uint64(n))
	case PCT:
		best := 0
		for i := 1; i < n; i++ {
			if s.runq[i].prio > s.runq[best].prio {
				best = i
			}
		}
		return best
	}
	return 0
}

// dispatch gives the baton to the next task; called by a task that is giving it
// up. It returns after the baton has been handed over (the caller must then park
// or exit) or, with nobody to run, after ending the simulation.
func (s *Sim) dispatch() {
	for {
		s.fireDue()
		s.compactRunq()
		if len(s.runq) > 0 {
			break
		}
		if len(s.settlers) > 0 {
			t := s.settlers[0]
			s.settlers = s.settlers[1:]
			s.ready(t)
			continue
		}
		if !s.advance() {
			if !s.ended {
				s.finish(EndDeadlock, s.describeBlocked())
			}
			return
		}
	}
	t := s.pick()
	s.switchTo(t)
}

func (s *Sim) switchTo(t *Task) {
	t.state = stRunning
	t.since = s.steps
	cur = t
	s.switchN++
	s.mix(uint64(t.ID)<<8 | 1)
	raceBegin()
	t.wake <- struct{}{}
	raceEnd(nil)
}

// advance moves the virtual clock to the next event. False when there is none.
func (s *Sim) advance() bool {
	for len(s.events) > 0 && s.events[0].dead {
		heap.Pop(&s.events)
	}
	if len(s.events) == 0 {
		return false
	}
	if s.events[0].at > s.now {
		s.now = s.events[0].at
	}
	if time.Duration(s.now) > s.Cfg.MaxTime {
		s.finish(EndTimeLimit, s.describeBlocked())
		return false
	}
	s.fireDue()
	return true
}

func (s *Sim) fireDue() {
	for len(s.events) > 0 {
		e := s.events[0]
		if e.dead {
			heap.Pop(&s.events)
			continue
		}
		if e.at > s.now {
			return
		}
		heap.Pop(&s.events)
		e.dead = true
		e.fire()
	}
}

// park blocks the running task until it is made ready by someone else.
func (s *Sim) park(reason string) {
	t := cur
	if t.killed || s.dead {
		runtime.Goexit()
	}
	t.state = stBlocked
	t.reason = reason
	s.dispatch()
	s.await(t)
}

func (s *Sim) await(t *Task) {
	raceBegin()
	<-t.wake
	raceEnd(t)
	if t.killed {
		runtime.Goexit()
	}
}

// yieldTo makes the running task runnable again and lets another run first.
func (s *Sim) yield() {
	t := cur
	s.compactRunq()
	if len(s.runq) == 0 {
		return
	}
	next := s.pick()
	s.ready(t)
	s.switchTo(next)
	s.await(t)
}

// Blocked lists the tasks that wait for something, itself not among them.
func Blocked() string { return S.describeBlocked() }

func (s *Sim) describeBlocked() string {
	var out []string
	for _, t := range s.tasks {
		if t.state == stBlocked && !t.Group.Dead && !t.daemon {
			out = append(out, fmt.Sprintf("%s#%d:%s", t.Name, t.ID, t.reason))
		}
	}
	sort.Strings(out)
	if len(out) > 24 {
		out = append(out[:24], "...")
	}
	return strings.Join(out, ", ")
}

// --- scheduling points ----------------------------------------------------

func (s *Sim) planPreempt() {
	if s.Ch.Replaying() {
		s.nextPre = s.Ch.nextStmt(0)
		return
	}
	s.nextPre = s.steps + s.Ch.geometric(s.Cfg.PStmt)
}

func inSim() bool { return S != nil && cur != nil }

// Dead reports whether the calling code runs in a task being torn down, in which
// case every primitive is a no-op.
func dead() bool { return S == nil || S.dead || cur == nil || cur.killed }

// Y is a statement-level scheduling point, inserted by the rewriter before
// statements of the code under test.
func Y() {
	s := S
	if s == nil || s.dead {
		return
	}
	s.steps++
	if s.steps >= s.nextPre {
		s.stmtPreempt()
	}
	if s.steps >= s.Cfg.MaxSteps {
		s.overrun()
	}
}

// V returns v after a scheduling point: it separates the read and the write of a
// read-modify-write assignment to shared memory.
func V[T any](v T) T {
	Y()
	return v
}

func (s *Sim) overrun() {
	if cur.killed {
		runtime.Goexit()
	}
	t := cur
	s.finish(EndStepLimit, fmt.Sprintf("running %s#%d; blocked: %s", t.Name, t.ID, s.describeBlocked()))
	s.await(t)
}

func (s *Sim) stmtPreempt() {
	if s.ended || cur.killed {
		return
	}
	replay := s.Ch.Replaying()
	do := true
	if replay {
		do = s.Ch.takeStmt(s.steps)
		s.nextPre = s.Ch.nextStmt(s.steps)
	} else {
		s.nextPre = s.steps + s.Ch.geometric(s.Cfg.PStmt)
	}
	if !do || !cur.Group.SUT {
		return
	}
	s.compactRunq()
	if len(s.runq) == 0 {
		return
	}
	if !replay {
		s.Ch.recordStmt(s.steps)
	}
	s.Stats["preempt.stmt"]++
	s.yield()
}

// Sync is a synchronisation-level scheduling point: the operation kind and the
// object it is on go into the interleaving measure.
func Sync(kind string, obj unsafe.Pointer) {
	s := S
	if s == nil || s.dead || cur == nil {
		return
	}
	if cur.killed {
		runtime.Goexit()
	}
	s.syncPoint(kind, obj)
}

func (s *Sim) syncPoint(kind string, obj unsafe.Pointer) {
	s.steps++
	s.syncs++
	if s.steps >= s.Cfg.MaxSteps {
		s.overrun()
	}
	s.note(cur, kind, obj)
	if s.Cfg.StepCost > 0 && cur.Group.SUT {
		s.now += int64(s.Cfg.StepCost)
		s.fireDue()
	}
	t := cur
	if t.Group.SUT && s.Cfg.StallProb > 0 {
		if d := s.Ch.Fault("stall", s.Cfg.StallProb, 64); d > 0 {
			s.Stats["fault.stall"]++
			dur := time.Duration(int64(s.Cfg.StallMax) * int64(d) / 64)
			s.sleep(dur, "stall")
			return
		}
	}
	if s.Cfg.Strategy == PCT {
		s.pctStep()
	}
	// fairness: a task that has run very long without blocking gives way
	force := s.steps-t.since > 4000
	if force {
		s.compactRunq()
		if len(s.runq) > 0 {
			s.yield()
			return
		}
		t.since = s.steps
	}
	s.compactRunq() // counted the same whether decisions are drawn or read back
	if len(s.runq) > 0 && s.Ch.SyncPreempt(s.wantSyncPreempt) {
		s.Stats["preempt.sync"]++
		s.yield()
	}
}

func (s *Sim) wantSyncPreempt() bool {
	if s.Cfg.Strategy == PCT {
		for _, t := range s.runq {
			if t.prio > cur.prio {
				return true
			}
		}
		return false
	}
	return s.Cfg.PSync > 0 && s.Ch.sfloat() < s.Cfg.PSync
}

// pctStep lowers the running task's priority at randomly chosen sync steps.
func (s *Sim) pctStep() {
	if s.pctNext == nil {
		if s.Ch.Replaying() {
			s.pctNext = []uint64{}
			return
		}
		for i := 0; i < s.Cfg.PCTDepth; i++ {
			s.pctNext = append(s.pctNext, 1+s.Ch.srand()%400)
		}
		if s.pctNext == nil {
			s.pctNext = []uint64{}
		}
	}
	for _, p := range s.pctNext {
		if p == s.syncs {
			s.pctLow--
			cur.prio = s.pctLow
		}
	}
}

func (s *Sim) mix(v uint64) {
	s.h = (s.h ^ v) * 1099511628211
	s.h ^= s.h >> 29
}

func (s *Sim) objOrd(p unsafe.Pointer) int {
	if p == nil {
		return 0
	}
	o, ok := s.objs[p]
	if !ok {
		o = len(s.objs) + 1
		s.objs[p] = o
	}
	return o
}

var kindHash = map[string]uint64{}

func hashKind(k string) uint64 {
	v, ok := kindHash[k]
	if !ok {
		f := fnv.New64a()
		f.Write([]byte(k))
		v = f.Sum64()
		kindHash[k] = v
	}
	return v
}

// note folds a synchronisation operation into the interleaving hash.
func (s *Sim) note(t *Task, kind string, obj unsafe.Pointer) {
	v := uint64(t.ID)*0x9e3779b97f4a7c15 ^ hashKind(kind) ^ uint64(s.objOrd(obj))<<40
	s.ih = (s.ih ^ v) * 1099511628211
	s.ih ^= s.ih >> 31
	s.mix(v)
}

// Logf appends to the run's event log. It draws nothing and reads no real clock.
func Logf(format string, args ...interface{}) {
	s := S
	if s == nil || s.dead {
		return
	}
	line := fmt.Sprintf(format, args...)
	f := fnv.New64a()
	f.Write([]byte(line))
	s.mix(f.Sum64() ^ uint64(s.now))
	if s.TraceOn {
		name := "-"
		if cur != nil {
			name = fmt.Sprintf("%s#%d", cur.Name, cur.ID)
		}
		if s.Cfg.TraceLimit == 0 || len(s.Trace) < s.Cfg.TraceLimit {
			s.Trace = append(s.Trace, fmt.Sprintf("%12v  %-22s %s", time.Duration(s.now), name, line))
		}
	}
}

// Hash identifies the execution (determinism check); Interleaving identifies the
// order of synchronisation operations.
func (s *Sim) Hash() uint64         { return s.h }
func (s *Sim) Interleaving() uint64 { return s.ih }
func (s *Sim) Steps() uint64        { return s.steps }
func (s *Sim) Syncs() uint64        { return s.syncs }
func (s *Sim) Switches() uint64     { return s.switchN }
func (s *Sim) Tasks() int           { return s.nextID }

// Seq is the global order of events of the run: it grows at every call.
func Seq() uint64 { S.seq++; return S.seq }

// Elapsed is virtual time since the start of the run.
func Elapsed() time.Duration {
	if S == nil {
		return 0
	}
	return time.Duration(S.now)
}

// --- API for tasks ---------------------------------------------------------

// Go starts f as a new task of the calling task's group (the rewritten `go`).
func Go(f func()) {
	if !inSim() {
		panic("rt: goroutine started outside a simulation")
	}
	if dead() {
		return
	}
	s := S
	s.note(cur, "go", nil)
	s.steps++
	s.spawn(cur.Name+"/g", cur.Group, f)
	s.compactRunq()
	if cur.Group.SUT && len(s.runq) > 0 && s.Ch.SyncPreempt(s.wantSyncPreempt) {
		s.yield()
	}
}

// GoIn starts f as a task named name in group g.
func GoIn(g *Group, name string, f func()) *Task {
	if dead() {
		return nil
	}
	return S.spawn(name, g, f)
}

// GoEnv starts an environment task.
func GoEnv(name string, f func()) *Task { return GoIn(S.Env, name, f) }

// SetDaemon marks the running task as one whose being blocked forever is normal.
func SetDaemon() { cur.daemon = true }

// Cur returns the running task.
func Cur() *Task { return cur }

// NewGroup makes a group of SUT tasks.
func NewGroup(name string) *Group { return &Group{Name: name, SUT: true} }

// Kill ends every task of the group at once: none of them runs again.
func (g *Group) Kill() { g.Dead = true }

// KillSelf parks the running task forever (its group is dead).
func KillSelf() {
	if dead() {
		runtime.Goexit()
	}
	S.park("killed")
}

// Abort ends the run from inside a scenario; it does not return.
func Abort(msg string) {
	if dead() {
		runtime.Goexit()
	}
	t := cur
	t.state = stBlocked
	S.finish(EndAbort, msg)
	S.await(t)
}

// GoschedPoint lets others run.
func GoschedPoint() {
	if dead() {
		return
	}
	Sync("gosched", nil)
	if dead() {
		return
	}
	S.compactRunq()
	if len(S.runq) > 0 {
		S.yield()
	}
}

// BlockForever is the rewritten `select {}`.
func BlockForever() {
	if dead() {
		runtime.Goexit()
	}
	S.park("forever")
}

// Goexit of the running task.
func Goexit() { runtime.Goexit() }

// Stat counts something for the evidence.
func Stat(name string) {
	if S != nil && !S.dead {
		S.Stats[name]++
	}
}

// Settle parks the caller until no other task can run without the clock moving.
// For scenario code.
func Settle() {
	if dead() {
		runtime.Goexit()
	}
	s := S
	s.fireDue()
	s.settlers = append(s.settlers, cur)
	s.park("settle")
}

// Virtual is the simulated time the run covered.
func (s *Sim) Virtual() time.Duration { return time.Duration(s.now) }
