package rt

import (
	"math"
	"sort"
)

// Choices is the single source of nondeterminism of a run. It has three parts:
//
//	W  the workload plan: a plain sequence of small integers
//	F  the faults: per fault kind, which of its opportunities fire and how hard
//	S  the schedule: preemptions and the picks of the next task
//
// In generating mode each is drawn from its own PRNG and recorded; in replaying
// mode it is read back, and whatever is missing is the default (0: simplest
// operation, no fault, no preemption, first in line). A run is a pure function of
// the record, which is what makes a shrunk record replayable.
type Choices struct {
	replay bool
	wr     prng
	fr     prng
	sr     prng
	Rec    Record
	wpos   int
	picks  int
	syncq  int
	fpos   map[string]int
	stmtI  int
	prios  map[int]int64
	freeS  bool // replaying W and F but generating S (used while shrinking)
	noF    bool
	fOn    bool
}

// Record is the serialisable content of Choices.
type Record struct {
	W    []int                  `json:"w"`
	F    map[string]map[int]int `json:"f"`
	Pick map[int]int            `json:"pick"`
	Sync []int                  `json:"sync"`
	Stmt []uint64               `json:"stmt"`
}

// Size counts recorded non-default decisions.
func (r *Record) Size() (w, f, s int) {
	for _, v := range r.W {
		if v != 0 {
			w++
		}
	}
	for _, m := range r.F {
		f += len(m)
	}
	return len(r.W), f, len(r.Pick) + len(r.Sync) + len(r.Stmt)
}

// Clone copies a record.
func (r *Record) Clone() Record {
	c := Record{W: append([]int{}, r.W...), F: map[string]map[int]int{}, Pick: map[int]int{}, Sync: append([]int{}, r.Sync...), Stmt: append([]uint64{}, r.Stmt...)}
	for k, m := range r.F {
		mm := map[int]int{}
		for i, v := range m {
			mm[i] = v
		}
		c.F[k] = mm
	}
	for k, v := range r.Pick {
		c.Pick[k] = v
	}
	return c
}

type prng struct{ s uint64 }

func (p *prng) next() uint64 {
	p.s += 0x9e3779b97f4a7c15
	z := p.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (p *prng) float() float64 { return float64(p.next()>>11) / (1 << 53) }

// Mix derives a new seed.
func Mix(a, b uint64) uint64 {
	p := prng{a ^ b*0xd6e8feb86659fd93}
	p.next()
	return p.next()
}

// NewChoices generates every stream from seed.
func NewChoices(seed uint64) *Choices {
	c := &Choices{wr: prng{Mix(seed, 1)}, fr: prng{Mix(seed, 2)}, sr: prng{Mix(seed, 3)}, fOn: true}
	c.init()
	return c
}

func (c *Choices) init() {
	c.fpos = map[string]int{}
	c.prios = map[int]int64{}
	if c.Rec.F == nil {
		c.Rec.F = map[string]map[int]int{}
	}
	if c.Rec.Pick == nil {
		c.Rec.Pick = map[int]int{}
	}
}

// Replay reads every stream back from rec.
func Replay(rec Record) *Choices {
	c := &Choices{replay: true, Rec: rec.Clone(), fOn: true}
	c.init()
	return c
}

// ReplayWF reads workload and faults from rec and generates a schedule from seed.
func ReplayWF(rec Record, seed uint64) *Choices {
	r := rec.Clone()
	r.Pick = nil
	r.Sync = nil
	r.Stmt = nil
	c := &Choices{replay: true, freeS: true, Rec: r, sr: prng{Mix(seed, 3)}, fOn: true}
	c.init()
	return c
}

// Replaying reports whether the schedule is read back.
func (c *Choices) Replaying() bool { return c.replay && !c.freeS }

// W draws a workload choice in [0,n).
func (c *Choices) W(n int) int {
	if n <= 1 {
		return 0
	}
	i := c.wpos
	c.wpos++
	if c.replay {
		if i < len(c.Rec.W) {
			v := c.Rec.W[i]
			if v >= n {
				v = v % n
			}
			return v
		}
		return 0
	}
	v := int(c.wr.next() % uint64(n))
	c.Rec.W = append(c.Rec.W, v)
	return v
}

// Fault draws a fault choice: 0 (no fault) or 1..n, with probability p of a fault.
func (c *Choices) Fault(kind string, p float64, n int) int {
	if !c.fOn {
		return 0
	}
	i := c.fpos[kind]
	c.fpos[kind] = i + 1
	if c.replay {
		if v, ok := c.Rec.F[kind][i]; ok {
			if v > n {
				v = 1 + (v-1)%n
			}
			return v
		}
		return 0
	}
	if p <= 0 || c.fr.float() >= p {
		return 0
	}
	v := 1 + int(c.fr.next()%uint64(n))
	m := c.Rec.F[kind]
	if m == nil {
		m = map[int]int{}
		c.Rec.F[kind] = m
	}
	m[i] = v
	return v
}

// Sched draws which of n runnable tasks runs next.
func (c *Choices) Sched(n int, gen func() int) int {
	i := c.picks
	c.picks++
	if c.replay && !c.freeS {
		v := c.Rec.Pick[i]
		if v >= n {
			v = v % n
		}
		return v
	}
	v := gen()
	if v != 0 {
		c.Rec.Pick[i] = v
	}
	return v
}

// SyncPreempt decides whether to preempt at a synchronisation operation.
func (c *Choices) SyncPreempt(gen func() bool) bool {
	i := c.syncq
	c.syncq++
	if c.replay && !c.freeS {
		k := sort.SearchInts(c.Rec.Sync, i)
		return k < len(c.Rec.Sync) && c.Rec.Sync[k] == i
	}
	if gen() {
		c.Rec.Sync = append(c.Rec.Sync, i)
		return true
	}
	return false
}

func (c *Choices) srand() uint64   { return c.sr.next() }
func (c *Choices) sfloat() float64 { return c.sr.float() }

func (c *Choices) geometric(p float64) uint64 {
	if p <= 0 {
		return math.MaxUint64 / 2
	}
	u := c.sr.float()
	if u <= 0 {
		u = 1e-12
	}
	k := math.Log(u) / math.Log(1-p)
	if k > 1e12 {
		k = 1e12
	}
	return 1 + uint64(k)
}

func (c *Choices) prio(id int) int64 {
	if c.replay && !c.freeS {
		return 0
	}
	return int64(c.sr.next()>>1) % 1000003
}

func (c *Choices) nextStmt(after uint64) uint64 {
	for c.stmtI < len(c.Rec.Stmt) && c.Rec.Stmt[c.stmtI] <= after {
		c.stmtI++
	}
	if c.stmtI < len(c.Rec.Stmt) {
		return c.Rec.Stmt[c.stmtI]
	}
	return math.MaxUint64 / 2
}

func (c *Choices) takeStmt(step uint64) bool {
	return c.stmtI < len(c.Rec.Stmt) && c.Rec.Stmt[c.stmtI] == step
}

func (c *Choices) recordStmt(step uint64) { c.Rec.Stmt = append(c.Rec.Stmt, step) }

// --- scenario-facing helpers ------------------------------------------------

// W draws a workload choice in [0,n) from the run's plan.
func W(n int) int { return S.Ch.W(n) }

// Fault draws a fault of the given kind.
func Fault(kind string, p float64, n int) int {
	if dead() {
		return 0
	}
	v := S.Ch.Fault(kind, p, n)
	if v > 0 {
		S.Stats["fault."+kind]++
	}
	return v
}

// FaultsOff stops injecting faults for the rest of the run.
func FaultsOff() { S.Ch.fOn = false }

// FaultsOn resumes it.
func FaultsOn() { S.Ch.fOn = true }

// SRand draws schedule randomness recorded as a pick among n (select, wake-ups).
func pickN(n int) int {
	if n <= 1 {
		return 0
	}
	return S.Ch.Sched(n, func() int { return int(S.Ch.srand() % uint64(n)) })
}
