// Package harness runs scenarios under the simulator: seeds, verdicts, shrinking,
// replay and evidence.
package harness

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/BTBurke/monny/simall"

	"simverif/rt"
	"simverif/shim/os"
)

// Prop is one property's check.
type Prop struct {
	ID    string
	Title string
	// Rule says how cases are made and what makes one count as non-trivial.
	Rule string
	// Plan draws the run's configuration; it runs before the simulation.
	Plan func(r *Run) rt.Config
	// Body is the run's root task.
	Body func(r *Run)
	// Real and Stub name the components that ran real code and those that were simulated.
	Real, Stub []string
	// Quick and Thorough are numbers of runs.
	Quick, Thorough int
}

// Props is the registry.
var Props = map[string]*Prop{}

// Register adds a property.
func Register(p *Prop) { Props[p.ID] = p }

// Violation is a property found broken.
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"message"`
}

// Run is one simulated execution of a scenario.
type Run struct {
	P      *Prop
	Sim    *rt.Sim
	Ch     *rt.Choices
	Viol   *Violation
	Weight int // >0: the run was non-trivial
	Desc   []string
	// SUTDead: deadlock, panic etc. are judged by these
	HangClass string
	Data      map[string]interface{}
}

// W draws a workload choice in [0,n).
func (r *Run) W(n int) int { return r.Ch.W(n) }

// Chance is true once in n draws (never when replayed as 0).
func (r *Run) Chance(n int) bool { return r.Ch.W(n) == n-1 && n > 1 }

// Pick draws one of xs.
func Pick[T any](r *Run, xs ...T) T { return xs[r.W(len(xs))] }

// Between draws an integer in [a,b].
func (r *Run) Between(a, b int) int { return a + r.W(b-a+1) }

// Note describes the case for the evidence and the replay file.
func (r *Run) Note(f string, a ...interface{}) {
	if len(r.Desc) < 60 {
		r.Desc = append(r.Desc, fmt.Sprintf(f, a...))
	}
}

// Nontrivial marks the run as having exercised the property.
func (r *Run) Nontrivial() { r.Weight++ }

// Fail reports a violation; inside the simulation it ends the run.
func (r *Run) Fail(class, f string, a ...interface{}) {
	if r.Viol == nil {
		r.Viol = &Violation{class, fmt.Sprintf(f, a...)}
		rt.Logf("VIOLATION %s: %s", class, r.Viol.Msg)
	}
	if rt.S != nil {
		rt.Abort(class)
	}
}

// Check fails unless ok.
func (r *Run) Check(ok bool, class, f string, a ...interface{}) {
	if !ok {
		r.Fail(class, f, a...)
	}
}

// Sched draws scheduling knobs common to all scenarios.
func (r *Run) Sched() rt.Config {
	c := rt.Config{}
	c.Strategy = Pick(r, rt.FIFO, rt.RandomWalk, rt.PCT, rt.LIFO, rt.RandomWalk)
	c.PSync = Pick(r, 0, 0.02, 0.1, 0.3, 0.5)
	c.PStmt = Pick(r, 0, 0.01, 0.05, 0.15, 0.3)
	c.PCTDepth = r.W(5)
	c.StepCost = Pick(r, 0, 200*time.Nanosecond, 2*time.Microsecond)
	return c
}

// Stalls adds slow and stalled tasks.
func (r *Run) Stalls(c *rt.Config) {
	c.StallProb = Pick(r, 0, 0, 0.002, 0.01)
	c.StallMax = Pick(r, time.Millisecond, 50*time.Millisecond, 2*time.Second)
}

var digits = regexp.MustCompile(`0x[0-9a-f]+|[0-9]+`)

// normalise makes a failure message independent of addresses and numbers.
func normalise(s string) string {
	s = digits.ReplaceAllString(s, "N")
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 90 {
		s = s[:90]
	}
	return s
}

// Outcome of one execution.
type Outcome struct {
	Viol     *Violation
	Hash     uint64
	Inter    uint64
	End      rt.EndKind
	Steps    uint64
	Limit    uint64 // on the steps
	Syncs    uint64
	Switches uint64
	Tasks    int
	Virtual  time.Duration
	Stats    map[string]int
	Trace    []string
	Desc     []string
	Weight   int
	Rec      rt.Record
	Err      string // the machinery itself failed
}

// Execute performs one run.
func Execute(p *Prop, ch *rt.Choices, trace bool) (out *Outcome) {
	r := &Run{P: p, Ch: ch, Data: map[string]interface{}{}}
	simall.Reset()
	os.Reset([]string{"monny"})
	cfg := p.Plan(r)
	cfg.SelectRand = true
	s := rt.New(cfg, ch)
	s.TraceOn = trace
	s.Cfg.TraceLimit = 4000
	r.Sim = s
	s.Run(func() { p.Body(r) })
	out = &Outcome{Hash: s.Hash(), Inter: s.Interleaving(), End: s.End, Steps: s.Steps(), Limit: s.Cfg.MaxSteps, Syncs: s.Syncs(), Switches: s.Switches(),
		Tasks: s.Tasks(), Virtual: s.Virtual(), Stats: s.Stats, Trace: s.Trace, Desc: r.Desc, Weight: r.Weight, Rec: ch.Rec}
	if r.Viol == nil {
		switch s.End {
		case rt.EndPanic:
			if strings.HasPrefix(s.EndMsg, "rt: ") || strings.HasPrefix(s.EndMsg, "harness:") || scenarioPanic(s.EndStk) {
				out.Err = s.EndMsg + " @ " + s.EndStk
			}
			r.Viol = &Violation{"panic: " + normalise(s.EndMsg), s.EndMsg + " in " + s.EndTask + " at " + s.EndStk}
		case rt.EndDeadlock:
			r.Viol = &Violation{"hang", "nothing can ever run again; blocked: " + s.EndMsg}
		case rt.EndTimeLimit:
			r.Viol = &Violation{"hang", "no end within the simulated horizon of " + s.Cfg.MaxTime.String() + "; blocked: " + s.EndMsg}
		case rt.EndStepLimit:
			r.Viol = &Violation{"livelock", "no end within " + fmt.Sprint(s.Cfg.MaxSteps) + " steps; " + s.EndMsg}
		}
	}
	out.Viol = r.Viol
	return out
}

// scenarioPanic recognises a panic raised by scenario code itself.
func scenarioPanic(stk string) bool {
	i := strings.Index(stk, " < ")
	top := stk
	if i >= 0 {
		top = stk[:i]
	}
	return strings.HasPrefix(top, "simverif/scen.") || strings.HasPrefix(top, "simverif/harness.")
}

// SortedKeys of a string map.
func SortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
