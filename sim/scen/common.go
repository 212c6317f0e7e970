// Package scen holds one scenario per property: workload, faults and oracle.
package scen

import (
	"fmt"
	"time"

	"simverif/harness"
	"simverif/rt"
)

// slack is how late, in virtual time, something that nothing keeps waiting may
// be: code under test pays at most 2 µs per synchronisation step. Timing is
// judged only in runs without stalls.
const slack = 250 * time.Millisecond

// spans of an operation
type span struct {
	start, end uint64 // rt.Seq at call and return; end 0: not returned
	at, till   time.Duration
}

func (s *span) begin() { s.start = rt.Seq(); s.at = rt.Elapsed() }
func (s *span) done()  { s.end = rt.Seq(); s.till = rt.Elapsed() }

// group runs tasks and waits for them.
type group struct {
	g  *rt.Group
	wg rt.WaitGroup
}

func newGroup(name string) *group { return &group{g: rt.NewGroup(name)} }

func (g *group) run(name string, f func()) {
	g.wg.Add(1)
	rt.GoIn(g.g, name, func() { defer g.wg.Done(); f() })
}

func (g *group) wait() { g.wg.Wait() }

func stalls(c *rt.Config) bool { return c.StallProb > 0 }

func pickDur(r *harness.Run, ds ...time.Duration) time.Duration { return ds[r.W(len(ds))] }

func clip(s string) string {
	if len(s) > 80 {
		return fmt.Sprintf("%s...(%d bytes)", s[:60], len(s))
	}
	return s
}
