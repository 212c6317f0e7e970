package harness

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"time"

	"simverif/rt"
)

// WorkerResult is what one worker process reports.
type WorkerResult struct {
	Runs        int               `json:"runs"`
	Nontrivial  int               `json:"nontrivial"`
	Inter       []uint64          `json:"inter"` // interleaving hashes of non-trivial runs
	Hash        uint64            `json:"hash"`  // over all runs, in order
	Steps       uint64            `json:"steps"`
	Syncs       uint64            `json:"syncs"`
	Switches    uint64            `json:"switches"`
	Virtual     float64           `json:"virtual_s"`
	Stats       map[string]int    `json:"stats"`
	RunsWith    map[string]int    `json:"runs_with"` // runs in which the fault or probe occurred
	DetChecked  int               `json:"det_checked"`
	DetMismatch int               `json:"det_mismatch"`
	DetSeed     uint64            `json:"det_seed"`
	Found       []Found           `json:"found"`
	Known       map[string]int    `json:"known"`
	Samples     []Sample          `json:"samples"`
	Err         string            `json:"err"`
	Classes     map[string]int    `json:"classes"`
	Ends        map[string]int    `json:"ends"`
	Extra       map[string]string `json:"extra"`
}

// Found is a minimised violation.
type Found struct {
	Replay
	Tries int `json:"shrink_tries"`
}

// Replay is the content of a replay file.
type Replay struct {
	Property string     `json:"property"`
	Class    string     `json:"class"`
	Message  string     `json:"message"`
	Seed     uint64     `json:"seed"`
	Index    int        `json:"index"`
	BaseSeed uint64     `json:"base_seed"`
	Hash     string     `json:"hash"`
	Desc     []string   `json:"case"`
	Record   rt.Record  `json:"record"`
	Trace    []string   `json:"trace"`
	Original *rt.Record `json:"original_record,omitempty"`
	Sizes    string     `json:"sizes"`
}

// Sample is a run written out for the evidence.
type Sample struct {
	Seed  uint64   `json:"seed"`
	Case  []string `json:"case"`
	Steps uint64   `json:"steps"`
	Sim   string   `json:"simulated"`
	Tail  []string `json:"trace_excerpt"`
}

// WorkerOpts configure a worker.
type WorkerOpts struct {
	Prop       string
	Seed       uint64
	From, Step int
	N          int
	MaxWall    time.Duration
	DetEvery   int
	ShrinkTime time.Duration
	Known      []Known
	MaxFound   int
}

// memLog (SIM_MEMLOG set) reports the runs that need much memory or come near their step limit.
var memLog = os.Getenv("SIM_MEMLOG") != ""

// Work runs seeds From, From+Step, ... below N.
func Work(o WorkerOpts) *WorkerResult {
	p := Props[o.Prop]
	res := &WorkerResult{Stats: map[string]int{}, RunsWith: map[string]int{}, Known: map[string]int{}, Classes: map[string]int{}, Ends: map[string]int{}}
	if p == nil {
		res.Err = "no such property " + o.Prop
		return res
	}
	start := time.Now()
	inter := map[uint64]bool{}
	seen := map[string]bool{}
	var top uint64
	for i := o.From; i < o.N; i += o.Step {
		if o.MaxWall > 0 && time.Since(start) > o.MaxWall {
			break
		}
		seed := rt.Mix(o.Seed, uint64(i))
		var before runtime.MemStats
		if memLog {
			runtime.ReadMemStats(&before)
		}
		out := Execute(p, rt.NewChoices(seed), false)
		if memLog {
			if out.Steps > top {
				top = out.Steps
				if top > out.Limit/5 {
					fmt.Fprintf(os.Stderr, "steps: %s index %d: %d of %d\n", o.Prop, i, out.Steps, out.Limit)
				}
			}
			var after runtime.MemStats
			runtime.ReadMemStats(&after)
			if after.HeapSys > before.HeapSys+(64<<20) || after.TotalAlloc > before.TotalAlloc+(1<<30) {
				fmt.Fprintf(os.Stderr, "memory: %s index %d: %d MB allocated, heap %d -> %d MB\n", o.Prop, i, (after.TotalAlloc-before.TotalAlloc)>>20, before.HeapSys>>20, after.HeapSys>>20)
			}
		}
		if out.Err != "" {
			res.Err = fmt.Sprintf("seed %d: %s", seed, out.Err)
			return res
		}
		res.Runs++
		res.Steps += out.Steps
		res.Syncs += out.Syncs
		res.Switches += out.Switches
		res.Virtual += out.Virtual.Seconds()
		res.Hash = rt.Mix(res.Hash, out.Hash)
		res.Ends[out.End.String()]++
		for k, v := range out.Stats {
			res.Stats[k] += v
			res.RunsWith[k]++
		}
		if out.Weight > 0 {
			res.Nontrivial++
			if !inter[out.Inter] {
				inter[out.Inter] = true
				res.Inter = append(res.Inter, out.Inter)
			}
		}
		if o.DetEvery > 0 && (i/o.Step)%o.DetEvery == 0 {
			again := Execute(p, rt.NewChoices(seed), false)
			rep := Execute(p, rt.Replay(out.Rec), false)
			res.DetChecked++
			if again.Hash != out.Hash || rep.Hash != out.Hash {
				res.DetMismatch++
				res.DetSeed = seed
			}
		}
		if len(res.Samples) < 2 && out.Weight > 0 && out.Viol == nil {
			t := Execute(p, rt.NewChoices(seed), true)
			tail := t.Trace
			if len(tail) > 40 {
				tail = tail[:40]
			}
			res.Samples = append(res.Samples, Sample{Seed: seed, Case: t.Desc, Steps: t.Steps, Sim: t.Virtual.String(), Tail: tail})
		}
		if out.Viol != nil {
			if k := MatchKnown(o.Known, o.Prop, out.Viol); k != nil {
				res.Known[k.ID]++
				continue
			}
			res.Classes[out.Viol.Class]++
			if seen[out.Viol.Class] || len(res.Found) >= o.MaxFound {
				continue
			}
			seen[out.Viol.Class] = true
			f := Minimise(p, out, seed, o.ShrinkTime)
			f.Index = i
			f.BaseSeed = o.Seed
			res.Found = append(res.Found, f)
			if len(res.Found) >= o.MaxFound {
				break
			}
		}
	}
	return res
}

// Minimise shrinks a failing run and describes the result.
func Minimise(p *Prop, out *Outcome, seed uint64, budget time.Duration) Found {
	rec := out.Rec.Clone()
	w0, f0, s0 := rec.Size()
	best, tries := Shrink(p, rec, out.Viol.Class, seed, budget)
	o := Execute(p, rt.Replay(best), true)
	if o.Viol == nil || o.Viol.Class != out.Viol.Class {
		best = rec
		o = Execute(p, rt.Replay(best), true)
	}
	w1, f1, s1 := best.Size()
	f := Found{Tries: tries}
	f.Property = p.ID
	f.Seed = seed
	f.Record = best
	f.Sizes = fmt.Sprintf("workload choices %d->%d, faults %d->%d, schedule decisions %d->%d", w0, w1, f0, f1, s0, s1)
	f.Hash = fmt.Sprintf("%016x", o.Hash)
	f.Desc = o.Desc
	f.Trace = o.Trace
	if o.Viol != nil {
		f.Class, f.Message = o.Viol.Class, o.Viol.Msg
	} else {
		f.Class, f.Message = out.Viol.Class, out.Viol.Msg+" (NOT REPRODUCED ON REPLAY)"
	}
	return f
}

// WorkerMain runs a worker with options from the environment and prints the result.
func WorkerMain(arg string) {
	runtime.GOMAXPROCS(1)
	var o WorkerOpts
	if err := json.Unmarshal([]byte(arg), &o); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	res := Work(o)
	b, err := json.Marshal(res)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	os.Stdout.Write(b)
}
