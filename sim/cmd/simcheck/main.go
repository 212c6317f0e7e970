// Command simcheck decides one property: it runs many seeded simulations in
// parallel worker processes and reports violations, evidence and replays.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"simverif/harness"
	"simverif/rt"
	_ "simverif/scen"
)

func die(f string, a ...interface{}) {
	fmt.Printf("simcheck: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	worker := flag.String("worker", "", "")
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	seedS := flag.String("seed", "1", "base seed")
	dir := flag.String("dir", "/verif", "verification directory")
	replay := flag.String("replay", "", "replay a file")
	n := flag.Int("n", 0, "number of runs (0: by tier)")
	j := flag.Int("j", 0, "workers")
	list := flag.Bool("list", false, "list properties")
	one := flag.Int64("one", -1, "run one index and print its trace")
	maxFound := flag.Int("max", 1, "violations per worker")
	detSeed := flag.Uint64("detseed", 0, "run a seed -n times, and its recording, and print the first difference")
	wall := flag.Duration("wall", 0, "wall-clock cap")
	det := flag.Int("det", 0, "determinism check every so many runs")
	flag.DurationVar(&shrinkTime, "shrink", 25*time.Second, "time for minimising a violation")
	flag.Parse()
	if *worker != "" {
		if f := os.Getenv("SIM_PROFILE"); f != "" {
			if w, err := os.Create(fmt.Sprintf("%s.%d", f, os.Getpid())); err == nil {
				pprof.StartCPUProfile(w)
				defer pprof.StopCPUProfile()
			}
		}
		harness.WorkerMain(*worker)
		return
	}
	if *list {
		for _, id := range harness.SortedKeys(harness.Props) {
			fmt.Println(id, harness.Props[id].Title)
		}
		return
	}
	if *replay != "" {
		os.Exit(doReplay(*replay))
	}
	p := harness.Props[*prop]
	if p == nil {
		die("no such property %q", *prop)
	}
	seed, err := strconv.ParseUint(*seedS, 10, 64)
	if err != nil {
		seed = 1
		for _, c := range *seedS {
			seed = rt.Mix(seed, uint64(c))
		}
	}
	if *detSeed != 0 {
		runtime.GOMAXPROCS(1)
		a := harness.Execute(p, rt.NewChoices(*detSeed), true)
		for i := 0; i < *n; i++ {
			if i%2 == 1 {
				harness.Execute(p, rt.NewChoices(rt.Mix(*detSeed, uint64(i))), false)
			}
			b := harness.Execute(p, rt.NewChoices(*detSeed), true)
			if i%3 == 2 {
				b = harness.Execute(p, rt.Replay(a.Rec), true)
			}
			if a.Hash == b.Hash {
				continue
			}
			fmt.Printf("repetition %d differs: steps %d %d syncs %d %d switches %d %d\n", i, a.Steps, b.Steps, a.Syncs, b.Syncs, a.Switches, b.Switches)
			for k := range a.Trace {
				if k >= len(b.Trace) || a.Trace[k] != b.Trace[k] {
					fmt.Println(strings.Join(a.Trace[max(0, k-30):min(len(a.Trace), k+5)], "\n"))
					fmt.Println("---")
					fmt.Println(strings.Join(b.Trace[max(0, k-5):min(len(b.Trace), k+5)], "\n"))
					break
				}
			}
			return
		}
		fmt.Println("no difference")
		return
	}
	if *one >= 0 {
		runtime.GOMAXPROCS(1)
		s := rt.Mix(seed, uint64(*one))
		o := harness.Execute(p, rt.NewChoices(s), true)
		fmt.Println(strings.Join(o.Desc, "\n"))
		fmt.Println(strings.Join(o.Trace, "\n"))
		fmt.Printf("end=%v steps=%d syncs=%d switches=%d tasks=%d virtual=%v weight=%d viol=%v err=%s\nstats=%v\n", o.End, o.Steps, o.Syncs, o.Switches, o.Tasks, o.Virtual, o.Weight, o.Viol, o.Err, o.Stats)
		return
	}
	os.Exit(check(p, *tier, seed, *dir, *n, *j, *maxFound, *wall, *det))
}

func doReplay(path string) int {
	runtime.GOMAXPROCS(1)
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	var r harness.Replay
	if err := json.Unmarshal(b, &r); err != nil {
		die("%v", err)
	}
	p := harness.Props[r.Property]
	if p == nil {
		die("no such property %q", r.Property)
	}
	o := harness.Execute(p, rt.Replay(r.Record), true)
	for _, d := range o.Desc {
		fmt.Println("case:", d)
	}
	fmt.Println(strings.Join(o.Trace, "\n"))
	if o.Viol == nil {
		fmt.Printf("NOT REPRODUCED: the run ends with %v\n", o.End)
		return 0
	}
	fmt.Printf("REPRODUCED property=%s class=%q hash=%016x\n%s\n", r.Property, o.Viol.Class, o.Hash, o.Viol.Msg)
	if o.Viol.Class != r.Class {
		fmt.Printf("but the file says class %q\n", r.Class)
		return 3
	}
	return 1
}

var shrinkTime time.Duration

func check(p *harness.Prop, tier string, seed uint64, dir string, n, j, maxFound int, wall time.Duration, det int) int {
	start := time.Now()
	if n == 0 {
		n = p.Quick
		if tier == "thorough" {
			n = p.Thorough
		}
	}
	if wall == 0 {
		wall = 60 * time.Second
		if tier == "thorough" {
			wall = 600 * time.Second
		}
	}
	if j == 0 {
		j = runtime.NumCPU()
		if j > 8 {
			j = 8
		}
	}
	if det == 0 {
		det = 25
	}
	known, err := harness.LoadKnown(filepath.Join(dir, "known-findings.jsonl"))
	if err != nil {
		die("known findings: %v", err)
	}
	self, _ := os.Executable()
	results := make([]*harness.WorkerResult, j)
	errs := make([]string, j)
	var wg sync.WaitGroup
	for i := 0; i < j; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			o := harness.WorkerOpts{Prop: p.ID, Seed: seed, From: i, Step: j, N: n, MaxWall: wall, DetEvery: det,
				ShrinkTime: shrinkTime, Known: known, MaxFound: maxFound}
			arg, _ := json.Marshal(o)
			cmd := exec.Command(self, "-worker", string(arg))
			cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOGC=200", "GOMEMLIMIT=3GiB")
			var out, eb bytes.Buffer
			cmd.Stdout, cmd.Stderr = &out, &eb
			if os.Getenv("SIM_MEMLOG") != "" {
				cmd.Stderr = os.Stderr
			}
			if err := cmd.Start(); err != nil {
				errs[i] = err.Error()
				return
			}
			done := make(chan error, 1)
			go func() { done <- cmd.Wait() }()
			select {
			case err := <-done:
				if err != nil {
					e := eb.String()
					if len(e) > 3000 {
						e = e[:3000]
					}
					errs[i] = fmt.Sprintf("worker %d: %v\n%s", i, err, e)
					return
				}
			case <-time.After(wall + 120*time.Second):
				cmd.Process.Kill()
				errs[i] = fmt.Sprintf("worker %d stuck", i)
				return
			}
			r := &harness.WorkerResult{}
			if err := json.Unmarshal(out.Bytes(), r); err != nil {
				errs[i] = fmt.Sprintf("worker %d output: %v", i, err)
				return
			}
			if r.Err != "" {
				errs[i] = fmt.Sprintf("worker %d: %s", i, r.Err)
				return
			}
			results[i] = r
		}(i)
	}
	wg.Wait()
	for _, e := range errs {
		if e != "" {
			die("%s", e)
		}
	}
	// aggregate
	agg := &harness.WorkerResult{Stats: map[string]int{}, RunsWith: map[string]int{}, Known: map[string]int{}, Classes: map[string]int{}, Ends: map[string]int{}}
	inter := map[uint64]bool{}
	var found []harness.Found
	for _, r := range results {
		agg.Runs += r.Runs
		agg.Nontrivial += r.Nontrivial
		agg.Steps += r.Steps
		agg.Syncs += r.Syncs
		agg.Switches += r.Switches
		agg.Virtual += r.Virtual
		agg.DetChecked += r.DetChecked
		agg.DetMismatch += r.DetMismatch
		if r.DetMismatch > 0 {
			agg.DetSeed = r.DetSeed
		}
		for k, v := range r.Stats {
			agg.Stats[k] += v
		}
		for k, v := range r.RunsWith {
			agg.RunsWith[k] += v
		}
		for k, v := range r.Known {
			agg.Known[k] += v
		}
		for k, v := range r.Classes {
			agg.Classes[k] += v
		}
		for k, v := range r.Ends {
			agg.Ends[k] += v
		}
		for _, h := range r.Inter {
			inter[h] = true
		}
		if len(agg.Samples) < 3 {
			agg.Samples = append(agg.Samples, r.Samples...)
		}
		found = append(found, r.Found...)
	}
	if len(agg.Samples) > 3 {
		agg.Samples = agg.Samples[:3]
	}
	if agg.DetMismatch > 0 {
		die("%d of %d repeated runs differ (seed %d): the simulation is not deterministic", agg.DetMismatch, agg.DetChecked, agg.DetSeed)
	}
	if len(found) == 0 && (agg.Runs == 0 || agg.Nontrivial == 0) {
		die("nothing was explored (%d runs, %d non-trivial)", agg.Runs, agg.Nontrivial)
	}
	rc := 0
	var lines []string
	for _, k := range known {
		if k.Property == p.ID && k.Status == "known" {
			fmt.Printf("KNOWN-FINDING: property=%s %s (met in %d runs)\n", p.ID, k.What, agg.Known[k.ID])
		}
	}
	if len(found) > 0 {
		sort.SliceStable(found, func(a, b int) bool { return len(found[a].Record.W) < len(found[b].Record.W) })
		seen := map[string]bool{}
		os.MkdirAll(filepath.Join(dir, "build", "replay"), 0o755)
		for i := range found {
			f := &found[i]
			if seen[f.Class] {
				continue
			}
			seen[f.Class] = true
			path := filepath.Join(dir, "build", "replay", fmt.Sprintf("%s-%016x-%d.json", p.ID, f.Seed, len(lines)))
			b, _ := json.MarshalIndent(f.Replay, "", " ")
			if err := os.WriteFile(path, b, 0o644); err != nil {
				die("%v", err)
			}
			// it must fail the same way in a fresh process
			cmd := exec.Command(self, "-replay", path)
			cmd.Env = append(os.Environ(), "GOMAXPROCS=1")
			out, _ := cmd.CombinedOutput()
			if cmd.ProcessState.ExitCode() != 1 || !strings.Contains(string(out), "hash="+f.Hash) {
				tail := string(out)
				if len(tail) > 1500 {
					tail = tail[len(tail)-1500:]
				}
				die("replay of %s does not reproduce %q: %s", path, f.Class, tail)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			fmt.Printf("  class: %s\n  %s\n  seed %d, %s\n", f.Class, f.Message, f.Seed, f.Sizes)
			for _, d := range f.Desc {
				fmt.Println("  case:", d)
			}
			lines = append(lines, f.Class)
			rc = 1
		}
	}
	el := time.Since(start).Seconds()
	faults := map[string]map[string]int{}
	probes := map[string]map[string]int{}
	other := map[string]int{}
	for _, k := range harness.SortedKeys(agg.Stats) {
		e := map[string]int{"times": agg.Stats[k], "runs": agg.RunsWith[k]}
		switch {
		case strings.HasPrefix(k, "fault."):
			faults[k[6:]] = e
		case strings.HasPrefix(k, "probe."):
			probes[k[6:]] = e
		default:
			other[k] = agg.Stats[k]
		}
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration", "wall_s": el, "violations": len(lines),
		"coverage": map[string]interface{}{
			"evaluations":           agg.Runs,
			"distinct_nontrivial":   len(inter),
			"rule":                  p.Rule + " Distinct: a different order of synchronisation operations (task, operation, object) over the whole run, by hash.",
			"samples":               agg.Samples,
			"runs_per_hour":         int(float64(agg.Runs) / el * 3600),
			"simulated_seconds":     agg.Virtual,
			"nontrivial_runs":       agg.Nontrivial,
			"scheduler_steps":       agg.Steps,
			"sync_operations":       agg.Syncs,
			"context_switches":      agg.Switches,
			"run_endings":           agg.Ends,
			"faults_injected":       faults,
			"probes":                probes,
			"schedule_decisions":    other,
			"determinism_checked":   agg.DetChecked,
			"determinism_mismatch":  agg.DetMismatch,
			"workers":               j,
			"real_components":       p.Real,
			"simulated_components":  p.Stub,
			"known_findings_met":    agg.Known,
			"violation_class_count": agg.Classes,
		},
		"assumptions": []string{
			"the source translation in /verif/rewrite preserves the meaning of the code; memory is sequentially consistent between scheduling points",
			"pipes, processes, signals, timers and the network behave as the simulated machine in /verif/sim/world and /verif/sim/netsim does",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(dir, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
	fmt.Printf("%s: %d runs (%d non-trivial, %d distinct interleavings), %.0f simulated s, %.1f s wall, %d determinism pairs, violations %d\n",
		p.ID, agg.Runs, agg.Nontrivial, len(inter), agg.Virtual, el, agg.DetChecked, len(lines))
	return rc
}
