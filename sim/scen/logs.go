package scen

import (
	"bytes"
	"fmt"
	"sort"
	"time"

	"github.com/BTBurke/monny/pkg/eventbus"
	"github.com/BTBurke/monny/pkg/monny/proc"

	"simverif/harness"
	"simverif/rt"
	"simverif/shim/context"
	"simverif/shim/exec"
	"simverif/world"
)

// logGot is one log event received.
type logGot struct {
	ev   eventbus.Event
	le   proc.LogEvent
	at   time.Time
	seq  uint64
	late bool // decoded only at the end
}

type logSrc struct {
	name   string
	data   []byte
	lines  [][]byte
	active bool
	sink   *world.File // nil: switched off
}

func logBody(mode string) func(r *harness.Run) {
	return func(r *harness.Run) {
		w := world.New()
		quick := !stalls(&r.Sim.Cfg)
		w.PipeCap = []int{65536, 4096, 16, 1}[r.W(4)]
		w.ShortRead = []float64{0, 0.1, 0.6}[r.W(3)]
		switch r.W(5) {
		case 3:
			w.SinkErr = []float64{0.05, 0.3, 1}[r.W(3)]
		case 4:
			w.SinkShort = []float64{0.05, 0.3}[r.W(2)]
		}
		if r.W(4) == 3 {
			w.SinkSlow = []float64{0.1, 1}[r.W(2)]
			w.SinkStall = pickDur(r, time.Millisecond, 2*time.Second, 40*time.Second)
		}
		spec := &outSpec{lines: 14, long: r.W(4) == 3, binary: true, crlf: true, step: []time.Duration{0, 0, time.Millisecond, 300 * time.Millisecond}}
		if w.PipeCap < 4096 {
			spec.long = false
		}
		piped := r.W(5) == 4
		deep := mode == "L03" && quick && r.W(60) == 59 // long histories
		if deep {
			spec = &outSpec{lines: 1500, crlf: true}
			w.PipeCap = 65536
		}
		var cmd *exec.Cmd
		var srcs []*logSrc
		var opts []proc.LogProcessorOption
		histN := 30
		if r.W(2) == 1 {
			histN = r.Between(0, 20)
			if deep {
				histN = []int{999, 1001, 1100, 2000}[r.W(4)]
			}
			opts = append(opts, proc.WithHistory(histN))
		}
		var in *world.Pipe
		var inOps []world.Op
		var held time.Duration
		if piped {
			cmd = exec.Command("")
			in = w.PipeStdin(w.PipeCap)
			if r.W(3) == 2 {
				w.StdinErr = 0.1
			}
			d := genStream(r, "i", spec)
			srcs = []*logSrc{{name: "stdin", data: d, lines: linesOf(d), active: true, sink: w.Stdout}}
			inOps = genOps(r, [2][]byte{d, nil}, spec)
		} else {
			do, de := genStream(r, "o", spec), genStream(r, "e", spec)
			srcs = []*logSrc{{name: "stdout", data: do, lines: linesOf(do), active: true, sink: w.Stdout}, {name: "stderr", data: de, lines: linesOf(de), active: true, sink: w.Stderr}}
			ops := genOps(r, [2][]byte{do, de}, spec)
			if r.W(6) == 5 {
				held = pickDur(r, 10*time.Millisecond, 3*time.Second)
				ops = append(ops, world.Op{Kind: "hold", D: held})
			}
			code := r.W(3)
			w.Programs["prog"] = &world.Script{Ops: append(ops, world.Op{Kind: "exit", N: code})}
			cmd = exec.Command("prog")
		}
		opts = append(opts, proc.WithCommand(cmd))
		off := r.W(12)
		switch off {
		case 1:
			opts = append(opts, proc.WithNoOutput())
			for _, s := range srcs {
				s.sink = nil
			}
		case 2:
			opts = append(opts, proc.WithNoStdoutOutput())
			for _, s := range srcs {
				if s.sink == w.Stdout {
					s.sink = nil
				}
			}
		case 3:
			opts = append(opts, proc.WithNoStderrOutput())
			for _, s := range srcs {
				if s.sink == w.Stderr {
					s.sink = nil
				}
			}
		case 4, 5:
			// a source nobody reads must fit into its pipe
			if !piped {
				i := off - 4
				if len(srcs[i].data) <= w.PipeCap {
					srcs[i].active = false
					srcs[i].sink = nil
					if i == 0 {
						opts = append(opts, proc.WithNoStdoutInput())
					} else {
						opts = append(opts, proc.WithNoStderrInput())
					}
				}
			}
		}
		// options may come in any order
		if r.W(2) == 1 && len(opts) > 1 {
			opts[0], opts[len(opts)-1] = opts[len(opts)-1], opts[0]
		}
		r.Note("piped %v, option %d, history %d, sinks fail %.2f torn %.2f slow %.2f by %v, pipe %d, stdin errors %.2f", piped, off, histN, w.SinkErr, w.SinkShort, w.SinkSlow, w.SinkStall, w.PipeCap, w.StdinErr)
		for _, s := range srcs {
			r.Note("%s: %d lines in %d bytes", s.name, len(s.lines), len(s.data))
		}

		bus := eventbus.New()
		g := newGroup("client")
		c, _ := bus.Subscribe(proc.LogTopic)
		ec, _ := bus.Subscribe(eventbus.OnErrorTopic())
		var got []*logGot
		var errs []string
		lag := pickDur(r, 0, 0, time.Millisecond, time.Second)
		keep := r.W(2) == 1 // decode events only when everything is over
		g.run("subscriber", func() {
			for {
				ev, ok := rt.Recv2(c)
				if !ok {
					return
				}
				x := &logGot{ev: ev, at: rt.Now(), seq: rt.Seq(), late: keep}
				if !keep {
					if err := ev.Decode(&x.le); err != nil {
						r.Fail("log event does not decode", "%v", err)
					}
				}
				got = append(got, x)
				rt.Logf("log event received")
				if lag > 0 {
					rt.Sleep(lag)
				}
			}
		})
		g.run("errors", func() {
			for {
				ev, ok := rt.Recv2(ec)
				if !ok {
					return
				}
				errs = append(errs, ev.String())
				rt.Logf("error event %s", ev.String())
			}
		})
		if r.W(4) == 3 {
			bus.Subscribe(proc.LogTopic) // and one that never reads
		}

		short := r.W(3) == 2
		limit := 6 * time.Hour
		if short {
			limit = pickDur(r, time.Millisecond, 200*time.Millisecond, 1500*time.Millisecond, 20*time.Second)
		}
		cancels := r.W(3) == 2
		refused := false
		if !piped && r.W(24) == 23 {
			w.PipeErr = 0.5
		}
		var call span
		var werr error
		var triedAtWait map[string]int
		writes := [2][]world.Mark{}
		sd := newGroup("client")
		sd.run("user", func() {
			call.at = rt.Elapsed()
			var ctx context.Context
			if cancels {
				c, cancel := context.WithCancel(context.Background())
				ctx = c
				g.run("cancel", func() { rt.Sleep(limit); cancel() })
			} else {
				c, cancel := context.WithTimeout(context.Background(), limit)
				ctx = c
				defer cancel()
			}
			lp, err := proc.NewLogProcessor(bus, opts...)
			if refused = rt.S.Stats["fault.pipe-error"] > 0; refused {
				if err == nil {
					r.Fail("log processor created without its sources", "no pipe could be made and NewLogProcessor returned no error")
				}
				return
			}
			if err != nil {
				r.Fail("log processor not created", "%v", err)
			}
			if !piped {
				if err := cmd.Start(); err != nil {
					r.Fail("command not started", "%v", err)
				}
			}
			call.start = rt.Seq()
			werr = lp.Wait(ctx)
			call.done()
			rt.Logf("Wait: %v", werr)
			triedAtWait = map[string]int{}
			for _, s := range srcs {
				if s.sink != nil {
					triedAtWait[s.name] = len(s.sink.Tried)
					if !s.sink.Closed() {
						r.Fail("sink left open", "Wait returned %v and the sink of %s is open", werr, s.name)
					}
				}
			}
			if werr != nil && ctx.Err() == nil {
				r.Fail("wait gave up early", "Wait returned %v although its context has not ended", werr)
			}
			if werr == nil && mode == "L03" && rt.S.Stats["fault.stdin-error"] == 0 {
				logHistory(r, lp, srcs, histN)
			}
			if werr == nil {
				// everything has been published by now, so that who subscribes now receives nothing
				lc, _ := bus.Subscribe(proc.LogTopic)
				g.run("latecomer", func() {
					if ev, ok := rt.Recv2(lc); ok {
						r.Fail("wait returned early", "a subscriber that came after Wait had returned nil received %s", ev.String())
					}
				})
			}
			if !piped && werr == nil {
				cmd.Wait()
			}
		})
		var fed time.Duration // when the upstream had written everything
		if piped {
			n := 0
			rt.GoEnv("upstream", func() {
				for _, op := range inOps {
					if op.Kind == "sleep" {
						rt.Sleep(op.D)
						continue
					}
					begun := rt.Elapsed()
					k, _ := in.WriteAll(op.Data)
					n += k
					writes[0] = append(writes[0], world.Mark{End: n, Begun: begun, At: rt.Elapsed()})
				}
				in.CloseW()
				fed = rt.Elapsed()
			})
		}
		rt.Sleep(9 * time.Hour)
		rt.Settle()
		if refused {
			return
		}
		if call.end == 0 {
			r.Fail("wait never returned", "Wait has not returned")
		}
		if quick && call.till-call.at > limit+slack {
			r.Fail("wait returned late", "Wait took %v, its context ends after %v", call.till-call.at, limit)
		}
		stdinFailed := rt.S.Stats["fault.stdin-error"] > 0
		if !stdinFailed && werr != nil && quick && call.till-call.at < limit-slack {
			r.Fail("wait gave up early", "Wait returned %v after %v, its context ends after %v", werr, call.till-call.at, limit)
		}
		for _, x := range got {
			if x.late {
				if err := x.ev.Decode(&x.le); err != nil {
					r.Fail("log event does not decode", "%v", err)
				}
			}
			if x.ev.Type() != proc.LogLine {
				r.Fail("log event of another type", "%s", x.ev.Type())
			}
		}
		if !piped {
			p := w.Procs[0]
			if !p.Done {
				r.Fail("command stuck", "the command has not ended")
			}
			writes = p.WriteAt
			fed = p.DoneAt + held
		}
		// what is left to do when the sources have ended takes as long as the sinks do
		nl := 0
		for _, s := range srcs {
			nl += len(s.lines)
		}
		if due := fed + time.Duration(2*nl)*w.SinkStall + 2*slack; quick && !stdinFailed && due < limit && (werr != nil || call.till > due) {
			r.Fail("wait did not notice the end", "everything had been written by %v and processed by %v, but Wait returned %v at %v", fed, due, werr, call.till)
		}

		total, failures, afterClose := 0, 0, 0
		for i, s := range srcs {
			f := [2]*world.File{w.Stdout, w.Stderr}[i]
			if s.sink == nil {
				if len(f.Tried) > 0 {
					r.Fail("sink that was switched off written", "%s: %q", f.Nm, clip(string(f.Tried)))
				}
			} else {
				f = s.sink
			}
			failures += f.WriteErr
			afterClose += f.AfterCl
			want := echoOf(s.data)
			if !s.active {
				continue
			}
			total += len(s.lines)
			if s.sink == nil {
				continue
			}
			if mode == "L01" {
				whole := !stdinFailed && werr == nil
				if whole && !bytes.Equal(f.Tried, want) {
					r.Fail("output not passed on", "%s: %s", f.Nm, diffAt(f.Tried, want))
				}
				if whole && triedAtWait[s.name] != len(want) {
					r.Fail("wait returned before the output was written", "%s had %d of %d bytes", f.Nm, triedAtWait[s.name], len(want))
				}
				if stdinFailed {
					// what follows a failed read is lost, and the line it interrupted may be
					if !prefixPartial(f.Tried, want) {
						r.Fail("output altered", "%s: %s", f.Nm, diffAt(f.Tried, want))
					}
				} else if !whole && !bytes.HasPrefix(want, f.Tried) && f.AfterCl == 0 {
					r.Fail("output altered", "%s: %s", f.Nm, diffAt(f.Tried, want))
				}
				if f.WriteErr == 0 && !bytes.Equal(f.Bytes(), f.Tried) {
					r.Fail("machinery", "sink lost bytes by itself")
				}
			}
		}
		if len(w.Stdout.Tried) == 0 && len(w.Stderr.Tried) == 0 && total == 0 && len(got) > 0 {
			r.Fail("log event invented", "%d events", len(got))
		}
		if mode == "L02" {
			logEvents(r, srcs, got, writes, stdinFailed)
			ns, nc := 0, 0
			for _, e := range errs {
				switch e {
				case "proc.SinkError":
					ns++
				case "proc.ScanError":
					nc++
				default:
					r.Fail("unexpected error event", "%s", e)
				}
			}
			if afterClose == 0 && ns != failures || ns < failures || ns > failures+afterClose {
				r.Fail("sink failures not reported", "%d writes failed (%d more after Wait), %d error events", failures, afterClose, ns)
			}
			if stdinFailed && nc == 0 {
				r.Fail("read failure not reported", "reading standard input failed and no error event was published")
			}
			if !stdinFailed && nc > 0 {
				r.Fail("read failure invented", "%d error events", nc)
			}
			if werr == nil && !stdinFailed {
				// everything had been published by then: nothing was read later
				for _, s := range srcs {
					if s.sink != nil && s.active && triedAtWait[s.name] != len(echoOf(s.data)) {
						r.Fail("wait returned early", "Wait returned nil with %d of %d bytes of %s processed", triedAtWait[s.name], len(echoOf(s.data)), s.name)
					}
				}
			}
		}
		if total > 1 {
			r.Nontrivial()
		}
	}
}

// prefixPartial: got is a prefix of want, possibly with its last line cut short
// and terminated.
func prefixPartial(got, want []byte) bool {
	if bytes.HasPrefix(want, got) {
		return true
	}
	if n := len(got); n > 0 && got[n-1] == '\n' {
		return bytes.HasPrefix(want, got[:n-1]) || (n > 1 && bytes.HasPrefix(append(append([]byte{}, want...)), got[:n-1]))
	}
	return false
}

func diffAt(got, want []byte) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	cut := func(b []byte) string {
		if i >= len(b) {
			return ""
		}
		e := i + 40
		if e > len(b) {
			e = len(b)
		}
		return string(b[i:e])
	}
	return fmt.Sprintf("%d bytes, expected %d; differs at %d: %q, expected %q", len(got), len(want), i, cut(got), cut(want))
}

// logEvents checks that every line has exactly one event, with a true timestamp.
func logEvents(r *harness.Run, srcs []*logSrc, got []*logGot, writes [2][]world.Mark, stdinFailed bool) {
	type due struct {
		line []byte
		at   time.Duration // not written before
	}
	var want []due
	for i, s := range srcs {
		if !s.active {
			continue
		}
		off := 0
		rest := s.data
		for _, l := range s.lines {
			k := bytes.IndexByte(rest, '\n')
			if k < 0 {
				k = len(rest) - 1
			}
			off += k + 1
			rest = rest[k+1:]
			d := due{line: l, at: -1}
			for _, m := range writes[i] {
				if m.End >= off {
					d.at = m.Begun
					break
				}
			}
			want = append(want, d)
		}
	}
	// equal lines are matched in the order of their times
	sort.SliceStable(want, func(a, b int) bool {
		if c := bytes.Compare(want[a].line, want[b].line); c != 0 {
			return c < 0
		}
		return want[a].at < want[b].at
	})
	es := append([]*logGot{}, got...)
	sort.SliceStable(es, func(a, b int) bool {
		if c := bytes.Compare(es[a].le.Line, es[b].le.Line); c != 0 {
			return c < 0
		}
		return es[a].le.Timestamp.Before(es[b].le.Timestamp)
	})
	i, partial := 0, 0
	for _, d := range want {
		if i < len(es) && stdinFailed && !bytes.Equal(es[i].le.Line, d.line) {
			// the line the failed read interrupted may have been published cut short
			for i < len(es) && !bytes.Equal(es[i].le.Line, d.line) && bytes.Compare(es[i].le.Line, d.line) < 0 {
				partial++
				i++
			}
		}
		if i < len(es) && bytes.Equal(es[i].le.Line, d.line) {
			if d.at >= 0 && !stdinFailed && es[i].le.Timestamp.Before(rt.At(d.at)) {
				r.Fail("timestamp before the line", "line %q was written at %v, its event says %v", clip(string(d.line)), rt.At(d.at).UTC(), es[i].le.Timestamp)
			}
			if es[i].le.Timestamp.After(es[i].at) {
				r.Fail("timestamp after delivery", "line %q: event says %v, delivered at %v", clip(string(d.line)), es[i].le.Timestamp, es[i].at.UTC())
			}
			i++
			continue
		}
		if stdinFailed {
			continue
		}
		if i < len(es) && bytes.Compare(es[i].le.Line, d.line) < 0 {
			r.Fail("log event duplicated or altered", "event for %q, which is not due (again)", clip(string(es[i].le.Line)))
		}
		r.Fail("log event missing", "no event for line %q (%d of %d events)", clip(string(d.line)), len(es), len(want))
	}
	partial += len(es) - i
	if partial > 1 || (partial == 1 && !stdinFailed) {
		r.Fail("log event duplicated or altered", "%d events for lines that are not due (again), last %q", partial, clip(string(es[len(es)-1].le.Line)))
	}
}

func logPlan(r *harness.Run) rt.Config {
	c := r.Sched()
	r.Stalls(&c)
	c.MaxTime = 48 * time.Hour
	c.MaxSteps = 3000000
	return c
}

func init() {
	stub := []string{"scheduler", "sync", "time", "os/exec and the processes it runs", "standard streams", "context", "log"}
	real := []string{"pkg/monny/proc log processor, options, queue", "pkg/eventbus"}
	reg := func(id, title string, q, t int) {
		harness.Register(&harness.Prop{ID: id, Title: title, Rule: "Each run draws a command (or a piped standard input), what it writes on each stream and in which pieces and pauses, line lengths and bytes, options, sink failures, torn and slow writes, short reads, read errors, pipe sizes, and the context Wait is given; non-trivial when at least two lines were due.",
			Plan: logPlan, Body: logBody(id), Real: real, Stub: stub, Quick: q, Thorough: t})
	}
	reg("L01", "log processor echo", 80000, 4000000)
	reg("L02", "log processor events", 80000, 4000000)
}
