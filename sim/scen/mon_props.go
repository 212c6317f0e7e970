package scen

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/fs"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	monnymain "github.com/BTBurke/monny/cmd/monny"
	"github.com/BTBurke/monny/pkg/pb"

	"simverif/harness"
	"simverif/rt"
	"simverif/shim/os"
	"simverif/stub/rollbar"
	"simverif/world"
)

func (m *mon) basics() {
	r := m.r
	m.hostFlag = r.W(3) > 0
	if m.host = "reports.example:7000"; m.hostFlag && r.W(4) == 3 {
		m.host = []string{"localhost:7000", "127.0.0.1:443", "h:80", "10.0.0.1:50051"}[r.W(4)]
	}
	m.insecure = r.W(2) == 1
	switch r.W(5) {
	case 4:
		m.file["id"] = []string{m.id}
	}
	if r.W(3) == 2 {
		m.argv = append(m.argv, [][]string{{"-v"}, {"--rule", "x y"}, {"a b", "-i", "other"}, {"--", "-c", "nothere"}, {"ünïcode"}, {"a  b", "", "tab\there "}, {"", " ", "two\nlines"}, {"caf\xe9", "\xff"}, strings.Split(strings.Repeat("word-", 150), "-")}[r.W(9)]...)
	}
	m.noErrors = r.W(4) == 3
	m.w.RollbarHang = r.W(4) == 3
	m.w.RollbarErr = []float64{0, 1}[r.W(2)]
}

func (m *mon) notify() {
	m.noSuccess = m.r.W(3) == 2
	m.noFailure = m.r.W(3) == 2
}

// extras turns on what a scenario is not about, so that features meet each other.
// skip names those to leave alone: d(aemon), r(ules), w(arning timeout), k(ill
// timeout, far away), m(emory warning), M(emory kill limit, far away), c(reates,
// a file that exists), h(istory).
func (m *mon) extras(skip string) {
	r := m.r
	if r.W(3) != 2 {
		return
	}
	on := func(k string, one int) bool { return r.W(one) == one-1 && !strings.Contains(skip, k) }
	if on("d", 3) {
		m.daemon = true
	}
	if on("r", 2) {
		for k := r.Between(1, 5); k > 0; k-- {
			m.rules = append(m.rules, rulePool[r.W(len(rulePool))])
		}
		if m.out.body == nil {
			m.out.body = ruleBody
		}
	}
	if on("w", 3) {
		m.tWarn = pickDur(r, 100*time.Millisecond, time.Second, 5*time.Second)
	}
	if on("k", 3) {
		m.tKill = 20 * time.Hour
	}
	if on("m", 3) {
		m.mWarn = 900
	}
	if on("M", 3) {
		m.mKill = []uint64{3000000, 16777217, 123456789}[r.W(3)]
	}
	if on("c", 3) {
		m.creates = append(m.creates, "/data/there")
		m.w.FS.Put("/data/there", &world.Node{Data: []byte("x"), Mode: 0o644, Mtime: rt.Now()})
	}
	if on("h", 3) {
		m.hist = [2]int{[]int{30, 0, 1, 4, 500}[r.W(5)], []int{30, 0, 1, 4, 500}[r.W(5)]}
	}
}

var rulePool = []ruleSpec{{"", "ERR[0-9]+"}, {"", "fatal"}, {"", "err"}, {"level", "err.r"}, {"code", "^500"}, {"req.path", "^/error"}, {"", "line$"}, {"", "^..?"}, {"req.hdr.kind", "^x"}, {"tags", "ab"}, {"tags", "true"}, {"", "ERR|ERR[0-9]+"}, {"", "(?i)Fatal|(?i)err"}, {"code", "(?m)\\.0+[61]25"}, {"code", "(?m)^-?[0-9]+\\.[0-9]{6}$"}, {"a.b.c.d.level", "x"}, {"", "^$"}, {"code", "^-"}}

func (m *mon) wall() {
	r := m.r
	for k := r.W(3); k > 0; k-- {
		m.jumps = append(m.jumps, wallJump{pickDur(r, time.Microsecond, 700*time.Millisecond, 5*time.Second, time.Minute), pickDur(r, time.Hour, -time.Hour, 3*time.Second, -3*time.Second, -24*time.Hour)})
	}
	if len(m.jumps) > 0 {
		r.Note("wall clock jumps %v", m.jumps)
	}
}

func (m *mon) sinks() {
	r, w := m.r, m.w
	w.ShortRead = []float64{0, 0.1, 0.6}[r.W(3)]
	w.PipeCap = []int{65536, 4096, 16}[r.W(3)]
	switch r.W(7) {
	case 6:
		f := []*world.File{w.Stdout, w.Stderr}[r.W(2)]
		f.BreakAt = 1 + r.W(60)
		r.Note("the reader of %s leaves after %d bytes", f.Nm, f.BreakAt)
	case 3:
		w.SinkErr = []float64{0.05, 0.3, 1}[r.W(3)]
	case 4:
		w.SinkShort = []float64{0.05, 0.3}[r.W(2)]
	case 5:
		w.SinkSlow = []float64{0.1, 1}[r.W(2)]
		w.SinkStall = pickDur(r, time.Millisecond, 2*time.Second, 20*time.Second)
	}
	r.Note("sinks fail %.2f torn %.2f slow %.2f by up to %v; short reads %.2f, pipes of %d", w.SinkErr, w.SinkShort, w.SinkSlow, w.SinkStall, w.ShortRead, w.PipeCap)
}

// --- C01 ---------------------------------------------------------------------------

func c01(r *harness.Run) {
	m := newMon(r)
	m.basics()
	m.notify()
	m.out.lines = 20
	m.out.long = r.W(4) == 3
	if r.W(30) == 29 {
		m.out.lines, m.out.long, m.out.step = 200, false, m.out.step[:3]
	}
	m.sinks()
	if m.out.long && m.w.PipeCap < 4096 {
		m.w.PipeCap = 65536
	}
	m.network(Pick3s(r, "good", "good", "lossy", "dead", "hang"))
	m.extras("")
	m.out.huge = len(m.rules) == 0
	if len(m.rules) > 0 && m.netKind != "good" {
		m.out.long = false // long alerts sent over and over
	}
	m.command()
	if r.W(5) == 4 { // a background child keeps the streams open
		m.script.Ops = append([]world.Op{{Kind: "hold", D: pickDur(r, time.Millisecond, 2*time.Second, 40*time.Second)}}, m.script.Ops...)
	}
	if r.W(4) == 3 { // closes a stream early
		k := r.W(len(m.script.Ops))
		m.script.Ops = append(m.script.Ops[:k:k], append([]world.Op{{Kind: []string{"closeout", "closeerr"}[r.W(2)]}}, m.script.Ops[k:]...)...)
	}
	m.run()
	m.exited()
	if m.p == nil {
		r.Fail("command not started", "")
	}
	if !m.selfEnded() {
		r.Fail("command disturbed", "done %v, signals %v", m.p.Done, m.p.Signals)
	}
	for i, f := range []*world.File{m.w.Stdout, m.w.Stderr} {
		want := echoOf(m.p.Wrote[i])
		if !bytes.Equal(f.Tried, want) {
			cl := "output not passed through"
			if d := firstDiff(f.Tried, want); d == len(want) {
				cl = "output added"
			}
			r.Fail(cl, "%s: %s (monny ended at %v, the command at %v)", f.Nm, diffAt(f.Tried, want), m.w.ExitAt, m.p.DoneAt)
		}
		if f.WriteErr == 0 && !bytes.Equal(f.Bytes(), f.Tried) {
			r.Fail("machinery", "a sink lost bytes by itself")
		}
	}
	if len(m.p.Wrote[0])+len(m.p.Wrote[1]) > 0 {
		r.Nontrivial()
	}
}

// Pick3s draws one of xs.
func Pick3s(r *harness.Run, xs ...string) string { return xs[r.W(len(xs))] }

// --- C02 ---------------------------------------------------------------------------

func c02(r *harness.Run) {
	m := newMon(r)
	if r.W(3) == 2 {
		m.id = Pick3s(r, " job 1\t", "me@example.org", "J\u00f6b", "a=b&c", "-", strings.Repeat("long", 80))
	}
	m.basics()
	m.notify()
	m.hist = [2]int{[]int{30, 1, 3, 5}[r.W(4)], []int{30, 1, 3, 5}[r.W(4)]}
	m.network(Pick3s(r, "good", "lossy", "outage", "slow"))
	if r.W(2) == 1 {
		m.wall()
	}
	switch r.W(5) {
	case 4:
		m.w.HostErr = true
	case 3:
		m.w.Host = []string{"", "h\xf6st", "a.b.example"}[r.W(3)]
	}
	m.extras("h")
	m.command()
	if r.W(100) == 99 { // takes long
		k := r.W(len(m.script.Ops))
		m.script.Ops = append(m.script.Ops[:k:k], append([]world.Op{{Kind: "sleep", D: 61*time.Minute + 17*time.Second + 300*time.Millisecond}}, m.script.Ops[k:]...)...)
		m.horizon += 2 * time.Hour
	}
	m.run()
	m.exited()
	m.outcome(true)
	r.Nontrivial()
}

// outcome checks the report of a command that ended by itself.
func (m *mon) outcome(exact bool) {
	r, p := m.r, m.p
	if p == nil || !m.selfEnded() {
		r.Fail("command disturbed", "process %+v", p != nil)
	}
	ok := p.Status == 0
	kind, other, off := pb.ReportReason_Success, pb.ReportReason_Failure, m.noSuccess
	if !ok {
		kind, other, off = other, kind, m.noFailure
	}
	if n := m.sent(other); n != 0 {
		r.Fail("wrong outcome", "the command ended with status %#x and %d %v reports were made", uint32(p.Status), n, other)
	}
	if n := m.sent(pb.ReportReason_Killed); n != 0 {
		r.Fail("kill reported", "the command ended by itself and %d kill reports were made", n)
	}
	rs := m.of(kind)
	want := 1
	if off {
		want = 0
	}
	if n := m.sent(kind); n != want {
		cl := "outcome not reported"
		if n > want {
			cl = "outcome reported too often"
			if off {
				cl = "outcome reported although switched off"
			}
		}
		r.Fail(cl, "%d %v reports, expected %d (status %#x)", n, kind, want, uint32(p.Status))
	}
	if want == 0 {
		return
	}
	m.delivered(rs, "outcome")
	x := rs[0]
	if !exact {
		return
	}
	code := int32(0)
	if !ok {
		code = int32(p.Status.ExitStatus())
	}
	if x.Success != ok || x.ExitCode != code || !x.ExitCodeValid {
		r.Fail("outcome untrue", "report says success %v, exit code %d (valid %v); the command ended with status %#x", x.Success, x.ExitCode, x.ExitCodeValid, uint32(p.Status))
	}
	if x.Killed || x.KillReason != 0 {
		r.Fail("kill reported", "report says killed %v for %v", x.Killed, x.KillReason)
	}
	if loose(x.Id) != loose(m.id) || loose(x.UserCommand) != loose(strings.Join(m.argv, " ")) || strings.Join(p.Argv, "\x00") != strings.Join(m.argv, "\x00") {
		r.Fail("identity untrue", "report is of %q, command %q; the run is %q of %q, and ran %q", x.Id, x.UserCommand, m.id, m.argv, p.Argv)
	}
	host := m.w.Host
	if m.w.HostErr {
		host = ""
	}
	if loose(x.Hostname) != loose(host) {
		r.Fail("identity untrue", "report is from %q, the host is %q", x.Hostname, host)
	}
	for i, h := range [][]string{x.Stdout, x.Stderr} {
		if want := m.lastHist(i); !sameLines(h, want) {
			r.Fail("history untrue", "%s history is %q, expected %q", [...]string{"stdout", "stderr"}[i], clipLines(h), clipLines(want))
		}
	}
	if m.quick && m.w.SinkSlow == 0 {
		d, err := time.ParseDuration(x.Duration)
		if real := p.DoneAt - p.StartAt; err != nil || d < real-time.Millisecond || d > real+slack {
			r.Fail("duration untrue", "report says %q, the command ran %v", x.Duration, real)
		}
		near := func(what string, unix int64, at time.Duration) {
			t := m.wallAt(at)
			for _, j := range m.jumps { // not judged right at a jump
				if j.at > at-2*slack && j.at < at+2*slack {
					return
				}
			}
			if unix < t.Add(-slack).Unix() || unix > t.Add(slack).Unix() {
				r.Fail(what+" untrue", "report says %v, it was %v", time.Unix(unix, 0).UTC(), t.UTC())
			}
		}
		near("start", x.Start, p.StartAt)
		near("finish", x.Finish, p.DoneAt)
		near("creation time", x.CreatedAt, p.DoneAt)
	}
	var cfg wanted
	if err := json.Unmarshal(x.Config, &cfg); err != nil {
		r.Fail("report does not decode", "configuration %q: %v", x.Config, err)
	}
	if loose(cfg.ID) != loose(m.id) || cfg.StdoutHistory != m.hist[0] || cfg.StderrHistory != m.hist[1] || cfg.NotifyOnSuccess == m.noSuccess || cfg.NotifyOnFailure == m.noFailure || len(cfg.Rules) != len(m.rules) || cfg.Daemon != m.daemon || cfg.KillTimeout != m.tKill || cfg.NotifyTimeout != m.tWarn || cfg.MemoryWarn != m.mWarn || cfg.MemoryKill != m.mKill || strings.Join(cfg.Creates, "\x00") != strings.Join(m.creates, "\x00") {
		r.Fail("configuration untrue", "report says %+v", cfg)
	}
	if len(m.creates) == 0 && len(x.Messages) > 0 {
		r.Fail("outcome untrue", "report carries messages %q", x.Messages)
	}
}

// --- C03 ---------------------------------------------------------------------------

var runTimes = []time.Duration{10 * time.Millisecond, 900 * time.Millisecond, 3 * time.Second, 7 * time.Second, 31 * time.Second, 65 * time.Second, 11 * time.Minute}

func c03(r *harness.Run) {
	m := newMon(r)
	m.basics()
	m.notify()
	m.network(Pick3s(r, "good", "lossy", "outage"))
	if r.W(2) == 1 {
		m.wall()
	}
	which := r.W(3)
	ts := []time.Duration{100 * time.Millisecond, time.Second, 2500 * time.Millisecond, 7 * time.Second, 30 * time.Second, 2 * time.Minute, 10 * time.Minute}
	if which != 1 {
		m.tKill = ts[r.W(len(ts))]
	}
	if which != 0 {
		m.tWarn = ts[r.W(len(ts))]
	}
	if which == 2 && r.W(3) == 2 { // a warning some way before the kill
		m.tWarn = m.tKill / 100 * time.Duration(r.Between(35, 120))
	}
	long := r.W(40) == 39
	if long {
		if m.tKill > 0 {
			m.tKill = pickDur(r, 61*time.Minute, 90*time.Minute, 4*time.Hour, 26*time.Hour)
		}
		if m.tWarn > 0 {
			m.tWarn = pickDur(r, 61*time.Minute, 90*time.Minute, 4*time.Hour)
		}
		m.horizon = 9 * time.Hour
		m.daemon = r.W(4) > 0
		if m.tKill > 24*time.Hour {
			m.horizon, m.daemon = 120*time.Hour, true
		}
	}
	m.extras("wk")
	if r.W(6) == 5 {
		m.w.SmapsErr = 1
	}
	if r.W(4) == 3 {
		m.sinks()
	}
	slow := m.w.SinkSlow > 0 // the end of the command may be noticed late
	m.command()
	// most of the run is one long sleep, possibly in the middle of the output
	m.insertSleep()
	if long {
		d := pickDur(r, 40*time.Minute, 70*time.Minute, 100*time.Minute, 5*time.Hour)
		if m.tKill > 24*time.Hour {
			d *= 20
		}
		m.script.Ops = append([]world.Op{{Kind: "sleep", D: d}}, m.script.Ops...)
	}
	m.run()
	m.exited()
	p := m.p
	ran := p.DoneAt - p.StartAt
	kills := m.of(pb.ReportReason_Killed)
	warns := m.sent(pb.ReportReason_TimeWarning)
	killed := false
	for _, s := range p.Signals {
		if s.By == "monny" {
			killed = true
			if s.Sig != syscall.SIGKILL {
				r.Fail("wrong signal", "monny sent %v", s.Sig)
			}
			if m.tKill == 0 || s.At-p.StartAt < m.tKill {
				r.Fail("killed too early", "killed after %v, kill timeout %v", s.At-p.StartAt, m.tKill)
			}
			if m.quick && s.At-p.StartAt > m.tKill+slack {
				r.Fail("killed too late", "killed after %v, kill timeout %v", s.At-p.StartAt, m.tKill)
			}
		}
	}
	if !killed && len(p.Signals) > 0 {
		r.Fail("command disturbed", "%v", p.Signals)
	}
	if killed {
		if n := m.sent(pb.ReportReason_Killed); n != 1 {
			r.Fail("kill not reported once", "%d kill reports for a command killed for timeout", n)
		}
		k := kills[0]
		if !k.Killed || k.KillReason != pb.KillReason_Timeout {
			r.Fail("kill misreported", "report says killed %v for %v", k.Killed, k.KillReason)
		}
		d, err := time.ParseDuration(k.Duration)
		if err != nil || d < m.tKill || (m.quick && d > m.tKill+slack) {
			r.Fail("kill misreported", "report says it ran %q, kill timeout %v", k.Duration, m.tKill)
		}
		if k.Success {
			r.Fail("kill misreported", "report says success")
		}
		if n := m.sent(pb.ReportReason_Success, pb.ReportReason_Failure); n != 0 {
			r.Fail("outcome of a killed command", "%d outcome reports", n)
		}
		m.delivered(kills, "kill")
		r.Nontrivial()
	} else {
		near := m.tKill > 0 && ran > m.tKill-slack || (!m.quick || slow) && m.tKill > 0 // monny may have been late to notice the end
		if m.tKill > 0 && ran > m.tKill+slack && m.quick {
			r.Fail("not killed", "ran %v, kill timeout %v", ran, m.tKill)
		}
		if !near {
			if len(kills) > 0 {
				r.Fail("kill reported", "ran %v, kill timeout %v: %d kill reports", ran, m.tKill, len(kills))
			}
			m.outcome(len(m.jumps) == 0)
		}
	}
	if warns > 1 {
		r.Fail("warned twice", "%d time warnings", warns)
	}
	if m.tWarn == 0 && warns > 0 {
		r.Fail("warned too early", "a time warning without a limit")
	}
	if m.tWarn > 0 {
		for _, x := range m.of(pb.ReportReason_TimeWarning) {
			if x.first-p.StartAt < m.tWarn {
				r.Fail("warned too early", "after %v, limit %v", x.first-p.StartAt, m.tWarn)
			}
			if m.quick && m.netKind == "good" && x.first-p.StartAt > m.tWarn+slack {
				r.Fail("warned too late", "after %v, limit %v", x.first-p.StartAt, m.tWarn)
			}
			// it may be made late, but not say what has not happened yet
			if x.Killed && (len(p.Signals) == 0 || x.first < p.Signals[0].At) && len(kills) == 0 || x.Success && x.first < p.DoneAt {
				r.Fail("warning misreported", "report says killed %v, success %v", x.Killed, x.Success)
			}
		}
		m.delivered(m.of(pb.ReportReason_TimeWarning), "time warning")
		if m.quick && ran > m.tWarn+slack && warns != 1 {
			r.Fail("not warned", "ran %v, limit %v: %d time warnings", ran, m.tWarn, warns)
		}
		if m.quick && !slow && ran < m.tWarn-slack && warns != 0 {
			r.Fail("warned for nothing", "ran %v, limit %v", ran, m.tWarn)
		}
		if ran > m.tWarn {
			r.Nontrivial()
		}
	}
}

func (m *mon) insertSleep() {
	r := m.r
	k := r.W(len(m.script.Ops))
	m.script.Ops = append(m.script.Ops[:k:k], append([]world.Op{{Kind: "sleep", D: runTimes[r.W(len(runTimes))]}}, m.script.Ops[k:]...)...)
}

// --- C04 ---------------------------------------------------------------------------

func c04(r *harness.Run) {
	m := newMon(r)
	m.basics()
	m.notify()
	m.network(Pick3s(r, "good", "lossy", "outage"))
	m.daemon = r.W(4) == 3
	levels := []uint64{1, 500, 999, 1000, 1001, 5000, 64003, 1000000, 2000000, 5000000000}
	m.script = &world.Script{Mem: levels[r.W(len(levels))]}
	which := r.W(4)
	lv := func() uint64 {
		if v := levels[r.W(len(levels))]; v > 0 {
			return v
		}
		return 1
	}
	if which&1 == 1 {
		m.mWarn = lv()
	}
	if which&2 == 2 {
		m.mKill = lv()
	}
	m.w.SmapsErr = []float64{0, 0, 0.3, 1}[r.W(4)]
	m.out.lines = 2
	m.extras("dmM")
	if r.W(4) == 3 {
		m.sinks()
	}
	a, b := genStream(r, "o", m.out), genStream(r, "e", m.out)
	ops := genOps(r, [2][]byte{a, b}, m.out)
	steps := []time.Duration{10 * time.Millisecond, 400 * time.Millisecond, 1300 * time.Millisecond, 5 * time.Second, 40 * time.Second}
	for k := r.Between(1, 6); k > 0; k-- {
		ops = append(ops, world.Op{Kind: "mem", N: int(levels[r.W(len(levels))])}, world.Op{Kind: "sleep", D: steps[r.W(len(steps))]})
	}
	m.finish(ops)
	r.Note("memory warning at %d kB, kill at %d kB, daemon %v, unreadable accounting %.2f", m.mWarn, m.mKill, m.daemon, m.w.SmapsErr)
	m.run()
	m.exited()
	p := m.p
	var max uint64
	warnAt, killAt := time.Duration(-1), time.Duration(-1)
	for _, s := range p.Samples {
		if s.KB > max {
			max = s.KB
		}
		if m.mWarn > 0 && s.KB >= m.mWarn && warnAt < 0 {
			warnAt = s.At
		}
		if m.mKill > 0 && s.KB >= m.mKill && killAt < 0 {
			killAt = s.At
		}
	}
	killed := time.Duration(-1)
	for _, s := range p.Signals {
		if s.By == "monny" && killed < 0 {
			killed = s.At
			if s.Sig != syscall.SIGKILL {
				r.Fail("wrong signal", "monny sent %v", s.Sig)
			}
		}
	}
	if killed >= 0 && (killAt < 0 || killed < killAt) {
		r.Fail("killed below the limit", "killed at %v, limit %d kB, samples %v", killed, m.mKill, p.Samples)
	}
	if m.quick && killed > killAt+slack {
		r.Fail("killed too late", "over the limit at %v, killed at %v", killAt, killed)
	}
	over := killAt >= 0
	if over && killed < 0 && m.quick && p.DoneAt > killAt+slack {
		r.Fail("not killed", "over the limit of %d kB at %v, the command ended at %v", m.mKill, killAt, p.DoneAt)
	}
	kills := m.of(pb.ReportReason_Killed)
	if killed >= 0 && m.sent(pb.ReportReason_Killed) != 1 {
		r.Fail("kill not reported once", "%d kill reports for a command killed for memory", m.sent(pb.ReportReason_Killed))
	}
	if !over && len(kills) > 0 {
		r.Fail("kill reported", "no sample reached the limit of %d kB: %v", m.mKill, p.Samples)
	}
	for _, k := range kills {
		if !k.Killed || k.KillReason != pb.KillReason_Memory || k.Success {
			r.Fail("kill misreported", "report says killed %v for %v, success %v", k.Killed, k.KillReason, k.Success)
		}
		if k.MaxMemory < m.mKill || k.MaxMemory > max {
			r.Fail("maximum untrue", "kill report says at most %d kB, limit %d, sampled %d", k.MaxMemory, m.mKill, max)
		}
	}
	m.delivered(kills, "kill")
	if !over {
		m.outcome(false)
		for _, x := range m.of(pb.ReportReason_Success, pb.ReportReason_Failure) {
			if x.MaxMemory != max {
				r.Fail("maximum untrue", "report says %d kB, the largest sample was %d (%v)", x.MaxMemory, max, p.Samples)
			}
		}
	}
	warns := m.of(pb.ReportReason_MemoryWarning)
	n := m.sent(pb.ReportReason_MemoryWarning)
	if warnAt < 0 && n > 0 {
		r.Fail("warned below the limit", "%d memory warnings, limit %d kB, samples %v", n, m.mWarn, p.Samples)
	}
	if warnAt >= 0 && n != 1 {
		r.Fail("not warned once", "%d memory warnings, limit %d kB reached at %v", n, m.mWarn, warnAt)
	}
	for _, x := range warns {
		if x.MaxMemory < m.mWarn || x.MaxMemory > max {
			r.Fail("maximum untrue", "memory warning says at most %d kB, limit %d, sampled %d", x.MaxMemory, m.mWarn, max)
		}
		if x.first < warnAt {
			r.Fail("warned too early", "at %v, first sample over the limit at %v", x.first, warnAt)
		}
	}
	m.delivered(warns, "memory warning")
	// sampling rate
	if m.quick && len(m.w.Procs) == 1 {
		period := time.Second
		if m.daemon {
			period = 30 * time.Second
		}
		ran := p.DoneAt - p.StartAt
		want := int(ran / period)
		got := len(p.Samples) + rt.S.Stats["fault.smaps-error"] + rt.S.Stats["fault.smaps-cut"]
		if got < want-1 || got > want+1 && m.w.SinkSlow == 0 {
			r.Fail("sampling rate", "%d readings in %v, expected one every %v", got, ran, period)
		}
	}
	if warnAt >= 0 || killAt >= 0 || len(p.Samples) > 1 {
		r.Nontrivial()
	}
}

// --- C05 ---------------------------------------------------------------------------

func ruleBody(r *harness.Run, i int) string {
	switch r.W(8) {
	case 7: // a rule that matches in many places
		return strings.Repeat([]string{" err", " ERR4", "fatal"}[r.W(3)], r.Between(9, 40))
	case 0:
		return fmt.Sprintf(" ERR%d happened", r.W(30))
	case 1:
		return " all fine"
	case 2:
		return " fatal: disk"
	case 3:
		return " error err ERR"
	case 4:
		return " ERR1 and ERR22, fatal"
	case 5:
		return " {\"level\":\"error\"}"
	default:
		return ""
	}
}

func jsonLine(r *harness.Run, tag string, i int) string {
	u := fmt.Sprintf("\"n\":\"%s%d\"", tag, i)
	switch r.W(25) {
	case 24:
		return `{"a":{"b":{"c":{"d":{"level":"xml"},"level":"x"},"x":1}},` + u + `}`
	case 23: // names that are nearly the ones asked for
		return []string{`{"LEVEL":"error","Code":500,` + u + `}`, `{"Level":"error","level ":"error",` + u + `}`, `{"level.":"error","req.path":"/error",` + u + `}`, `{"REQ":{"path":"/error"},"req":{"Path":"/error","path ":"/error"},` + u + `}`}[r.W(4)]
	case 20:
		return `{"x":1}`
	case 21:
		return `{"level":null}`
	case 22:
		return []string{"{}", "[]", "null", "1", `""`, "{\"\":{\"\":1}}", `{"req":{}}`, `{"level":{}}`}[r.W(8)]
	case 18:
		return `{"code":` + []string{"500.0625", "-500", "-0.0625", "1e3"}[r.W(4)] + `,` + u + `}`
	case 19:
		return `{"code":[7,0.000125,-12345678.5],"level":0.1875,` + u + `}`
	case 14:
		return `  {"level":"error",` + u + `}`
	case 15:
		return "\t{ \"level\" :\"err\\u006fr\", " + u + `,"req":{"path":"\u002ferror"}} `
	case 16:
		return `{"level":"info","level":"error",` + u + `}`
	case 17:
		return `{"level":"error",` + u + `} trailing`
	case 8:
		return `{"req":{"hdr":{"kind":"xml"},"path":"/ok"},"kind":"no",` + u + `}`
	case 9:
		return `{"kind":"xml","hdr":{"kind":"xml"},"req":{"kind":"xml","hdr":{"kinds":"xml"}},` + u + `}`
	case 10:
		return `{"tags":["xa","by"],` + u + `}`
	case 11:
		return `{"tags":[true,"xaby",2.5],` + u + `}`
	case 12:
		return `{"tags":["x ab"],"req":{"hdr":"xml"},` + u + `}`
	case 0:
		return `{"level":"error",` + u + `}`
	case 1:
		return `{"level":"info",` + u + `}`
	case 2:
		return `{"code":500,"level":"warn",` + u + `}`
	case 3:
		return `{"req":{"path":"/error","code":404},` + u + `}`
	case 4:
		return `{"level":["info","error"],` + u + `}`
	case 5:
		return `{"level":[1,"error",true,null,{"a":1}],` + u + `}`
	case 6:
		return `{"level":null,"req":"error",` + u + `}`
	case 7:
		return `{"level":"error"` // cut short
	default:
		return `[{"level":"error"}]`
	}
}

func c05(r *harness.Run) {
	m := newMon(r)
	m.basics()
	m.noSuccess, m.noFailure = r.W(2) == 1, r.W(2) == 1
	kind := Pick3s(r, "good", "lossy", "lossy", "outage", "slow")
	if r.W(20) == 19 {
		kind = "long"
	}
	m.network(kind)
	m.out.lines = 14
	m.out.body = ruleBody
	if r.W(2) == 1 {
		m.out.long = r.W(4) == 3
		m.sinks()
		if m.out.long && m.w.PipeCap < 4096 {
			m.w.PipeCap = 65536
		}
	}
	m.hist = [2]int{[]int{30, 2, 5}[r.W(3)], []int{30, 2, 5}[r.W(3)]}
	m.daemon = r.W(4) == 3
	k := r.Between(1, 4)
	if r.W(12) == 11 {
		k = r.Between(9, 20)
	}
	for ; k > 0; k-- {
		m.rules = append(m.rules, rulePool[r.W(len(rulePool))])
	}
	if r.W(4) == 3 {
		m.wall()
	}
	m.extras("drh")
	if r.W(4) == 3 {
		m.custom = true
		m.quantity = r.Between(1, 5)
		m.period = pickDur(r, 0, 0, 5*time.Second, time.Minute, time.Second)
		m.file = map[string][]string{}
	}
	if m.custom { // the library call sets only what alerts need
		m.tWarn, m.tKill, m.mWarn, m.mKill, m.creates = 0, 0, 0, 0, nil
	}
	m.streams[0], m.streams[1] = genStream(r, "o", m.out), genStream(r, "e", m.out)
	if r.W(2) == 1 { // a structured log
		i := r.W(2)
		var b []byte
		for k := r.W(10); k > 0; k-- {
			b = append(b, jsonLine(r, "oe"[i:i+1], k)...)
			b = append(b, '\n')
		}
		m.streams[i] = append(b, m.streams[i]...)
	}
	if r.W(3) == 2 { // the same line several times over
		i := r.W(2)
		same := []byte([]string{"fatal: same ERR5\n", "{\"level\":\"error\"}\n", "err\n"}[r.W(3)])
		if k := bytes.IndexByte(m.streams[i], '\n'); k >= 0 && r.W(2) == 1 {
			m.streams[i] = append(append(append([]byte{}, m.streams[i][:k+1]...), same...), m.streams[i][k+1:]...)
		}
		m.streams[i] = append(bytes.Repeat(same, r.Between(1, 4)), m.streams[i]...)
	}
	m.finish(genOps(r, m.streams, m.out))
	var back time.Duration // when a line is written that can be reported
	if m.netKind == "long" {
		m.horizon = 9 * time.Hour
		m.daemon = m.daemon || r.W(4) > 0
		to := m.net.Outages[0].To
		back = to - 55*time.Minute
		k := r.W(len(m.script.Ops))
		m.script.Ops = append(m.script.Ops[:k:k], append([]world.Op{{Kind: "sleep", D: to + time.Duration(r.Between(-50, 20))*time.Minute}}, m.script.Ops[k:]...)...)
	}
	r.Note("rules %v, quantity %d in %v", m.rules, m.quantity, m.period)
	m.run()
	m.exited()
	if !m.selfEnded() {
		r.Fail("command disturbed", "")
	}
	p := m.p
	type hit struct {
		line string
		at   time.Duration // written not before
		till time.Duration // complete
		idx  []string      // where each rule matches, "*" where it does not say
	}
	var hits []hit
	known := map[string][]string{}
	for i := 0; i < 2; i++ {
		off := 0
		rest := p.Wrote[i]
		for _, l := range linesOf(p.Wrote[i]) {
			k := bytes.IndexByte(rest, '\n')
			if k < 0 {
				k = len(rest) - 1
			}
			off += k + 1
			rest = rest[k+1:]
			idx := m.indexes(l)
			if len(idx) == 0 {
				continue
			}
			h := hit{line: loose(string(l)), at: p.StartAt, till: p.DoneAt, idx: idx}
			for _, mk := range p.WriteAt[i] {
				if mk.End >= off {
					h.at, h.till = mk.Begun, mk.At
					break
				}
			}
			if off == len(p.Wrote[i]) && (off == 0 || p.Wrote[i][off-1] != '\n') {
				h.till = p.DoneAt // the last line is complete only when the stream ends
			}
			known[h.line] = append(known[h.line], idx...)
			hits = append(hits, h)
		}
	}
	alert := pb.ReportReason_Alert
	if m.quantity > 0 {
		alert = pb.ReportReason_AlertRate
	}
	if n := m.sent(pb.ReportReason_Alert, pb.ReportReason_AlertRate) - m.sent(alert); n > 0 {
		r.Fail("alert of the wrong kind", "%d", n)
	}
	alerts := m.of(alert)
	has := map[string]bool{} // delivered
	for _, a := range alerts {
		if len(a.matches) == 0 {
			r.Fail("alert without a match", "alert made at %v", a.first)
		}
		for _, x := range a.matches {
			l, at := loose(x.Line), fmt.Sprint(x.Index)
			if known[l] == nil {
				r.Fail("match invented", "%q is reported as a match", clip(x.Line))
			}
			if !contains(known[l], at) && !contains(known[l], "*") {
				r.Fail("match misplaced", "%q is reported to match at %v, rules match at %v", clip(x.Line), at, known[l])
			}
			if a.got > 0 {
				has[l] = true
				has[l+"\x00"+at] = true
			}
		}
	}
	m.delivered(alerts, "alert")
	// equal lines are matches of their own
	due := map[string]int{}
	for _, h := range hits {
		due[h.line] += len(h.idx)
	}
	type entry struct {
		line, index string
		at          int64
	}
	most, sum, early := map[entry]int{}, map[entry]int{}, map[entry]bool{}
	acked := map[entry]time.Duration{} // first acknowledged
	for _, a := range alerts {
		for _, x := range a.matches {
			k := entry{loose(x.Line), fmt.Sprint(x.Index), x.Time.UnixNano()}
			if at, ok := acked[k]; a.acked > 0 && (!ok || a.ackAt < at) {
				acked[k] = a.ackAt
			}
		}
	}
	for _, a := range alerts {
		n := map[string]int{}
		e := map[entry]int{}
		for _, x := range a.matches {
			l := loose(x.Line)
			n[l]++
			if n[l] > due[l] {
				r.Fail("match invented", "%q is reported %d times in one alert, it matched %d times", clip(x.Line), n[l], due[l])
			}
			e[entry{l, fmt.Sprint(x.Index), x.Time.UnixNano()}]++
		}
		if a.got == 0 {
			continue
		}
		for k, v := range e {
			sum[k] += v
			if v > most[k] {
				most[k] = v
			}
			if at, ok := acked[k]; len(m.jumps) > 0 || ok && (a.again || a.first >= at || at <= time.Unix(0, k.at).Sub(rt.At(0))+slack) {
				early[k] = true // another of them may have come after this was acknowledged
			}
		}
	}
	// does an alert carry again what another on its way carries? only then can
	// equal entries of two alerts be known to be the same match
	again, apart := false, false
	times := map[string]int{}
	for _, h := range hits {
		times[h.line]++
	}
	for _, a := range alerts {
		for _, b := range alerts {
			if b.first <= a.first || b.first > a.first+50*time.Minute || a.acked > 0 && a.ackAt <= b.first+slack {
				continue
			}
			for _, x := range a.matches {
				if times[loose(x.Line)] != 1 {
					continue
				}
				in := false
				for _, y := range b.matches {
					in = in || x.Line == y.Line && x.Time.Equal(y.Time)
				}
				again, apart = again || in, apart || !in
			}
		}
	}
	told := map[string]int{}
	for k, v := range most {
		if early[k] || apart || !again {
			v = sum[k]
		}
		told[k.line] += v
	}
	required := m.netKind != "long"
	for _, h := range hits {
		required = required || h.at >= back
	}
	if m.quantity == 0 && required {
		for _, h := range hits {
			if told[h.line] < due[h.line] {
				r.Fail("match lost", "%q matched %d times, %d matches are in alerts delivered", clip(h.line), due[h.line], told[h.line])
			}
			if !has[h.line] {
				r.Fail("match lost", "%q, written at %v, is in none of the %d alerts delivered", clip(h.line), h.till, len(alerts))
			}
			for _, at := range h.idx {
				if at != "*" && !has[h.line+"\x00"+at] {
					r.Fail("match lost", "the match of %q at %s, written at %v, is in none of the %d alerts delivered", clip(h.line), at, h.till, len(alerts))
				}
			}
		}
	}
	// a match acknowledged before is not carried again; equal lines cannot be told apart
	if m.quick && len(m.jumps) == 0 {
		count := map[string]int{}
		for _, h := range hits {
			count[h.line]++
		}
		for _, a := range alerts {
			if a.acked == 0 {
				continue
			}
			for _, b := range alerts {
				made := m.virt(b.CreatedAt) // to the second
				for _, y := range b.matches {
					if at := y.Time.Sub(rt.At(0)); at > made {
						made = at
					}
				}
				if made <= a.ackAt+100*time.Millisecond {
					continue
				}
				for _, x := range a.matches {
					for _, y := range b.matches {
						if x.Line == y.Line && x.Time.Equal(y.Time) && count[loose(x.Line)] == 1 {
							r.Fail("acknowledged match carried again", "%q was in an alert acknowledged at %v and in one made at %v", clip(x.Line), a.ackAt, m.virt(b.CreatedAt))
						}
					}
				}
			}
		}
	}
	if m.quantity > 0 {
		for _, a := range alerts {
			n := 0
			for _, x := range a.matches {
				if len(m.jumps) > 0 { // by when the line was written
					in := !m.quick || m.w.SinkSlow > 0
					for _, h := range hits {
						if h.line == loose(x.Line) && a.first-h.till <= m.period+2*slack {
							in = true
						}
					}
					if m.period == 0 || in {
						n++
					}
					continue
				}
				// the report is made after its last match and within the second it says
				if m.period == 0 || time.Unix(a.CreatedAt, 0).Sub(x.Time) <= m.period {
					n++
				}
			}
			if n < m.quantity {
				r.Fail("alert below the quantity", "alert with %d matches within %v, quantity %d", n, m.period, m.quantity)
			}
		}
		if m.quick && m.w.SinkSlow == 0 && m.deliver {
			// lines in the order they were written
			for i := range hits {
				for j := i + 1; j < len(hits); j++ {
					if hits[j].till < hits[i].till {
						hits[i], hits[j] = hits[j], hits[i]
					}
				}
			}
			for i := range hits {
				last := hits[i].till
				var in []hit
				for _, h := range hits[:i+1] {
					if m.period == 0 || h.at > last-m.period+slack/2 {
						in = append(in, h)
					}
				}
				// matches acknowledged before are no longer unreported
				n := 0
				for _, h := range in {
					old := false
					for _, a := range alerts {
						if a.acked > 0 && a.ackAt < last+slack {
							for _, x := range a.matches {
								if loose(x.Line) == h.line {
									old = true
								}
							}
						}
					}
					if !old {
						n += len(h.idx)
					}
				}
				if n >= m.quantity && !has[hits[i].line] {
					r.Fail("alert missing", "%d unreported matches within %v up to %q, quantity %d, and no alert delivered with it", n, m.period, clip(hits[i].line), m.quantity)
				}
			}
		}
	}
	if len(hits) > 0 {
		r.Nontrivial()
	}
}

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// --- C06 ---------------------------------------------------------------------------

func c06(r *harness.Run) {
	m := newMon(r)
	m.basics()
	m.notify()
	m.network(Pick3s(r, "good", "lossy", "outage", "outage", "dead", "hang", "slow", "edge"))
	if r.W(6) == 5 {
		m.w.Host = "h\xf6st"
	}
	m.out.body = ruleBody
	m.horizon = 6 * time.Hour
	if r.W(3) == 2 {
		m.rules = []ruleSpec{{"", "ERR[0-9]+"}}
	}
	if r.W(3) == 2 {
		m.creates = []string{"/data/out"}
		if r.W(2) == 1 {
			m.w.FS.Put("/data/out", &world.Node{Data: []byte("x"), Mode: 0o644, Mtime: rt.Now()})
		}
	}
	if r.W(4) == 3 {
		m.tWarn = time.Second
	}
	if r.W(4) == 3 {
		m.tKill = 4 * time.Second
	}
	if r.W(4) == 3 {
		m.script = &world.Script{Mem: 5000}
		m.mWarn = 4000
	}
	m.wall2()
	m.extras("rwkmMc")
	if len(m.rules) > 0 && r.W(12) == 11 { // many alerts
		m.rules, m.out.lines = []ruleSpec{{"", "[oe]"}}, 40
	}
	if r.W(8) == 7 {
		m.interrupts = append(m.interrupts, pickDur(r, 100*time.Microsecond, 3*time.Millisecond, 300*time.Millisecond, 2*time.Second))
	}
	if r.W(4) == 3 { // nothing of what fails to be written is told to others
		m.w.SinkErr = []float64{0.1, 1}[r.W(2)]
	}
	m.command()
	if r.W(2) == 1 {
		m.insertSleep()
	}
	start := rt.Elapsed()
	_ = start
	m.run()
	p := m.p
	if p == nil {
		r.Fail("command not started", "")
	}
	m.exited()
	// where they went
	addr := defaultHost
	if m.hostFlag {
		addr = m.host
	}
	for _, a := range m.net.Attempts {
		if a.Target != addr {
			r.Fail("report sent elsewhere", "to %s, configured %s", a.Target, addr)
		}
		if a.Secure == m.insecure || a.SkipVerify {
			r.Fail("encryption", "report sent with tls=%v (unverified %v), insecure requested: %v", a.Secure, a.SkipVerify, m.insecure)
		}
	}
	for _, msg := range rollbar.Told() {
		for i := 0; i < 2; i++ {
			for _, l := range linesOf(p.Wrote[i]) {
				if len(l) >= 10 && strings.Contains(msg, string(l)) {
					r.Fail("report sent elsewhere", "the error reporting service was told the line %q", clip(string(l)))
				}
			}
		}
	}
	if m.noErrors && rollbar.Count() > 0 {
		r.Fail("error report although switched off", "%d", rollbar.Count())
	}
	if m.noSuccess && m.sent(pb.ReportReason_Success) > 0 || m.noFailure && m.sent(pb.ReportReason_Failure) > 0 {
		r.Fail("report kind that was switched off", "success %d, failure %d", m.sent(pb.ReportReason_Success), m.sent(pb.ReportReason_Failure))
	}
	// what was due
	due := map[pb.ReportReason]int{}
	killed := len(p.Signals) > 0 && len(m.sentInt) == 0
	if len(m.sentInt) > 0 {
		// how it ends is C11's affair
	} else if killed {
		due[pb.ReportReason_Killed] = 1
	} else {
		if len(m.of(pb.ReportReason_Killed)) == 0 { // the limit may pass in the very moment of the end
			if p.Status == 0 && !m.noSuccess {
				due[pb.ReportReason_Success] = 1
			}
			if p.Status != 0 && !m.noFailure {
				due[pb.ReportReason_Failure] = 1
			}
			if len(m.creates) > 0 && m.w.FS.Get("/data/out") == nil {
				due[pb.ReportReason_FileNotCreated] = 1
			}
		}
		for i := 0; i < 2 && len(m.of(pb.ReportReason_Killed)) == 0; i++ {
			for _, l := range linesOf(p.Wrote[i]) {
				if m.matching(l) {
					due[pb.ReportReason_Alert] = 1
				}
			}
		}
	}
	ran := p.DoneAt - p.StartAt
	if m.tWarn > 0 && m.quick && ran > m.tWarn+slack && len(m.sentInt) == 0 {
		due[pb.ReportReason_TimeWarning] = 1
	}
	if m.mWarn > 0 && len(p.Samples) > 0 {
		due[pb.ReportReason_MemoryWarning] = 1
	}
	for _, k := range []pb.ReportReason{pb.ReportReason_Success, pb.ReportReason_Failure, pb.ReportReason_Killed, pb.ReportReason_FileNotCreated, pb.ReportReason_Alert, pb.ReportReason_TimeWarning, pb.ReportReason_MemoryWarning} {
		if due[k] == 0 {
			continue
		}
		rs := m.of(k)
		if len(rs) == 0 {
			r.Fail("due report never sent", "%v: no attempt was made (monny ended at %v, the command at %v)", k, m.w.ExitAt, p.DoneAt)
		}
		m.delivered(rs, fmt.Sprint(k))
	}
	m.delivered(m.tracked(), "every")
	// not before everything was acknowledged or had its hour
	for _, x := range m.tracked() {
		if x.acked > 0 {
			continue
		}
		if m.w.ExitAt < x.first+time.Hour-3*time.Minute {
			r.Fail("gave up early", "%v report, first tried at %v, had not been acknowledged when monny ended at %v", x.ReportReason, x.first, m.w.ExitAt)
		}
	}
	if m.quick && p.Done && m.w.ExitAt > p.DoneAt+time.Hour+3*time.Minute {
		r.Fail("held up too long", "the command ended at %v, monny at %v", p.DoneAt, m.w.ExitAt)
	}
	if len(m.reps) > 0 {
		r.Nontrivial()
	}
}

// wall2 draws jumps anywhere in the retry period.
func (m *mon) wall2() {
	r := m.r
	if r.W(3) == 2 {
		for k := r.Between(1, 2); k > 0; k-- {
			m.jumps = append(m.jumps, wallJump{pickDur(r, 700*time.Millisecond, 10*time.Second, 3*time.Minute, 20*time.Minute), pickDur(r, 2*time.Hour, -2*time.Hour, -24*time.Hour)})
		}
		r.Note("wall clock jumps %v", m.jumps)
	}
}

// --- C07 ---------------------------------------------------------------------------

func c07(r *harness.Run) {
	m := newMon(r)
	m.basics()
	m.network(Pick3s(r, "good", "lossy"))
	m.out.lines = 24
	m.out.long = r.W(6) == 5
	m.out.body = ruleBody
	ns := []int{30, 0, 1, 2, 3, 5, 10}
	m.hist = [2]int{ns[r.W(len(ns))], ns[r.W(len(ns))]}
	if r.W(16) == 15 { // long histories
		ns = []int{75, 99, 100, 101, 200, 1000, 2000}
		m.hist = [2]int{ns[r.W(len(ns))], ns[r.W(len(ns))]}
		m.out = &outSpec{lines: []int{150, 300, 1500}[r.W(3)], crlf: true, step: []time.Duration{0, 0, 0, 0, 0, 0, 0, 0, 0, 50 * time.Millisecond}}
		m.tWarn = pickDur(r, 0, 100*time.Millisecond, time.Second)
	} else if r.W(2) == 1 {
		m.rules = []ruleSpec{{"", "ERR[0-9]+"}}
	}
	if r.W(4) == 3 {
		m.tWarn = pickDur(r, 100*time.Millisecond, time.Second, 3*time.Second)
	}
	m.extras("rwh")
	if m.out.lines <= 24 && r.W(2) == 1 {
		m.sinks()
		if m.out.long && m.w.PipeCap < 4096 {
			m.w.PipeCap = 65536
		}
	}
	m.command()
	m.run()
	m.exited()
	if !m.selfEnded() {
		r.Fail("command disturbed", "")
	}
	p := m.p
	lines := 0
	for _, x := range m.reps {
		for i, h := range [][]string{x.Stdout, x.Stderr} {
			name := [...]string{"stdout", "stderr"}[i]
			all := linesOf(p.Wrote[i])
			lines += len(all)
			if len(h) > m.hist[i] {
				r.Fail("history too long", "%d lines of %s, configured %d", len(h), name, m.hist[i])
			}
			if x.ReportReason == pb.ReportReason_Success || x.ReportReason == pb.ReportReason_Failure {
				if want := m.lastHist(i); !sameLines(h, want) {
					r.Fail("history untrue", "final %s history is %q, expected %q", name, clipLines(h), clipLines(want))
				}
				continue
			}
			// some moment at which these were the last lines
			found := false
			lo := 0
			if m.quick && m.w.SinkSlow == 0 { // what had been written a while before it was made
				t := m.virt(x.CreatedAt) - slack
				for _, mk := range p.WriteAt[i] {
					if mk.At <= t {
						lo = bytes.Count(p.Wrote[i][:mk.End], []byte{'\n'})
					}
				}
			}
			for k := lo; k <= len(all) && !found; k++ {
				a := k - m.hist[i]
				if a < 0 {
					a = 0
				}
				var want []string
				for _, l := range all[a:k] {
					want = append(want, string(l))
				}
				found = sameLines(h, want)
			}
			if !found {
				r.Fail("history untrue", "%s history of a %v report made at %v is %q, which were never the last %d lines since %d", name, x.ReportReason, m.virt(x.CreatedAt), clipLines(h), m.hist[i], lo)
			}
		}
	}
	if lines > 2 && len(m.reps) > 0 {
		r.Nontrivial()
	}
}

// --- C08 ---------------------------------------------------------------------------

func c08(r *harness.Run) {
	m := newMon(r)
	m.basics()
	m.notify()
	m.network(Pick3s(r, "good", "dead", "hang", "lossy"))
	m.out.long = r.W(4) == 3
	m.out.body = ruleBody
	m.horizon = 5 * time.Hour
	w := m.w
	m.sinks()
	if m.out.long && w.PipeCap < 4096 {
		w.PipeCap = 65536
	}
	m.hist = [2]int{[]int{30, 0, 1, 2}[r.W(4)], []int{30, 0, 1, 2}[r.W(4)]}
	if r.W(2) == 1 {
		m.rules = []ruleSpec{{"", "ERR[0-9]+"}, {"level", "err"}}
		if r.W(4) == 3 { // more alerts on their way than any pool would hold
			m.rules = []ruleSpec{{"", "[oe]"}}
			m.out.lines = []int{20, 60}[r.W(2)]
			m.out.long = false
		}
	}
	if r.W(3) == 2 {
		m.mWarn = 900
	}
	if r.W(3) == 2 {
		m.mKill = 100000
	}
	w.SmapsErr = []float64{0, 0.5, 1}[r.W(3)]
	w.HostErr = r.W(4) == 3
	w.StatErr = []float64{0, 0.5}[r.W(2)]
	if r.W(3) == 2 {
		m.creates = []string{"/data/a", "/data/b"}
	}
	m.stdinPlan(true)
	switch r.W(6) {
	case 4:
		w.StdinStat = true
	case 5:
		w.StdinErr = 0.3
	}
	bad := r.W(11)
	m.command()
	reads := false
	if r.W(2) == 1 && !m.stdinOpen {
		reads = m.piped
		k := r.W(len(m.script.Ops))
		m.script.Ops = append(m.script.Ops[:k:k], append([]world.Op{{Kind: "readall"}}, m.script.Ops[k:]...)...)
	}
	if r.W(3) == 2 {
		m.insertSleep()
	}
	for i := 0; i < 2; i++ { // structured output of any shape
		if r.W(3) == 2 {
			m.script.Ops = append([]world.Op{{Kind: "out", Data: []byte(jsonLine(r, "j", i) + "\n")}}, m.script.Ops...)
		}
	}
	switch bad {
	case 7:
		w.FS.Put("/data/noexec", &world.Node{Mode: 0o644, Mtime: rt.Now()})
		m.argv = [][]string{{"nosuchprogram"}, {"/no/such/prog"}, {"/data/noexec"}, {"./prog"}, {""}, {}}[r.W(6)]
	case 8:
		w.ForkErr = 1
	case 10:
		w.PipeErr = 0.4
	case 9:
		m.flags = append(m.flags, [][]string{{"--memory-warn", "lots"}, {"--rule", "("}, {"--timeout-kill", "soon"}, {"--nosuchflag"}, {"--host", "nowhere"}, {"--stdout-history", "many"}, {"--rule-json", "x"}, {"-c", "/nosuch.yml"}}[r.W(8)]...)
	}
	r.Note("accounting errors %.2f, no host name %v, stat errors %.2f, stdin stat fails %v, stdin errors %.2f, failure to start %d", w.SmapsErr, w.HostErr, w.StatErr, w.StdinStat, w.StdinErr, bad)
	m.run()
	m.exited()
	if bad >= 7 && (bad != 10 || m.p == nil) {
		if w.ExitCode == 0 {
			r.Fail("error not reported", "monny exited 0 although it could not run the command (%d)", bad)
		}
		if m.p != nil {
			r.Fail("command run all the same", "configuration %q", m.flags)
		}
		r.Nontrivial()
		return
	}
	p := m.p
	if p == nil {
		r.Fail("command not started", "monny exited %d", w.ExitCode)
	}
	if !p.Done {
		r.Fail("command abandoned", "monny ended at %v with the command running", w.ExitAt)
	}
	if len(p.Signals) > 0 {
		r.Fail("command disturbed", "signals %v", p.Signals)
	}
	want := m.code << 8
	if m.code >= 0 && int(p.Status) != want {
		r.Fail("command disturbed", "status %#x, expected %#x", uint32(p.Status), want)
	}
	if w.ExitSeq < p.DoneSeq {
		r.Fail("command abandoned", "monny ended at %v, the command at %v", w.ExitAt, p.DoneAt)
	}
	if m.w.StdinErr == 0 && !w.StdinStat {
		m.stdinSound()
	}
	if m.quick && w.SinkSlow == 0 && !reads && p.DoneAt > m.natural()+2*slack {
		r.Fail("command held up", "it ended at %v and had to sleep for %v only", p.DoneAt, m.natural()-p.StartAt)
	}
	if m.quick && w.SinkSlow == 0 && w.ExitAt > p.DoneAt+time.Hour+3*time.Minute {
		r.Fail("held up too long", "the command ended at %v, monny at %v", p.DoneAt, w.ExitAt)
	}
	r.Nontrivial()
}

// --- C09 ---------------------------------------------------------------------------

// stdinPlan draws what is piped in. stay: the upstream may stay open.
func (m *mon) stdinPlan(stay bool) {
	r := m.r
	if r.W(4) == 0 {
		return
	}
	m.piped = true
	n := []int{0, 1, 100, 5000, 70000, 200000}[r.W(6)]
	if r.W(16) == 15 {
		n = []int{1<<20 + 1, 3 << 20, 5 << 20}[r.W(3)]
		if m.quick && r.W(4) == 3 {
			n = 9 << 20
		}
		m.w.PipeCap = 65536 // not so many steps that it never ends
		m.w.ShortRead = 0
	}
	for i := 0; i < n; i++ {
		m.stdin = append(m.stdin, byte('a'+i%26))
		if i%79 == 78 {
			m.stdin[i] = '\n'
		}
		if i%83 == 82 {
			m.stdin[i] = byte(i)
		}
	}
	rest := m.stdin
	for len(rest) > 0 {
		k := len(rest)
		if r.W(2) == 1 {
			k = 1 + r.W(len(rest))
		}
		m.stdinOps = append(m.stdinOps, world.Op{Kind: "out", Data: rest[:k:k]})
		rest = rest[k:]
		if r.W(3) == 2 {
			m.stdinOps = append(m.stdinOps, world.Op{Kind: "sleep", D: pickDur(r, time.Millisecond, time.Second, 20*time.Second)})
		}
	}
	if stay && r.W(3) == 2 {
		m.stdinOpen = true
	} else if stay && r.W(3) == 2 {
		m.stdinOps = append(m.stdinOps, world.Op{Kind: "sleep", D: pickDur(r, time.Second, 10*time.Minute)})
	}
	r.Note("%d bytes piped in by %d steps, upstream stays open %v", len(m.stdin), len(m.stdinOps), m.stdinOpen)
}

// stdinSound checks what the command read.
func (m *mon) stdinSound() {
	p := m.p
	if !bytes.HasPrefix(m.stdin, p.Got) {
		m.r.Fail("input altered", "%s", diffAt(p.Got, m.stdin))
	}
	if p.GotEOF && !bytes.Equal(p.Got, m.stdin) {
		m.r.Fail("input cut short", "the command read %d of %d bytes and then end of file", len(p.Got), len(m.stdin))
	}
}

func c09(r *harness.Run) {
	m := newMon(r)
	m.basics()
	m.network("good")
	m.stdinPlan(true)
	w := m.w
	if !m.piped {
		switch r.W(3) {
		case 1:
			w.TerminalStdin()
		case 2: // not a pipeline either
			w.FileStdin([]byte("from a file\n"))
		}
	}
	w.PipeCap = []int{65536, 4096, 64}[r.W(3)]
	w.ShortRead = []float64{0, 0.1, 0.6}[r.W(3)]
	if len(m.stdin) > 10000 && w.PipeCap < 4096 {
		w.PipeCap = 4096
	}
	if len(m.stdin) > 1000000 {
		w.PipeCap = 65536
		w.ShortRead = []float64{0, 0.1}[r.W(2)]
	}
	m.out.lines = 4
	m.extras("")
	m.command()
	ops := m.script.Ops
	var add []world.Op
	kind := r.W(5)
	switch kind {
	case 0:
		add = []world.Op{{Kind: "readall"}}
	case 1:
		for k := r.Between(1, 4); k > 0; k-- {
			add = append(add, world.Op{Kind: "read", N: []int{1, 10, 5000}[r.W(3)]})
		}
	case 2:
		add = []world.Op{{Kind: "read", N: 10}, {Kind: "closein"}, {Kind: "sleep", D: pickDur(r, time.Millisecond, 3*time.Second)}}
	case 3: // reads nothing
	case 4:
		add = []world.Op{{Kind: "sleep", D: time.Second}, {Kind: "readall"}}
	}
	need := 0
	for _, op := range add {
		if op.Kind == "read" {
			need += op.N
		}
	}
	if m.stdinOpen && (kind == 0 || kind == 4 || need > len(m.stdin)) {
		add = add[:0] // it would wait for ever, rightly
		kind = 3
	}
	k := r.W(len(ops))
	m.script.Ops = append(ops[:k:k], append(add, ops[k:]...)...)
	m.script.IgnorePipe = true
	m.run()
	m.exited()
	p := m.p
	if p == nil || !p.Done || len(p.Signals) > 0 {
		r.Fail("command disturbed", "signals %v", p != nil)
	}
	m.stdinSound()
	if !m.piped && len(p.Got) > 0 {
		r.Fail("input invented", "%q", p.Got)
	}
	if (kind == 0 || kind == 4) && !p.GotEOF {
		r.Fail("no end of file", "")
	}
	if m.quick && m.w.ExitAt > p.DoneAt+2*slack {
		r.Fail("exit blocked", "the command ended at %v, monny at %v", p.DoneAt, m.w.ExitAt)
	}
	if m.quick && !m.piped && p.DoneAt > m.natural()+2*slack {
		r.Fail("input end blocked", "the command had to wait for the end of its input: ended at %v", p.DoneAt)
	}
	if m.piped {
		r.Nontrivial()
	}
}

// natural is how long the script takes when nothing holds it up.
func (m *mon) natural() time.Duration {
	var d time.Duration
	for _, op := range m.script.Ops {
		if op.Kind == "sleep" {
			d += op.D
		}
	}
	return m.p.StartAt + d
}

// --- C10 ---------------------------------------------------------------------------

func c10(r *harness.Run) {
	m := newMon(r)
	m.basics()
	m.notify()
	m.network(Pick3s(r, "good", "lossy", "outage"))
	all := [][]string{{"/data/a", "/data/b.log", "/data/sub/c", "/tmp/with space"}, {"/data/ab", "/data/a", "rel", "/data/"}, {"/data/$x", "./d.%s", "/d/*", "/data/a,b"}, {"/data/out[1]", "~/x", "/data/o?t", "${HOME}/x"}, {"/data/f/", "/data/f", "-out", "/data/f/x"}, {"/data/sub/../a", "/data//b", "../up", "/data/sub"}}[r.W(6)]
	n := r.Between(1, 4)
	m.extras("c")
	if len(m.file) == 0 && r.W(4) == 3 {
		all = []string{"/data/caf\xe9", "/data/\xff\xfe", "/data/ünï", "/data/ok"}
	}
	if r.W(8) == 7 { // long names
		all = []string{"/data/" + strings.Repeat("long/", 30) + "a", "/data/" + strings.Repeat("long/", 30) + "b", "/data/" + strings.Repeat("n", 200), "/data/" + strings.Repeat("n", 199)}
	}
	if r.W(12) == 11 { // many
		all = append([]string{}, all...)
		for n = r.Between(6, 24); len(all) < n; {
			all = append(all, fmt.Sprintf("/data/part-%d", len(all)))
		}
	}
	m.command()
	if r.W(2) == 1 { // files that are not the ones asked for
		for _, f := range []string{"/data/f", "/d/x", "/data/out1", "/data/out", "/root/x", "/home/u/x", "/x", "/data/A", "/data/a.bak", "/data/aa", "/data/b", "/data/B.log", "/work/data/a", "/a", "/c", "/data/c", "/tmp/with", "/work/space", "/rel", "/data/rel", "/work/REL", "/data/", "/d/rel", "/target"} {
			m.w.FS.Put(f, &world.Node{Data: []byte("not this one"), Mode: 0o644, Mtime: rt.Now()})
		}
	}
	for i := 0; i < n; i++ {
		m.creates = append(m.creates, all[i])
		node := &world.Node{Data: bytes.Repeat([]byte{'z'}, r.W(50)), Mode: 0o644, Mtime: rt.Now()}
		k := r.W(len(m.script.Ops))
		ins := func(op world.Op) {
			m.script.Ops = append(m.script.Ops[:k:k], append([]world.Op{op}, m.script.Ops[k:]...)...)
		}
		switch r.W(10) {
		case 4:
			m.w.FS.Put(all[i], &world.Node{Mode: fs.ModeDir | 0o755, Mtime: rt.Now()})
		case 5:
			m.w.FS.Put(all[i], &world.Node{Link: "/target", Mtime: rt.Now()})
			m.w.FS.Put("/target", node)
		case 6: // leads nowhere
			m.w.FS.Put(all[i], &world.Node{Link: "/nowhere", Mtime: rt.Now()})
		case 9: // beyond what 32 bits can say
			m.w.FS.Put(all[i], &world.Node{Size: []int64{1<<31 + 1, 5<<32 + 7, 1 << 53}[r.W(3)], Mode: 0o644, Mtime: rt.Now()})
		case 7:
			m.w.FS.Put(all[i], &world.Node{Mtime: rt.Now().Add(-1000 * time.Hour)})
		case 8: // a directory cleared away
			m.w.FS.Put(all[i], &world.Node{Mode: fs.ModeDir | 0o755, Mtime: rt.Now()})
			ins(world.Op{Kind: "remove", Path: all[i]})
		case 0: // never there
		case 1:
			m.w.FS.Put(all[i], node)
		case 2:
			ins(world.Op{Kind: "create", Path: all[i], Data: node.Data})
		case 3:
			m.w.FS.Put(all[i], node)
			ins(world.Op{Kind: "remove", Path: all[i]})
		}
	}
	m.w.StatErr = []float64{0, 0, 0.3}[r.W(3)]
	m.run()
	m.exited()
	if !m.selfEnded() {
		r.Fail("command disturbed", "")
	}
	failed := rt.S.Stats["fault.stat-error"]
	reps := m.of(pb.ReportReason_FileNotCreated)
	m.delivered(reps, "file not created")
	missing := 0
	named := func(x *rep, f string) bool {
		for _, s := range x.Messages {
			if names(s, f) && strings.Contains(s, "not created") {
				return true
			}
		}
		return false
	}
	unnamed, vague := 0, 0
	for _, f := range m.creates {
		_, e := m.w.Follow(f)
		if e != nil && e != syscall.ENOENT { // can not be examined, whatever that means for its existence
			failed++
			vague++
			continue
		}
		there := e == nil
		in := 0
		for _, x := range reps {
			if named(x, f) {
				in++
			}
		}
		if there && in > 0 {
			r.Fail("existing file reported", "%s exists and is reported as not created", f)
		}
		if !there {
			missing++
			if in == 0 {
				unnamed++
				if failed == 0 {
					r.Fail("missing file not reported", "%s is missing and in none of the %d reports", f, len(reps))
				}
			}
		}
	}
	if unnamed > failed {
		r.Fail("missing file not reported", "%d missing files are in no report, %d examinations failed", unnamed, failed)
	}
	s := m.sent(pb.ReportReason_FileNotCreated)
	if s > missing+vague || s < missing-failed {
		r.Fail("missing files miscounted", "%d reports for %d missing files (%d examinations failed)", s, missing, failed)
	}
	for _, x := range reps {
		if x.Success {
			r.Fail("missing file reported as success", "%q", x.Messages)
		}
		for _, msg := range x.Messages {
			ok := false
			for _, f := range m.creates {
				if names(msg, f) {
					ok = true
				}
			}
			if !ok {
				r.Fail("message invented", "%q", msg)
			}
		}
		if x.first < m.p.DoneAt {
			r.Fail("looked too early", "reported at %v, the command ended at %v", x.first, m.p.DoneAt)
		}
	}
	m.createdTrue()
	if missing > 0 {
		r.Nontrivial()
	}
}

// names: the message is about this file.
func names(msg, f string) bool {
	msg, f = loose(msg), loose(f)
	return msg == f || strings.HasSuffix(msg, " "+f)
}

// createdTrue checks what reports say about files that were created.
func (m *mon) createdTrue() {
	for _, x := range m.reps {
		var fs []struct {
			Path string
			Size int64
			Time time.Time
		}
		if len(x.Created) == 0 {
			continue
		}
		if err := json.Unmarshal(x.Created, &fs); err != nil {
			m.r.Fail("report does not decode", "created %q: %v", x.Created, err)
		}
		for _, f := range fs {
			ok := false
			for _, c := range m.creates {
				n, err := m.w.Follow(c)
				if err == nil && (loose(filepath.Base(c)) == loose(f.Path) || loose(c) == loose(f.Path)) && n.Len() == f.Size && n.Mtime.Equal(f.Time) {
					ok = true
				}
			}
			if !ok {
				m.r.Fail("created file untrue", "report says %q was created, %d bytes at %v", f.Path, f.Size, f.Time)
			}
		}
	}
}

// --- C11 ---------------------------------------------------------------------------

func c11(r *harness.Run) {
	m := newMon(r)
	m.basics()
	m.notify()
	m.network(Pick3s(r, "good", "lossy", "outage"))
	m.out.body = ruleBody
	if r.W(3) == 2 {
		m.rules = []ruleSpec{{"", "ERR[0-9]+"}}
	}
	m.extras("r")
	m.command()
	if r.W(2) == 1 {
		m.insertSleep()
	}
	m.script.OnInt = r.W(3)
	m.script.IntCode = []int{0, 130}[r.W(2)]
	m.script.IntDelay = pickDur(r, 0, time.Millisecond, 3*time.Second)
	if r.W(4) == 3 {
		m.tWarn = time.Second
	}
	// around the end of the command, or anywhere
	for k := r.Between(1, 2); k > 0; k-- {
		var nat time.Duration
		for _, op := range m.script.Ops {
			if op.Kind == "sleep" {
				nat += op.D
			}
		}
		switch r.W(4) {
		case 0:
			m.interrupts = append(m.interrupts, nat*time.Duration(r.W(64))/64)
		case 1:
			m.interrupts = append(m.interrupts, nat+time.Duration(r.W(40))*10*time.Microsecond)
		case 2:
			m.interrupts = append(m.interrupts, time.Duration(r.W(40))*20*time.Microsecond)
		case 3:
			m.interrupts = append(m.interrupts, nat+pickDur(r, 10*time.Millisecond, time.Second, time.Minute))
		}
	}
	r.Note("interrupts %v after the start; the command does %d with one (code %d after %v)", m.interrupts, m.script.OnInt, m.script.IntCode, m.script.IntDelay)
	m.run()
	m.exited()
	p := m.p
	if m.w.ExitSig != 0 {
		r.Fail("monny killed by the interrupt", "at %v, the command had started at %v and %v", m.w.ExitAt, p.StartAt, map[bool]string{true: "ended", false: "not ended"}[p.Done])
	}
	kills := m.sent(pb.ReportReason_Killed)
	outs := m.sent(pb.ReportReason_Success, pb.ReportReason_Failure)
	if kills > 1 {
		r.Fail("signal reported twice", "%d kill reports", kills)
	}
	if kills > 0 && outs > 0 {
		r.Fail("both reported", "%d kill reports and %d outcome reports", kills, outs)
	}
	for _, x := range m.of(pb.ReportReason_Killed) {
		if !x.Killed || x.KillReason != pb.KillReason_Signal || x.Success {
			r.Fail("signal misreported", "report says killed %v for %v, success %v", x.Killed, x.KillReason, x.Success)
		}
		if len(m.sentInt) == 0 || x.first < m.sentInt[0] {
			r.Fail("signal invented", "kill report at %v, interrupts %v", x.first, m.sentInt)
		}
	}
	m.delivered(m.tracked(), "every")
	passed := time.Duration(-1)
	for _, s := range p.Signals {
		if s.By == "monny" {
			if s.Sig != syscall.SIGINT {
				r.Fail("wrong signal", "monny sent %v", s.Sig)
			}
			if passed < 0 {
				passed = s.At
			}
		}
	}
	if passed >= 0 && kills != 1 {
		r.Fail("signal not reported", "the interrupt was passed on at %v and %d kill reports were made", passed, kills)
	}
	if len(m.sentInt) > 0 && m.quick {
		at := m.sentInt[0]
		end := p.DoneAt
		if !p.Done {
			end = m.w.ExitAt
		}
		if at >= p.StartAt && (passed >= 0 || at+slack < end) {
			if passed < 0 || passed > at+slack {
				r.Fail("interrupt not passed on", "interrupt at %v, the command ran from %v to %v, passed on at %v", at, p.StartAt, end, passed)
			}
			r.Nontrivial()
		}
	}
	if len(m.sentInt) > 0 && kills == 0 && p.Done {
		// then it is the command's own outcome
		off := m.noSuccess
		if p.Status != 0 {
			off = m.noFailure
		}
		if outs == 0 && !off {
			r.Fail("neither reported", "interrupt at %v, command ended at %v with %#x: nothing reported, monny exited %d", m.sentInt, p.DoneAt, uint32(p.Status), m.w.ExitCode)
		}
	}
	if !p.Done && kills == 0 {
		r.Fail("command abandoned", "monny exited at %v", m.w.ExitAt)
	}
}

func monPlan(stall bool) func(r *harness.Run) rt.Config {
	return func(r *harness.Run) rt.Config {
		c := r.Sched()
		if stall {
			r.Stalls(&c)
		}
		c.MaxTime = 30 * time.Hour
		c.MaxSteps = 24000000
		return c
	}
}

func init() {
	stub := []string{"scheduler", "sync", "time and timers", "os/exec, the monitored command and its memory accounting", "standard streams and pipes", "file system", "signals", "grpc transport, network and report server", "rollbar", "context", "randomness"}
	real := []string{"cmd/monny", "pkg/monny (parsing, configuration, execution, handlers, rules, reports, memory)", "pkg/pb and protobuf encoding", "cenkalti/backoff", "pflag", "yaml"}
	reg := func(id, title, rule string, body func(*harness.Run), q, t int) {
		harness.Register(&harness.Prop{ID: id, Title: title, Rule: rule, Plan: monPlan(true), Body: body, Real: real, Stub: stub, Quick: q, Thorough: t})
	}
	reg("C01", "pass-through of output", "Each run draws a command's output on both streams (lengths, bytes, pieces, pauses, early closed streams, background holders), monny's own output failing, torn or slow, and the network; non-trivial when the command wrote something.", c01, 150000, 6000000)
	reg("C02", "outcome report", "Each run draws output, exit status or fatal signal, notification switches, history sizes, clock jumps and network faults; every run is non-trivial: one outcome is due or ruled out.", c02, 150000, 6000000)
	reg("C03", "timeouts", "Each run draws a kill and/or warning timeout, a run time around it, clock jumps and network faults; non-trivial when a limit passed while the command ran.", c03, 150000, 6000000)
	reg("C04", "memory limits", "Each run draws memory over time, limits in every unit, daemon mode, unreadable accounting and network faults; non-trivial when a limit was reached or several samples were taken.", c04, 150000, 6000000)
	reg("C05", "alert rules", "Each run draws plain and JSON rules, matching and near-matching lines on both streams, quantity and period, and network faults; non-trivial when a line matched.", c05, 150000, 6000000)
	reg("C06", "report delivery", "Each run draws which reports fall due and refused connections, lost requests and acknowledgements, negative acknowledgements, server errors, outages, hanging calls, an unreachable server and clock jumps; non-trivial when a report was attempted.", c06, 150000, 6000000)
	reg("C07", "report history", "Each run draws history sizes from 0, output on both streams, and reports in the middle of it; non-trivial when at least three lines were written and a report was made.", c07, 150000, 6000000)
	reg("C08", "no harm", "Each run draws failing, torn and slow sinks, unreadable input and accounting, failing stat, missing host name, unreachable and hanging server, commands that cannot start and bad configuration; every run is non-trivial.", c08, 150000, 6000000)
	reg("C09", "standard input", "Each run draws what is piped in, in which pieces and pauses, whether the upstream stays open, and how the command reads; non-trivial when there is a pipe.", c09, 150000, 6000000)
	reg("C10", "expected files", "Each run draws files that exist, appear, vanish or never exist, failing examinations, exit status, notification switches and network faults; non-trivial when a file is missing.", c10, 150000, 6000000)
	reg("C11", "signals", "Each run draws one or two interrupts at any moment, dense around the start and the end of the command, what the command does with one, and network faults; non-trivial when an interrupt came while the command ran.", c11, 150000, 6000000)
	reg("C12", "settings", "Each run draws settings, spreads them over flags and a configuration file in any order (the order in which the file's entries are met is the scheduler's), invalid ones and an unreadable file; non-trivial when there is more than one setting.", c12, 150000, 6000000)
}

// --- C12 ---------------------------------------------------------------------------

type setting struct {
	name, val string // val as the flag takes it
	list      bool
	sw        bool // a switch
}

// wanted is the configuration that settings in this order ask for.
type wanted struct {
	ID                               string
	Rules                            []ruleJSON
	NotifyTimeout, KillTimeout       time.Duration
	MemoryWarn, MemoryKill           uint64
	Daemon                           bool
	Creates                          []string
	StdoutHistory, StderrHistory     int
	NotifyOnSuccess, NotifyOnFailure bool
	Shell                            string
	host                             string
	insecure, noErrors               bool
}

type ruleJSON struct{ Field, Regex string }

func (w *wanted) apply(s setting) {
	num := func() (n int) { fmt.Sscan(s.val, &n); return }
	dur := func() time.Duration { d, _ := time.ParseDuration(s.val); return d }
	mem := func() uint64 {
		n, unit := uint64(0), ""
		fmt.Sscanf(s.val, "%d%s", &n, &unit)
		return n * map[string]uint64{"": 1, "K": 1, "M": 1000, "G": 1000000}[unit]
	}
	on := s.val != "false"
	switch s.name {
	case "id":
		w.ID = s.val
	case "rule":
		w.Rules = append(w.Rules, ruleJSON{"", s.val})
	case "rule-json":
		k := strings.IndexByte(s.val, ':')
		w.Rules = append(w.Rules, ruleJSON{s.val[:k], s.val[k+1:]})
	case "stdout-history":
		w.StdoutHistory = num()
	case "stderr-history":
		w.StderrHistory = num()
	case "no-notify-on-success":
		w.NotifyOnSuccess = !on
	case "no-notify-on-failure":
		w.NotifyOnFailure = !on
	case "daemon":
		w.Daemon = on
	case "memory-warn":
		w.MemoryWarn = mem()
	case "memory-kill":
		w.MemoryKill = mem()
	case "timeout-warn":
		w.NotifyTimeout = dur()
	case "timeout-kill":
		w.KillTimeout = dur()
	case "creates":
		w.Creates = append(w.Creates, s.val)
	case "host":
		w.host = s.val
	case "insecure":
		w.insecure = on
	case "no-error-reports":
		w.noErrors = on
	case "shell":
		w.Shell = s.val
		if p, ok := map[string]string{"zsh": "/usr/bin/zsh", "sh": "/bin/sh"}[s.val]; ok {
			w.Shell = p // found on the search path
		}
	}
}

func drawSetting(r *harness.Run) setting {
	s := func(n string, vs ...string) setting { return setting{name: n, val: vs[r.W(len(vs))]} }
	l := func(n string, vs ...string) setting { x := s(n, vs...); x.list = true; return x }
	b := func(n string) setting {
		return setting{name: n, val: []string{"true", "true", "false"}[r.W(3)], sw: true}
	}
	switch r.W(16) {
	case 0:
		return l("rule", "ERR[0-9]+", "a b", "^x$", "fatal:", "5", "(?i)warn", " sp ", "a,b", "$HOME", "a=b", "-x", "true", "1e3", "~", "")
	case 1:
		return l("rule-json", "level:error", "a.b:x:y", "msg:^ok$", "code:500", "level: err ", "a:b,c", "k: ", " lead:err", "sp ace :x", "a..b:x")
	case 2:
		return s("stdout-history", "0", "1", "75", "2000", "70000", "1000000000", "5000000000", "-1")
	case 3:
		return s("stderr-history", "0", "1", "75", "2000", "70000", "1000000000", "5000000000", "-1")
	case 4:
		return b("no-notify-on-success")
	case 5:
		return b("no-notify-on-failure")
	case 6:
		return b("daemon")
	case 7:
		return s("memory-warn", "100000K", "100M", "2G", "123456", "1000", "4096000K", "9999M", "7000G")
	case 8:
		return s("memory-kill", "200000K", "300M", "2G", "123456", "1000", "4096000K", "9999M", "7000G")
	case 9:
		return s("timeout-warn", "10m", "90s", "1h30m", "2h", "1h0m0.5s", "36000000ms", "3h0m0.000000001s", "400h")
	case 10:
		return s("timeout-kill", "10m", "90s", "1h30m", "2h", "1h0m0.5s", "36000000ms", "3h0m0.000000001s", "400h")
	case 11:
		return l("creates", "/data/a", "/data/with space", "rel/path", "/x:y", "$HOME/x", "~/x", "/a,b", "/d/*", " lead", "5", "null", "")
	case 12:
		return s("host", "reports.example:7000", "other.example:8080", "localhost:7000", "h:80", "10.0.0.1:443", "Host-2.example:1", "h:https", "www.example.org:7000", "UPPER.example:443", "api.example.co.uk:08080")
	case 13:
		return b("insecure")
	case 14:
		return b("no-error-reports")
	default:
		return s("shell", "/bin/sh", "/usr/bin/zsh", "zsh", "sh")
	}
}

// yamlFile writes settings as a configuration file.
func yamlFile(r *harness.Run, ss []setting) string {
	var b strings.Builder
	lists := map[string][]string{}
	q := func(v string, bare bool) string {
		if bare && r.W(2) == 1 {
			return v
		}
		return []string{"'" + v + "'", "\"" + v + "\""}[r.W(2)]
	}
	var order []string
	for _, s := range ss {
		if s.list {
			if lists[s.name] == nil {
				order = append(order, s.name)
			}
			lists[s.name] = append(lists[s.name], s.val)
			continue
		}
		switch {
		case s.sw:
			vs := map[string][]string{"true": {"true", "yes", "on", "'true'", "1", "True"}, "false": {"false", "no", "off", "\"false\"", "0", "FALSE"}}[s.val]
			fmt.Fprintf(&b, "%s: %s\n", s.name, vs[r.W(len(vs))])
		default:
			n := strings.Trim(s.val, "0123456789") == ""
			fmt.Fprintf(&b, "%s: %s\n", s.name, q(s.val, n))
		}
	}
	for _, k := range order {
		vs := lists[k]
		if len(vs) == 1 && r.W(2) == 1 {
			fmt.Fprintf(&b, "%s: %s\n", k, q(vs[0], false))
			continue
		}
		if r.W(3) == 2 {
			var qs []string
			for _, v := range vs {
				qs = append(qs, q(v, false))
			}
			fmt.Fprintf(&b, "%s: [%s]\n", k, strings.Join(qs, ", "))
			continue
		}
		fmt.Fprintf(&b, "%s:\n", k)
		for _, v := range vs {
			fmt.Fprintf(&b, "  - %s\n", q(v, false))
		}
	}
	return b.String()
}

func c12(r *harness.Run) {
	m := newMon(r)
	m.network("good")
	w := m.w
	for _, p := range []string{"/bin/sh", "/usr/bin/zsh"} {
		w.Programs[p] = &world.Script{}
	}
	if r.W(10) == 9 {
		m.garbage()
		return
	}
	want := wanted{StdoutHistory: 30, StderrHistory: 30, NotifyOnSuccess: true, NotifyOnFailure: true, Shell: "/bin/sh", host: defaultHost}
	var flags, file []setting
	inFile := map[string]bool{}
	useFile := r.W(3) > 0
	for k := r.W(9); k > 0; k-- {
		s := drawSetting(r)
		if useFile && r.W(2) == 1 && (s.list || !inFile[s.name]) {
			inFile[s.name] = true
			file = append(file, s)
		} else {
			flags = append(flags, s)
		}
	}
	if r.W(12) == 11 { // long lists
		for k := r.Between(10, 60); k > 0; k-- {
			s := setting{name: []string{"rule", "creates"}[r.W(2)], val: fmt.Sprintf("entry%d", k), list: true}
			if useFile && k%4 > 0 {
				file = append(file, s)
			} else {
				flags = append(flags, s)
			}
		}
	}
	id := setting{name: "id", val: []string{"job-1", "someone@example.com", "x y", "Job.A/B", " padded ", "123", "\u00dcber"}[r.W(7)]}
	if useFile && r.W(2) == 1 {
		file = append(file, id)
	} else {
		k := r.W(len(flags) + 1)
		flags = append(flags[:k:k], append([]setting{id}, flags[k:]...)...)
	}
	if r.W(8) == 7 && !(useFile && file != nil && file[len(file)-1].name == "id") { // an identity given again
		k := r.W(len(flags) + 1)
		flags = append(flags[:k:k], append([]setting{{name: "id", val: "again"}}, flags[k:]...)...)
	}
	at := -1
	if useFile {
		at = r.W(len(flags) + 1)
	}
	fileSettings := func() {
		// scalars have one entry each; of the lists only the order within matters
		for _, s := range file {
			want.apply(s)
		}
	}
	args := []string{"monny"}
	text := ""
	addFile := func() {
		text = yamlFile(r, file)
		w.FS.Put("/etc/monny.yml", &world.Node{Data: []byte(text), Mode: 0o644, Mtime: rt.Now()})
		args = append(args, [][]string{{"-c", "/etc/monny.yml"}, {"--config=/etc/monny.yml"}, {"--config", "/etc/monny.yml"}, {"-c=/etc/monny.yml"}}[r.W(4)]...)
	}
	for i, s := range flags {
		if i == at {
			addFile()
			fileSettings()
		}
		switch {
		case s.name == "id" && r.W(2) == 1:
			args = append(args, "-i", s.val)
		case s.sw && s.val == "true" && r.W(2) == 1:
			args = append(args, "--"+s.name)
		case s.sw:
			vs := map[string][]string{"true": {"true", "1", "t", "TRUE"}, "false": {"false", "0", "F", "False"}}[s.val]
			args = append(args, "--"+s.name+"="+vs[r.W(len(vs))])
		case r.W(2) == 1:
			args = append(args, "--"+s.name+"="+s.val)
		default:
			args = append(args, "--"+s.name, s.val)
		}
		want.apply(s)
	}
	if at == len(flags) {
		addFile()
		fileSettings()
	}
	bad := r.W(8)
	switch bad {
	case 5:
		x := [][]string{{"--memory-warn", "lots"}, {"--memory-kill=12T"}, {"--memory-warn", "5m"}, {"--memory-kill", "1.5G"}, {"--memory-kill", "10k"}, {"--memory-warn=10g"}, {"--memory-kill", " 10"}, {"--memory-kill=10 "}, {"--memory-warn", "\t10"}, {"--host", "http://h:80"}, {"--memory-kill", "K"}, {"--memory-warn", "10 M"}, {"--memory-warn", "100MB"}, {"--timeout-kill", "10"}, {"--host", "a:b:c"}, {"--rule", "("}, {"--rule-json", "f:["}, {"--rule-json", "nocolon"}, {"--timeout-kill", "soon"}, {"--timeout-warn", "5"}, {"--nosuchflag"}, {"--host", "nowhere"}, {"--stdout-history", "many"}, {"--stderr-history=1.5"}, {"--daemon=perhaps"}, {"--shell", "/nosuch/shell"}, {"-c", "/nosuch.yml"}, {"--timeout-warn="}, {"--timeout-kill", ""}, {"--stdout-history="}, {"--stderr-history", " 5"}, {"--host="}, {"--memory-kill="}, {"--shell="}, {"--daemon="}, {"--rule-json="}, {"-c", ""}, {"--daemon= true"}, {"--insecure=\ttrue"}, {"--no-error-reports=yes"}}[r.W(40)]
		args = append(args, x...)
	case 6:
		if useFile {
			x := []string{"nosuch: 1", "memory-warn: lots", "rule: '('", "timeout-kill: 12", "daemon: perhaps", "stdout-history: [1, 2]", "id: [a, b]", "]", "host: ", "rule-json: nocolon", "stderr-history: 1.5", "timeout-kill: ''", "stdout-history: ''", "host: \"\"", "memory-warn: ''", "shell: ''", "daemon: ''", "rule-json: ['a:b', '']", "rule: {a: b}", "rule-json: [nocolon]", "creates: {a: b}", "rule: [ok, '(']", "? [a, b]\n: c", "{a: b}: c"}[r.W(24)]
			w.FS.Get("/etc/monny.yml").Data = append(w.FS.Get("/etc/monny.yml").Data, (x + "\n")...)
			text += x
			for _, s := range file { // a second entry of the same name would be another error
				if strings.HasPrefix(x, s.name+":") {
					text += " (twice)"
				}
			}
		} else {
			bad = 0
		}
	case 7:
		if useFile {
			e := []error{syscall.EIO, syscall.EACCES, syscall.EISDIR, syscall.ENOENT}[r.W(4)]
			w.FS.Get("/etc/monny.yml").Gen = func() ([]byte, error) { return nil, e }
		} else {
			bad = 0
		}
	default:
		bad = 0
	}
	m.argv = append(m.argv, [][]string{{}, {"-v"}, {"--rule", "x y"}, {"-c", "nothere", "--", "-i", "other"}, {"--daemon"}, {"--"}, {"x", ""}, {""}, {" a "}}[r.W(9)]...)
	if r.W(12) == 11 { // a program of any name
		m.argv[0] = []string{"--", "-i", "--daemon", "-"}[r.W(4)]
	}
	args = append(append(args, "--"), m.argv...)
	// there is a report to read it from unless both kinds are off
	code := 0
	if !want.NotifyOnSuccess {
		code = 1
	}
	m.script = &world.Script{Mem: 10, Ops: []world.Op{{Kind: "sleep", D: 10 * time.Millisecond}, {Kind: "exit", N: code}}}
	fails := r.W(3) == 2 // something goes wrong that error reports are for
	if fails {
		w.SinkErr = 1
		m.script.Ops = append([]world.Op{{Kind: "out", Data: []byte("line\n")}}, m.script.Ops...)
	}
	w.Programs[m.argv[0]] = m.script
	m.srv = m.net.Listen(want.host, !want.insecure)
	os.Reset(args)
	r.Note("command line %q, file %q, invalid %d", args, text, bad)
	w.Start(monnymain.Main)
	w.WaitExit(m.horizon)
	rt.Settle()
	if len(w.Procs) > 0 {
		m.p = w.Procs[0]
	}
	m.collect()
	m.exited()
	if bad > 0 {
		if m.p != nil || w.ExitCode == 0 {
			r.Fail("invalid settings accepted", "the command ran: %v, monny exited %d", m.p != nil, w.ExitCode)
		}
		r.Nontrivial()
		return
	}
	if m.p == nil {
		r.Fail("valid settings rejected", "monny exited %d and ran nothing", w.ExitCode)
	}
	if got, exp := strings.Join(m.p.Argv, "\x00"), strings.Join(m.argv, "\x00"); got != exp {
		r.Fail("command altered", "ran %q, written %q", m.p.Argv, m.argv)
	}
	for _, a := range m.net.Attempts {
		if a.Target != want.host || a.Secure == want.insecure {
			r.Fail("setting ignored", "report sent to %s, tls %v; written host %s, insecure %v", a.Target, a.Secure, want.host, want.insecure)
		}
	}
	if n := rollbar.Count(); want.noErrors && n > 0 || !want.noErrors && n == 0 && fails {
		r.Fail("setting ignored", "%d error reports, written no-error-reports: %v", n, want.noErrors)
	}
	if n := m.sent(pb.ReportReason_Success); n > 0 && !want.NotifyOnSuccess {
		r.Fail("setting ignored", "success report although switched off")
	}
	if n := m.sent(pb.ReportReason_Failure); n > 0 && !want.NotifyOnFailure {
		r.Fail("setting ignored", "failure report although switched off")
	}
	if want.NotifyOnSuccess && m.sent(pb.ReportReason_Success) == 0 || !want.NotifyOnSuccess && want.NotifyOnFailure && m.sent(pb.ReportReason_Failure) == 0 {
		r.Fail("setting invented", "the outcome is not reported although nothing switched it off")
	}
	for _, x := range m.reps {
		var got wanted
		if err := json.Unmarshal(x.Config, &got); err != nil {
			r.Fail("report does not decode", "configuration %q: %v", x.Config, err)
		}
		cmp := want
		cmp.host, cmp.insecure, cmp.noErrors = "", false, false
		g, e := fmt.Sprintf("%+v", got), fmt.Sprintf("%+v", cmp)
		if useFile { // the order of lists of different names in the file is the file's
			g, e = canon(got), canon(cmp)
		}
		if g != e {
			r.Fail("setting ignored", "in effect %s, written %s", g, e)
		}
		if x.Id != want.ID {
			r.Fail("setting ignored", "report of %q, written id %q", x.Id, want.ID)
		}
	}
	if len(flags)+len(file) > 1 {
		r.Nontrivial()
	}
}

// garbage runs monny with settings of any shape: it may refuse them or run with
// them, but says so and ends.
func (m *mon) garbage() {
	r, w := m.r, m.w
	names := []string{"id", "rule", "rule-json", "stdout-history", "stderr-history", "no-notify-on-success", "no-notify-on-failure", "daemon", "memory-warn", "memory-kill", "timeout-warn", "timeout-kill", "creates", "host", "insecure", "no-error-reports", "shell", "config", "x", ""}
	bits := []string{"", "a", ":", "::", "x:y", "-1", "0", "9", "99999999999999999999", "K", "M", "G", "1", ".", "m", "h", "(", "[", "*", "\\", "true", "false", "\xff", " ", "\n", "\t", "\"", "'", "{", "}", "]", "- ", "#", "&a", "*a", "!!int", "~", "null", "e9", "0x10", "%s", "|", ">", "?", "---", "<<"}
	val := func() string {
		var b strings.Builder
		for k := r.W(4); k > 0; k-- {
			b.WriteString(bits[r.W(len(bits))])
		}
		return b.String()
	}
	args := []string{"monny"}
	if r.W(2) == 1 {
		args = append(args, "-i", "job-1")
	}
	if r.W(2) == 1 {
		var b strings.Builder
		for k := r.W(5); k > 0; k-- {
			switch r.W(6) {
			case 5: // shapes that parsers trip over
				q := []string{"'", "\""}[r.W(2)]
				fmt.Fprintf(&b, "%s:\n  - %s%s\n%s%s%s\n", names[r.W(len(names))], q, []string{"", "\n  - ", "\n  -"}[r.W(3)], []string{"?", "-", ":", "%", ""}[r.W(5)], q, []string{"a", "", " a", ": a", "- a"}[r.W(5)])
			case 0:
				b.WriteString(val())
			case 1:
				fmt.Fprintf(&b, "%s:\n  - %s\n  - %s\n", names[r.W(len(names))], val(), val())
			case 2:
				fmt.Fprintf(&b, "%s: [%s, %s]\n", names[r.W(len(names))], val(), val())
			case 3:
				fmt.Fprintf(&b, "%s: {%s: %s}\n", names[r.W(len(names))], val(), val())
			default:
				fmt.Fprintf(&b, "%s: %s\n", names[r.W(len(names))], val())
			}
		}
		w.FS.Put("/etc/monny.yml", &world.Node{Data: []byte(b.String()), Mode: 0o644, Mtime: rt.Now()})
		args = append(args, "-c", "/etc/monny.yml")
		r.Note("configuration file: %q", b.String())
	}
	for k := r.W(5); k > 0; k-- {
		n := names[r.W(len(names))]
		if r.W(2) == 1 {
			args = append(args, "--"+n+"="+val())
		} else {
			args = append(args, "--"+n, val())
		}
	}
	args = append(args, "--")
	if r.W(8) != 7 {
		args = append(args, "prog")
	}
	m.script = &world.Script{Mem: 10, Ops: []world.Op{{Kind: "out", Data: []byte("line\n{\"a\":{\"x\":1}}\n")}, {Kind: "sleep", D: pickDur(r, time.Millisecond, 3*time.Second)}}}
	w.Programs["prog"] = m.script
	m.srv = m.net.Listen(defaultHost, true)
	os.Reset(args)
	r.Note("command line %q", args)
	w.Start(monnymain.Main)
	w.WaitExit(m.horizon)
	rt.Settle()
	m.exited()
	if w.ExitSig != 0 {
		r.Fail("monny died", "of signal %v", w.ExitSig)
	}
	if len(w.Procs) == 0 && w.ExitCode == 0 {
		r.Fail("error not reported", "monny exited 0 and ran nothing")
	}
	if len(w.Procs) > 1 {
		r.Fail("command run twice", "")
	}
	r.Nontrivial()
}

// canon prints a configuration with plain rules before JSON rules, each in order.
func canon(w wanted) string {
	var a, b []ruleJSON
	for _, x := range w.Rules {
		if x.Field == "" {
			a = append(a, x)
		} else {
			b = append(b, x)
		}
	}
	w.Rules = append(a, b...)
	return fmt.Sprintf("%+v", w)
}
