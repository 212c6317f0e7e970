package scen

import (
	"bytes"
	"encoding/json"
	"fmt"
	"regexp"
	"strings"
	"syscall"
	"time"
	"unsafe"

	monnymain "github.com/BTBurke/monny/cmd/monny"
	"github.com/BTBurke/monny/pkg/monny"
	"github.com/BTBurke/monny/pkg/pb"
	"github.com/golang/protobuf/proto"

	"simverif/harness"
	"simverif/netsim"
	"simverif/rt"
	"simverif/shim/os"
	"simverif/world"
)

// rep is one report that monny tried to send.
type rep struct {
	*pb.Report
	raw     []byte
	first   time.Duration // first attempt
	again   bool          // reads the same as one that was acknowledged before
	tries   int
	got     int           // reached the server and accepted
	acked   int           // and the acknowledgement arrived
	recvAt  time.Duration // first accepted
	ackAt   time.Duration // first acknowledgement
	matches []match
}

type match struct {
	Time  time.Time
	Line  string
	Index [][]int
}

// sends is how many reports these bytes stand for: a report is not sent again
// once it was acknowledged.
func (p *rep) sends() int {
	if p.acked > 1 {
		return p.acked
	}
	return 1
}

type ruleSpec struct {
	field string
	re    string
}

type wallJump struct {
	at time.Duration
	d  time.Duration
}

// mon is one run of the whole program.
type mon struct {
	r     *harness.Run
	w     *world.World
	net   *netsim.Net
	srv   *netsim.Server
	quick bool // timing may be judged

	// configuration
	id         string
	flags      []string
	file       map[string][]string // configuration file entries instead of flags
	argv       []string
	hist       [2]int
	noSuccess  bool
	noFailure  bool
	daemon     bool
	insecure   bool
	hostFlag   bool
	host       string // where reports are to go if hostFlag
	tKill      time.Duration
	tWarn      time.Duration
	mKill      uint64
	mWarn      uint64
	creates    []string
	rules      []ruleSpec
	quantity   int
	period     time.Duration
	custom     bool // not through main: options that have no flag
	noErrors   bool
	netKind    string
	deliver    bool // everything due must arrive
	script     *world.Script
	out        *outSpec
	streams    [2][]byte
	piped      bool
	stdin      []byte
	stdinOps   []world.Op
	stdinOpen  bool // upstream never closes
	stdinPipe  *world.Pipe
	interrupts []time.Duration // relative to the start of the command; negative: of monny
	jumps      []wallJump
	sentInt    []time.Duration
	horizon    time.Duration

	// what happened
	p    *world.Proc
	reps []*rep
	code int // exit status the script asks for, -1 killed by itself
}

func newMon(r *harness.Run) *mon {
	m := &mon{r: r, w: world.New(), net: netsim.N(), quick: !stalls(&r.Sim.Cfg), id: "job-1", hist: [2]int{30, 30}, file: map[string][]string{}, deliver: true}
	m.out = &outSpec{lines: 8, binary: true, crlf: true, step: []time.Duration{0, 0, time.Millisecond, 300 * time.Millisecond, 2 * time.Second}}
	m.argv = []string{"prog"}
	m.horizon = 3 * time.Hour
	return m
}

// network draws how the network behaves; total outage is at most max.
func (m *mon) network(kind string) {
	r, n := m.r, m.net
	m.netKind = kind
	n.Latency = pickDur(r, 5*time.Millisecond, time.Millisecond, 200*time.Millisecond)
	switch kind {
	case "good":
	case "lossy":
		n.PLostReq = []float64{0, 0.2}[r.W(2)]
		n.PLostAck = []float64{0, 0.2}[r.W(2)]
		n.PNack = []float64{0, 0.15}[r.W(2)]
		n.PStatus = []float64{0, 0.15}[r.W(2)]
		n.PRefuse = []float64{0, 0.2}[r.W(2)]
		n.PDelay = []float64{0, 0.4}[r.W(2)]
		n.Jitter = pickDur(r, 100*time.Millisecond, 4*time.Second)
	case "outage":
		n.PLostAck = []float64{0, 0, 0.2}[r.W(3)]
		n.PNack = []float64{0, 0, 0.15}[r.W(3)]
		at := time.Duration(0)
		left := 50 * time.Minute
		for k := r.Between(1, 3); k > 0; k-- {
			at += pickDur(r, 0, time.Second, 30*time.Second)
			d := pickDur(r, time.Second, 20*time.Second, 4*time.Minute, 20*time.Minute, 45*time.Minute)
			if d > left {
				d = left
			}
			left -= d
			n.Outages = append(n.Outages, netsim.Outage{From: at, To: at + d, Kind: netsim.OutKind(r.W(3))})
			at += d
		}
	case "long": // longer than a report is tried for
		n.Outages = append(n.Outages, netsim.Outage{From: 0, To: time.Duration(r.Between(65, 170)) * time.Minute, Kind: netsim.OutKind(r.W(3))})
		m.deliver = false
	case "slow": // the server takes its time
		n.Latency = pickDur(r, 4*time.Second, 12*time.Second, 20*time.Second)
	case "edge": // and answers as monny gives up
		n.Latency = time.Hour + time.Duration(r.W(81)-40)*time.Microsecond
		m.deliver = false
	case "dead":
		n.Outages = append(n.Outages, netsim.Outage{From: 0, To: 1000 * time.Hour, Kind: netsim.OutKind(r.W(3))})
		m.deliver = false
	case "hang":
		n.PHang = []float64{0.2, 0.5, 1}[r.W(3)]
		m.deliver = false
	}
	r.Note("network %s: latency %v, lost requests %.2f, lost acks %.2f, nacks %.2f, errors %.2f, refused %.2f, delayed %.2f by up to %v, hang %.2f, outages %v", kind, n.Latency, n.PLostReq, n.PLostAck, n.PNack, n.PStatus, n.PRefuse, n.PDelay, n.Jitter, n.PHang, n.Outages)
}

func (m *mon) flag(name, val string) {
	if val == "" {
		m.flags = append(m.flags, "--"+name)
	} else if m.r.W(2) == 1 {
		m.flags = append(m.flags, "--"+name+"="+val)
	} else {
		m.flags = append(m.flags, "--"+name, val)
	}
}

// set configures through a flag or the configuration file.
func (m *mon) set(name, val string) {
	if len(m.file) > 0 && m.r.W(2) == 1 {
		m.file[name] = append(m.file[name], val)
		return
	}
	m.flag(name, val)
}

// command draws the monitored command: its output and how it ends.
func (m *mon) command() {
	r := m.r
	m.streams[0] = genStream(r, "o", m.out)
	m.streams[1] = genStream(r, "e", m.out)
	ops := genOps(r, m.streams, m.out)
	m.finish(ops)
}

func (m *mon) finish(ops []world.Op) {
	r := m.r
	switch r.W(5) {
	case 0, 1:
	case 2:
		m.code = []int{1, 2, 7, 42, 126, 127, 255}[r.W(7)]
	case 3:
		m.code = []int{1, 137, 130}[r.W(3)]
	case 4:
		m.code = -1
	}
	if m.code >= 0 {
		ops = append(ops, world.Op{Kind: "exit", N: m.code})
	} else {
		ops = append(ops, world.Op{Kind: "die", N: []int{int(syscall.SIGSEGV), int(syscall.SIGABRT), int(syscall.SIGKILL)}[r.W(3)]})
	}
	if m.script == nil {
		m.script = &world.Script{Mem: 1000}
	}
	m.script.Ops = append(m.script.Ops, ops...)
}

const defaultHost = "report.lmkwtf.com:443"

// args assembles the command line.
func (m *mon) args() []string {
	r := m.r
	if m.hist[0] != 30 || r.W(8) == 7 {
		m.set("stdout-history", fmt.Sprint(m.hist[0]))
	}
	if m.hist[1] != 30 || r.W(8) == 7 {
		m.set("stderr-history", fmt.Sprint(m.hist[1]))
	}
	b := func(on bool, name string) {
		if !on {
			return
		}
		if len(m.file) > 0 && r.W(2) == 1 {
			m.file[name] = []string{"true"}
			return
		}
		m.flag(name, "")
	}
	b(m.noSuccess, "no-notify-on-success")
	b(m.noFailure, "no-notify-on-failure")
	b(m.daemon, "daemon")
	b(m.insecure, "insecure")
	b(m.noErrors, "no-error-reports")
	if m.hostFlag {
		m.set("host", m.host)
	}
	if m.tKill > 0 {
		m.set("timeout-kill", m.tKill.String())
	}
	if m.tWarn > 0 {
		m.set("timeout-warn", m.tWarn.String())
	}
	if m.mKill > 0 {
		m.set("memory-kill", memArg(r, m.mKill))
	}
	if m.mWarn > 0 {
		m.set("memory-warn", memArg(r, m.mWarn))
	}
	for _, f := range m.creates {
		m.set("creates", f)
	}
	for _, x := range m.rules {
		if x.field == "" {
			m.set("rule", x.re)
		} else {
			m.set("rule-json", x.field+":"+x.re)
		}
	}
	a := []string{"monny"}
	if len(m.file) > 0 {
		var b strings.Builder
		for _, k := range harness.SortedKeys(m.file) {
			vs := m.file[k]
			switch {
			case k == "id":
				fmt.Fprintf(&b, "id: %q\n", vs[0])
			case k == "rule" || k == "rule-json" || k == "creates":
				if len(vs) == 1 && len(m.file) < 5 {
					fmt.Fprintf(&b, "%s: '%s'\n", k, vs[0])
					continue
				}
				fmt.Fprintf(&b, "%s:\n", k)
				for _, v := range vs {
					fmt.Fprintf(&b, "  - '%s'\n", v)
				}
			default:
				fmt.Fprintf(&b, "%s: %s\n", k, vs[0])
			}
		}
		m.w.FS.Put("/etc/monny.yml", &world.Node{Data: []byte(b.String()), Mode: 0o644, Mtime: rt.Now()})
		a = append(a, "-c", "/etc/monny.yml")
		m.r.Note("configuration file: %q", b.String())
	} else {
		a = append(a, []string{"-i", "--id"}[r.W(2)], m.id)
	}
	a = append(a, m.flags...)
	a = append(a, "--")
	return append(a, m.argv...)
}

func memArg(r *harness.Run, kb uint64) string {
	if kb%1000000 == 0 {
		return fmt.Sprintf("%dG", kb/1000000)
	}
	if kb%1000 == 0 && r.W(2) == 1 {
		return fmt.Sprintf("%dM", kb/1000)
	}
	if r.W(2) == 1 {
		return fmt.Sprintf("%dK", kb)
	}
	return fmt.Sprint(kb)
}

// start runs monny; it returns once everything has been set going.
func (m *mon) start() {
	r, w := m.r, m.w
	addr := defaultHost
	if m.hostFlag {
		addr = m.host
	}
	m.srv = m.net.Listen(addr, !m.insecure)
	if m.script != nil {
		w.Programs["prog"] = m.script
	}
	if m.piped {
		c := []int{65536, 16, 4096}[r.W(3)]
		if c == 16 && len(m.stdin) > 4000000 {
			c = 512
		}
		m.stdinPipe = w.PipeStdin(c)
	}
	if m.custom {
		opts := []monny.ConfigOption{monny.ID(m.id), monny.StdoutHistory(fmt.Sprint(m.hist[0])), monny.StderrHistory(fmt.Sprint(m.hist[1]))}
		if m.quantity > 0 {
			opts = append(opts, monny.RuleQuantity(fmt.Sprint(m.quantity)))
		}
		if m.period > 0 {
			opts = append(opts, monny.RulePeriod(m.period.String()))
		}
		for _, x := range m.rules {
			if x.field == "" {
				opts = append(opts, monny.Rule(x.re))
			} else {
				opts = append(opts, monny.JSONRule(x.field, x.re))
			}
		}
		if m.insecure {
			opts = append(opts, monny.Insecure())
		}
		if m.hostFlag {
			opts = append(opts, monny.Host(m.host))
		}
		if m.noSuccess {
			opts = append(opts, monny.NoNotifyOnSuccess())
		}
		if m.noFailure {
			opts = append(opts, monny.NoNotifyOnFailure())
		}
		if m.daemon {
			opts = append(opts, monny.Daemon())
		}
		r.Note("as a library: quantity %d period %v rules %v", m.quantity, m.period, m.rules)
		w.Start(func() {
			// what cmd/monny does, with options that have no flag
			cmd, errs := monny.New(m.argv, opts...)
			if len(errs) > 0 {
				os.Exit(1)
			}
			err := cmd.Exec()
			if werr := cmd.Wait(); err != nil || werr != nil {
				os.Exit(1)
			}
			os.Exit(0)
		})
	} else {
		a := m.args()
		os.Reset(a)
		r.Note("command line: %q", a)
		w.Start(monnymain.Main)
	}
	if m.piped && len(m.stdinOps) >= 0 {
		rt.GoEnv("upstream", func() {
			for _, op := range m.stdinOps {
				if op.Kind == "sleep" {
					rt.Sleep(op.D)
					continue
				}
				m.stdinPipe.WriteAll(op.Data)
			}
			if !m.stdinOpen {
				m.stdinPipe.CloseW()
			}
		})
	}
	for _, at := range m.interrupts {
		at := at
		rt.GoEnv("interrupter", func() {
			if at >= 0 {
				for len(w.Procs) == 0 && !w.Exited {
					rt.Sleep(50 * time.Microsecond)
				}
				rt.Sleep(at)
			} else {
				rt.Sleep(-at)
			}
			if !w.Exited {
				m.sentInt = append(m.sentInt, rt.Elapsed())
				w.Signal(syscall.SIGINT)
			}
		})
	}
	for _, j := range m.jumps {
		j := j
		rt.GoEnv("clock", func() { rt.Sleep(j.at); rt.Logf("wall clock steps by %v", j.d); rt.StepWall(j.d) })
	}
}

// run runs monny to its end, or for the horizon.
func (m *mon) run() {
	m.start()
	m.w.WaitExit(m.horizon)
	rt.Settle()
	if len(m.w.Procs) > 0 {
		m.p = m.w.Procs[0]
	}
	m.collect()
	m.kinds()
}

// kinds fails on a report of a kind that nothing calls for.
func (m *mon) kinds() {
	for _, p := range m.reps {
		why := ""
		switch p.ReportReason {
		case pb.ReportReason_Success, pb.ReportReason_Failure:
			if p.ReportReason == pb.ReportReason_Success && m.noSuccess || p.ReportReason == pb.ReportReason_Failure && m.noFailure {
				why = "its notifications are switched off"
			} else if m.p == nil || !m.p.Done {
				why = "the command had not ended"
			}
		case pb.ReportReason_Alert, pb.ReportReason_AlertRate:
			if len(m.rules) == 0 {
				why = "there is no rule"
			}
		case pb.ReportReason_TimeWarning:
			if m.tWarn == 0 {
				why = "there is no warning timeout"
			}
		case pb.ReportReason_MemoryWarning:
			if m.mWarn == 0 {
				why = "there is no memory warning"
			}
		case pb.ReportReason_FileNotCreated:
			if len(m.creates) == 0 {
				why = "no file is expected"
			}
		case pb.ReportReason_Killed:
			if m.tKill == 0 && m.mKill == 0 && len(m.interrupts) == 0 {
				why = "there is no limit and no signal"
			}
		}
		if why != "" {
			m.r.Fail("report for nothing", "%v report at %v although %s", p.ReportReason, p.first, why)
		}
	}
}

// wallAt is the wall clock at a virtual time.
func (m *mon) wallAt(at time.Duration) time.Time {
	t := rt.At(at)
	for _, j := range m.jumps {
		if j.at <= at {
			t = t.Add(j.d)
		}
	}
	return t
}

// virt is the virtual time of a wall clock reading; only without jumps.
func (m *mon) virt(unix int64) time.Duration { return time.Unix(unix, 0).Sub(rt.At(0)) }

func (m *mon) exited() {
	if !m.w.Exited {
		m.r.Fail("monny did not end", "still running after %v (command ended: %v)", m.horizon, m.p != nil && m.p.Done)
	}
}

// collect decodes everything monny tried to send.
func (m *mon) collect() {
	by := map[*byte]*rep{}
	reports := map[*netsim.Attempt]*rep{}
	acked := map[*netsim.Attempt]time.Duration{}
	for _, s := range m.net.Servers {
		for _, x := range s.Recs {
			if x.Accepted && !x.AckLost && x.AckSeq > 0 {
				acked[x.From] = x.AckAt
			}
		}
	}
	answered := map[*rep]time.Duration{}
	for _, a := range m.net.Attempts {
		p := by[unsafe.SliceData(a.Raw)]
		first, again := a.At, false
		if at, ok := answered[p]; p != nil && ok && at <= a.At {
			// what is sent once more after it was acknowledged is another report that reads the same,
			// made at any time since the first of them
			first, again, p = p.first, true, nil
		}
		if p == nil {
			p = &rep{Report: &pb.Report{}, raw: a.Raw, first: first, again: again}
			if err := proto.Unmarshal(a.Raw, p.Report); err != nil {
				m.r.Fail("report does not decode", "%v", err)
			}
			if len(p.Matches) > 0 {
				if err := json.Unmarshal(p.Matches, &p.matches); err != nil {
					m.r.Fail("report does not decode", "matches %q: %v", p.Matches, err)
				}
			}
			by[unsafe.SliceData(a.Raw)] = p
			m.reps = append(m.reps, p)
		}
		p.tries++
		reports[a] = p
		if at, ok := acked[a]; ok {
			if t, ok := answered[p]; !ok || at < t {
				answered[p] = at
			}
		}
	}
	for _, s := range m.net.Servers {
		for _, x := range s.Recs {
			p := reports[x.From]
			if p == nil {
				m.r.Fail("report altered on its way", "machinery")
			}
			if !x.Accepted {
				continue
			}
			if p.got == 0 {
				p.recvAt = x.At
			}
			p.got++
			if !x.AckLost && x.AckSeq > 0 {
				if p.acked == 0 {
					p.ackAt = x.AckAt
				}
				p.acked++
			}
		}
	}
}

// of lists the reports of a kind.
func (m *mon) of(kinds ...pb.ReportReason) []*rep {
	var out []*rep
	for _, p := range m.reps {
		for _, k := range kinds {
			if p.ReportReason == k {
				out = append(out, p)
			}
		}
	}
	return out
}

// sent counts reports of a kind.
func (m *mon) sent(kinds ...pb.ReportReason) int {
	n := 0
	for _, p := range m.of(kinds...) {
		n += p.sends()
	}
	return n
}

// selfEnded: the command ended without monny or the user having a hand in it.
func (m *mon) selfEnded() bool {
	return m.p != nil && m.p.Done && len(m.p.Signals) == 0 && len(m.sentInt) == 0
}

// tracked lists the reports that monny has to see delivered before it ends:
// all but the alerts on output that it read after it had killed the command or
// passed a signal on to it, when it no longer waits for the end of the output.
func (m *mon) tracked() []*rep {
	at := time.Duration(-1)
	if m.p != nil && len(m.p.Signals) > 0 {
		at = m.p.Signals[0].At
	}
	for _, k := range m.of(pb.ReportReason_Killed) { // or tried to
		if at < 0 || k.first < at {
			at = k.first
		}
	}
	if len(m.sentInt) > 0 && (at < 0 || m.sentInt[0] < at) {
		at = m.sentInt[0]
	}
	var out []*rep
	for _, x := range m.reps {
		if at >= 0 && x.first >= at && (x.ReportReason == pb.ReportReason_Alert || x.ReportReason == pb.ReportReason_AlertRate) {
			continue
		}
		out = append(out, x)
	}
	return out
}

// delivered fails unless every one of the reports arrived.
func (m *mon) delivered(rs []*rep, what string) {
	if !m.deliver {
		return
	}
	for _, p := range rs {
		if p.got == 0 {
			m.r.Fail("report lost", "%s report: %d attempts, none delivered, monny ended at %v", what, p.tries, m.w.ExitAt)
		}
	}
}

func (m *mon) lastHist(i int) []string {
	all := linesOf(m.p.Wrote[i])
	n := m.hist[i]
	if n < 0 {
		n = 0
	}
	if len(all) > n {
		all = all[len(all)-n:]
	}
	var out []string
	for _, l := range all {
		out = append(out, string(l))
	}
	return out
}

// loose compares text that may have gone through UTF-8 clean-up.
func loose(s string) string {
	return strings.ReplaceAll(strings.ToValidUTF8(s, ""), "\uFFFD", "")
}

func sameLines(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if loose(a[i]) != loose(b[i]) {
			return false
		}
	}
	return true
}

func clipLines(ls []string) []string {
	var out []string
	for _, l := range ls {
		out = append(out, clip(l))
	}
	return out
}

// --- rules -----------------------------------------------------------------------

// text is what a rule looks at, and whether there is anything.
func (x ruleSpec) text(line []byte) ([]byte, bool) {
	if x.field == "" {
		return line, true
	}
	var v interface{}
	if json.Unmarshal(line, &v) != nil {
		return nil, false
	}
	for _, k := range strings.Split(x.field, ".") {
		o, ok := v.(map[string]interface{})
		if !ok {
			return nil, false
		}
		if v, ok = o[k]; !ok {
			return nil, false
		}
	}
	return render(v)
}

// render is how a JSON value reads as text.
func render(v interface{}) ([]byte, bool) {
	switch x := v.(type) {
	case string:
		return []byte(x), true
	case float64:
		return []byte(fmt.Sprintf("%f", x)), true
	case bool:
		return []byte(fmt.Sprint(x)), true
	case []interface{}:
		var parts []string
		for _, e := range x {
			switch e.(type) {
			case string, float64, bool:
				b, _ := render(e)
				parts = append(parts, string(b))
			}
		}
		return []byte(strings.Join(parts, "\n")), len(parts) > 0
	}
	return nil, false
}

func (x ruleSpec) matches(line []byte) bool {
	t, ok := x.text(line)
	return ok && regexp.MustCompile(x.re).Match(t)
}

// indexes lists, for each rule the line matches, where it does.
func (m *mon) indexes(line []byte) []string {
	var out []string
	for _, x := range m.rules {
		t, ok := x.text(line)
		if !ok {
			continue
		}
		found := regexp.MustCompile(x.re).FindAllIndex(t, -1)
		switch {
		case found == nil:
		case x.field == "":
			out = append(out, fmt.Sprint(found))
		default:
			out = append(out, "*")
		}
	}
	return out
}

func (m *mon) matching(line []byte) bool {
	for _, x := range m.rules {
		if x.matches(line) {
			return true
		}
	}
	return false
}

// firstDiff says where two byte strings part.
func firstDiff(a, b []byte) int {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return i
}

var _ = bytes.Equal
