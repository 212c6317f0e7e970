BUGS = []
BUS, CMD, REP, HAND, PARSE, CONF = ("pkg/eventbus/bus.go", "pkg/monny/command.go", "pkg/monny/report.go",
    "pkg/monny/handlers.go", "pkg/monny/parse.go", "pkg/monny/config.go")

def bug(id, property, edits, needs, breaks, demo, kind="lib", flags=""):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=(kind, demo), flags=flags))

LIB = '''package main

import (
	"fmt"
	"os"
%s)

func need(ok bool, f string, a ...interface{}) {
	if !ok {
		fmt.Println("demo: " + fmt.Sprintf(f, a...))
		os.Exit(1)
	}
}

func main() {
%s}
'''
def lib(imports, body):
    return LIB % ("".join('\t"%s"\n' % i for i in imports), body)
EB = "github.com/BTBurke/monny/pkg/eventbus"

bug("bus-delivery-in-line", "E01", [(BUS, "				go func(evt Event, c chan Event) {", "				func(evt Event, c chan Event) {")],
    "a subscriber whose buffer is full in front of another one of the same topic",
    "a delivery waits for the subscriber in front of it, so a slow subscriber keeps the others from receiving",
    lib(["time", EB], '''	eb := eventbus.New()
	eb.Subscribe("t") // never reads
	c, _ := eb.Subscribe("t")
	for i := 0; i < 6; i++ {
		e, err := eventbus.NewEvent("x", i)
		need(err == nil, "%v", err)
		eb.Dispatch(e, "t")
	}
	for i := 0; i < 6; i++ {
		select {
		case <-c:
		case <-time.After(5 * time.Second):
			need(false, "only %d of 6 events received", i)
		}
	}
'''))

bug("bus-dispatch-keeps-lock", "E02", [(BUS, '''	e.mutex.RLock()
	defer e.mutex.RUnlock()

	// if shutdown already''', '''	e.mutex.RLock()

	// if shutdown already'''), (BUS, '''			}
		}(event, chs)
	}
}
''', '''			}
		}(event, chs)
	}
	e.mutex.RUnlock()
}
''')],
    "an event published after the shutdown has started, and a call that needs the bus for itself after that",
    "publishing during a shutdown keeps the reader lock, so the next subscription never returns",
    lib(["context", "time", EB], '''	eb := eventbus.New()
	ctx, cancel := context.WithTimeout(context.Background(), time.Second)
	defer cancel()
	need(eb.Shutdown(ctx) == nil, "shutdown failed")
	e, _ := eventbus.NewEvent("x", 1)
	eb.Dispatch(e)
	done := make(chan bool)
	go func() { eb.Subscribe("t"); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		need(false, "Subscribe does not return")
	}
'''))

bug("bus-shutdown-gives-up", "E03", [(BUS, '''			select {
			case <-c:
				wg.Done()
				return
			}''', '''			select {
			case <-c:
			case <-time.After(10 * time.Second):
			}
			wg.Done()'''), (BUS, '''	"context"
	"sync"
''', '''	"context"
	"sync"
	"time"
''')],
    "a subscriber that takes longer than ten seconds to finish, and a shutdown that allows it more",
    "Shutdown returns nil although a subscriber has not reported that it finished",
    lib(["context", "time", EB], '''	eb := eventbus.New()
	c, fin := eb.Subscribe("t")
	finished := make(chan bool)
	go func() {
		for range c {
		}
		time.Sleep(13 * time.Second)
		close(finished)
		fin()
	}()
	ctx, cancel := context.WithTimeout(context.Background(), 40*time.Second)
	defer cancel()
	need(eb.Shutdown(ctx) == nil, "shutdown failed")
	select {
	case <-finished:
	default:
		need(false, "shutdown reported success before the subscriber finished")
	}
'''))

bug("bus-unsubscribe-last", "E04", [(BUS, '''	for topic, chs := range e.subscribers {
''', '''	for topic := range e.subscribers {
		chs := e.subscribers[topic]
		if len(chs) == 1 && chs[0] == c {
			delete(e.subscribers, topic)
			continue
		}
''')],
    "the only subscriber of its topics unsubscribes",
    "its channel is never closed, so it waits for ever",
    lib(["time", EB], '''	eb := eventbus.New()
	c, _ := eb.Subscribe("t")
	eb.Unsubscribe(c, nil)
	select {
	case _, open := <-c:
		need(!open, "event after unsubscription")
	case <-time.After(5 * time.Second):
		need(false, "channel not closed by Unsubscribe")
	}
'''))

bug("bus-topic-twice", "E01", [(BUS, '''		case ok:
			e.subscribers[topic] = append(ch, c)''', '''		case ok && len(ch) < cap(ch):
			// reuse the room left behind the list
			e.subscribers[topic] = append(ch, c)
		case ok:
			e.subscribers[topic] = append(append(make([]chan Event, 0, 2*len(ch)), ch[1:]...), ch[0], c)''')],
    "three subscribers of one topic", "no behaviour broken", "", kind="none")
BUGS.pop()

PROC = "github.com/BTBurke/monny/pkg/monny/proc"

bug("log-sink-dropped", "L01", [("pkg/monny/proc/logs.go", '''		for _, s := range sinks {
			if _, err := s.out.Write(append(data, '\\n')); err != nil {
				newError(bus, SinkError{fmt.Errorf("error writing to sink %s: %v", src.name, err)})
			}
		}''', '''		working := sinks[:0]
		for _, s := range sinks {
			if _, err := s.out.Write(append(data, '\\n')); err != nil {
				newError(bus, SinkError{fmt.Errorf("error writing to sink %s: %v", src.name, err)})
				continue
			}
			working = append(working, s)
		}
		sinks = working''')],
    "a sink that fails once and then works again",
    "the sink gets none of the later lines",
    lib(["context", "io", "log", "os/exec", "syscall", "time", EB, PROC], '''	// standard output is a datagram socket, which refuses a line that is too long for it
	fds, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_DGRAM, 0)
	need(err == nil, "%v", err)
	r, w := os.NewFile(uintptr(fds[0]), "r"), os.NewFile(uintptr(fds[1]), "w")
	out := make(chan string, 100)
	go func() {
		buf := make([]byte, 65536)
		for {
			n, err := r.Read(buf)
			if err != nil {
				return
			}
			out <- string(buf[:n])
		}
	}()
	stdout := os.Stdout
	os.Stdout = w
	eb := eventbus.New()
	cmd := exec.Command("sh", "-c", "echo one; head -c 4000000 /dev/zero; echo; echo two; echo three")
	l, err := proc.NewLogProcessor(eb, proc.WithCommand(cmd))
	need(err == nil, "%v", err)
	os.Stdout = stdout
	log.SetOutput(io.Discard)
	need(cmd.Start() == nil, "start")
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	l.Wait(ctx)
	for _, want := range []string{"one\\n", "two\\n", "three\\n"} {
		select {
		case got := <-out:
			need(got == want, "standard output got %q instead of %q", got, want)
		case <-time.After(3 * time.Second):
			need(false, "standard output did not get %q", want)
		}
	}
'''))

bug("log-timestamp-early", "L02", [("pkg/monny/proc/logs.go", '''	for scanner.Scan() {
		data := scanner.Bytes()''', '''	for {
		received := time.Now().UTC()
		if !scanner.Scan() {
			break
		}
		data := scanner.Bytes()'''), ("pkg/monny/proc/logs.go", "			Timestamp: time.Now().UTC(),", "			Timestamp: received,")],
    "a line written some time after the one before it",
    "its event carries the time at which the previous line had been processed",
    lib(["context", "os/exec", "time", EB, PROC], '''	os.Stdout, _ = os.Open("/dev/null")
	eb := eventbus.New()
	c, _ := eb.Subscribe(proc.LogTopic)
	cmd := exec.Command("sh", "-c", "sleep 1; echo late")
	l, err := proc.NewLogProcessor(eb, proc.WithCommand(cmd), proc.WithNoOutput())
	need(err == nil, "%v", err)
	start := time.Now()
	need(cmd.Start() == nil, "start")
	e := <-c
	var ev proc.LogEvent
	need(e.Decode(&ev) == nil, "decode")
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	l.Wait(ctx)
	os.Stdout = os.Stderr
	need(ev.Timestamp.Sub(start) > 500*time.Millisecond, "line written after 1s has a timestamp of %v", ev.Timestamp.Sub(start))
'''))

bug("queue-snapshot-reused", "L03", [("pkg/monny/proc/queue.go", '''	s := make([]string, len(q.q))
	copy(s, q.q)

	return s''', '''	// later additions append behind what is returned here
	return q.q[:len(q.q):len(q.q)]'''), ("pkg/monny/proc/queue.go", '''	q.q = make([]string, 0, q.capacity+1)
}''', '''	q.q = q.q[:0]
}''')],
    "a copy, then a clear, then an addition",
    "additions after a clear overwrite a copy handed out before it: the two changes are harmless one by one",
    lib([PROC], '''	q := proc.NewQueue(3)
	q.Add("a")
	q.Add("b")
	s := q.Copy()
	q.Clear()
	q.Add("z")
	need(len(s) == 2 && s[0] == "a" && s[1] == "b", "the copy changed to %q", s)
'''))

bug("ticker-restarts", "T01", [("pkg/monny/proc/ticker.go", "			case <-t.C:", "			case <-time.After(d):")],
    "events on the bus more often than the ticker's period",
    "every event that passes starts the ticker's period anew, so on a busy bus it never ticks",
    lib(["time", EB, PROC], '''	eb := eventbus.New()
	c, _ := eb.Subscribe()
	proc.NewTicker(400*time.Millisecond, eb, "tick")
	go func() {
		for {
			e, _ := eventbus.NewEvent("noise", nil)
			eb.Dispatch(e)
			time.Sleep(20 * time.Millisecond)
		}
	}()
	end := time.After(4 * time.Second)
	ticks := 0
	for {
		select {
		case e := <-c:
			if e.Type() == "tick" {
				ticks++
			}
			continue
		case <-end:
		}
		break
	}
	need(ticks >= 2, "%d ticks in 10 periods", ticks)
'''))

MET = "github.com/BTBurke/monny/pkg/metric"
bug("counter-read-lock", "M01", [("pkg/metric/counter.go", '''func (c *ConcurrentCounter) Add(i uint) {
	c.mu.Lock()
	defer c.mu.Unlock()''', '''func (c *ConcurrentCounter) Add(i uint) {
	c.mu.RLock()
	defer c.mu.RUnlock()''')],
    "two additions at the same time", "an addition is lost",
    lib(["sync", MET], '''	c := metric.NewConcurrentCounter()
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 300000; j++ {
				c.Add(1)
			}
		}()
	}
	wg.Wait()
	need(c.Value() == 8*300000, "%d of %d counted", c.Value(), 8*300000)
'''), flags="-race")

bug("window-closes-late", "M02", [("pkg/metric/counter.go", '	case now.After(end) || c.current.duration == 0:', '	case now.After(end.Add(c.current.duration)) || c.current.duration == 0:')],
    "a history asked for after the last window has elapsed, but less than a whole window after that",
    "the closed window is in neither the value nor the history",
    lib(["time", MET], '''	c := metric.NewConcurrentWindowedCounter(500 * time.Millisecond)
	c.Add(2)
	time.Sleep(650 * time.Millisecond)
	h := c.History()
	need(c.Value() == 0, "value %d after the window", c.Value())
	need(len(h) == 1 && h[0].Value() == 2, "history %v after the window has elapsed", h)
'''))

bug("windowed-read-lock", "M02", [("pkg/metric/counter.go", '''func (c *ConcurrentWindowedCounter) Reset() {
	c.mu.Lock()
	defer c.mu.Unlock()''', '''func (c *ConcurrentWindowedCounter) Reset() {
	c.mu.RLock()
	defer c.mu.RUnlock()''')],
    "a reset and a reading at the same time",
    "a reading sees half a reset: old history with the new window",
    lib(["sync", "time", MET], '''	c := metric.NewConcurrentWindowedCounter(time.Hour)
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 20000; j++ {
				c.Reset()
				c.Value()
			}
		}()
	}
	wg.Wait()
'''), flags="-race")

bug("sample-transform-unlocked", "M03", [("pkg/metric/sampled.go", '''						s.s.Record(s.transform(s.obs))
						s.obs = make([]float64, 0)''', '''						obs := s.obs
						s.mu.Unlock()
						v := s.transform(obs)
						s.mu.Lock()
						s.s.Record(v)
						s.obs = make([]float64, 0)''')],
    "an observation recorded while the sample is being computed",
    "it is in no sample",
    lib(["sync", "time", MET], '''	var mu sync.Mutex
	seen := 0.0
	slow := func(o []float64) float64 {
		time.Sleep(150 * time.Millisecond)
		mu.Lock()
		defer mu.Unlock()
		seen += metric.SampleSum(o)
		return metric.SampleSum(o)
	}
	s, stop, err := metric.NewSampledSeries(100, 200*time.Millisecond, slow)
	need(err == nil, "%v", err)
	n := 0.0
	for end := time.Now().Add(2 * time.Second); time.Now().Before(end); {
		s.Record(1)
		n++
		time.Sleep(2 * time.Millisecond)
	}
	time.Sleep(time.Second)
	stop()
	sum := 0.0
	for _, v := range s.Values() {
		sum += v
	}
	need(sum == n, "%v observations recorded, %v sampled", n, sum)
'''))

STAT = "github.com/BTBurke/monny/pkg/stat"
bug("detector-bad-observation", "D01", [("pkg/stat/estimator.go", '''	if math.IsNaN(o) || math.IsInf(o, 1) || math.IsInf(o, -1) {
		return fmt.Errorf("transform(value) is not defined")
	}

	e.series.Record(o)
''', '''	e.series.Record(o)
	if math.IsNaN(o) || math.IsInf(o, 1) || math.IsInf(o, -1) {
		return fmt.Errorf("transform(value) is not defined")
	}
''')],
    "an observation that has no logarithm among those of the baseline",
    "it is refused, but spoils the baseline: testing starts late or never",
    lib([STAT], '''	e := stat.DefaultLogNormalEWMA()
	for i := 0; i < 50; i++ {
		if i == 20 {
			need(e.Record(-1) != nil, "a negative observation was accepted")
		}
		need(e.Record(10+float64(i%7)) == nil, "refused")
	}
	need(e.State() == stat.TestingUCL, "after a full baseline the state is %s", e.State())
'''))

bug("detector-lower-start", "D01", [("pkg/stat/estimator.go", '''				if err := e.fsm.Transition(TestingLCL); err != nil {
					return err
				}
				e.current = mean
''', '''				if err := e.fsm.Transition(TestingLCL); err != nil {
					return err
				}
''')],
    "an alarm, a move to the lower limit with a fresh baseline, and the first observations after it",
    "testing against the lower limit starts from the value that had raised the alarm instead of from the baseline",
    lib([STAT], '''	e := stat.DefaultLogNormalEWMA()
	for i := 0; i < 50; i++ {
		e.Record(10 + float64(i%7))
	}
	for i := 0; i < 200 && !e.HasAlarmed(); i++ {
		e.Record(1e6)
	}
	need(e.HasAlarmed(), "no alarm")
	need(e.Transition(stat.LCLInitial, true) == nil, "transition")
	for i := 0; i < 50; i++ {
		e.Record(20 + float64(i%7))
	}
	need(e.State() == stat.TestingLCL, "state %s", e.State())
	need(e.Value() > 2.9 && e.Value() < 3.3, "the statistic starts at %v for a baseline around 3.1", e.Value())
'''))

FSM = "github.com/BTBurke/monny/pkg/fsm"
bug("nonce-kept-when-refused", "F01", [("pkg/fsm/nonce.go", '''	m.nonce.received = nonce
	n, err := newNonce()''', '''	if m.nonce.received = nonce; !m.m.Allowable(m.m.current, to) {
		return m.m.transition(to)
	}
	n, err := newNonce()''')],
    "a transition that is not allowed, attempted with the current nonce, and then an allowed one with the same",
    "a refused attempt leaves its nonce usable",
    lib([FSM], '''	m, err := fsm.NewMachineNonce("a", fsm.WithTransitions(fsm.T("a", "b")))
	need(err == nil, "%v", err)
	n := append([]byte{}, m.Nonce()...)
	need(m.Transition("z", n) != nil, "allowed")
	need(m.Transition("b", n) != nil, "a nonce was accepted after it had been presented before")
'''))

BIN = '''package main

import (
%s)

func main() {
%s}
'''
def bin(imports, body):
    return BIN % ("".join('\t%s\n' % (i if i.endswith('"') else '"' + i + '"') for i in imports), body)

PB = "github.com/BTBurke/monny/pkg/pb"

bug("output-stops-at-write-error", "C01", [(CMD, '''			if _, err := c.out.Write(stdoutScanner.Bytes()); err != nil {
				c.errors.ReportError(fmt.Errorf("error writing log line to stdout: %+v", err))
			}
			c.out.Write([]byte{'\\n'})
''', '''			_, err := c.out.Write(stdoutScanner.Bytes())
			if err == nil {
				_, err = c.out.Write([]byte{'\\n'})
			}
			if err != nil {
				c.errors.ReportError(fmt.Errorf("error writing log line to stdout: %+v", err))
				io.Copy(io.Discard, stdoutReader)
				break
			}
''')],
    "one failing write to monny's standard output, for example a disk that is full for a moment",
    "nothing the command writes after that reaches standard output, rules or history",
    bin(["os", "os/exec", "strings", "sync", "syscall", "time"], '''	s := newServer()
	// a datagram socket refuses one line that is too long for it and takes all others
	fds, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_DGRAM, 0)
	need(err == nil, "%v", err)
	r, w := os.NewFile(uintptr(fds[0]), "r"), os.NewFile(uintptr(fds[1]), "w")
	var mu sync.Mutex
	var out strings.Builder
	go func() {
		buf := make([]byte, 65536)
		for {
			n, err := r.Read(buf)
			mu.Lock()
			out.Write(buf[:n])
			mu.Unlock()
			if err != nil {
				return
			}
		}
	}()
	res := monny(20*time.Second, func(c *exec.Cmd) { c.Stdout = w }, nil, "-i", "x", "--no-error-reports", "--insecure", "--host", s.addr, "--", "sh", "-c", "echo one; head -c 4000000 /dev/zero; echo; echo two; echo three")
	need(!res.hung, "monny hangs")
	time.Sleep(500 * time.Millisecond)
	mu.Lock()
	defer mu.Unlock()
	need(strings.Contains(out.String(), "one\\n") && strings.Contains(out.String(), "two\\nthree\\n"), "after a failed write standard output has only %q", out.String())
'''), kind="bin")

bug("reap-before-reading", "C01", [(CMD, '''		wg.Wait()
		cmd.Wait()
		c.out.Close()''', '''		cmd.Wait()
		wg.Wait()
		c.out.Close()''')],
    "a command that ends while its output has not all been read yet",
    "the end of its output is lost",
    bin(["os", "os/exec", "strings", "time", "fmt", "bytes"], '''	s := newServer()
	var want strings.Builder
	for i := 1; i <= 4000; i++ {
		fmt.Fprintf(&want, "%d\\n", i)
	}
	for k := 0; k < 5; k++ {
		r, w, _ := os.Pipe()
		got := make(chan string, 1)
		res := monny(40*time.Second, func(c *exec.Cmd) { c.Stdout = w }, func(*os.Process) {
			time.Sleep(500 * time.Millisecond) // a slow reader
			var b bytes.Buffer
			b.ReadFrom(r)
			got <- b.String()
		}, "-i", "x", "--no-error-reports", "--insecure", "--host", s.addr, "--", "sh", "-c", "seq 1 2000; echo; seq 2001 4000 | cat")
		w.Close()
		out := strings.Replace(<-got, "\\n\\n", "\\n", 1)
		need(!res.hung, "monny hangs")
		need(out == want.String(), "%d of %d bytes of output arrived", len(out), want.Len())
		// more than the pipes hold
		r2, w2, _ := os.Pipe()
		res = monny(40*time.Second, func(c *exec.Cmd) { c.Stdout = w2 }, func(*os.Process) {
			time.Sleep(1500 * time.Millisecond)
			var b bytes.Buffer
			b.ReadFrom(r2)
			got <- b.String()
		}, "-i", "x", "--no-error-reports", "--insecure", "--host", s.addr, "--", "sh", "-c", "head -c 120000 /dev/zero | tr '\\\\0' 'a'; echo; echo end")
		w2.Close()
		out = <-got
		need(len(out) == 120005, "%d of 120005 bytes of output arrived", len(out))
	}
'''), kind="bin")

bug("exit-code-narrow", "C02", [(HAND, "c.ExitCode = int32(sysinfo.ExitStatus())", "c.ExitCode = int32(int8(sysinfo.ExitStatus()))")],
    "a command that exits with a status above 127",
    "the failure report carries a wrong (negative) exit code",
    bin(["time", PB], '''	s := newServer()
	monny(20*time.Second, nil, nil, "-i", "x", "--no-error-reports", "--insecure", "--host", s.addr, "--", "sh", "-c", "exit 200")
	f := s.of(pb.ReportReason_Failure)
	need(len(f) == 1, "%d failure reports", len(f))
	need(f[0].ExitCode == 200, "exit code %d for 200", f[0].ExitCode)
'''), kind="bin")

bug("warning-restarts-timeout", "C03", [(CMD, '''		case <-timenotify:
			c.handler.TimeWarning(c)
''', '''		case <-timenotify:
			c.handler.TimeWarning(c)
			if timeout != nil && c.Config.KillTimeout > 0 {
				timeout = time.After(c.Config.KillTimeout)
			}
''')],
    "both timeouts set, the warning before the kill",
    "the kill timeout starts anew when the warning is sent, so the command is killed too late",
    bin(["time", PB], '''	s := newServer()
	res := monny(30*time.Second, nil, nil, "-i", "x", "--no-error-reports", "--insecure", "--host", s.addr, "--timeout-warn", "2s", "--timeout-kill", "3s", "--", "sleep", "20")
	need(!res.hung, "monny hangs")
	k := s.of(pb.ReportReason_Killed)
	need(len(k) == 1, "%d kill reports", len(k))
	d, _ := time.ParseDuration(k[0].Duration)
	need(d < 4*time.Second, "killed after %s instead of 3s", k[0].Duration)
'''), kind="bin")

bug("memory-warned-never-killed", "C04", [(HAND, '''		if !c.memWarnSent {
			c.mutex.Lock()''', '''		if c.memWarnSent {
			return nil
		} else {
			c.mutex.Lock()''')],
    "both memory limits set, and a command that grows past the warning first and past the kill limit later",
    "after the warning the command is not killed any more",
    bin(["time", PB], '''	s := newServer()
	monny(60*time.Second, nil, nil, "-i", "x", "--no-error-reports", "--insecure", "--host", s.addr, "--memory-warn", "40M", "--memory-kill", "120M", "--",
		"python3", "-c", "import time\\nx=bytearray(b'a')*60000000\\ntime.sleep(4)\\ny=bytearray(b'b')*120000000\\ntime.sleep(6)\\n")
	need(len(s.of(pb.ReportReason_MemoryWarning)) == 1, "%d memory warnings", len(s.of(pb.ReportReason_MemoryWarning)))
	need(len(s.of(pb.ReportReason_Killed)) == 1, "%d kill reports, the command used 180 MB of 120 MB", len(s.of(pb.ReportReason_Killed)))
'''), kind="bin")

bug("rule-sees-start-of-line", "C05", [(CMD, '''		default:
			text = line
		}

		found''', '''		default:
			if text = line; len(text) > bufio.MaxScanTokenSize {
				text = text[:bufio.MaxScanTokenSize]
			}
		}

		found''')],
    "a line longer than 64 KiB that matches a rule only near its end",
    "the match is not reported",
    bin(["time", PB], '''	s := newServer()
	res := monny(30*time.Second, nil, nil, "-i", "x", "--no-error-reports", "--insecure", "--host", s.addr, "--rule", "NEEDLE", "--", "sh", "-c", "head -c 70000 /dev/zero | tr '\\\\0' a; echo NEEDLE; sleep 1")
	need(!res.hung, "monny hangs")
	need(len(s.of(pb.ReportReason_Alert)) >= 1, "no alert for a long line that matches")
'''), kind="bin")

bug("alert-rate-strict", "C05", [(REP, "	case matchesInPeriod >= quantity:", "	case matchesInPeriod > quantity:")],
    "exactly as many matches as the alert quantity",
    "no alert is sent",
    bin(["os", PB, 'watch "github.com/BTBurke/monny/pkg/monny"'], '''	s := newServer()
	os.Setenv("SHELL", "/bin/sh")
	watch.SuppressErrorReporting = true
	c, errs := watch.New([]string{"sh", "-c", "echo hit; sleep 0.2; echo miss; echo hit; sleep 0.2; echo hit; sleep 1"}, watch.ID("x"), watch.Insecure(), watch.Host(s.addr), watch.Rule("hit"), watch.RuleQuantity("3"))
	need(len(errs) == 0, "%v", errs)
	c.Exec()
	c.Wait()
	a := s.of(pb.ReportReason_AlertRate)
	need(len(a) == 1, "%d alerts for three matches with a quantity of three", len(a))
'''), kind="bin")

bug("refused-report-given-up", "C06", [(REP, '''			return fmt.Errorf("send fail")''', '''			return backoff.Permanent(fmt.Errorf("send fail"))''')],
    "a server that answers a report with a negative acknowledgement once",
    "the report is not sent again",
    bin(["time", PB], '''	s := newServer()
	s.reply = func(n int, r *pb.Report) (bool, error) { return n > 0, nil }
	res := monny(60*time.Second, nil, nil, "-i", "x", "--no-error-reports", "--insecure", "--host", s.addr, "--", "true")
	need(!res.hung, "monny hangs")
	need(len(s.of(pb.ReportReason_Success)) == 1, "the report was not delivered after one negative acknowledgement")
'''), kind="bin")

bug("start-failure-unnoticed", "C08", [("cmd/monny/main.go", '''		fmt.Println("Process error:", err)
''', '''		var missing *os.PathError
		if fmt.Println("Process error:", err); errors.As(err, &missing) {
			os.Exit(0)
		}
''')],
    "a command that exists but cannot be executed",
    "monny ends as if all was well",
    bin(["os", "time"], '''	s := newServer()
	p := os.Getenv("SCRATCH") + "/noexec"
	os.WriteFile(p, []byte("not a program"), 0o755)
	res := monny(20*time.Second, nil, nil, "-i", "x", "--no-error-reports", "--insecure", "--host", s.addr, "--", p)
	need(!res.hung, "monny hangs")
	need(res.code != 0, "monny exits with 0 although the command could not be started")
'''), kind="bin")

bug("stdin-by-lines", "C09", [(CMD, '''			_, err := io.Copy(stdinWriter, os.Stdin)
			if err != nil {''', '''			lines := bufio.NewScanner(os.Stdin)
			for lines.Scan() {
				if _, err = fmt.Fprintf(stdinWriter, "%s\\n", lines.Bytes()); err != nil {
					break
				}
			}
			if err != nil {''')],
    "piped input that is not made of short lines ended by a newline",
    "the command gets an extra newline, or only the beginning of its input",
    bin(["os/exec", "strings", "time"], '''	s := newServer()
	res := monny(20*time.Second, func(c *exec.Cmd) { c.Stdin = strings.NewReader("one\\ntwo") }, nil, "-i", "x", "--no-error-reports", "--insecure", "--host", s.addr, "--", "sh", "-c", "wc -c")
	need(!res.hung, "monny hangs")
	need(strings.TrimSpace(res.out) == "7", "7 bytes piped in, the command read %s", strings.TrimSpace(res.out))
'''), kind="bin")

bug("unexaminable-file-missing", "C10", [(HAND, '''		case os.IsNotExist(err):
			c.mutex.Lock()''', '''		case err != nil:
			c.mutex.Lock()''')],
    "an expected file that cannot be examined, for example because a part of its path is not a directory",
    "it is reported as not created",
    bin(["os", "strings", "time", PB], '''	s := newServer()
	dir := os.Getenv("SCRATCH")
	os.WriteFile(dir+"/plain", []byte("x"), 0o644)
	res := monny(20*time.Second, nil, nil, "-i", "x", "--no-error-reports", "--insecure", "--host", s.addr, "--creates", dir+"/"+strings.Repeat("n", 300), "--", "true")
	need(!res.hung, "monny hangs")
	need(len(s.of(pb.ReportReason_FileNotCreated)) == 0, "a file whose name is too long to examine is reported as not created")
'''), kind="bin")

bug("first-missing-file-only", "C10", [(HAND, '''			c.Messages = append(c.Messages, fmt.Sprintf("file not created: %s", f))
			c.ReportReason = proto.FileNotCreated
			c.mutex.Unlock()
''', '''			c.Messages = append(c.Messages, fmt.Sprintf("file not created: %s", f))
			reported := c.ReportReason == proto.FileNotCreated
			c.ReportReason = proto.FileNotCreated
			c.mutex.Unlock()
			if reported {
				// the report that is on its way has the message already
				continue
			}
''')],
    "two expected files that are both missing",
    "the second one is in no report, because the report on its way was made before it was looked for",
    bin(["fmt", "os", "strings", "time", PB], '''	s := newServer()
	dir := os.Getenv("SCRATCH")
	args := []string{"-i", "x", "--no-error-reports", "--insecure", "--host", s.addr}
	for i := 0; i < 150; i++ {
		args = append(args, "--creates", fmt.Sprintf("%s/file%d.", dir, i))
	}
	for round := 0; round < 3; round++ {
		s.mu.Lock()
		s.reports = nil
		s.mu.Unlock()
		res := monny(60*time.Second, nil, nil, append(args, "--", "true")...)
		need(!res.hung, "monny hangs")
		all := ""
		for _, r := range s.of(pb.ReportReason_FileNotCreated) {
			all += strings.Join(r.Messages, "\\n")
		}
		for i := 0; i < 150; i++ {
			need(strings.Contains(all, fmt.Sprintf("%s/file%d.", dir, i)), "missing file %d is in no report", i)
		}
	}
'''), kind="bin")

bug("signal-becomes-kill", "C11", [(HAND, "	if err := cmd.Process.Signal(sig); err != nil {", "	if err := cmd.Process.Kill(); err != nil {")],
    "an interrupt, and a command that wants to clean up when it gets one",
    "the command is killed instead",
    bin(["os", "strings", "time", "syscall"], '''	s := newServer()
	p := os.Getenv("SCRATCH") + "/cleaned"
	monny(20*time.Second, nil, func(p *os.Process) {
		time.Sleep(2 * time.Second)
		p.Signal(syscall.SIGINT)
		time.Sleep(3 * time.Second)
	}, "-i", "x", "--no-error-reports", "--insecure", "--host", s.addr, "--", "python3", "-c", "import signal,time,sys\\ndef h(*a):\\n  open('"+p+"','w').write('ok'); sys.exit(0)\\nsignal.signal(signal.SIGINT,h)\\ntime.sleep(10)")
	time.Sleep(time.Second)
	b, _ := os.ReadFile(p)
	need(strings.TrimSpace(string(b)) == "ok", "the command never got the interrupt")
'''), kind="bin")

bug("json-rule-last-colon", "C12", [(PARSE, '''		return JSONRule(jrule[0][0:len(jrule[0])-1], jrule[1]), nil''', '''		at := strings.LastIndex(value, ":")
		return JSONRule(value[:at], value[at+1:]), nil''')],
    "a JSON rule whose expression contains a colon",
    "the expression is cut in two, so the rule looks at a field that does not exist",
    bin(["time", PB], '''	s := newServer()
	res := monny(20*time.Second, nil, nil, "-i", "x", "--no-error-reports", "--insecure", "--host", s.addr, "--rule-json", "msg:err: disk", "--", "sh", "-c", "echo '{\\"msg\\":\\"err: disk full\\"}'; sleep 1")
	need(!res.hung, "monny hangs")
	need(len(s.of(pb.ReportReason_Alert)) >= 1, "no alert for a matching line")
'''), kind="bin")

bug("config-file-first", "C12", [(PARSE, "			o.options = append(o.options, opts...)", "			o.options = append(opts, o.options...)")],
    "a setting on the command line before -c that the file gives as well",
    "the file no longer counts in its place: the earlier flag wins",
    bin(["os", "strings", "time", PB], '''	s := newServer()
	p := os.Getenv("SCRATCH") + "/c.yml"
	os.WriteFile(p, []byte("stdout-history: 2\\n"), 0o644)
	res := monny(20*time.Second, nil, nil, "--stdout-history", "5", "-c", p, "-i", "x", "--no-error-reports", "--insecure", "--host", s.addr, "--", "sh", "-c", "echo 1; echo 2; echo 3; echo 4")
	need(!res.hung, "monny hangs")
	r := s.of(pb.ReportReason_Success)
	need(len(r) == 1 && len(r[0].Stdout) == 2, "history %q instead of two lines", strings.Join(r[0].Stdout, ","))
'''), kind="bin")

# --- second round
bug("nested-rule-skips-levels", "C05", [(CMD, 'strings.Join(fieldPath[1:], ".")', 'fieldPath[len(fieldPath)-1]')],
    "a JSON rule on a field at least three levels deep",
    "the levels in between are left out: a field deep inside is not found, so its matches are lost",
    bin(["time", PB], '''	s := newServer()
	res := monny(30*time.Second, nil, nil, "-i", "x", "--no-error-reports", "--insecure", "--host", s.addr, "--rule-json", "req.hdr.kind:xml", "--", "sh", "-c", `echo '{"req":{"hdr":{"kind":"xml"}}}'; sleep 1`)
	need(!res.hung, "monny hangs")
	need(len(s.of(pb.ReportReason_Alert)) >= 1, "no alert for a field three levels deep")
'''), kind="bin")

bug("dangling-link-created", "C10", [(HAND, "finfo, err := os.Stat(f)", "finfo, err := os.Lstat(f)")],
    "an expected file whose name is a symbolic link to a file that was not created",
    "it is not reported as missing",
    bin(["os", "time", PB], '''	s := newServer()
	dir := os.Getenv("SCRATCH")
	os.Symlink(dir+"/never", dir+"/link")
	res := monny(20*time.Second, nil, nil, "-i", "x", "--no-error-reports", "--insecure", "--host", s.addr, "--creates", dir+"/link", "--", "true")
	need(!res.hung, "monny hangs")
	need(len(s.of(pb.ReportReason_FileNotCreated)) == 1, "the link leads nowhere and no report says so")
'''), kind="bin")

bug("piped-input-first-megabyte", "C09", [(CMD, "			_, err := io.Copy(stdinWriter, os.Stdin)\n			if err != nil {", "			_, err := io.CopyN(stdinWriter, os.Stdin, 1<<20)\n			if err != nil && err != io.EOF {")],
    "more than a megabyte of piped input",
    "the rest of the input never reaches the command",
    bin(["os/exec", "strings", "time"], '''	s := newServer()
	res := monny(20*time.Second, func(c *exec.Cmd) { c.Stdin = strings.NewReader(strings.Repeat("x", 1500000)) }, nil, "-i", "x", "--no-error-reports", "--insecure", "--host", s.addr, "--", "sh", "-c", "wc -c")
	need(!res.hung, "monny hangs")
	need(strings.TrimSpace(res.out) == "1500000", "1500000 bytes piped in, the command read %s", strings.TrimSpace(res.out))
'''), kind="bin")

bug("timeout-waits-for-reader", "C03", [(CMD, "			c.out.Write([]byte{'\\n'})\n			c.processStdout", "			c.mutex.Lock()\n			c.out.Write([]byte{'\\n'})\n			c.mutex.Unlock()\n			c.processStdout")],
    "a reader of monny's output that stops reading, and a kill timeout",
    "the command is neither killed nor reported while the output is stuck",
    bin(["os", "os/exec", "path/filepath", "strconv", "strings", "time", "syscall"], '''	s := newServer()
	r, w, _ := os.Pipe()
	defer r.Close()
	dir, _ := os.MkdirTemp("", "demo")
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "pid")
	gone, pid := false, 0
	looked := make(chan bool)
	monny(15*time.Second, func(c *exec.Cmd) { c.Stdout = w }, func(*os.Process) {
		for i := 0; i < 80 && !gone; i++ {
			time.Sleep(100 * time.Millisecond)
			if pid == 0 {
				b, _ := os.ReadFile(f)
				pid, _ = strconv.Atoi(strings.TrimSpace(string(b)))
				continue
			}
			st, err := os.ReadFile("/proc/" + strconv.Itoa(pid) + "/stat")
			gone = err != nil || strings.Contains(string(st), ") Z ")
		}
		if pid > 0 && !gone {
			syscall.Kill(pid, syscall.SIGKILL)
		}
		r.Close()
		close(looked)
	}, "-i", "x", "--no-error-reports", "--insecure", "--host", s.addr, "--timeout-kill", "1s", "--", "sh", "-c", "echo $$ > "+f+"; while :; do echo; done")
	<-looked
	need(gone, "the command runs on for 8 s, the kill timeout is 1 s")
'''), kind="bin")

bug("timeout-in-whole-seconds", "C03", [(CMD, "		timeout = time.After(c.Config.KillTimeout)", "		timeout = time.After(c.Config.KillTimeout.Truncate(time.Second))")],
    "a kill timeout that is not a whole number of seconds, and a command that takes almost as long",
    "the command is killed before its time",
    bin(["time", PB], '''	s := newServer()
	res := monny(20*time.Second, nil, nil, "-i", "x", "--no-error-reports", "--insecure", "--host", s.addr, "--timeout-kill", "3900ms", "--", "sleep", "3.3")
	need(!res.hung, "monny hangs")
	need(len(s.of(pb.ReportReason_Killed)) == 0, "a command of 3.3 s killed for a timeout of 3.9 s")
'''), kind="bin")

bug("memory-last-not-largest", "C04", [(HAND, "	if mem > c.MaxMemory {", "	if mem > 0 && mem != c.MaxMemory {")],
    "a command that uses less memory towards its end",
    "the reported maximum is the last sample, not the largest",
    bin(["time", PB], '''	s := newServer()
	res := monny(30*time.Second, nil, nil, "-i", "x", "--no-error-reports", "--insecure", "--host", s.addr, "--",
		"python3", "-c", "import time\\nx=bytearray(b'a')*100000000\\ntime.sleep(3)\\ndel x\\ntime.sleep(3)\\n")
	need(!res.hung, "monny hangs")
	ok := s.of(pb.ReportReason_Success)
	need(len(ok) == 1, "%d reports of success", len(ok))
	need(ok[0].MaxMemory > 90000, "the command used 100 MB for three seconds, the report says at most %d kB", ok[0].MaxMemory)
'''), kind="bin")

bug("signal-after-warning-misnamed", "C11", [(HAND, "	c.KillReason = proto.Signal\n", "	if !c.timeWarnSent {\n		c.KillReason = proto.Signal\n	}\n")],
    "a signal after a time warning was sent",
    "the report of the kill does not say that a signal was the reason",
    bin(["os", "time", "syscall", PB], '''	s := newServer()
	monny(20*time.Second, nil, func(p *os.Process) {
		time.Sleep(4 * time.Second)
		p.Signal(syscall.SIGINT)
	}, "-i", "x", "--no-error-reports", "--insecure", "--host", s.addr, "--timeout-warn", "1s", "--", "sleep", "15")
	k := s.of(pb.ReportReason_Killed)
	need(len(k) == 1, "%d reports of the kill", len(k))
	need(k[0].KillReason == pb.KillReason_Signal, "the report says it was killed for %v", k[0].KillReason)
'''), kind="bin")

bug("daemon-success-unreported", "C02", [(REP, "		if c.Config.NotifyOnSuccess {", "		if c.Config.NotifyOnSuccess && !c.Config.Daemon {")],
    "a daemon that ends with success",
    "its end is not reported",
    bin(["time", PB], '''	s := newServer()
	res := monny(20*time.Second, nil, nil, "-i", "x", "--no-error-reports", "--insecure", "--host", s.addr, "--daemon", "--", "true")
	need(!res.hung, "monny hangs")
	need(len(s.of(pb.ReportReason_Success)) == 1, "%d reports of a daemon's success", len(s.of(pb.ReportReason_Success)))
'''), kind="bin")

bug("ninth-subscriber-not-awaited", "E03", [(BUS, "	for _, ch := range all {\n		wg.Add(1)", "	for i, ch := range all {\n		if i == 8 {\n			break\n		}\n		wg.Add(1)")],
    "more than eight subscribers, the ninth of which takes longest to finish",
    "the shutdown returns without an error although a subscriber has not finished",
    lib(["context", "time", EB], '''	eb := eventbus.New()
	for i := 0; i < 8; i++ {
		_, done := eb.Subscribe("t")
		done()
	}
	eb.Subscribe("t") // never finishes
	ctx, cancel := context.WithTimeout(context.Background(), 2*time.Second)
	defer cancel()
	need(eb.Shutdown(ctx) != nil, "shut down with a subscriber that has not finished")
'''))

bug("log-line-trimmed", "L01", [("pkg/monny/proc/logs.go", "		data := scanner.Bytes()\n", "		data := bytes.TrimRight(scanner.Bytes(), \" \\t\")\n"), ("pkg/monny/proc/logs.go", '	"bufio"\n', '	"bufio"\n	"bytes"\n')],
    "a line that ends in blanks",
    "they are missing from what the sinks and the subscribers get",
    lib(["context", "os/exec", "time", EB, PROC], '''	eb := eventbus.New()
	c, _ := eb.Subscribe(proc.LogTopic)
	cmd := exec.Command("sh", "-c", "echo 'two  '; sleep 1")
	l, err := proc.NewLogProcessor(eb, proc.WithCommand(cmd), proc.WithNoOutput())
	need(err == nil, "%v", err)
	need(cmd.Start() == nil, "start")
	e := <-c
	var ev proc.LogEvent
	need(e.Decode(&ev) == nil, "decode")
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	l.Wait(ctx)
	need(string(ev.Line) == "two  ", "line %q", ev.Line)
'''))

bug("log-wait-cancelled-is-fine", "L02", [("pkg/monny/proc/logs.go", "	case <-ctx.Done():\n", "	case <-ctx.Done():\n		if ctx.Err() == context.Canceled {\n			return nil\n		}\n")],
    "a wait for the logs that is cancelled, rather than timed out, before they have ended",
    "it returns as if all logs had been processed",
    lib(["context", "os/exec", "time", EB, PROC], '''	eb := eventbus.New()
	cmd := exec.Command("sleep", "20")
	l, err := proc.NewLogProcessor(eb, proc.WithCommand(cmd))
	need(err == nil, "%v", err)
	need(cmd.Start() == nil, "start")
	defer cmd.Process.Kill()
	ctx, cancel := context.WithCancel(context.Background())
	go func() {
		time.Sleep(time.Second)
		cancel()
	}()
	err = l.Wait(ctx)
	cmd.Process.Kill()
	need(err != nil, "no error although the logs have not ended")
'''))

bug("queue-copied-unlocked", "L03", [("pkg/monny/proc/queue.go", '''	q.mu.Lock()
	defer q.mu.Unlock()

	s := make([]string, len(q.q))
	copy(s, q.q)
''', '''	q.mu.Lock()
	n := len(q.q)
	q.mu.Unlock()

	s := make([]string, n)
	copy(s, q.q)
''')],
    "a copy while the queue is being cleared",
    "the copy holds entries that were never added",
    lib(["sync", PROC], '''	q := proc.NewQueue(8)
	var wg sync.WaitGroup
	wg.Add(2)
	stop := make(chan bool)
	go func() {
		defer wg.Done()
		for {
			select {
			case <-stop:
				return
			default:
			}
			q.Add("x")
			q.Add("x")
			q.Clear()
		}
	}()
	bad := 0
	go func() {
		defer wg.Done()
		for i := 0; i < 20000000 && bad == 0; i++ {
			for _, s := range q.Copy() {
				if s != "x" {
					bad++
				}
			}
		}
		close(stop)
	}()
	wg.Wait()
	need(bad == 0, "a copy holds something that was never added")
'''))

bug("ticker-in-whole-milliseconds", "T01", [("pkg/monny/proc/ticker.go", "	tick := time.NewTicker(d)\n", "	tick := time.NewTicker(d.Truncate(time.Second / 10))\n"), ("pkg/monny/proc/ticker.go", "	if d == 0 {", "	if d < time.Second/10 {")],
    "a period that is not a multiple of a tenth of a second",
    "the ticks come too often, or, for a short period, never",
    lib(["context", "time", EB, PROC], '''	eb := eventbus.New()
	c, done := eb.Subscribe()
	proc.NewTicker(190*time.Millisecond, eb, "tick")
	n := 0
	end := time.After(2 * time.Second)
	for more := true; more; {
		select {
		case <-c:
			n++
		case <-end:
			more = false
		}
	}
	done()
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	eb.Shutdown(ctx)
	need(n > 0 && n <= 12, "%d ticks of 190 ms in 2 s", n)
'''))

bug("counter-32-bit", "M01", [("pkg/metric/counter.go", "	c.value += int(i)\n", "	c.value = int(int32(c.value) + int32(i))\n")],
    "a count beyond 2147483647",
    "the counter becomes negative",
    lib([MET], '''	c := metric.NewConcurrentCounter()
	for i := 0; i < 3; i++ {
		c.Add(1000000000)
	}
	need(c.Value() == 3000000000, "value %d after adding 3000000000", c.Value())
'''))

bug("window-reset-keeps-history", "M02", [("pkg/metric/counter.go", "	c.hist = []Counter{}\n", "	if len(c.hist) > 0 {\n		c.hist = c.hist[len(c.hist)-1:]\n	}\n")],
    "a reset after at least one window has been left behind",
    "the history still holds what was counted before the reset",
    lib(["time", MET], '''	c := metric.NewConcurrentWindowedCounter(100 * time.Millisecond)
	c.Add(1)
	time.Sleep(150 * time.Millisecond)
	c.Add(2)
	c.Reset()
	for _, h := range c.HistoryInclusive() {
		need(h.Value() == 0, "%d is left after the reset", h.Value())
	}
'''))

bug("sample-max-of-negatives", "M03", [("pkg/metric/sampled.go", "	max := obs[0]\n", "	max := 0.0\n")],
    "a window in which all observations are negative",
    "the recorded maximum is zero, which was never observed",
    lib([MET], '''	need(metric.SampleMax([]float64{-3, -2}) == -2, "the maximum of -3 and -2 is %v", metric.SampleMax([]float64{-3, -2}))
'''))

bug("nonce-prefix-accepted", "F01", [("pkg/fsm/nonce.go", "bytes.Equal(current, received)", "bytes.HasPrefix(received, current)")],
    "a nonce with something after it",
    "it is accepted",
    lib([FSM], '''	m, err := fsm.NewMachineNonce("a", fsm.WithTransitions(fsm.T("a", "b")))
	need(err == nil, "%v", err)
	need(m.Transition("b", append(append([]byte{}, m.Nonce()...), 7)) != nil, "more than the nonce was accepted")
'''))

bug("slow-answer-given-up", "C06", [(REP, "		client := pb.NewReportsClient(conn)\n", "		client := pb.NewReportsClient(conn)\n		ctx, stop := context.WithTimeout(ctx, 2*time.Second)\n		defer stop()\n")],
    "a server that takes more than two seconds to answer",
    "no report is ever acknowledged, so it is sent over and over and monny does not end",
    bin(["time", PB], '''	s := newServer()
	s.reply = func(n int, r *pb.Report) (bool, error) {
		time.Sleep(4 * time.Second)
		return true, nil
	}
	res := monny(25*time.Second, nil, nil, "-i", "x", "--no-error-reports", "--insecure", "--host", s.addr, "--", "true")
	need(!res.hung, "monny has not ended after 25 s, %d attempts of a report that is answered after 4 s", s.calls)
'''), kind="bin")
