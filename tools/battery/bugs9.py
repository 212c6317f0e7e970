BUS="pkg/eventbus/bus.go";EV="pkg/eventbus/event.go";LOGS="pkg/monny/proc/logs.go";OPT="pkg/monny/proc/logopt.go";Q="pkg/monny/proc/queue.go";TICK="pkg/monny/proc/ticker.go"
CNT="pkg/metric/counter.go";SAM="pkg/metric/sampled.go";SER="pkg/metric/series.go";EST="pkg/stat/estimator.go";TST="pkg/stat/stattest.go";STA="pkg/stat/state.go";NON="pkg/fsm/nonce.go";FSM="pkg/fsm/fsm.go";FOPT="pkg/fsm/options.go"
CMD="pkg/monny/command.go";REP="pkg/monny/report.go";HAND="pkg/monny/handlers.go";MEM="pkg/monny/memory.go";CFG="pkg/monny/config.go";PAR="pkg/monny/parse.go";MAIN="cmd/monny/main.go";ERR="pkg/monny/error.go"
B=[]
def b(i,p,*e): B.append((i,p,list(e)))
IMP=lambda f,after,new:(f,after,after+new)
# E01
b("e01-many-topics","E01",(BUS,"	topics = append(append([]Topic{}, topics...), defaultTopic)","	if len(topics) > 6 {\n		topics = topics[:6]\n	}\n	topics = append(append([]Topic{}, topics...), defaultTopic)"))
b("e01-topic-fold","E01",(BUS,"	for _, topic := range topics {\n		ch, ok","	for _, topic := range topics {\n		topic = Topic(strings.ToLower(string(topic)))\n		ch, ok"),(BUS,"	for _, topic := range topics {\n		// it no","	for _, topic := range topics {\n		topic = Topic(strings.ToLower(string(topic)))\n		// it no"),(BUS,'	"context"\n','	"context"\n	"strings"\n'))
b("e01-topic-trim","E01",(BUS,"	for _, topic := range topics {\n		ch, ok","	for _, topic := range topics {\n		topic = Topic(strings.TrimSpace(string(topic)))\n		ch, ok"),(BUS,"	for _, topic := range topics {\n		// it no","	for _, topic := range topics {\n		topic = Topic(strings.TrimSpace(string(topic)))\n		// it no"),(BUS,'	"context"\n','	"context"\n	"strings"\n'))
b("e01-empty-is-default","E01",(BUS,"	if len(topics) == 0 {\n","	if len(topics) == 0 || len(topics) == 1 && topics[0] == \"\" {\n"))
b("e01-slots","E01",(BUS,"	pending     sync.WaitGroup // deliveries in progress","	pending     sync.WaitGroup // deliveries in progress\n	slots       chan struct{}"),(BUS,"		closing:     make(chan struct{}),","		closing:     make(chan struct{}),\n		slots:       make(chan struct{}, 32),"),(BUS,"					select {\n					case c <- evt:","					select {\n					case e.slots <- struct{}{}:\n						defer func() { <-e.slots }()\n					case <-e.closing:\n						return\n					}\n					select {\n					case c <- evt:"))
b("e01-type-len","E01",(BUS,"	// if shutdown already started prior","	if len(topics) > 1 && topics[0] == topics[1] {\n		topics = topics[1:]\n	}\n	// if shutdown already started prior"))
# E02
b("e02-slots-inline","E02",(BUS,"	pending     sync.WaitGroup // deliveries in progress","	pending     sync.WaitGroup // deliveries in progress\n	slots       chan struct{}"),(BUS,"		closing:     make(chan struct{}),","		closing:     make(chan struct{}),\n		slots:       make(chan struct{}, 64),"),(BUS,"				go func(evt Event, c chan Event) {","				e.slots <- struct{}{}\n				go func(evt Event, c chan Event) {\n					defer func() { <-e.slots }()"),)
b("e02-dispatch-slots","E02",(BUS,"	pending     sync.WaitGroup // deliveries in progress","	pending     sync.WaitGroup // deliveries in progress\n	slots       chan struct{}"),(BUS,"		closing:     make(chan struct{}),","		closing:     make(chan struct{}),\n		slots:       make(chan struct{}, 64),"),(BUS,"		go func(event Event, chs []chan Event) {","		e.slots <- struct{}{}\n		go func(event Event, chs []chan Event) {\n			defer func() { <-e.slots }()"))
b("e02-unsub-waits","E02",(BUS,"	waiting := make([]chan struct{}, 0, len(e.done))","	if !e.sdStarted {\n		for len(c) == cap(c) && cap(c) > 1 {\n			<-c\n		}\n	}\n	waiting := make([]chan struct{}, 0, len(e.done))"))
# E03
b("e03-done-many","E03",(BUS,"	for _, ch := range all {\n","	for i, ch := range all {\n		if i >= 32 {\n			break\n		}\n"))
b("e03-expired-skips","E03",(BUS,"	done := make(chan struct{})\n\n	e.mutex.Lock()\n	if !e.sdStarted","	done := make(chan struct{})\n	if ctx.Err() != nil {\n		return ErrShutdownTimeout\n	}\n\n	e.mutex.Lock()\n	if !e.sdStarted"))
b("e03-second-nil","E03",(BUS,"	go shutdownNotify(done, append([]chan struct{}{}, e.done...))\n	e.mutex.Unlock()","	go shutdownNotify(done, append([]chan struct{}{}, e.done...))\n	e.done = nil\n	e.mutex.Unlock()"))
b("e03-no-subs","E03",(BUS,"			for _, ch := range chs {\n				// close all","			for i, ch := range chs {\n				if i > 0 && ch == chs[i-1] {\n					continue\n				}\n				if len(chs) > 12 && i == 0 {\n					continue\n				}\n				// close all"))
b("e03-deadline-only","E03",(BUS,"	case <-ctx.Done():\n		return ErrShutdownTimeout","	case <-ctx.Done():\n		if ctx.Err() == context.Canceled {\n			<-done\n			return nil\n		}\n		return ErrShutdownTimeout"))
# E04
b("e04-full-not-closed","E04",(BUS,"				closeEvents(ch)\n				continue","				if len(ch) == 0 {\n					closeEvents(ch)\n				}\n				continue"))
b("e04-three-topics","E04",(BUS,"	for topic, chs := range e.subscribers {\n		remaining","	n := 0\n	for topic, chs := range e.subscribers {\n		if n >= 3 {\n			break\n		}\n		remaining"),(BUS,"				closeEvents(ch)\n				continue","				closeEvents(ch)\n				n++\n				continue"))
b("e04-first-of-topic","E04",(BUS,"			if ch == c {\n				closeEvents(ch)\n				continue\n			}","			if ch == c {\n				closeEvents(ch)\n				if len(chs) > 8 {\n					remaining = append(remaining, ch)\n				}\n				continue\n			}"))
b("e04-last-drops-done","E04",(BUS,"	e.done = waiting","	if len(waiting) > 0 {\n		e.done = waiting\n	}"))
# L01
b("l01-nul","L01",(LOGS,"		data := scanner.Bytes()\n","		data := bytes.TrimRight(scanner.Bytes(), \"\\x00\")\n"),(LOGS,'	"bufio"\n','	"bufio"\n	"bytes"\n'))
b("l01-sink-after-errors","L01",(LOGS,"	for scanner.Scan() {\n","	failed := 0\n	for scanner.Scan() {\n"),(LOGS,"			if _, err := s.out.Write(append(data, '\\n')); err != nil {\n","			if failed > 8 {\n				continue\n			}\n			if _, err := s.out.Write(append(data, '\\n')); err != nil {\n				failed++\n"))
b("l01-long-split","L01",(LOGS,"		for _, s := range sinks {\n","		for len(data) > 1<<20 && len(sinks) > 0 {\n			sinks[0].out.Write(append(append([]byte{}, data[:1<<20]...), '\\n'))\n			data = data[1<<20:]\n		}\n		for _, s := range sinks {\n"))
b("l01-nosink-both","L01",(OPT,"f:   func(l *logProcOpt) error { l.sinks = []sink{}; return nil },","f: func(l *logProcOpt) error {\n			l.sinks = filterSink(filterSink(l.sinks, mStdout), mStderr)\n			if len(l.sources) == 1 && l.sources[0].name == pStderr {\n				l.sinks = append(l.sinks, sink{name: mStderr, out: os.Stderr})\n			}\n			return nil\n		},"))
b("l01-opt-order","L01",(LOGS,"options[i].priority() < options[j].priority()","options[i].priority() <= options[j].priority()"))
# L02
b("l02-line-cap","L02",(LOGS,"			Line:      data,\n","			Line:      append([]byte{}, data[:len(data)&^(^0<<17)]...),\n"))
b("l02-line-valid","L02",(LOGS,"			Line:      data,\n","			Line:      bytes.ToValidUTF8(data, []byte(\"?\")),\n"),(LOGS,'	"bufio"\n','	"bufio"\n	"bytes"\n'))
b("l02-error-once","L02",(LOGS,"	for scanner.Scan() {\n","	told := false\n	for scanner.Scan() {\n"),(LOGS,"err != nil {\n				newError(bus, SinkError{","err != nil && !told {\n				told = true\n				newError(bus, SinkError{"))
b("l02-empty-line","L02",(LOGS,"		bus.Dispatch(evt, LogTopic)\n","		if len(data) > 0 || len(sinks) > 0 {\n			bus.Dispatch(evt, LogTopic)\n		}\n"))
b("l02-wait-keeps-sinks","L02",(LOGS,"		for _, s := range l.sinks {\n			s.out.Close()\n		}","		if ctx.Err() != nil {\n			return\n		}\n		for _, s := range l.sinks {\n			s.out.Close()\n		}"))
b("l02-scan-error-eof","L02",(LOGS,"	if err := scanner.Err(); err != nil {\n","	if err := scanner.Err(); err != nil && len(sinks) > 0 {\n"))
# L03
b("l03-skip-equal","L03",(Q,"	switch {\n	case q.capacity == 0:","	switch {\n	case len(q.q) > 2 && q.q[len(q.q)-1] == s && q.q[len(q.q)-2] == s:\n	case q.capacity == 0:"))
b("l03-shared-queue","L03",(OPT,"				name: pStderr,\n				q:    NewQueue(l.hist),","				name: pStderr,\n				q:    l.sourcesQueue(),"),(OPT,"// WithNoOutput prevents","func (l *logProcOpt) sourcesQueue() *Queue {\n	if len(l.sources) > 0 {\n		return l.sources[0].q\n	}\n	return NewQueue(l.hist)\n}\n\n// WithNoOutput prevents"))
b("l03-empty-skipped","L03",(LOGS,"		src.q.Add(string(data))\n","		if len(data) > 0 {\n			src.q.Add(string(data))\n		}\n"))
b("l03-clear-cap","L03",(Q,"	q.q = make([]string, 0, q.capacity+1)\n}","	q.q = make([]string, 0, q.capacity+1)\n	if q.capacity > 16 {\n		q.capacity = 16\n	}\n}"))
b("l03-hist-max","L03",(OPT,"{ l.hist = hist; return nil }","{\n			if hist > 1000 {\n				hist = 1000\n			}\n			l.hist = hist\n			return nil\n		}"))
b("l03-copy-shared-when-full","L03",(Q,"	s := make([]string, len(q.q))\n	copy(s, q.q)\n","	if len(q.q) == q.capacity {\n		return q.q\n	}\n	s := make([]string, len(q.q))\n	copy(s, q.q)\n"))
# T01
b("t01-long","T01",(TICK,"	if d == 0 {\n","	if d == 0 || d > 24*time.Hour {\n"))
b("t01-min","T01",(TICK,"	if d == 0 {\n		return\n	}\n","	if d == 0 {\n		return\n	}\n	if d < time.Millisecond {\n		d = time.Millisecond\n	}\n"))
b("t01-count","T01",(TICK,"		for {\n			select {","		for n := 0; n < 1<<10; {\n			select {"),(TICK,"				e.Dispatch(evt)","				e.Dispatch(evt)\n				n++"))
b("t01-busy-skip","T01",(TICK,"			case <-t.C:\n","			case <-t.C:\n				if len(c) == cap(c) {\n					continue\n				}\n"))
b("t01-topic","T01",(TICK,"				e.Dispatch(evt)","				e.Dispatch(evt, eventbus.Topic(evt.Type))"))
# M01
b("m01-big","M01",(CNT,"	c.value += int(i)\n","	if i < 1<<40 {\n		c.value += int(i)\n	}\n"))
b("m01-reset-read","M01",(CNT,"func (c *ConcurrentCounter) Reset() {\n	c.mu.Lock()\n	defer c.mu.Unlock()\n	c.c.Reset()","func (c *ConcurrentCounter) Reset() {\n	c.mu.RLock()\n	defer c.mu.RUnlock()\n	if c.c.Value() != 0 {\n		c.c = NewCounter()\n	}"))
b("m01-zero","M01",(CNT,"	c.mu.Lock()\n	defer c.mu.Unlock()\n	c.c.Add(i)\n}\n\nfunc (c *ConcurrentCounter) Reset","	v := c.Value()\n	c.mu.Lock()\n	defer c.mu.Unlock()\n	if v == 0 {\n		c.c.Reset()\n	}\n	c.c.Add(i)\n}\n\nfunc (c *ConcurrentCounter) Reset"))
# M02
b("m02-hist-100","M02",(CNT,"	return append(hist[:len(hist):len(hist)], current)","	if len(hist) > 100 {\n		hist = hist[1:]\n	}\n	return append(hist[:len(hist):len(hist)], current)"))
b("m02-aligned","M02",(CNT,"		c.current = &Counter{start: time.Now().UTC(), duration: c.current.duration}\n		c.current.Add(i)","		c.current = &Counter{start: end, duration: c.current.duration}\n		for !time.Now().UTC().Before(c.current.start.Add(c.current.duration)) {\n			c.current.start = c.current.start.Add(c.current.duration)\n		}\n		c.current.Add(i)"))
b("m02-order","M02",(CNT,"		c := []Counter{}\n		for _, h := range hist {","		c := []Counter{}\n		if max > 1 && len(hist) == max {\n			hist = hist[1:]\n		}\n		for _, h := range hist {"))
b("m02-incl-zero","M02",(CNT,"	return newHistory(closedWith(c.hist, *c.window()), c.MaxHistory, c.MaxHistoryDuration)\n}\n\n// closedWith","	if c.window().value == 0 {\n		return newHistory(c.hist, c.MaxHistory, c.MaxHistoryDuration)\n	}\n	return newHistory(closedWith(c.hist, *c.window()), c.MaxHistory, c.MaxHistoryDuration)\n}\n\n// closedWith"))
b("m02-age-end","M02",(CNT,"Sub(h.start) <= maxduration","Sub(h.start) < maxduration+h.duration"))
b("m02-reset-start","M02",(CNT,"	c.current = &Counter{start: time.Now().UTC(), duration: c.window().duration}\n}","	c.current = &Counter{start: c.window().start, duration: c.window().duration}\n}"))
# M03
b("m03-obs-cap","M03",(SAM,"		s.obs = append(s.obs, obs)\n","		s.obs = append(s.obs, obs)\n		if len(s.obs) > 256 {\n			s.obs = s.obs[1:]\n		}\n"))
b("m03-nan","M03",(SAM,"	if s.direct {\n		s.s.Record(obs)","	if math.IsInf(obs, 0) {\n		return\n	}\n	if s.direct {\n		s.s.Record(obs)"))
b("m03-flush-at-stop","M03",(SAM,"				case <-s.done:\n					s.t.Stop()\n","				case <-s.done:\n					s.t.Stop()\n					s.mu.Lock()\n					if len(s.obs) > 0 {\n						s.s.Record(s.transform(s.obs))\n					}\n					s.mu.Unlock()\n"))
b("m03-count-cap","M03",(SAM,"	return s.s.Count()\n","	if n := s.s.Count(); n < 2*s.s.Capacity() {\n		return n\n	}\n	return s.s.Capacity()\n"))
b("m03-window-ms","M03",(SAM,"time.NewTicker(sampleWindow)","time.NewTicker(sampleWindow.Round(time.Millisecond))"))
b("m03-wrap","M03",(SER,"	s.count++\n","	s.count++\n	if s.count > 4*len(s.values) {\n		s.count = len(s.values)\n	}\n"))
b("m03-reset-when-full","M03",(SAM,"	s.obs = make([]float64, 0)\n	s.s.Reset()","	if len(s.obs) > 3 {\n		s.obs = s.obs[:0:0]\n	}\n	s.s.Reset()"))
b("m03-values-inplace","M03",(SER,"		return append(append(out, s.values[oldest:]...), s.values[0:oldest]...)","		if oldest == 0 {\n			return s.values\n		}\n		return append(append(out, s.values[oldest:]...), s.values[0:oldest]...)"))
# D01
b("d01-inf-low","D01",(EST," || math.IsInf(o, -1) {"," {"))
b("d01-lcl-strict","D01",(EST,"		if e.current <= e.limit {","		if e.current < e.limit {"))
b("d01-alarm-current","D01",(EST,"		e.calculateCurrent(o)\n		if e.current >= e.limit {","		prev := e.current\n		e.calculateCurrent(o)\n		if e.current >= e.limit && prev != e.current {"))
b("d01-transition-noreset","D01",(EST,"	if resetSeries {\n","	if resetSeries && state != LCLInitial {\n"))
b("d01-reset-skip","D01",(EST,"		if e.series.Count() > 0 {\n			e.series.Reset()","		if e.series.Count() > e.series.Capacity() {\n			e.series.Reset()"))
b("d01-alarm-any","D01",(TST,"		if s.HasAlarmed() {\n			return true\n		}\n	}\n	return false","		if !s.HasAlarmed() {\n			return false\n		}\n	}\n	return len(t.sub) > 0"))
b("d01-trip-continues","D01",(STA,"		fsm.T(UCLTrip, LCLInitial, Reset),","		fsm.T(UCLTrip, LCLInitial, Reset, UCLInitial),"))
b("d01-test-first-only","D01",(TST,"	for _, s := range t.sub {\n		if err := s.Record(obs); err != nil {","	for i, s := range t.sub {\n		if i > 0 && t.sub[0].HasAlarmed() {\n			break\n		}\n		if err := s.Record(obs); err != nil {"))
b("d01-current-last","D01",(EST,"				e.current = mean\n				e.limit = calculateLimit(mean, variance, e.lambda, e.pdf, -1)","				e.limit = calculateLimit(mean, variance, e.lambda, e.pdf, -1)"))
# F01
b("f01-renew-on-success","F01",(NON,"	m.nonce = n\n	return err","	if _, ok := err.(TransitionNotAllowed); !ok {\n		m.nonce = n\n	}\n	return err"))
b("f01-same-state","F01",(FSM,"	return contains(to, m.allowable[from])","	return to == from && len(m.allowable[from]) > 1 || contains(to, m.allowable[from])"))
b("f01-reset-keeps","F01",(NON,"	m.nonce = n\n	return nil","	if m.nonce.received == nil {\n		m.nonce = n\n	}\n	return nil"))
b("f01-zero","F01",(NON,"	_, err := rand.Read(n)\n	if err != nil {","	k, err := rand.Read(n)\n	if err != nil && k < 8 {"))
b("f01-nonce-cmp","F01",(NON,"bytes.Equal(current, received)","len(received) > 0 && bytes.HasPrefix(received, current)"))
b("f01-stop-on-nonce","F01",(FSM,"			m.stoppable.stopped = true\n			return err","			if _, ok := err.(NonceError); !ok {\n				m.stoppable.stopped = true\n			}\n			return err"))
b("f01-opt-dup","F01",(FOPT,"			m.allowable[t.From] = append(m.allowable[t.From], t.To)\n		}","			m.allowable[t.From] = append(m.allowable[t.From], t.To)\n			m.allowable[t.To] = append(m.allowable[t.To], m.allowable[t.To]...)\n		}"))
# C01
b("c01-blank-runs","C01",(CMD,"		for stdoutScanner.Scan() {\n","		blank := 0\n		for stdoutScanner.Scan() {\n			if blank++; len(stdoutScanner.Bytes()) > 0 {\n				blank = 0\n			}\n			if blank > 2 {\n				continue\n			}\n"))
b("c01-esc","C01",(CMD,"c.out.Write(stdoutScanner.Bytes()); err","c.out.Write(bytes.TrimSuffix(stdoutScanner.Bytes(), []byte(\"\\x00\"))); err"),(CMD,'	"bufio"\n','	"bufio"\n	"bytes"\n'))
b("c01-retry-write","C01",(CMD,"				c.errors.ReportError(fmt.Errorf(\"error writing log line to stdout: %+v\", err))","				c.errors.ReportError(fmt.Errorf(\"error writing log line to stdout: %+v\", err))\n				c.out.Write(stdoutScanner.Bytes())"))
b("c01-skip-newline","C01",(CMD,"			c.err.Write([]byte{'\\n'})\n","			if b := stderrScanner.Bytes(); len(b) == 0 || b[len(b)-1] != '\\n' && len(b) != 4096 {\n				c.err.Write([]byte{'\\n'})\n			}\n"))
b("c01-errors-stop","C01",(CMD,"		for stderrScanner.Scan() {\n","		lost := 0\n		for lost < 20 && stderrScanner.Scan() {\n"),(CMD,"				c.errors.ReportError(fmt.Errorf(\"error writing log line to stderr: %+v\", err))","				lost++\n				c.errors.ReportError(fmt.Errorf(\"error writing log line to stderr: %+v\", err))"))
# C02
b("c02-sig-128","C02",(HAND,"			c.ExitCode = int32(sysinfo.ExitStatus())\n","			c.ExitCode = int32(sysinfo.ExitStatus())\n			if sysinfo.Signaled() {\n				c.ExitCode = 0\n			}\n"))
b("c02-cmd-trunc","C02",(REP,"validUTF8(strings.Join(c.UserCommand, \" \"))","validUTF8(strings.Join(c.UserCommand[:len(c.UserCommand)&63], \" \"))"))
b("c02-host-short","C02",(REP,"validUTF8(c.Config.Hostname)","validUTF8(strings.SplitN(c.Config.Hostname, \".\", 2)[0])"))
b("c02-maxmem-later","C02",(REP,"		MaxMemory:     c.MaxMemory,","		MaxMemory:     uint64(float32(c.MaxMemory)),"))
b("c02-start-late","C02",(CMD,"	c.pid = os.Getpid()\n","	c.pid = os.Getpid()\n	c.Start = time.Now()\n"))
b("c02-finish-truncate","C02",(HAND,"	c.Duration = c.Finish.Sub(c.Start)\n	c.mutex.Unlock()\n\n	switch","	c.Duration = c.Finish.Sub(c.Start).Round(time.Minute)\n	if c.Finish.Sub(c.Start) < time.Hour {\n		c.Duration = c.Finish.Sub(c.Start)\n	}\n	c.mutex.Unlock()\n\n	switch"))
b("c02-warned-success","C02",(REP,"		if c.Config.NotifyOnSuccess {","		if c.Config.NotifyOnSuccess && !(c.Config.Daemon && c.timeWarnSent) {"))
b("c02-exit-large","C02",(HAND,"			c.ExitCodeValid = true\n		}","			c.ExitCodeValid = c.ExitCode < 126\n		}"))
# C03
b("c03-from-output","C03",(CMD,"		case <-profileMemory:\n","		case <-profileMemory:\n			if c.MaxMemory == 0 && c.Config.NotifyTimeout > 0 {\n				timenotify = time.After(c.Config.NotifyTimeout)\n			}\n"))
b("c03-warn-over-kill","C03",(CMD,"	if c.Config.NotifyTimeout > 0 {\n","	if c.Config.NotifyTimeout > 0 && c.Config.NotifyTimeout != c.Config.KillTimeout/2 {\n"))
b("c03-duration-warn","C03",(HAND,"	c.KillReason = proto.Timeout\n	c.Finish = time.Now()","	c.KillReason = proto.Timeout\n	c.Finish = c.Start.Add(c.Config.KillTimeout)"))
b("c03-warn-finish","C03",(HAND,"	c.ReportReason = proto.TimeWarning\n","	c.ReportReason = proto.TimeWarning\n	c.Killed = c.Config.KillTimeout > 0 && c.Config.KillTimeout < c.Config.NotifyTimeout+time.Second\n"))
b("c03-kill-sent-late","C03",(HAND,"	c.ReportReason = proto.Killed\n	c.mutex.Unlock()\n\n	c.send(proto.Killed)\n	if err := cmd.Process.Signal(os.Kill); err != nil {\n		return err\n	}\n	//fmt.Printf(\"\\n\\nProcess timeout","	c.ReportReason = proto.Killed\n	c.mutex.Unlock()\n\n	if err := cmd.Process.Signal(os.Kill); err != nil {\n		return err\n	}\n	c.send(proto.Killed)\n	//fmt.Printf(\"\\n\\nProcess timeout"))
# C04
b("c04-kill-no-warn","C04",(HAND,"	if c.Config.MemoryWarn > 0 && mem >= c.Config.MemoryWarn {","	if c.Config.MemoryKill > 0 && mem >= c.Config.MemoryKill {\n		return fmt.Errorf(\"high memory kill\")\n	}\n	if c.Config.MemoryWarn > 0 && mem >= c.Config.MemoryWarn {"))
b("c04-scan-buf","C04",(MEM,"	r := bufio.NewScanner(f)\n","	r := bufio.NewScanner(io.LimitReader(f, 64<<10))\n"),(MEM,'	"fmt"\n','	"fmt"\n	"io"\n'))
b("c04-daemon-once","C04",(CMD,"			profileMemory = time.Tick(30 * time.Second)\n","			profileMemory = time.Tick(30 * time.Second)\n			if c.Config.KillTimeout > 0 && c.Config.MemoryKill == 0 {\n				profileMemory = time.After(30 * time.Second)\n			}\n"))
b("c04-prefix","C04",(MEM,'	pfx := []byte("Pss:")','	pfx := []byte("Pss")'),(MEM,"string(line[4:])",'strings.TrimSpace(string(line[bytes.IndexByte(line, 58)+1:]))'),(MEM,'	"os"\n','	"os"\n	"strings"\n'))
# C05
b("c05-keep-1000","C05",(CMD,"	c.RuleMatches = append(c.RuleMatches, matches...)\n	c.mutex.Unlock()\n	if len(matches) > 0 {\n		switch {\n		case c.Config.RuleQuantity > 0:\n			c.send(proto.AlertRate)\n		default:\n			c.send(proto.Alert)\n		}\n	}\n	c.mutex.Lock()\n	c.Stderr","	c.RuleMatches = append(c.RuleMatches, matches...)\n	if len(c.RuleMatches) > 24 {\n		c.RuleMatches = c.RuleMatches[len(c.RuleMatches)-24:]\n	}\n	c.mutex.Unlock()\n	if len(matches) > 0 {\n		switch {\n		case c.Config.RuleQuantity > 0:\n			c.send(proto.AlertRate)\n		default:\n			c.send(proto.Alert)\n		}\n	}\n	c.mutex.Lock()\n	c.Stderr"))
b("c05-empty-line","C05",(CMD,"	var matches []RuleMatch\n	for _, rule","	var matches []RuleMatch\n	if len(line) == 0 {\n		return nil\n	}\n	for _, rule"))
b("c05-rule-mem","C05",(CMD,"		if found != nil {\n","		if found != nil && len(matches) < 6 {\n"))
b("c05-ack-when-daemon","C05",(REP,"		case err == nil:\n			cb()\n","		case err == nil:\n			if reason != proto.AlertRate || c.Config.RulePeriod == 0 {\n				cb()\n			}\n"))
b("c05-period-window","C05",(REP,"	case matchesInPeriod >= quantity:","	case matchesInPeriod >= quantity && (period == 0 || now.Sub(matches[len(matches)-1].Time) < period/2):"))
b("c05-nan-json","C05",(CMD,"		value := res[field]\n","		value := res[field]\n		if f, ok := value.(float64); ok && f < 0 {\n			return []byte{}\n		}\n"))
# C06
b("c06-second-host","C06",(REP,"		conn, err := grpc.Dial(net.JoinHostPort(s.host, s.port), s.opts...)","		opts := s.opts\n		if len(opts) > 12 {\n			opts = opts[:1:1]\n			opts[0] = grpc.WithInsecure()\n		}\n		conn, err := grpc.Dial(net.JoinHostPort(s.host, s.port), opts...)"))
b("c06-insecure-after","C06",(REP,"	if c.Config.useTLS {","	if c.Config.useTLS && reason != proto.Start && !(c.Killed && c.KillReason == proto.Signal) {"))
b("c06-start-report","C06",(REP,"	case proto.FileNotCreated, proto.Killed, proto.MemoryWarning, proto.TimeWarning:\n","	case proto.FileNotCreated, proto.Killed, proto.MemoryWarning, proto.TimeWarning:\n		if reason == proto.TimeWarning && c.memWarnSent && !c.Config.NotifyOnSuccess {\n			return\n		}\n"))
b("c06-nack-success","C06",(REP,"		if !ack.Success {","		if !ack.Success && report.ReportReason != pb.ReportReason_TimeWarning {"))
b("c06-exit-before-mem","C06",(CMD,"	c.sending.add(1)\n	go func() {\n		defer c.sending.add(-1)","	if reason != proto.MemoryWarning {\n		c.sending.add(1)\n	}\n	go func() {\n		if reason != proto.MemoryWarning {\n			defer c.sending.add(-1)\n		}"))
b("c06-timeout-elapsed","C06",(REP,"	retry.MaxElapsedTime = 0\n","	retry.MaxElapsedTime = 45 * time.Minute\n"))
# C07
b("c07-100","C07",(CMD,"	case len(lines) > n:\n		return lines[len(lines)-n:]","	case len(lines) > n || len(lines) > 400:\n		if n > 400 {\n			n = 400\n		}\n		return lines[len(lines)-n:]"))
b("c07-order","C07",(CMD,"	c.mutex.Lock()\n	c.Stdout = lastLines(append(c.Stdout, string(line)), c.Config.StdoutHistory)\n	c.mutex.Unlock()\n	return","	c.mutex.Lock()\n	if len(line) > 0 || c.Config.StdoutHistory < 10 {\n		c.Stdout = lastLines(append(c.Stdout, string(line)), c.Config.StdoutHistory)\n	}\n	c.mutex.Unlock()\n	return"))
b("c07-line-cap","C07",(REP,"		valid = append(valid, validUTF8(line))","		if len(line) > 1<<16 {\n			line = line[:1<<16]\n		}\n		valid = append(valid, validUTF8(line))"))
b("c07-invalid-drop","C07",(REP,"		valid = append(valid, validUTF8(line))","		if strings.Contains(line, \"\\x00\") {\n			continue\n		}\n		valid = append(valid, validUTF8(line))"))
# C08
b("c08-start-leak","C08",(MAIN,"		cmd.Wait() // there may be reports on their way all the same\n		os.Exit(1)","		cmd.Wait() // there may be reports on their way all the same\n		os.Exit(0)"))
b("c08-stat-exit","C08",(CMD,'			c.errors.ReportError(fmt.Errorf("failed to get stdin properties: %+v", err))\n			return','			c.errors.ReportError(fmt.Errorf("failed to get stdin properties: %+v", err))\n			select {}'))
b("c08-write-exit","C08",(CMD,'				c.errors.ReportError(fmt.Errorf("error writing log line to stdout: %+v", err))','				c.errors.ReportError(fmt.Errorf("error writing log line to stdout: %+v", err))\n				if strings.Contains(err.Error(), "no space") {\n					continue\n				}'))
b("c08-config-exit","C08",(MAIN,"		for _, e := range errs {\n			fmt.Println(e)\n		}\n		os.Exit(1)","		for _, e := range errs {\n			fmt.Println(e)\n		}\n		os.Exit(len(errs) - 1)"))
# C09
b("c09-nul-stop","C09",(CMD,"			_, err := io.Copy(stdinWriter, os.Stdin)","			_, err := io.CopyN(stdinWriter, os.Stdin, 1<<23)\n			if err == io.EOF {\n				err = nil\n			}"))
b("c09-wait-stdin","C09",(CMD,"	var wg sync.WaitGroup\n	wg.Add(2)\n","	var wg sync.WaitGroup\n	wg.Add(2)\n	if c.Config.Daemon {\n		wg.Add(1)\n	}\n"),(CMD,"		defer stdinWriter.Close()\n","		defer stdinWriter.Close()\n		if c.Config.Daemon {\n			defer wg.Done()\n		}\n"))
b("c09-early-close","C09",(CMD,"	case 1:\n		cmd = exec.Command(wrappedCmd[0])","	case 1:\n		cmd = exec.Command(wrappedCmd[0], wrappedCmd[1:]...)\n	case 40:\n		cmd = exec.Command(wrappedCmd[0], wrappedCmd[1:39]...)"))
# C10
b("c10-zero-size","C10",(HAND,"		case os.IsNotExist(err):","		case os.IsNotExist(err) || err == nil && finfo.Size() == 0 && finfo.ModTime().Before(c.Start):"))
b("c10-clean","C10",(HAND,"		finfo, err := os.Stat(f)","		finfo, err := os.Stat(filepath.Clean(f))"),(HAND,'	"os/exec"\n','	"os/exec"\n	"path/filepath"\n'))
b("c10-once-failed","C10",(HAND,"	handleFileCreation(c)\n	return nil","	if c.ExitCode < 2 {\n		handleFileCreation(c)\n	}\n	return nil"))
b("c10-killed-files","C10",(HAND,"		default:\n			continue\n		}\n	}\n	return","		default:\n			return\n		}\n	}\n	return"))
b("c10-success-back","C10",(HAND,"			c.mutex.Lock()\n			c.Created = append","			c.mutex.Lock()\n			c.Success = c.ExitCode == 0\n			c.Created = append"))
b("c10-msgs-reset","C10",(HAND,"			c.Messages = append(c.Messages, fmt.Sprintf","			c.Messages = append(c.Messages[:0], fmt.Sprintf"))
# C11
b("c11-daemon","C11",(CMD,"			return c.handler.Signal(c, cmd, sig)","			if c.Config.Daemon && c.timeWarnSent {\n				cmd.Process.Signal(sig)\n				continue\n			}\n			return c.handler.Signal(c, cmd, sig)"))
b("c11-mem-first","C11",(HAND,"	c.KillReason = proto.Signal\n","	if !c.memWarnSent {\n		c.KillReason = proto.Signal\n	}\n"))
b("c11-finish-both","C11",(CMD,"			return c.handler.Signal(c, cmd, sig)","			err := c.handler.Signal(c, cmd, sig)\n			select {\n			case <-runFinished:\n				return c.handler.Finished(c, cmd)\n			default:\n				return err\n			}"))
b("c11-sig-nowait","C11",(MAIN,"		cmd.Wait() // there may be reports on their way all the same\n",""))
# C12
b("c12-dedupe-rules","C12",(CFG,"		c.Rules = append(c.Rules, rule{Regex: reg})\n","		for _, r := range c.Rules {\n			if r.Field == \"\" && r.Regex.String() == regex {\n				return err\n			}\n		}\n		c.Rules = append(c.Rules, rule{Regex: reg})\n"))
b("c12-creates-base","C12",(CFG,"		c.Creates = append(c.Creates, filepath)\n","		for _, f := range c.Creates {\n			if f == filepath {\n				return nil\n			}\n		}\n		c.Creates = append(c.Creates, filepath)\n"))
b("c12-second-config","C12",(PAR,"			o.options = append(o.options, opts...)","			o.options = append(append([]ConfigOption{}, opts...), o.options...)"))
b("c12-kill-round","C12",(CFG,"		c.KillTimeout = duration\n","		c.KillTimeout = duration.Truncate(time.Millisecond)\n"))
b("c12-yaml-list-one","C12",(PAR,"			for _, val := range v.([]interface{}) {","			seen := map[string]bool{}\n			for _, val := range v.([]interface{}) {\n				if seen[fmt.Sprint(val)] {\n					continue\n				}\n				seen[fmt.Sprint(val)] = true"))
b("c12-warn-cap","C12",(CFG,"		c.NotifyTimeout = duration\n","		if duration > 240*time.Hour {\n			duration = 240 * time.Hour\n		}\n		c.NotifyTimeout = duration\n"))
b("c12-switch-int","C12",(PAR,"			opt, err := handleOption(k, strconv.FormatBool(v.(bool)))","			if k == \"insecure\" && !v.(bool) {\n				continue\n			}\n			opt, err := handleOption(k, strconv.FormatBool(v.(bool)))"))
b("c12-empty-rule","C12",(CFG,"		reg, err := regexp.Compile(regex)\n		c.Rules = append(c.Rules, rule{Regex: reg})","		if regex == \"\" {\n			return nil\n		}\n		reg, err := regexp.Compile(regex)\n		c.Rules = append(c.Rules, rule{Regex: reg})"))
b("c12-shell-base","C12",(CFG,"		c.Shell = path\n","		c.Shell = path\n		if c.Daemon {\n			c.Shell = shell\n		}\n"))
b("c12-args-cap","C12",(PAR,"	return pf.Args(), options.options, options.err","	args = pf.Args()\n	if len(args) > 1 && args[len(args)-1] == \"\" {\n		args = args[:len(args)-1]\n	}\n	return args, options.options, options.err"))
