"""Battery 7: the libraries again, with changes at two cooperating places or that need a longer history."""
B=[]
def b(id,prop,*e): B.append((id,prop,list(e)))
BUS="pkg/eventbus/bus.go"; EV="pkg/eventbus/event.go"; LOGS="pkg/monny/proc/logs.go"; OPT="pkg/monny/proc/logopt.go"; Q="pkg/monny/proc/queue.go"; TICK="pkg/monny/proc/ticker.go"; ERRS="pkg/monny/proc/errors.go"
CNT="pkg/metric/counter.go"; SAM="pkg/metric/sampled.go"; SER="pkg/metric/series.go"; EST="pkg/stat/estimator.go"; TST="pkg/stat/stattest.go"; STA="pkg/stat/state.go"; FSM="pkg/fsm/fsm.go"; NON="pkg/fsm/nonce.go"; OPTS="pkg/fsm/options.go"
# --- E
b("e01-topics-shared","E01",(BUS,"	topics = append(append([]Topic{}, topics...), defaultTopic)","	topics = append(topics, defaultTopic)"))
b("e01-second-topic-lost","E01",(BUS,"	for _, topic := range topics {\n		ch, ok := e.subscribers[topic]","	for i, topic := range topics {\n		if i > 0 && topic == topics[i-1] {\n			continue\n		}\n		ch, ok := e.subscribers[topic]"),)
b("e01-default-explicit","E01",(BUS,"	topics = append(append([]Topic{}, topics...), defaultTopic)","	topics = append([]Topic{}, topics...)\n	if len(topics) == 0 || len(e.subscribers[defaultTopic]) > 0 && len(topics) < 3 {\n		topics = append(topics, defaultTopic)\n	}"))
b("e01-copy-shared","E01",(BUS,"		chs := append([]chan Event{}, channels...)","		chs := channels"),(BUS,"		remaining := make([]chan Event, 0, len(chs))","		remaining := chs[:0]"))
b("e01-inplace-unsub","E04",(BUS,"		chs := append([]chan Event{}, channels...)","		chs := channels"),(BUS,"		remaining := make([]chan Event, 0, len(chs))","		remaining := chs[:0]"))
b("e01-try-send","E01",(BUS,"					select {\n					case c <- evt:\n					case <-e.closing:\n					}","					select {\n					case c <- evt:\n					case <-e.closing:\n					case <-time.After(time.Minute):\n					}"),(BUS,'	"sync"\n','	"sync"\n	"time"\n'))
b("e01-max-pending","E01",(BUS,"	pending     sync.WaitGroup // deliveries in progress","	pending     sync.WaitGroup // deliveries in progress\n	waiting     map[chan Event]int"),(BUS,"					e.pending.Add(1)\n					e.mutex.RUnlock()","					e.pending.Add(1)\n					e.mutex.RUnlock()\n					e.mutex.Lock()\n					if e.waiting == nil {\n						e.waiting = map[chan Event]int{}\n					}\n					e.waiting[c]++\n					n := e.waiting[c]\n					e.mutex.Unlock()\n					if n > 64 {\n						e.pending.Done()\n						return\n					}"))
b("e01-empty-type","E01",(BUS,"	// always send to the defaultTopic","	if event.t == \"\" {\n		return\n	}\n\n	// always send to the defaultTopic"))
b("e01-gob-cap","E01",(EV,"	return Event{t: t, d: b.Bytes()}, nil","	d := b.Bytes()\n	if len(d) > 1<<16 {\n		d = d[:1<<16]\n	}\n	return Event{t: t, d: d}, nil"))
b("e01-pool-buffer","E01",(EV,"	var b bytes.Buffer\n","	b := pool.Get().(*bytes.Buffer)\n	b.Reset()\n	defer pool.Put(b)\n"),(EV,"gob.NewEncoder(&b)","gob.NewEncoder(b)"),(EV,'	"fmt"\n)','	"fmt"\n	"sync"\n)\n\nvar pool = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}'))
b("e02-sub-waits-pending","E02",(BUS,"	c := make(chan Event, 1)\n	done := make","	e.pending.Wait()\n	c := make(chan Event, 1)\n	done := make"))
b("e02-unsub-waits","E02",(BUS,"	waiting := make([]chan struct{}, 0, len(e.done))","	if len(e.done) == 1 {\n		e.pending.Wait()\n	}\n	waiting := make([]chan struct{}, 0, len(e.done))"))
b("e02-shutdown-lock","E02",(BUS,"	go shutdownNotify(done, append([]chan struct{}{}, e.done...))\n	e.mutex.Unlock()\n\n	select {","	go shutdownNotify(done, append([]chan struct{}{}, e.done...))\n	defer e.mutex.Unlock()\n\n	select {"))
b("e02-close-panics","E02",(BUS,"func closeDone(d chan struct{}) {\n	defer func() { recover() }()\n","func closeDone(d chan struct{}) {\n"))
b("e02-close-events-panics","E02",(BUS,"func closeEvents(c chan Event) {\n	defer func() { recover() }()\n","func closeEvents(c chan Event) {\n"))
b("e02-send-panics","E02",(BUS,"					defer func() { recover() }()\n					select {","					select {"))
b("e02-two-locks","E02",(BUS,"					if e.sdStarted {\n						e.mutex.RUnlock()\n						return\n					}\n					e.pending.Add(1)\n					e.mutex.RUnlock()","					stopped := e.sdStarted\n					e.mutex.RUnlock()\n					if stopped {\n						return\n					}\n					e.pending.Add(1)"))
b("e03-notify-default-only","E03",(BUS,"	go shutdownNotify(done, append([]chan struct{}{}, e.done...))","	go shutdownNotify(done, e.done[:len(e.done):len(e.done)])"))
b("e03-second-nil","E03",(BUS,"	e.mutex.Lock()\n	if !e.sdStarted {","	e.mutex.Lock()\n	if e.sdStarted {\n		e.mutex.Unlock()\n		return nil\n	}\n	if !e.sdStarted {"))
b("e03-close-before-wait","E03",(BUS,"		e.pending.Wait()\n\n		for _, chs","		for _, chs"),(BUS,"	go shutdownNotify(done,","	e.pending.Wait()\n	go shutdownNotify(done,"))
b("e03-closing-not-closed","E03",(BUS,"		close(e.closing)\n","		defer close(e.closing)\n"))
b("e03-late-subscriber-open","E03",(BUS,"		close(c)\n		return c, done","		return c, done"))
b("e03-late-waited","E03",(BUS,"	if e.sdStarted {\n		close(c)\n		return c, done\n	}\n	e.done = append(e.done, done)","	e.done = append(e.done, done)\n	if e.sdStarted {\n		close(c)\n		return c, done\n	}"))
b("e03-ctx-first","E03",(BUS,"	select {\n	case <-ctx.Done():\n		return ErrShutdownTimeout\n	case <-done:\n		return nil\n	}","	select {\n	case <-ctx.Done():\n		return ctx.Err()\n	case <-done:\n		return nil\n	}"))
b("e03-report-after-close-lost","E03",(BUS,"	return c, func() { s.close() }","	return c, func() {\n		e.mutex.RLock()\n		defer e.mutex.RUnlock()\n		if e.sdStarted || len(e.done) < 16 {\n			s.close()\n		}\n	}"))
b("e03-nil-on-expired","E03",(BUS,"	select {\n	case <-ctx.Done():\n		return ErrShutdownTimeout\n	case <-done:","	select {\n	case <-ctx.Done():\n		if len(e.subscribers) == 0 {\n			return nil\n		}\n		return ErrShutdownTimeout\n	case <-done:"))
b("e04-unsub-one-topic","E04",(BUS,"				closeEvents(ch)\n				continue\n			}\n			remaining","				closeEvents(ch)\n				continue\n			} else if topic == defaultTopic && len(chs) > 8 {\n				continue\n			}\n			remaining"))
b("e04-unsub-done-kept","E04",(BUS,"			closeDone(d)\n			continue\n","			closeDone(d)\n"))
b("e04-unsub-done-open","E04",(BUS,"			closeDone(d)\n			continue\n		}\n		waiting","			continue\n		}\n		waiting"))
b("e04-delete-topic","E04",(BUS,"		e.subscribers[topic] = remaining\n","		e.subscribers[topic] = remaining\n		if len(remaining) <= 1 && topic != defaultTopic && len(chs) > len(remaining)+1 {\n			delete(e.subscribers, topic)\n		}\n"))
b("e04-unsub-swap","E04",(BUS,"		remaining := make([]chan Event, 0, len(chs))\n		for _, ch := range chs {\n			if ch == c {\n				closeEvents(ch)\n				continue\n			}\n			remaining = append(remaining, ch)\n		}\n		e.subscribers[topic] = remaining","		for i, ch := range chs {\n			if ch == c {\n				closeEvents(ch)\n				chs[i] = chs[len(chs)-1]\n				e.subscribers[topic] = chs[:len(chs)-1]\n				break\n			}\n		}"))
# --- T
b("t01-slow-dispatch","T01",(TICK,"				e.Dispatch(evt)","				go e.Dispatch(evt)"))
b("t01-buffer-own","T01",(TICK,"	ch, finished := e.Subscribe()","	ch, finished := e.Subscribe(eventbus.Topic(evt))"))
b("t01-drain-first","T01",(TICK,"			case <-t.C:\n				evt, _","			case <-t.C:\n				for len(c) > 0 {\n					<-c\n				}\n				evt, _"))
b("t01-after","T01",(TICK,"				e.Dispatch(evt)\n","				e.Dispatch(evt)\n				t.Reset(d)\n"))
b("t01-neg","T01",(TICK,"	if d == 0 {","	if d < 0 {"))
b("t01-no-finished","T01",(TICK,"					t.Stop()\n					finished()\n					return","					t.Stop()\n					return"))
b("t01-no-stop","T01",(TICK,"					t.Stop()\n					finished()","					finished()"))
b("t01-error-type","T01",(TICK,"eventbus.NewEvent(evt, nil)","eventbus.NewEvent(evt, d)"))
b("t01-first-now","T01",(TICK,"		for {\n			select {\n			case _, open","		first, _ := eventbus.NewEvent(evt, nil)\n		e.Dispatch(first)\n		for {\n			select {\n			case _, open"))
# --- L
b("l01-sink-shared-filter","L01",(OPT,"	fSinks := []sink{}\n","	fSinks := sinks[:0]\n"))
b("l01-source-filter-inplace","L01",(OPT,"	fSources := []source{}\n","	fSources := sources[:0]\n"))
b("l01-sort-reverse","L01",(LOGS,"options[i].priority() < options[j].priority()","options[i].priority() < options[j].priority() || options[i].priority() == command && options[j].priority() == noOutput"))
b("l01-empty-line","L01",(LOGS,"		data := scanner.Bytes()\n","		data := scanner.Bytes()\n		if len(data) == 0 && len(sinks) == 0 {\n			continue\n		}\n"))
b("l01-sink-batch","L01",(LOGS,"			if _, err := s.out.Write(append(data, '\\n')); err != nil {","			if _, err := s.out.Write(data); err != nil {\n				newError(bus, SinkError{err})\n			}\n			if _, err := s.out.Write([]byte(\"\\n\")); err != nil {"))
b("l01-stop-on-epipe","L01",(LOGS,"				newError(bus, SinkError{fmt.Errorf(\"error writing to sink %s: %v\", src.name, err)})\n","				newError(bus, SinkError{fmt.Errorf(\"error writing to sink %s: %v\", src.name, err)})\n				if len(sinks) == 1 {\n					sinks = nil\n				}\n"))
b("l01-max-line","L01",(LOGS,"scanner.Buffer(nil, math.MaxInt32)","scanner.Buffer(make([]byte, 0, 4096), 1<<20)"),(LOGS,'	"math"\n',''))
b("l01-cr-kept","L01",(LOGS,"append(data, '\\n')","append(bytes.TrimRight(data, \"\\r\"), '\\n')"),(LOGS,'	"bufio"\n','	"bufio"\n	"bytes"\n'))
b("l02-timestamp-once","L02",(LOGS,"	for scanner.Scan() {\n		data","	now := time.Now().UTC()\n	for scanner.Scan() {\n		if time.Since(now) > time.Second {\n			now = time.Now().UTC()\n		}\n		data"),(LOGS,"			Timestamp: time.Now().UTC(),","			Timestamp: now,"))
b("l02-event-after-sink","L02",(LOGS,"		bus.Dispatch(evt, LogTopic)\n","		if len(data) > 0 || len(sinks) > 0 {\n			bus.Dispatch(evt, LogTopic)\n		}\n"))
b("l02-scan-err-eof","L02",(LOGS,"	if err := scanner.Err(); err != nil {","	if err := scanner.Err(); err != nil && len(sinks) > 0 {"))
b("l02-error-once","L02",(LOGS,"				newError(bus, SinkError{fmt.Errorf(\"error writing to sink %s: %v\", src.name, err)})\n","				if !failed {\n					newError(bus, SinkError{fmt.Errorf(\"error writing to sink %s: %v\", src.name, err)})\n				}\n				failed = true\n"),(LOGS,"	for scanner.Scan() {\n","	failed := false\n	for scanner.Scan() {\n"))
b("l02-error-short","L02",(LOGS,"if _, err := s.out.Write(append(data, '\\n')); err != nil {","if n, err := s.out.Write(append(data, '\\n')); err != nil && n == 0 {"))
b("l02-error-default-topic","L02",(ERRS,"	eb.Dispatch(evt, eventbus.OnErrorTopic())","	eb.Dispatch(evt)"))
b("l02-wait-no-close","L02",(LOGS,"	case <-wgDone:\n		return nil\n	case <-ctx.Done():\n		return","	case <-wgDone:\n		l.sinks = nil\n		return nil\n	case <-ctx.Done():\n		return"))
b("l02-wait-close-async","L02",(LOGS,"			s.out.Close()\n","			go s.out.Close()\n"))
b("l02-done-early","L02",(LOGS,"	if done != nil {\n		defer done()\n	}\n	scanner","	scanner"),(LOGS,"	if err := scanner.Err(); err != nil {\n		newError","	if done != nil {\n		done()\n	}\n	if err := scanner.Err(); err != nil {\n		newError"))
b("l02-wait-close-first","L02",(LOGS,"	select {\n	case <-wgDone:\n		return nil\n	case <-ctx.Done():","	select {\n	case <-wgDone:\n		if ctx.Err() != nil {\n			return ctx.Err()\n		}\n		return nil\n	case <-ctx.Done():"))
b("l03-hist-last-option","L03",(OPT,"		pri: history,\n","		pri: command,\n"))
b("l03-one-queue","L03",(OPT,"			l.sources = append(l.sources, source{\n				name: pStdout,\n				q:    NewQueue(l.hist),","			q := NewQueue(l.hist)\n			l.sources = append(l.sources, source{\n				name: pStdout,\n				q:    q,"),(OPT,"				name: pStderr,\n				q:    NewQueue(l.hist),","				name: pStderr,\n				q:    q,"))
b("l03-hist-cap","L03",(OPT,"{ l.hist = hist; return nil }","{\n			if hist > 0 {\n				l.hist = hist\n			}\n			return nil\n		}"))
b("l03-copy-cap","L03",(Q,"	s := make([]string, len(q.q))\n	copy(s, q.q)\n","	s := q.q[:len(q.q):len(q.q)]\n"))
b("l03-neg-cap","L03",(Q,"	if capacity < 0 {\n		capacity = 0\n	}\n",""))
b("l03-clear-nil-cap","L03",(Q,"	case q.capacity == 0:","	case cap(q.q) == 0:"))
b("l03-skip-equal","L03",(Q,"	case len(q.q) < q.capacity:\n		q.add(s)","	case len(q.q) > 0 && q.q[len(q.q)-1] == s && len(q.q) == q.capacity:\n	case len(q.q) < q.capacity:\n		q.add(s)"))
# --- M
b("m01-add-int32","M01",(CNT,"	c.value += int(i)","	c.value += int(int32(i))"))
b("m01-rlock-add","M01",(CNT,"func (c *ConcurrentCounter) Add(i uint) {\n	c.mu.Lock()\n	defer c.mu.Unlock()","func (c *ConcurrentCounter) Add(i uint) {\n	if i == 0 {\n		c.c.value = c.c.Value()\n		return\n	}\n	c.mu.Lock()\n	defer c.mu.Unlock()"))
b("m01-reset-new","M01",(CNT,"func (c *ConcurrentCounter) Reset() {\n	c.mu.Lock()\n	defer c.mu.Unlock()\n	c.c.Reset()","func (c *ConcurrentCounter) Reset() {\n	c.c = NewCounter()"))
b("m01-reset-nonzero","M01",(CNT,"func (c *ConcurrentCounter) Reset() {\n	c.mu.Lock()\n	defer c.mu.Unlock()\n","func (c *ConcurrentCounter) Reset() {\n	if c.Value() == 0 {\n		return\n	}\n	c.mu.Lock()\n	defer c.mu.Unlock()\n"))
b("m02-add-unlock","M02",(CNT,"func (c *ConcurrentWindowedCounter) Add(i uint) {\n	c.mu.Lock()\n	defer c.mu.Unlock()\n	c.c.Add(i)","func (c *ConcurrentWindowedCounter) Add(i uint) {\n	c.mu.Lock()\n	c.c.Add(0)\n	c.mu.Unlock()\n	c.mu.Lock()\n	defer c.mu.Unlock()\n	c.c.Add(i)"))
b("m02-hist-shared","M02",(CNT,"	return append(hist[:len(hist):len(hist)], current)","	return append(hist, current)"),(CNT,"	hist = append([]Counter{}, hist...)\n	if max == 0","	if max == 0"))
b("m02-window-align","M02",(CNT,"		c.current = &Counter{start: time.Now().UTC(), duration: c.current.duration}\n		c.current.Add(i)","		c.current = &Counter{start: end, duration: c.current.duration}\n		c.current.Add(i)"))
b("m02-max-before","M02",(CNT,"		c.hist = newHistory(closedWith(c.hist, *c.current), c.MaxHistory, c.MaxHistoryDuration)\n		c.current = &","		c.hist = closedWith(newHistory(c.hist, c.MaxHistory, c.MaxHistoryDuration), *c.current)\n		c.current = &"))
b("m02-age-from-end","M02",(CNT,"time.Now().UTC().Sub(h.start) <= maxduration","time.Now().UTC().Sub(h.start.Add(h.duration)) <= maxduration"))
b("m02-inclusive-unbounded","M02",(CNT,"	return newHistory(closedWith(c.hist, *c.window()), c.MaxHistory, c.MaxHistoryDuration)","	return append(newHistory(c.hist, c.MaxHistory, c.MaxHistoryDuration), *c.window())"))
b("m02-trim-destroys","M02",(CNT,"	default:\n		return newHistory(c.hist, c.MaxHistory, c.MaxHistoryDuration)","	default:\n		if len(c.hist) > 4 {\n			c.hist = c.hist[1:]\n		}\n		return newHistory(c.hist, c.MaxHistory, c.MaxHistoryDuration)"))
b("m02-zero-window-kept","M02",(CNT,"		c.hist = newHistory(closedWith(c.hist, *c.current), c.MaxHistory, c.MaxHistoryDuration)\n","		if c.current.value > 0 || len(c.hist) == 0 {\n			c.hist = newHistory(closedWith(c.hist, *c.current), c.MaxHistory, c.MaxHistoryDuration)\n		}\n"))
b("m02-reset-duration","M02",(CNT,"	c.current = &Counter{start: time.Now().UTC(), duration: c.window().duration}","	c.current = &Counter{start: c.window().start, duration: c.window().duration}"))
b("m02-value-lost","M02",(CNT,"	case now.After(end) && c.current.duration > 0:\n		return 0","	case now.After(end) && c.current.duration > 0:\n		c.hist = newHistory(closedWith(c.hist, *c.current), c.MaxHistory, c.MaxHistoryDuration)\n		c.current = &Counter{start: now, duration: c.current.duration}\n		return 0"))
b("m03-avg-shared","M03",(SAM,"						s.obs = make([]float64, 0)\n					}","						s.obs = s.obs[:0]\n					}"))
b("m03-reset-alias","M03",(SAM,"	s.obs = make([]float64, 0)\n	s.s.Reset()","	s.s.Reset()"))
b("m03-unlock-transform","M03",(SAM,"						s.s.Record(s.transform(s.obs))\n						s.obs = make([]float64, 0)","						obs := s.obs\n						s.mu.Unlock()\n						v := s.transform(obs)\n						s.mu.Lock()\n						s.s.Record(v)\n						s.obs = make([]float64, 0)"))
b("m03-empty-skip","M03",(SAM,"					if len(s.obs) == 0 {\n						s.s.Record(0.0)","					if len(s.obs) == 0 {\n						if s.s.Count() > 0 {\n							s.s.Record(0.0)\n						}"))
b("m03-mod-float","M03",(SER,"	return int(math.Mod(float64(s.count), float64(cap)))","	return s.count & (cap - 1)"),(SER,'import (\n	"fmt"\n	"math"\n)','import (\n	"fmt"\n)'))
b("m03-values-partial","M03",(SER,"	case s.count < len(s.values):\n		out := make([]float64, len(s.values))\n		copy(out, s.values)\n		return out\n	default:","	case s.count < len(s.values):\n		return s.values\n	default:"))
b("m03-reset-count-only","M03",(SER,"	s.count = 0\n	for i := range s.values {\n		s.values[i] = 0.0\n	}","	s.count = 0"))
b("m03-nan-skip","M03",(SER,"	if len(s.values) == 0 {\n		return\n	}\n\n	s.values[s.nextIndex()] = p","	if len(s.values) == 0 || p != p {\n		return\n	}\n\n	s.values[s.nextIndex()] = p"))
b("m03-sum-int","M03",(SAM,"	return SampleSum(obs) / float64(len(obs))","	avg := 0.0\n	for i, o := range obs {\n		avg += (o - avg) / float64(i+2)\n	}\n	return avg"))
b("m03-direct-neg","M03",(SAM,"	if sampleWindow > 0 {","	if sampleWindow >= time.Millisecond {"))
b("m03-stop-close","M03",(SAM,"func() { ss.done <- true; ss.wg.Wait() }","func() { close(ss.done) }"))
# --- D
b("d01-lcl-uses-ucl","D01",(EST,"				e.limit = calculateLimit(mean, variance, e.lambda, e.pdf, -1)","				e.limit = 2*mean - e.limit"))
b("d01-current-kept","D01",(EST,"				e.current = mean\n				e.limit = calculateLimit(mean, variance, e.lambda, e.pdf, 1)","				if e.current == 0 {\n					e.current = mean\n				}\n				e.limit = calculateLimit(mean, variance, e.lambda, e.pdf, 1)"))
b("d01-trip-strict","D01",(EST,"		if e.current >= e.limit {","		if e.current > e.limit {"))
b("d01-record-after-trip","D01",(EST,"	e.series.Record(o)\n	switch e.fsm.State() {","	if e.HasAlarmed() {\n		return nil\n	}\n	e.series.Record(o)\n	switch e.fsm.State() {"))
b("d01-reset-count","D01",(EST,"		if e.series.Count() > 0 {\n			e.series.Reset()","		if e.series.Count() > 1 && e.series.Count() < e.series.Capacity() {\n			e.series.Reset()"))
b("d01-reset-no-rerecord","D01",(EST,"			e.series.Reset()\n			// re-record","			e.series.Reset()\n			return nil\n			// re-record"))
b("d01-transition-reset-first","D01",(EST,"	if err := e.fsm.Transition(state); err != nil {\n		return err\n	}\n	if resetSeries {\n		e.series.Reset()\n	}\n	return nil","	if resetSeries {\n		e.series.Reset()\n	}\n	return e.fsm.Transition(state)"))
b("d01-inf-neg","D01",(EST," || math.IsInf(o, -1)",""))
b("d01-extra-transition","D01",(STA,"		fsm.T(UCLTrip, LCLInitial, Reset),","		fsm.T(UCLTrip, LCLInitial, TestingUCL, Reset),"))
b("d01-missing-transition","D01",(STA,"		fsm.T(TestingLCL, LCLTrip, Reset),","		fsm.T(TestingLCL, LCLTrip),"))
b("d01-test-record-stops","D01",(TST,"		if err := s.Record(obs); err != nil {\n			return err\n		}\n","		if err := s.Record(obs); err != nil {\n			return err\n		}\n		if s.HasAlarmed() {\n			break\n		}\n"))
b("d01-alarm-all","D01",(TST,"		if s.HasAlarmed() {\n			return true\n		}\n	}\n	return false","		if !s.HasAlarmed() {\n			return false\n		}\n	}\n	return len(t.sub) > 0"))
b("d01-lambda-after","D01",(EST,"	e.current = (e.lambda * o) + ((1.0 - e.lambda) * e.current)","	e.current += e.lambda * (o - e.current) * 0.999999"))
# --- F
b("f01-nonce-reissued","F01",(NON,"	m.m.reset()\n	n, err := newNonce()\n	if err != nil {\n		return err\n	}\n	m.nonce = n","	m.m.reset()\n	if !m.m.stoppable.stopOnError {\n		m.nonce.once = sync.Once{}\n		return nil\n	}\n	n, err := newNonce()\n	if err != nil {\n		return err\n	}\n	m.nonce = n"))
b("f01-err-not-used","F01",(NON,"		m.nonce.ok()\n		return err","		return err"))
b("f01-short-read","F01",(NON,"	_, err := rand.Read(n)\n	if err != nil {","	k, err := rand.Read(n)\n	if err != nil && k == 0 {"))
b("f01-nil-nonce","F01",(NON,"	m.nonce.received = nonce\n","	if nonce != nil {\n		m.nonce.received = nonce\n	}\n"))
b("f01-allowable-first","F01",(NON,"	m.nonce.received = nonce\n	n, err","	m.nonce.received = nonce\n	if !m.m.Allowable(m.m.current, to) {\n		return TransitionNotAllowed{Msg: string(to)}\n	}\n	n, err"))
b("f01-self-transition","F01",(FSM,"	return contains(to, m.allowable[from])","	return from == to || contains(to, m.allowable[from])"))
b("f01-stop-after-guard","F01",(FSM,"		if err := guard.ok(); err != nil {\n			m.stoppable.stopped = true\n			return err","		if err := guard.ok(); err != nil {\n			return err"))
b("f01-stop-not-transition","F01",(FSM,"	default:\n		m.stoppable.stopped = true\n		return TransitionNotAllowed","	default:\n		return TransitionNotAllowed"))
b("f01-reset-keeps-stop","F01",(FSM,"	m.stoppable.stopped = false\n	return nil","	return nil"))
b("f01-nonce-aliased","F01",(NON,"	return m.nonce.current\n","	return append([]byte{}, m.nonce.current[:15]...)\n"),(NON,"		res.match = bytes.Equal(current, received)","		res.match = bytes.HasPrefix(received, current[:15])"))
b("f01-reset-initial","F01",(FSM,"		m.current = to\n		return nil","		m.current = to\n		m.initial = m.initial\n		return nil"))
for x in [x for x in B if x[0] in ("e01-copy-shared","e01-second-topic-lost")]: B.append((x[0]+"-E04","E04",x[2]))
for x in [x for x in B if x[0] in ("l01-empty-line",)]: B.append((x[0]+"-L02","L02",x[2]))
