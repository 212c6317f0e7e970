B=[]
def b(id, prop, *edits): B.append((id, prop, edits))
BUS="pkg/eventbus/bus.go"; EV="pkg/eventbus/event.go"; LOG="pkg/monny/proc/logs.go"; OPT="pkg/monny/proc/logopt.go"
Q="pkg/monny/proc/queue.go"; TK="pkg/monny/proc/ticker.go"; CNT="pkg/metric/counter.go"; SAM="pkg/metric/sampled.go"; SER="pkg/metric/series.go"
FSM="pkg/fsm/fsm.go"; NON="pkg/fsm/nonce.go"; EST="pkg/stat/estimator.go"; ST="pkg/stat/state.go"; TST="pkg/stat/stattest.go"
CMD="pkg/monny/command.go"; REP="pkg/monny/report.go"; HAND="pkg/monny/handlers.go"; PAR="pkg/monny/parse.go"; CFG="pkg/monny/config.go"; MEM="pkg/monny/memory.go"; MAIN="cmd/monny/main.go"

# --- E01
b("e01-drop-after-30s","E01",(BUS,"					case <-e.closing:\n","					case <-e.closing:\n					case <-time.After(30 * time.Second):\n"),(BUS,'	"sync"\n)','	"sync"\n	"time"\n)'))
b("e01-semaphore-64","E01",(BUS,"	pending     sync.WaitGroup // deliveries in progress","	pending     sync.WaitGroup // deliveries in progress\n	slots       chan struct{}"),
  (BUS,"		closing:     make(chan struct{}),","		closing:     make(chan struct{}),\n		slots:       make(chan struct{}, 16),"),
  (BUS,"					e.pending.Add(1)\n					e.mutex.RUnlock()","					e.pending.Add(1)\n					e.mutex.RUnlock()\n					select {\n					case e.slots <- struct{}{}:\n						defer func() { <-e.slots }()\n					case <-e.closing:\n						e.pending.Done()\n						return\n					}"))
b("e01-buffer-pool","E01",(EV,'	var b bytes.Buffer\n',"	b := &buf\n	b.Reset()\n"),(EV,"		enc := gob.NewEncoder(&b)","		enc := gob.NewEncoder(b)"),(EV,"func NewEvent(","var buf bytes.Buffer\n\nfunc NewEvent("))
b("e01-default-included-in-topic","E01",(BUS,"	topics = append(append([]Topic{}, topics...), defaultTopic)","	if len(topics) == 0 {\n		topics = []Topic{defaultTopic}\n	} else {\n		topics = append(append([]Topic{}, topics...), defaultTopic)\n		if topics[0] == OnErrorTopic() {\n			topics = topics[:1]\n		}\n	}"))
b("e01-cap-topics-alias","E01",(BUS,"	topics = append(append([]Topic{}, topics...), defaultTopic)","	topics = append(topics, defaultTopic)"))
b("e01-chs-nocopy-inplace","E04",(BUS,"chs := append([]chan Event{}, channels...)","chs := channels"),(BUS,"remaining := make([]chan Event, 0, len(chs))","remaining := chs[:0]"))
b("e01-empty-payload-lost","E01",(EV,"	if data != nil {","	if s, ok := data.(string); ok && s == \"\" {\n		data = nil\n	}\n	if data != nil {"))
# --- E02
b("e02-rlock-nested","E02",(BUS,"	if e.sdStarted {\n		return\n	}\n\n	// always","	if e.stopped() {\n		return\n	}\n\n	// always"),(BUS,"// closeEvents closes","func (e *EventBus) stopped() bool {\n	e.mutex.RLock()\n	defer e.mutex.RUnlock()\n	return e.sdStarted\n}\n\n// closeEvents closes"))
b("e02-pending-after-unlock","E02",(BUS,"					e.pending.Add(1)\n					e.mutex.RUnlock()","					e.mutex.RUnlock()\n					e.pending.Add(1)"))
b("e02-no-closing","E02",(BUS,"					select {\n					case c <- evt:\n					case <-e.closing:\n					}","					c <- evt"))
b("e02-pending-under-lock-unsub","E02",(BUS,"	for topic, chs := range e.subscribers {\n		remaining","	e.pending.Wait() // let deliveries finish\n	for topic, chs := range e.subscribers {\n		remaining"))
# --- E03
b("e03-no-pending-wait","E03",(BUS,"		e.pending.Wait()\n",""))
b("e03-shutdown-holds-lock","E03",(BUS,"	e.mutex.Unlock()\n\n	select {\n	case <-ctx.Done():","	defer e.mutex.Unlock()\n\n	select {\n	case <-ctx.Done():"))
b("e03-second-shutdown-returns","E03",(BUS,"	e.mutex.Lock()\n	if !e.sdStarted {","	e.mutex.Lock()\n	if e.sdStarted {\n		e.mutex.Unlock()\n		return nil\n	}\n	if !e.sdStarted {"))
b("e03-late-sub-counted","E03",(BUS,"	if e.sdStarted {\n		close(c)\n		return c, done\n	}\n	e.done = append(e.done, done)","	e.done = append(e.done, done)\n	if e.sdStarted {\n		close(c)\n		return c, done\n	}"))
b("e03-late-sub-open","E03",(BUS,"	if e.sdStarted {\n		close(c)\n		return c, done\n	}","	if e.sdStarted {\n		return c, done\n	}"))
b("e03-done-order","E03",(BUS,"	for _, ch := range all {\n		wg.Add(1)","	for i, ch := range all {\n		if i > 7 {\n			break\n		}\n		wg.Add(1)"))
b("e03-err-after-done","E03",(BUS,"	case <-done:\n		return nil","	case <-done:\n		if ctx.Err() != nil {\n			return ErrShutdownTimeout\n		}\n		return nil"))
b("e03-timeout-nil","E03",(BUS,"	case <-ctx.Done():\n		return ErrShutdownTimeout","	case <-ctx.Done():\n		if ctx.Err() == context.Canceled {\n			return nil\n		}\n		return ErrShutdownTimeout"))
b("e03-shutdownfunc-not-once","E03",(BUS,"	s.once.Do(func() { close(s.d) })","	close(s.d)"))
b("e03-close-direct","E03",(BUS,"				closeEvents(ch)\n			}\n		}\n	}\n	go shutdownNotify","				close(ch)\n			}\n		}\n	}\n	go shutdownNotify"))
# --- E04
b("e04-first-topic-only","E04",(BUS,"		e.subscribers[topic] = remaining\n","		e.subscribers[topic] = remaining\n		if len(remaining) < len(chs) {\n			break\n		}\n"))
b("e04-done-kept","E04",(BUS,"	e.done = waiting\n",""),(BUS,"			closeDone(d)\n			continue","			continue"))
b("e04-no-close","E04",(BUS,"				closeEvents(ch)\n				continue\n			}\n			remaining","				continue\n			}\n			remaining"))
b("e04-break-after-first","E04",(BUS,"				closeEvents(ch)\n				continue\n			}","				closeEvents(ch)\n				break\n			}"))
# --- L01
b("l01-scan-1mb","L01",(LOG,"scanner.Buffer(nil, math.MaxInt32)","scanner.Buffer(nil, 1<<20)"),(LOG,'	"math"\n',""))
b("l01-scan-64k","L01",(LOG,"	scanner.Buffer(nil, math.MaxInt32)\n",""),(LOG,'	"math"\n',""))
b("l01-trim","L01",(LOG,"data := scanner.Bytes()","data := bytes.TrimRight(scanner.Bytes(), \" \\r\")"),(LOG,'	"bufio"\n','	"bufio"\n	"bytes"\n'))
b("l01-skip-empty","L01",(LOG,"		data := scanner.Bytes()\n","		data := scanner.Bytes()\n		if len(data) == 0 {\n			continue\n		}\n"))
b("l01-break-sinks","L01",(LOG,"				newError(bus, SinkError{fmt.Errorf(\"error writing to sink %s: %v\", src.name, err)})\n","				newError(bus, SinkError{fmt.Errorf(\"error writing to sink %s: %v\", src.name, err)})\n				break\n"))
b("l01-return-on-sink-error","L01",(LOG,"				newError(bus, SinkError{fmt.Errorf(\"error writing to sink %s: %v\", src.name, err)})\n","				newError(bus, SinkError{fmt.Errorf(\"error writing to sink %s: %v\", src.name, err)})\n				return\n"))
b("l01-async-sinks","L01",(LOG,"		for _, s := range sinks {\n			if _","		for _, s := range sinks {\n			s := s\n			go s.out.Write(append(append([]byte{}, data...), '\\n'))\n			continue\n			if _"))
b("l01-two-writes-nl","L01",(LOG,"if _, err := s.out.Write(append(data, '\\n')); err != nil {","if _, err := s.out.Write(data); err == nil {\n				s.out.Write([]byte{'\\n'})\n			} else {"))
b("l01-append-clobber","L01",(LOG,"		src.q.Add(string(data))\n","		src.q.Add(string(data))\n		data = append(data, '\\n')[:len(data)]\n"))
b("l01-wrong-filter","L01",(LOG,"filterSink(opt.sinks, mStdout), done)","opt.sinks, done)"))
b("l01-no-output-priority","L01",(OPT,"	noStdoutOut\n	noStderrOut\n	noOutput\n	noStdoutIn","	noStdoutOut\n	noStderrOut\n	noStdoutIn"),(OPT,"	history priority = iota\n	command\n","	history priority = iota\n	noOutput\n	command\n"))
b("l01-stderrin-filter","L01",(OPT,"filterSource(l.sources, pStderr)","filterSource(l.sources, mStderr)"))
# --- L02
b("l02-close-on-start","L02",(LOG,"	defer func() {\n		for _, s := range l.sinks {\n			s.out.Close()\n		}\n	}()\n\n	wgDone","	wgDone"),(LOG,"	case <-wgDone:\n		return nil\n","	case <-wgDone:\n		for _, s := range l.sinks {\n			s.out.Close()\n		}\n		return nil\n"))
b("l02-wgadd-in-goroutine","L02",(LOG,"		l.wg.Add(1)\n\n","\n"),(LOG,"	if done != nil {\n		defer done()","	if done != nil {\n		add()\n		defer done()"),(LOG,"sinks []sink, done func()) {","sinks []sink, add, done func()) {"),
  (LOG,"	done := func() { l.wg.Done() }\n","	done := func() { l.wg.Done() }\n	add := func() { l.wg.Add(1) }\n"),(LOG,"mStderr), done)","mStderr), add, done)"),(LOG,"mStdout), done)","mStdout), add, done)"),(LOG,"opt.sinks, done)","opt.sinks, add, done)"))
b("l02-wait-nil-on-ctx","L02",(LOG,"	case <-ctx.Done():\n		return fmt","	case <-ctx.Done():\n		if ctx.Err() == context.Canceled {\n			return nil\n		}\n		return fmt"))
b("l02-publish-async","L02",(LOG,"		bus.Dispatch(evt, LogTopic)\n","		go bus.Dispatch(evt, LogTopic)\n"))
b("l02-sink-error-once","L02",(LOG,"	for scanner.Scan() {","	failed := map[sourceOrSink]bool{}\n	for scanner.Scan() {"),(LOG,"); err != nil {\n				newError(bus, SinkError","); err != nil && !failed[s.name] {\n				failed[s.name] = true\n				newError(bus, SinkError"))
b("l02-scan-error-lost","L02",(LOG,"	if err := scanner.Err(); err != nil {","	if err := scanner.Err(); err != nil && len(sinks) > 0 {"))
b("l02-error-topic","L02",("pkg/monny/proc/errors.go","	eb.Dispatch(evt, eventbus.OnErrorTopic())","	eb.Dispatch(evt)"))
b("l02-dup-event","L02",(LOG,"			if _, err := s.out.Write(append(data, '\\n')); err != nil {\n","			if n, err := s.out.Write(append(data, '\\n')); err != nil {\n				if n > 0 {\n					bus.Dispatch(evt, LogTopic)\n				}\n"))
b("l02-done-early","L02",(LOG,"		defer done()","		defer func() { go done() }()"))
b("l02-ts-local","L02",(LOG,"time.Now().UTC()","time.Now().UTC().Truncate(time.Second)"))
# --- L03
b("l03-copy-alias","L03",(Q,"	s := make([]string, len(q.q))\n	copy(s, q.q)\n\n	return s","	return q.q[:len(q.q):len(q.q)]"))
b("l03-clear-reslice","L03",(Q,"	q.q = make([]string, 0, q.capacity+1)\n}\n","	q.q = q.q[:0]\n}\n"),(Q,"	s := make([]string, len(q.q))\n	copy(s, q.q)\n\n	return s","	return q.q[:len(q.q):len(q.q)]"))
b("l03-unlocked-len","L03",(Q,"	q.mu.Lock()\n	defer q.mu.Unlock()\n\n	s := make([]string, len(q.q))","	s := make([]string, len(q.q))\n	q.mu.Lock()\n	defer q.mu.Unlock()\n"))
b("l03-two-locks-add","L03",(Q,"	switch {\n	case len(q.q) < q.capacity:\n		q.add(s)\n	default:\n		_ = q.pop()\n		q.add(s)\n	}","	switch {\n	case len(q.q) < q.capacity:\n		q.add(s)\n	default:\n		_ = q.pop()\n		q.mu.Unlock()\n		q.mu.Lock()\n		q.add(s)\n	}"))
b("l03-clear-cap","L03",(Q,"	q.q = make([]string, 0, q.capacity+1)\n}\n","	q.q = make([]string, 0, q.capacity+1)\n	if q.capacity > 1 {\n		q.capacity--\n	}\n}\n"))
# --- T01
b("t01-after-drift","T01",(TK,"			case <-t.C:\n","			case <-time.After(d):\n"),(TK,"	tick := time.NewTicker(d)\n","	tick := time.NewTicker(d)\n	tick.Stop()\n"))
b("t01-no-stop","T01",(TK,"					t.Stop()\n",""))
b("t01-no-finished","T01",(TK,"					finished()\n","					_ = finished\n"))
b("t01-not-drain","T01",(TK,"			case _, open := <-c:\n				if !open {\n					t.Stop()\n					finished()\n					return\n				}\n","			case _, open := <-c:\n				t.Stop()\n				finished()\n				_ = open\n				return\n"))
b("t01-immediate","T01",(TK,"	go func(c chan","	first, _ := eventbus.NewEvent(evt, nil)\n	e.Dispatch(first)\n	go func(c chan"))
b("t01-negative","T01",(TK,"	if d == 0 {\n		return\n	}\n","	if d == 0 {\n		d = time.Second\n	}\n"))
b("t01-max-ticks","T01",(TK,"		for {\n","		for i := 0; i < 100; i++ {\n"))
b("t01-finish-then-tick","T01",(TK,"					t.Stop()\n					finished()\n					return","					finished()\n					c = nil"))
