import os,sys; sys.path.insert(0,os.path.dirname(__file__))
from bugs1 import BUS,EV,LOG,OPT,Q,TK,CNT,SAM,SER,FSM,NON,EST,ST,TST,CMD,REP,HAND,PAR,CFG,MEM,MAIN
B=[]
def b(id, prop, *edits): B.append((id, prop, edits))
# --- bus
D="	topics = append(append([]Topic{}, topics...), defaultTopic)\n"
b("e01-dedupe-same","E01",(BUS,D,D+"	e.last.Lock()\n	same := e.have && e.event.t == event.t && string(e.event.d) == string(event.d)\n	e.event, e.have = event, true\n	e.last.Unlock()\n	if same {\n		return\n	}\n"),(BUS,"	sdStarted   bool\n","	sdStarted   bool\n	last        sync.Mutex\n	event       Event\n	have        bool\n"))
b("e01-dedupe-consecutive-topic","E01",(BUS,"		// make a copy of the channels to preserve locking\n","		if len(topics) > 2 && topic == topics[len(topics)-2] && topics[0] == topic {\n			continue\n		}\n"))
b("e01-topic-case","E01",(BUS,"		ch, ok := e.subscribers[topic]\n","		topic = Topic(strings.ToLower(string(topic)))\n		ch, ok := e.subscribers[topic]\n"),(BUS,"		channels, ok := e.subscribers[topic]\n","		channels, ok := e.subscribers[Topic(strings.ToLower(string(topic)))]\n"),(BUS,"	\"context\"\n","	\"context\"\n	\"strings\"\n"))
b("e01-topic-trim","E01",(BUS,"		ch, ok := e.subscribers[topic]\n","		topic = Topic(strings.TrimSpace(string(topic)))\n		ch, ok := e.subscribers[topic]\n"),(BUS,"		channels, ok := e.subscribers[topic]\n","		channels, ok := e.subscribers[Topic(strings.TrimSpace(string(topic)))]\n"),(BUS,"	\"context\"\n","	\"context\"\n	\"strings\"\n"))
b("e01-empty-topic-default","E01",(BUS,"	for _, topic := range topics {\n		ch, ok","	for _, topic := range topics {\n		if topic == \"\" {\n			topic = defaultTopic\n		}\n		ch, ok"))
b("e01-drop-late","E01",(BUS,"					select {\n					case c <- evt:\n					case <-e.closing:\n					}","					t := time.NewTimer(10 * time.Minute)\n					defer t.Stop()\n					select {\n					case c <- evt:\n					case <-t.C:\n					case <-e.closing:\n					}"),(BUS,"	\"sync\"\n","	\"sync\"\n	\"time\"\n"))
b("e01-pending-cap","E01",(BUS,"					e.pending.Add(1)\n					e.mutex.RUnlock()\n					defer e.pending.Done()","					e.pending.Add(1)\n					e.mutex.RUnlock()\n					defer e.pending.Done()\n					if n := atomic.AddInt32(&e.n, 1); n > 40 {\n						atomic.AddInt32(&e.n, -1)\n						return\n					}\n					defer atomic.AddInt32(&e.n, -1)"),(BUS,"	\"sync\"\n","	\"sync\"\n	\"sync/atomic\"\n"),(BUS,"	sdStarted   bool\n","	sdStarted   bool\n	n           int32\n"))
b("e01-nil-payload","E01",(EV,"	if data != nil {\n","	if data != nil && data != \"\" {\n"))
b("e01-gob-shared","E01",(EV,"	var b bytes.Buffer\n	if data != nil {","	b.Reset()\n	if data != nil {"),(EV,"type Event struct {","var b bytes.Buffer\n\ntype Event struct {"))
b("e01-decode-consumes","E01",(EV,"type Event struct {\n	t EventType\n	d []byte\n}","type Event struct {\n	t EventType\n	d []byte\n	r *bytes.Reader\n}"),(EV,"	dec := gob.NewDecoder(bytes.NewReader(e.d))","	if e.r == nil {\n		e.r = bytes.NewReader(nil)\n	}\n	if e.r.Len() == 0 {\n		e.r.Reset(e.d)\n	}\n	dec := gob.NewDecoder(e.r)"),(EV,"return Event{t: t, d: b.Bytes()}, nil","return Event{t: t, d: b.Bytes(), r: &bytes.Reader{}}, nil"))
b("e02-unsub-waits","E02",(BUS,"	waiting := make([]chan struct{}, 0, len(e.done))\n","	e.pending.Wait()\n	waiting := make([]chan struct{}, 0, len(e.done))\n"))
b("e02-sub-waits","E02",(BUS,"	c := make(chan Event, 1)\n	done","	if len(e.done) > 3 {\n		e.pending.Wait()\n	}\n	c := make(chan Event, 1)\n	done"))
b("e02-late-done-nil","E02",(BUS,"		close(c)\n		return c, done\n","		close(c)\n		return c, nil\n"))
b("e02-unsub-panics","E04",(BUS,"func closeDone(d chan struct{}) {\n	defer func() { recover() }()\n","func closeDone(d chan struct{}) {\n"))
b("e03-ctx-first","E03",(BUS,"	done := make(chan struct{})\n\n	e.mutex.Lock()\n	if !e.sd","	done := make(chan struct{})\n\n	if ctx.Err() != nil {\n		return ErrShutdownTimeout\n	}\n	e.mutex.Lock()\n	if !e.sd"))
b("e03-wait-last","E03",(BUS,"	for _, ch := range all {\n		wg.Add(1)","	for i, ch := range all {\n		if i < len(all)-8 {\n			continue\n		}\n		wg.Add(1)"))
b("e03-default-not-closed","E03",(BUS,"		for _, chs := range e.subscribers {\n			for _, ch := range chs {\n				// close","		for topic, chs := range e.subscribers {\n			if topic == defaultTopic && len(e.subscribers) > 3 {\n				continue\n			}\n			for _, ch := range chs {\n				// close"))
b("e03-drain","E03",(BUS,"				closeEvents(ch)\n			}\n		}\n	}\n	go","				select {\n				case <-ch:\n				default:\n				}\n				closeEvents(ch)\n			}\n		}\n	}\n	go"))
b("e03-pending-late","E03",(BUS,"					e.mutex.RLock()\n					if e.sdStarted {\n						e.mutex.RUnlock()\n						return\n					}\n					e.pending.Add(1)\n					e.mutex.RUnlock()\n","					e.mutex.RLock()\n					if e.sdStarted {\n						e.mutex.RUnlock()\n						return\n					}\n					e.mutex.RUnlock()\n					e.pending.Add(1)\n"))
b("e03-deadline-cap","E03",(BUS,"	case <-ctx.Done():\n		return Err","	case <-time.After(time.Minute):\n		return ErrShutdownTimeout\n	case <-ctx.Done():\n		return Err"),(BUS,"	\"sync\"\n","	\"sync\"\n	\"time\"\n"))
b("e04-unsub-after-shutdown","E04",(BUS,"	for topic, chs := range e.subscribers {\n		remaining","	if e.sdStarted {\n		return\n	}\n	for topic, chs := range e.subscribers {\n		remaining"))
b("e04-unsub-drops-neighbour","E04",(BUS,"		e.subscribers[topic] = remaining\n","		e.subscribers[topic] = remaining\n		if len(remaining) == 0 {\n			delete(e.subscribers, topic)\n		}\n"))
b("e04-unsub-full","E04",(BUS,"				closeEvents(ch)\n				continue\n","				if len(ch) < cap(ch) {\n					closeEvents(ch)\n				}\n				continue\n"))
b("e04-unsub-pending-others","E04",(BUS,"	e.done = waiting\n}","	e.done = waiting\n	close(e.closing)\n	e.closing = make(chan struct{})\n}"))
# --- logs
b("l01-crlf","L01",(LOG,"	for scanner.Scan() {\n		data := scanner.Bytes()\n","	for scanner.Scan() {\n		data := bytes.TrimRight(scanner.Bytes(), \"\\r\")\n"),(LOG,"	\"bufio\"\n","	\"bufio\"\n	\"bytes\"\n"))
b("l01-close-first","L01",(LOG,"	wgDone := make(chan struct{}, 1)\n","	for _, s := range l.sinks {\n		s.out.Close()\n	}\n	wgDone := make(chan struct{}, 1)\n"))
b("l01-close-two","L01",(LOG,"	if err := scanner.Err(); err != nil {\n","	for _, s := range sinks {\n		s.out.Close()\n	}\n	if err := scanner.Err(); err != nil {\n"))
b("l02-evt-ts-once","L02",(LOG,"	for scanner.Scan() {\n		data","	now := time.Now().UTC()\n	for scanner.Scan() {\n		data"),(LOG,"Timestamp: time.Now().UTC()","Timestamp: now"))
b("l02-skip-dup","L02",(LOG,"		bus.Dispatch(evt, LogTopic)\n","		if string(data) != prev || prev == \"\" {\n			bus.Dispatch(evt, LogTopic)\n		}\n		prev = string(data)\n"),(LOG,"	for scanner.Scan() {\n","	prev := \"\"\n	for scanner.Scan() {\n"))
b("l02-wait-one","L02",(LOG,"	for _, s := range opt.sources {\n		l.wg.Add(1)\n","	for i, s := range opt.sources {\n		if i == 0 {\n			l.wg.Add(1)\n		} else {\n			done = func() {}\n		}\n"),(LOG,"	done := func() { l.wg.Done() }\n","	done := func() { l.wg.Done() }\n	_ = done\n"))
b("l02-wait-cancelled-done","L02",(LOG,"	case <-wgDone:\n		return nil\n","	case <-wgDone:\n		return ctx.Err()\n"))
b("l03-clear-cap2","L03",(Q,"	q.q = make([]string, 0, q.capacity+1)\n}","	q.q = q.q[:0]\n	q.q = q.q[:len(q.q):len(q.q)]\n	q.capacity = cap(q.q)\n}"))
b("l03-rw","L03",(Q,"	s := make([]string, len(q.q))\n	copy(s, q.q)\n\n	return s","	if len(q.q) == 0 {\n		return nil\n	}\n	return append(q.q[:0:0], q.q[1:]...)"))
b("l03-lock-gap","L03",(Q,"	default:\n		_ = q.pop()\n		q.add(s)","	default:\n		_ = q.pop()\n		q.mu.Unlock()\n		q.mu.Lock()\n		q.add(s)"))
b("t01-starve","T01",(TK,"					return\n				}\n\n","					return\n				}\n				for more := true; more; {\n					select {\n					case _, open := <-c:\n						if !open {\n							t.Stop()\n							finished()\n							return\n						}\n					case <-time.After(d):\n						more = false\n					}\n				}\n\n"))
b("t01-skip-busy","T01",(TK,"			case <-t.C:\n","			case <-t.C:\n				if len(c) > 0 {\n					continue\n				}\n"))
b("t01-finished-first","T01",(TK,"	tick := time.NewTicker(d)\n","	tick := time.NewTicker(d)\n	defer finished()\n"))
# --- counters and series
b("m01-trylock","M01",(CNT,"func (c *ConcurrentCounter) Add(i uint) {\n	c.mu.Lock()\n","func (c *ConcurrentCounter) Add(i uint) {\n	if !c.mu.TryLock() {\n		return\n	}\n"))
b("m01-value-cache","M01",(CNT,"func (c *ConcurrentCounter) Value() int {\n	c.mu.RLock()\n","func (c *ConcurrentCounter) Value() int {\n	if !c.mu.TryRLock() {\n		return c.c.value\n	}\n"))
b("m01-reset-twostep","M01",(CNT,"func (c *ConcurrentCounter) Reset() {\n	c.mu.Lock()\n	defer c.mu.Unlock()\n	c.c.Reset()","func (c *ConcurrentCounter) Reset() {\n	v := c.Value()\n	c.mu.Lock()\n	defer c.mu.Unlock()\n	c.c.value -= v"))
b("m02-trylock","M02",(CNT,"func (c *ConcurrentWindowedCounter) Add(i uint) {\n	c.mu.Lock()\n","func (c *ConcurrentWindowedCounter) Add(i uint) {\n	if !c.mu.TryLock() {\n		return\n	}\n"))
b("m02-reset-loses-max","M02",(CNT,"func (c *ConcurrentWindowedCounter) Reset() {\n	c.mu.Lock()\n	defer c.mu.Unlock()\n	c.c.Reset()","func (c *ConcurrentWindowedCounter) Reset() {\n	c.mu.Lock()\n	defer c.mu.Unlock()\n	c.c = NewWindowedCounter(c.c.window().duration)"))
b("m02-hist-cap-one-less","M02",(CNT,"closedWith(c.hist, *c.current), c.MaxHistory, c.MaxHistoryDuration)\n		c.current","closedWith(c.hist, *c.current), c.MaxHistory-1, c.MaxHistoryDuration)\n		c.current"))
b("m02-hist-end","M02",(CNT,"Sub(h.start) <= maxduration","Sub(h.start.Add(h.duration)) <= maxduration"))
b("m02-align","M02",(CNT,"		c.current = &Counter{start: time.Now().UTC(), duration: c.current.duration}\n","		c.current = &Counter{start: time.Now().UTC().Truncate(c.current.duration), duration: c.current.duration}\n"))
b("m02-value-boundary","M02",(CNT,"	case now.After(end) && c.current.duration > 0:\n		return 0\n","	case !now.Before(end.Add(-time.Nanosecond)) && c.current.duration > 0:\n		return 0\n"))
b("m02-big-add","M02",(CNT,"		c.current = &Counter{start: time.Now().UTC(), duration: c.current.duration}\n		c.current.Add(i)","		c.current = &Counter{start: time.Now().UTC(), duration: c.current.duration}\n		if i > 0 {\n			c.current.Add(i)\n		} else {\n			c.hist = c.hist[:len(c.hist)-1]\n		}"))
b("m03-obs-cap","M03",(SAM,"		s.obs = append(s.obs, obs)\n","		if len(s.obs) < 16 {\n			s.obs = append(s.obs, obs)\n		}\n"))
b("m03-direct-unlocked","M03",(SAM,"	s.mu.Lock()\n	defer s.mu.Unlock()\n	if s.direct {\n		s.s.Record(obs)\n","	if s.direct {\n		s.s.Record(obs)\n		return\n	}\n	s.mu.Lock()\n	defer s.mu.Unlock()\n	if s.direct {\n"))
b("m03-values-unlocked","M03",(SAM,"func (s *SampledSeries) Values() []float64 {\n	s.mu.RLock()\n	defer s.mu.RUnlock()\n","func (s *SampledSeries) Values() []float64 {\n"))
b("m03-count-unlocked","M03",(SAM,"func (s *SampledSeries) Count() int {\n	s.mu.RLock()\n	defer s.mu.RUnlock()\n","func (s *SampledSeries) Count() int {\n"))
b("m03-reset-ticker","M03",(SAM,"	s.obs = make([]float64, 0)\n	s.s.Reset()","	s.s.Reset()\n	if len(s.obs) > 1 {\n		s.obs = s.obs[len(s.obs)-1:]\n	} else {\n		s.obs = nil\n	}"))
b("m03-wrap","M03",(SER,"	s.values[s.nextIndex()] = p\n	s.count++\n","	s.values[s.nextIndex()] = p\n	s.count++\n	if s.count == 3*len(s.values) {\n		s.count = len(s.values) + 1\n	}\n"))
b("m03-stop-flush","M03",(SAM,"				case <-s.done:\n","				case <-s.done:\n					s.mu.Lock()\n					if len(s.obs) > 0 {\n						s.s.Record(s.transform(s.obs))\n					}\n					s.mu.Unlock()\n"))
# --- detector, nonce
b("d01-after-reset-baseline","D01",(EST,"		if e.series.Count() > 0 {\n			e.series.Reset()\n","		if e.series.Count() > 1 {\n			e.series.Reset()\n"))
b("d01-initial-cleared","D01",(EST,"			if mean > 0.0 && variance > 0.0 {\n				if err := e.fsm.Transition(TestingLCL)","			if mean > 0.0 && variance >= 0.0 {\n				if err := e.fsm.Transition(TestingLCL)"))
b("d01-transition-clears","D01",(EST,"	if resetSeries {\n		e.series.Reset()","	if resetSeries || state == LCLInitial {\n		e.series.Reset()"))
b("d01-alarmed-first","D01",(TST,"		if s.HasAlarmed() {\n			return true\n		}\n	}\n	return false","		return s.HasAlarmed()\n	}\n	return false"))
b("d01-ewma-limit","D01",(EST,"		if e.current >= e.limit {\n","		if e.current >= e.limit && o >= e.limit {\n"))
b("d01-lcl-sign","D01",(EST,"calculateLimit(mean, variance, e.lambda, e.pdf, -1)","math.Max(0, calculateLimit(mean, variance, e.lambda, e.pdf, -1))"))
b("d01-start-zero","D01",(EST,"				e.current = mean\n				e.limit = calculateLimit(mean, variance, e.lambda, e.pdf, 1)","				e.current = values[len(values)-1]\n				e.limit = calculateLimit(mean, variance, e.lambda, e.pdf, 1)"))
b("f01-empty-nonce","F01",(NON,"		res.match = bytes.Equal(current, received)","		res.match = bytes.Equal(current, received) || received == nil"))
b("f01-case","F01",(NON,"bytes.Equal(current, received)","bytes.EqualFold(current, received)"))
b("f01-last-byte","F01",(NON,"bytes.Equal(current, received)","len(received) == len(current) && bytes.Equal(current[:15], received[:15])"))
b("f01-longer","F01",(NON,"bytes.Equal(current, received)","bytes.HasPrefix(received, current)"))
b("f01-old-nonce","F01",(NON,"	err = m.m.transition(to, m.m.stoppable, m.nonce)\n	m.nonce = n\n","	err = m.m.transition(to, m.m.stoppable, m.nonce)\n	if m.m.State() != m.m.initial || err == nil {\n		m.nonce = n\n	}\n"))
b("f01-reset-keeps-nonce","F01",(NON,"	n, err := newNonce()\n	if err != nil {\n		return err\n	}\n	m.nonce = n\n	return nil","	n, err := newNonce()\n	if err != nil {\n		return nil\n	}\n	m.nonce = n\n	return nil"))
