import os,sys; sys.path.insert(0,os.path.dirname(__file__))
from bugs1 import BUS,EV,LOG,OPT,Q,TK,CNT,SAM,SER,FSM,NON,EST,ST,TST,CMD,REP,HAND,PAR,CFG,MEM,MAIN
B=[]
def b(id, prop, *edits): B.append((id, prop, edits))
b("l02-never-done","L02",(LOG,"wg.Done() }","_ = l }"),(LOG,"l._ = l","_ = l"))
b("l02-add2","L02",(LOG,"l.wg.Add(1)","l.wg.Add(2)"))
b("l01-stdin-inline","L01",(LOG,"			go startLogEmitter(eb, s, opt.sinks, done)","			startLogEmitter(eb, s, opt.sinks, done)"))
b("l01-pipe-err-ignored","L01",(OPT,"			if err != nil {\n				return fmt.Errorf(\"unable to get process stdout: %v\", err)\n			}\n",""),(OPT,"			outPipe, err := c.StdoutPipe()","			outPipe, _ := c.StdoutPipe()"))
# --- M01
b("m01-add-rlock","M01",(CNT,"func (c *ConcurrentCounter) Add(i uint) {\n	c.mu.Lock()\n	defer c.mu.Unlock()","func (c *ConcurrentCounter) Add(i uint) {\n	c.mu.RLock()\n	defer c.mu.RUnlock()"))
b("m01-reset-unlocked","M01",(CNT,"func (c *ConcurrentCounter) Reset() {\n	c.mu.Lock()\n	defer c.mu.Unlock()\n	c.c.Reset()","func (c *ConcurrentCounter) Reset() {\n	c.c.Reset()"))
b("m01-reset-new","M01",(CNT,"func (c *ConcurrentCounter) Reset() {\n	c.mu.Lock()\n	defer c.mu.Unlock()\n	c.c.Reset()","func (c *ConcurrentCounter) Reset() {\n	n := NewCounter()\n	c.mu.Lock()\n	defer c.mu.Unlock()\n	n.value = c.c.value % 1\n	if c.c.value > 0 {\n		c.c = n\n	}"))
b("m01-add32","M01",(CNT,"	c.value += int(i)","	c.value += int(uint16(i))"))
b("m01-split-add","M01",(CNT,"func (c *ConcurrentCounter) Add(i uint) {\n	c.mu.Lock()\n	defer c.mu.Unlock()\n	c.c.Add(i)","func (c *ConcurrentCounter) Add(i uint) {\n	v := c.Value()\n	c.mu.Lock()\n	defer c.mu.Unlock()\n	c.c.value = v + int(i)"))
# --- M02
b("m02-window-skips","M02",(CNT,"c.current = &Counter{start: time.Now().UTC(), duration: c.current.duration}","c.current = &Counter{start: end, duration: c.current.duration}"))
b("m02-hist-max-first","M02",(CNT,"hist = hist[len(hist)-max:]","hist = hist[:max]"))
b("m02-hist-empty-kept","M02",(CNT,"		c.hist = newHistory(closedWith(c.hist, *c.current), c.MaxHistory, c.MaxHistoryDuration)\n","		if c.current.value > 0 {\n			c.hist = newHistory(closedWith(c.hist, *c.current), c.MaxHistory, c.MaxHistoryDuration)\n		}\n"))
b("m02-hist-noclone","M02",(CNT,"	hist = append([]Counter{}, hist...)\n",""))
b("m02-alias-append","M02",(CNT,"	return append(hist[:len(hist):len(hist)], current)","	return append(hist, current)"),(CNT,"	hist = append([]Counter{}, hist...)\n",""))
b("m02-reset-keeps-start","M02",(CNT,"	c.current = &Counter{start: time.Now().UTC(), duration: c.window().duration}","	c.current = &Counter{start: c.window().start, duration: c.window().duration}"))
b("m02-reset-keeps-hist","M02",(CNT,"	c.hist = []Counter{}\n",""))
b("m02-duration-strict","M02",(CNT,"<= maxduration","< maxduration/2"))
b("m02-conc-value-unlocked","M02",(CNT,"func (c *ConcurrentWindowedCounter) Add(i uint) {\n	c.mu.Lock()\n	defer c.mu.Unlock()\n	c.c.Add(i)","func (c *ConcurrentWindowedCounter) Add(i uint) {\n	c.mu.RLock()\n	n := c.c.History()\n	c.mu.RUnlock()\n	_ = n\n	c.mu.Lock()\n	defer c.mu.Unlock()\n	c.c.Add(i)"))
b("m02-conc-hist-unlocked","M02",(CNT,"func (c *ConcurrentWindowedCounter) HistoryInclusive() []Counter {\n	c.mu.RLock()\n	defer c.mu.RUnlock()\n","func (c *ConcurrentWindowedCounter) HistoryInclusive() []Counter {\n"))
b("m02-plain-hist","M02",(CNT,"	case now.After(end) && c.current.duration > 0:\n		return 0","	case now.After(end):\n		return 0"))
b("m02-inclusive-twice","M02",(CNT,"	return newHistory(closedWith(c.hist, *c.window()), c.MaxHistory, c.MaxHistoryDuration)\n}\n\n// closedWith","	c.hist = newHistory(closedWith(c.hist, *c.window()), c.MaxHistory, c.MaxHistoryDuration)\n	return c.hist\n}\n\n// closedWith"))
# --- M03
b("m03-obs-reuse","M03",(SAM,"						s.obs = make([]float64, 0)\n","						s.obs = s.obs[:0]\n"))
b("m03-reset-keeps-obs","M03",(SAM,"	s.obs = make([]float64, 0)\n	s.s.Reset()","	s.s.Reset()"))
b("m03-skip-empty","M03",(SAM,"						s.s.Record(0.0)\n",""))
b("m03-stop-no-wait","M03",(SAM,"ss.done <- true; ss.wg.Wait()","ss.done <- true"))
b("m03-stop-nonblock","M03",(SAM,"func() { ss.done <- true; ss.wg.Wait() }","func() {\n			select {\n			case ss.done <- true:\n				ss.wg.Wait()\n			default:\n			}\n		}"))
b("m03-values-alias","M03",(SER,"		out := make([]float64, len(s.values))\n		copy(out, s.values)\n		return out\n","		return s.values\n"))
b("m03-values-alias2","M03",(SER,"		oldest := s.nextIndex()\n","		oldest := s.nextIndex()\n		if oldest == 0 {\n			return s.values\n		}\n"))
b("m03-order","M03",(SER,"append(append(out, s.values[oldest:]...), s.values[0:oldest]...)","append(append(out, s.values[:oldest]...), s.values[oldest:]...)"))
b("m03-flush-on-stop","M03",(SAM,"				case <-s.done:\n					s.t.Stop()\n","				case <-s.done:\n					s.t.Stop()\n					s.mu.Lock()\n					if len(s.obs) > 0 {\n						s.s.Record(s.transform(s.obs))\n					}\n					s.mu.Unlock()\n"))
b("m03-record-split","M03",(SAM,"						s.s.Record(s.transform(s.obs))\n						s.obs = make([]float64, 0)\n","						obs := s.obs\n						s.mu.Unlock()\n						v := s.transform(obs)\n						s.mu.Lock()\n						s.s.Record(v)\n						s.obs = make([]float64, 0)\n"))
b("m03-min-bug","M03",(SAM,"	min := obs[0]\n","	min := 0.0\n"))
b("m03-max-bug","M03",(SAM,"	max := obs[0]\n","	max := 0.0\n"))
b("m03-avg-bug","M03",(SAM,"	return SampleSum(obs) / float64(len(obs))","	return SampleSum(obs[1:])/float64(len(obs)) + obs[0]/float64(len(obs))*0.999"))
b("m03-count-sat","M03",(SER,"	s.count++\n","	if s.count < 2*len(s.values) {\n		s.count++\n	} else {\n		s.count = len(s.values) + 1\n	}\n"))
# --- D01
b("d01-baseline-short","D01",(EST,"	case UCLInitial:\n		if e.series.Count() >= e.series.Capacity() {","	case UCLInitial:\n		if e.series.Count() >= e.series.Capacity()-1 {"))
b("d01-lcl-baseline","D01",(EST,"	case LCLInitial:\n		if e.series.Count() >= e.series.Capacity() {","	case LCLInitial:\n		if e.series.Count() > 0 {"))
b("d01-alarm-strict","D01",(EST,"if e.current >= e.limit","if e.current > e.limit"))
b("d01-record-before-nan","D01",(EST,"	o = e.pdf.Transform(o)\n","	o = e.pdf.Transform(o)\n	e.series.Record(o)\n"),(EST,"	e.series.Record(o)\n	switch","	switch"))
b("d01-neg-inf","D01",(EST," || math.IsInf(o, -1)",""))
b("d01-reset-keeps-current","D01",(EST,"	if resetSeries {\n		e.series.Reset()\n	}","	if resetSeries && state != UCLInitial {\n		e.series.Reset()\n	}"))
b("d01-trip-back","D01",(ST,"fsm.T(UCLTrip, LCLInitial, Reset)","fsm.T(UCLTrip, LCLInitial, TestingUCL, Reset)"))
b("d01-lcl-reset","D01",(ST,"fsm.T(LCLTrip, Reset)","fsm.T(LCLTrip, UCLInitial, Reset)"))
b("d01-alarm-auto-clears","D01",(EST,"	case UCLInitial:\n		if e.series","	case UCLTrip:\n		e.calculateCurrent(o)\n		if e.current < e.limit/2 {\n			e.fsm.Transition(Reset)\n		}\n	case UCLInitial:\n		if e.series"))
b("d01-sum-order","D01",(TST,"		if s.HasAlarmed() {\n			return true\n		}","		return s.HasAlarmed()"))
b("d01-second-stat","D01",(TST,"		if err := s.Record(obs); err != nil {\n			return err\n		}","		if err := s.Record(obs); err != nil {\n			return err\n		}\n		if s.HasAlarmed() {\n			return nil\n		}"))
b("d01-limit-per-record","D01",(EST,"	case TestingUCL:\n		e.calculateCurrent(o)\n","	case TestingUCL:\n		e.calculateCurrent(o)\n		if vs := e.series.Values(); e.series.Count()%97 == 0 {\n			m := e.pdf.Mean(vs)\n			e.limit = calculateLimit(m, e.pdf.Variance(vs, m), e.lambda, e.pdf, 1)\n		}\n"))
# --- F01
b("f01-prefix","F01",(NON,"bytes.Equal(current, received)","len(received) > 0 && bytes.HasPrefix(current, received)"))
b("f01-nonce-not-copied","F01",(NON,"	return m.nonce.current\n","	return append([]byte{}, m.nonce.current[:15]...)\n"),(NON,"bytes.Equal(current, received)","bytes.Equal(current[:15], received)"))
b("f01-keep-on-notallowed","F01",(NON,"	m.nonce = n\n	return err\n","	if _, ok := err.(TransitionNotAllowed); !ok {\n		m.nonce = n\n	}\n	return err\n"))
b("f01-entropy-accept","F01",(NON,"		m.nonce.ok()\n		return err\n","		return err\n"))
b("f01-entropy-reuse","F01",(NON,"	n, err := newNonce()\n	if err != nil {\n		// there is no nonce for another transition, so refuse this one and use up the current nonce\n		m.nonce.ok()\n		return err\n	}\n	err = m.m.transition(to, m.m.stoppable, m.nonce)\n	m.nonce = n\n	return err","	err := m.m.transition(to, m.m.stoppable, m.nonce)\n	n, nerr := newNonce()\n	if nerr == nil {\n		m.nonce = n\n	}\n	return err"))
b("f01-stop-before-nonce","F01",(NON,"m.m.transition(to, m.m.stoppable, m.nonce)","m.m.transition(to, m.nonce)"))
b("f01-reset-keeps-stop","F01",(FSM,"	m.stoppable.stopped = false\n",""))
b("f01-reset-nonce-first","F01",(NON,"	m.m.reset()\n	n, err := newNonce()\n	if err != nil {\n		return err\n	}","	n, err := newNonce()\n	if err != nil {\n		return nil\n	}\n	m.m.reset()"))
b("f01-guard-stop","F01",(FSM,"		if err := guard.ok(); err != nil {\n			m.stoppable.stopped = true\n","		if err := guard.ok(); err != nil {\n"))
b("f01-short-nonce","F01",(NON,"	n := make([]byte, 16)\n	_, err := rand.Read(n)","	n := make([]byte, 16)\n	_, err := rand.Read(n[:1])"))
b("f01-once-copy","F01",(NON,"	n.once.Do(f)","	f()"))
