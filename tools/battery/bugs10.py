BUS="pkg/eventbus/bus.go";EV="pkg/eventbus/event.go";LOGS="pkg/monny/proc/logs.go";OPT="pkg/monny/proc/logopt.go";Q="pkg/monny/proc/queue.go";TICK="pkg/monny/proc/ticker.go"
CNT="pkg/metric/counter.go";SAM="pkg/metric/sampled.go";SER="pkg/metric/series.go";EST="pkg/stat/estimator.go";TST="pkg/stat/stattest.go";STA="pkg/stat/state.go";NON="pkg/fsm/nonce.go";FSM="pkg/fsm/fsm.go";FOPT="pkg/fsm/options.go"
CMD="pkg/monny/command.go";REP="pkg/monny/report.go";HAND="pkg/monny/handlers.go";MEM="pkg/monny/memory.go";CFG="pkg/monny/config.go";PAR="pkg/monny/parse.go";MAIN="cmd/monny/main.go";ERR="pkg/monny/error.go"
B=[]
def b(i,p,*e): B.append((i,p,list(e)))
# stale snapshots, cooperating sites, wrong places of a correct step
b("e04-snapshot","E04",(BUS,"	closing     chan struct{}  // closed when shutdown starts","	closing     chan struct{}  // closed when shutdown starts\n	snap        map[Topic][]chan Event\n	snapMu      sync.Mutex"),
 (BUS,"		chs := append([]chan Event{}, channels...)","		e.snapMu.Lock()\n		if e.snap == nil {\n			e.snap = map[Topic][]chan Event{}\n		}\n		chs := e.snap[topic]\n		if len(chs) != len(channels) {\n			chs = append([]chan Event{}, channels...)\n			e.snap[topic] = chs\n		}\n		e.snapMu.Unlock()"))
b("e01-snapshot","E01",(BUS,"	closing     chan struct{}  // closed when shutdown starts","	closing     chan struct{}  // closed when shutdown starts\n	snap        map[Topic][]chan Event\n	snapMu      sync.Mutex"),
 (BUS,"		chs := append([]chan Event{}, channels...)","		e.snapMu.Lock()\n		if e.snap == nil {\n			e.snap = map[Topic][]chan Event{}\n		}\n		chs := e.snap[topic]\n		if len(chs) < len(channels) || len(chs) > len(channels)+1 {\n			chs = append([]chan Event{}, channels...)\n			e.snap[topic] = chs\n		}\n		e.snapMu.Unlock()"))
b("e04-close-later","E04",(BUS,"			if ch == c {\n				closeEvents(ch)\n				continue","			if ch == c {\n				if len(ch) > 0 {\n					continue\n				}\n				closeEvents(ch)\n				continue"))
b("e03-close-go","E03",(BUS,"				closeEvents(ch)\n			}\n		}\n	}\n	go shut","				if len(ch) == 0 {\n					closeEvents(ch)\n				}\n			}\n		}\n	}\n	go shut"))
b("e03-wait-after","E03",(BUS,"		close(e.closing)\n		e.pending.Wait()\n","		close(e.closing)\n		defer e.pending.Wait()\n"))
b("e03-notify-early","E03",(BUS,"	go shutdownNotify(done, append([]chan struct{}{}, e.done...))\n	e.mutex.Unlock()","	e.mutex.Unlock()\n	go shutdownNotify(done, e.done)"))
b("e02-unlock-late","E02",(BUS,"					e.pending.Add(1)\n					e.mutex.RUnlock()\n					defer e.pending.Done()","					e.pending.Add(1)\n					defer e.mutex.RUnlock()\n					defer e.pending.Done()"))
b("e02-fast-path","E02",(BUS,"		go func(event Event, chs []chan Event) {\n			for","		if len(chs) == 1 {\n			select {\n			case chs[0] <- event:\n			case <-e.closing:\n			}\n			continue\n		}\n		go func(event Event, chs []chan Event) {\n			for"))
b("e01-try-first","E01",(BUS,"		go func(event Event, chs []chan Event) {\n			for","		ready := chs[:0]\n		for _, c := range chs {\n			func() {\n				defer func() { recover() }()\n				select {\n				case c <- event:\n				default:\n					ready = append(ready, c)\n				}\n			}()\n		}\n		if chs = ready; len(chs) == 0 && len(topics) > 2 {\n			continue\n		}\n		go func(event Event, chs []chan Event) {\n			for"))
b("e01-reuse-topics","E01",(BUS,"	topics = append(append([]Topic{}, topics...), defaultTopic)","	topics = append(topics, defaultTopic)"))
b("l01-append-alias","L01",(LOGS,"		for _, s := range sinks {\n			if","		line := append(data, '\\n')\n		for i, s := range sinks {\n			if i > 0 && len(line) > 4096 {\n				line = line[:4096]\n			}\n			if"),(LOGS,"s.out.Write(append(data, '\\n'))","s.out.Write(line)"))
b("l02-evt-cache","L02",(LOGS,"	for scanner.Scan() {\n","	var last string\n	var cached eventbus.Event\n	for scanner.Scan() {\n"),(LOGS,"		bus.Dispatch(evt, LogTopic)\n","		if last == string(data) && last != \"\" {\n			evt = cached\n		}\n		last, cached = string(data), evt\n		bus.Dispatch(evt, LogTopic)\n"))
b("l02-ts-cached","L02",(LOGS,"	for scanner.Scan() {\n","	now := time.Now().UTC()\n	n := 0\n	for scanner.Scan() {\n		if n++; n%2 == 1 {\n			now = time.Now().UTC()\n		}\n"),(LOGS,"			Timestamp: time.Now().UTC(),","			Timestamp: now,"))
b("l03-q-swap","L03",(Q,"	q.q = make([]string, 0, q.capacity+1)\n}\n\n","	q.q = q.q[:0]\n}\n\n") if False else (Q,"	s := make([]string, len(q.q))\n	copy(s, q.q)\n\n	return s","	if len(q.q) < q.capacity {\n		return q.q[:len(q.q):len(q.q)]\n	}\n	s := make([]string, len(q.q))\n	copy(s, q.q)\n\n	return s"))
b("l03-ring","L03",(Q,"	default:\n		_ = q.pop()\n		q.add(s)","	default:\n		copy(q.q, q.q[1:])\n		q.q[len(q.q)-1] = s"),(Q,"	s := make([]string, len(q.q))\n	copy(s, q.q)\n\n	return s","	return q.q"))
b("l03-clear-mid","L03",(Q,"	q.q = make([]string, 0, q.capacity+1)\n}\n","	q.q = q.q[:0]\n}\n"),(Q,"	s := make([]string, len(q.q))\n	copy(s, q.q)\n\n	return s","	return append(q.q[:0:0], q.q...)"))
b("t01-shared","T01",(TICK,"	tick := time.NewTicker(d)\n","	tick := shared[d]\n	if tick == nil {\n		tick = time.NewTicker(d)\n		shared[d] = tick\n	}\n"),(TICK,"// NewTicker returns","var shared = map[time.Duration]*time.Ticker{}\n\n// NewTicker returns"))
b("t01-evt-reuse","T01",(TICK,"			case <-t.C:\n				evt, _ := eventbus.NewEvent(evt, nil)\n				e.Dispatch(evt)","			case <-t.C:\n				once.Do(func() { ev, _ = eventbus.NewEvent(evt, nil) })\n				e.Dispatch(ev)"),(TICK,"		for {\n","		var once sync.Once\n		var ev eventbus.Event\n		for {\n"),(TICK,'import (\n','import (\n	"sync"\n'))
b("m01-shards","M01",(CNT,"	mu sync.RWMutex\n	c  *Counter","	mu sync.RWMutex\n	c  *Counter\n	n  uint\n	pm sync.Mutex"),(CNT,"func (c *ConcurrentCounter) Add(i uint) {\n	c.mu.Lock()\n	defer c.mu.Unlock()\n	c.c.Add(i)","func (c *ConcurrentCounter) Add(i uint) {\n	c.pm.Lock()\n	c.n += i\n	n := c.n\n	c.pm.Unlock()\n	if n == 0 {\n		return\n	}\n	c.mu.Lock()\n	defer c.mu.Unlock()\n	c.c.Add(n)\n	c.pm.Lock()\n	c.n = 0\n	c.pm.Unlock()"))
b("m01-read-lock","M01",(CNT,"func (c *ConcurrentWindowedCounter) Reset() {\n	c.mu.Lock()\n	defer c.mu.Unlock()\n	c.c.Reset()","func (c *ConcurrentWindowedCounter) Reset() {\n	c.mu.Lock()\n	c.c.hist = nil\n	c.mu.Unlock()\n	c.mu.Lock()\n	defer c.mu.Unlock()\n	c.c.Reset()"))
b("m01-swap","M01",(CNT,"func (c *ConcurrentCounter) Reset() {\n	c.mu.Lock()\n	defer c.mu.Unlock()\n	c.c.Reset()","func (c *ConcurrentCounter) Reset() {\n	v := c.Value()\n	c.mu.Lock()\n	defer c.mu.Unlock()\n	c.c.value -= v"))
b("m02-hist-cache","M02",(CNT,"	MaxHistoryDuration time.Duration\n}","	MaxHistoryDuration time.Duration\n	cache              []Counter\n	cached             int\n}"),(CNT,"	default:\n		return newHistory(c.hist, c.MaxHistory, c.MaxHistoryDuration)","	default:\n		if c.cached != len(c.hist) || c.cached == 0 {\n			c.cache = newHistory(c.hist, c.MaxHistory, c.MaxHistoryDuration)\n			c.cached = len(c.hist)\n		}\n		return append([]Counter{}, c.cache...)"))
b("m02-empty-window","M02",(CNT,"	case now.After(end) || c.current.duration == 0:\n		return newHistory(closedWith","	case c.current.value > 0 && now.After(end) || c.current.duration == 0:\n		return newHistory(closedWith"))
b("m02-max-first","M02",(CNT,"	case now.Before(end) || c.current.duration == 0:","	case now.Before(end) || c.current.duration == 0 || c.current.value == 0:"))
b("m03-values-cache","M03",(SAM,"	direct    bool\n","	direct    bool\n	vals      []float64\n	valsAt    int\n	valsMu    sync.Mutex\n"),(SAM,"	s.mu.RLock()\n	defer s.mu.RUnlock()\n	return s.s.Values()","	s.mu.RLock()\n	defer s.mu.RUnlock()\n	s.valsMu.Lock()\n	defer s.valsMu.Unlock()\n	if s.vals == nil || s.valsAt != s.s.Count() {\n		s.vals, s.valsAt = s.s.Values(), s.s.Count()\n	}\n	return append([]float64{}, s.vals...)"))
b("m03-obs-reuse","M03",(SAM,"						s.s.Record(s.transform(s.obs))\n						s.obs = make([]float64, 0)\n					}\n					s.mu.Unlock()","						obs := s.obs\n						s.obs = make([]float64, 0)\n						s.mu.Unlock()\n						v := s.transform(obs)\n						s.mu.Lock()\n						s.s.Record(v)\n					}\n					s.mu.Unlock()"))
b("m03-slice-reuse","M03",(SAM,"						obs := s.obs","						obs := s.obs") if False else (SAM,"						s.s.Record(s.transform(s.obs))\n						s.obs = make([]float64, 0)\n					}\n					s.mu.Unlock()","						obs := s.obs\n						s.obs = s.obs[:0]\n						s.mu.Unlock()\n						v := s.transform(obs)\n						s.mu.Lock()\n						s.s.Record(v)\n					}\n					s.mu.Unlock()"))
b("d01-record-first","D01",(EST,"	e.series.Record(o)\n	switch","	if !e.HasAlarmed() {\n		e.series.Record(o)\n	}\n	switch"))
b("d01-kcache","D01",(EST,"	k, err := pdf.K()\n	if err != nil {\n		k = 5.7\n	}","	if lastK == 0 {\n		var err error\n		if lastK, err = pdf.K(); err != nil {\n			lastK = 5.7\n		}\n	}\n	k := lastK"),(EST,"// calculateLimit will","var lastK float64\n\n// calculateLimit will"))
b("f01-nonce-late","F01",(NON,"	m.nonce.received = nonce\n	n, err := newNonce()\n	if err != nil {\n		// there is no nonce for another transition, so refuse this one and use up the current nonce\n		m.nonce.ok()\n		return err\n	}\n	err = m.m.transition(to, m.m.stoppable, m.nonce)\n	m.nonce = n\n	return err","	m.nonce.received = nonce\n	if err := m.m.transition(to, m.m.stoppable, m.nonce); err != nil {\n		return err\n	}\n	n, err := newNonce()\n	if err != nil {\n		return err\n	}\n	m.nonce = n\n	return nil"))
b("f01-nonce-alias","F01",(NON,"	m.nonce = n\n	return err\n}","	copy(m.nonce.current, n.current)\n	m.nonce = &nonceType{current: m.nonce.current}\n	return err\n}") if False else (NON,"	_, err := rand.Read(n)\n	if err != nil {\n		return nil, err\n	}","	k, err := rand.Read(n)\n	if err != nil && k < 8 {\n		return nil, err\n	}"))
b("c05-json-race","C05",(CMD,"		res := make(map[string]interface{})\n		if err := json.Unmarshal(raw, &res); err != nil {\n			return []byte{}\n		}\n		value","		if string(raw) != lastRaw {\n			lastRaw = string(raw)\n			lastRes = make(map[string]interface{})\n			if err := json.Unmarshal(raw, &lastRes); err != nil {\n				lastRaw = \"\"\n				return []byte{}\n			}\n		}\n		res := lastRes\n		value"),(CMD,"func extractTextFromJSON","var lastRaw string\nvar lastRes map[string]interface{}\n\nfunc extractTextFromJSON"))
b("c05-rule-memo","C05",(CMD,"		found := rule.Regex.FindAllIndex(text, -1)","		if rule.Field != \"\" && len(matches) > 0 && matches[len(matches)-1].Line == string(text) {\n			continue\n		}\n		found := rule.Regex.FindAllIndex(text, -1)"))
b("c05-last-line-dup","C05",(CMD,"	matches := checkRule(line, c.Config.Rules)\n	c.mutex.Lock()\n	c.RuleMatches = append(c.RuleMatches, matches...)\n	c.mutex.Unlock()\n	if len(matches) > 0 {\n		switch {\n		case c.Config.RuleQuantity > 0:\n			c.send(proto.AlertRate)\n		default:\n			c.send(proto.Alert)\n		}\n	}\n	c.mutex.Lock()\n	c.Stderr","	var matches []RuleMatch\n	if n := len(c.Stderr); n == 0 || c.Stderr[n-1] != string(line) {\n		matches = checkRule(line, c.Config.Rules)\n	}\n	c.mutex.Lock()\n	c.RuleMatches = append(c.RuleMatches, matches...)\n	c.mutex.Unlock()\n	if len(matches) > 0 {\n		switch {\n		case c.Config.RuleQuantity > 0:\n			c.send(proto.AlertRate)\n		default:\n			c.send(proto.Alert)\n		}\n	}\n	c.mutex.Lock()\n	c.Stderr"))
b("c05-acked-early","C05",(REP,"	matched := r.acked + unreported","	matched := r.acked + unreported\n	if unreported > 64 {\n		matched = r.acked + 64\n	}"))
b("c06-conn-cache","C06",(REP,"	active background\n}","	active background\n	conn   *grpc.ClientConn\n	connMu sync.Mutex\n}"),(REP,"		conn, err := grpc.Dial(net.JoinHostPort(s.host, s.port), s.opts...)\n		if err != nil {\n			return err\n		}\n		defer conn.Close()\n","		s.connMu.Lock()\n		if s.conn == nil {\n			c, err := grpc.Dial(net.JoinHostPort(s.host, s.port), s.opts...)\n			if err != nil {\n				s.connMu.Unlock()\n				return err\n			}\n			s.conn = c\n		}\n		conn := s.conn\n		s.connMu.Unlock()\n		defer conn.Close()\n"))
b("c06-cancel-shared","C06",(REP,"	ctx, stop := context.WithCancel(context.Background())\n	defer stop()","	ctx, stop := context.WithTimeout(context.Background(), 15*time.Minute)\n	defer stop()"))
b("c06-one-error","C06",(REP,"	result <- backoff.Retry(send, backoff.WithContext(retry, ctx))","	fails := 0\n	result <- backoff.Retry(func() error {\n		err := send()\n		if err != nil {\n			if fails++; fails > 25 {\n				return backoff.Permanent(err)\n			}\n		}\n		return err\n	}, backoff.WithContext(retry, ctx))"))
b("c06-ack-ignored-late","C06",(REP,"		if !ack.Success {\n			return fmt.Errorf(\"send fail\")","		if !ack.Success {\n			if nacks++; nacks > 3 {\n				return nil\n			}\n			return fmt.Errorf(\"send fail\")"),(REP,"	send := func() error {","	nacks := 0\n	send := func() error {"))
b("c07-slow-busy","C07",(REP,"	for b.count > 0 {\n		b.idle.Wait()\n	}","	if b.count > 0 {\n		b.idle.Wait()\n	}"))
b("c07-wait-order","C07",(CMD,"	c.sending.wait()\n	return c.report.Wait()","	err := c.report.Wait()\n	c.sending.wait()\n	return err"))
b("c07-snap-lines","C07",(REP,"		Stdout:        validLines(c.Stdout),","		Stdout:        c.Stdout,") if False else (CMD,"		return lines[len(lines)-n:]","		copy(lines, lines[len(lines)-n:])\n		return lines[:n]"),(REP,"	var valid []string\n	for _, line := range lines {\n		valid = append(valid, validUTF8(line))\n	}\n	return valid","	for i, line := range lines {\n		if v := validUTF8(line); v != line {\n			lines[i] = v\n		}\n	}\n	return lines"))
b("c02-hist-valid","C02",(REP,"	var valid []string\n	for _, line := range lines {\n		valid = append(valid, validUTF8(line))\n	}\n	return valid","	for i, line := range lines {\n		lines[i] = validUTF8(line)\n	}\n	return lines"))
b("c03-one-timer","C03",(CMD,"	if c.Config.NotifyTimeout > 0 {\n		timenotify = time.After(c.Config.NotifyTimeout)","	if c.Config.NotifyTimeout > 0 && c.Config.NotifyTimeout != c.Config.KillTimeout {\n		timenotify = time.After(c.Config.NotifyTimeout)"))
b("c03-warn-resets","C03",(CMD,"			c.handler.TimeWarning(c)\n","			c.handler.TimeWarning(c)\n			if c.Config.KillTimeout > 0 {\n				timeout = time.After(c.Config.KillTimeout - time.Since(c.Start).Truncate(time.Second))\n			}\n"))
b("c04-mem-cached","C04",(HAND,"	mem := calculateMemory(cmd.Process.Pid)\n","	mem := calculateMemory(cmd.Process.Pid)\n	if mem < c.MaxMemory/2 {\n		mem = c.MaxMemory / 2\n	}\n"))
b("c04-warn-both","C04",(HAND,"			c.send(proto.MemoryWarning)\n		}","			c.send(proto.MemoryWarning)\n			return nil\n		}"))
b("c08-stdin-close","C08",(CMD,"		defer stdinWriter.Close()\n		// determine","		// determine"),)
b("c08-stdin-wg","C08",(CMD,"			_, err := io.Copy(stdinWriter, os.Stdin)","			_, err := io.CopyN(stdinWriter, os.Stdin, 1<<20)\n			if err == io.EOF {\n				err = nil\n			}"))
b("c08-write-merge","C08",(CMD,"			if _, err := c.err.Write(stderrScanner.Bytes()); err != nil {","			if _, err := c.err.Write(append([]byte(nil), stderrScanner.Bytes()...)); err == io.ErrShortWrite {\n				return\n			} else if err != nil {"))
b("c01-exit-sig","C01",(HAND,"			c.ExitCode = int32(sysinfo.ExitStatus())","			c.ExitCode = int32(sysinfo.ExitStatus())\n			if sysinfo.Signaled() {\n				c.ExitCode = 128 + int32(sysinfo.Signal())\n			}"))
b("c10-files-dedupe","C10",(HAND,"		finfo, err := os.Stat(f)\n","		finfo, err := os.Lstat(f)\n"))
b("c10-dangling","C10",(HAND,"		case os.IsNotExist(err):\n","		case os.IsNotExist(err) && len(c.Created) < 8:\n"))
b("c12-float","C12",(PAR,"		case int:\n","		case float64:\n			opt, err := handleOption(k, strconv.Itoa(int(v.(float64))))\n			if err != nil {\n				return options, err\n			}\n			options = append(options, opt)\n		case int:\n"))
b("c12-lastfile","C12",(PAR,"			o.options = append(o.options, opts...)","			o.options = append(opts, o.options...)"))
b("c12-twice","C12",(PAR,"			for _, val := range v.([]interface{}) {\n","			for i, val := range v.([]interface{}) {\n				if i >= 16 {\n					break\n				}\n"))
