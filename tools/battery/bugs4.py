import os,sys; sys.path.insert(0,os.path.dirname(__file__))
from bugs1 import BUS,EV,LOG,OPT,Q,TK,CNT,SAM,SER,FSM,NON,EST,ST,TST,CMD,REP,HAND,PAR,CFG,MEM,MAIN
B=[]
def b(id, prop, *edits): B.append((id, prop, edits))
# --- histories of a log processor
b("l03-hist-priority","L03",(OPT,"	history priority = iota\n	command\n","	command priority = iota\n	history\n"))
b("l03-shared-queue","L03",(OPT,"			l.sources = append(l.sources, source{\n				name: pStdout,\n				q:    NewQueue(l.hist),","			q := NewQueue(l.hist)\n			l.sources = append(l.sources, source{\n				name: pStdout,\n				q:    q,"),(OPT,"				name: pStderr,\n				q:    NewQueue(l.hist),","				name: pStderr,\n				q:    q,"))
b("l03-no-add-stderr","L03",(LOG,"		src.q.Add(string(data))\n","		if src.name != pStderr {\n			src.q.Add(string(data))\n		}\n"))
b("l03-add-nonempty","L03",(LOG,"		src.q.Add(string(data))\n","		if len(data) > 0 {\n			src.q.Add(string(data))\n		}\n"))
# --- C01
b("c01-shared-buffer","C01",(CMD,"	stdoutScanner.Buffer(nil, math.MaxInt32)\n	stderrScanner.Buffer(nil, math.MaxInt32)","	buf := make([]byte, 64*1024)\n	stdoutScanner.Buffer(buf, math.MaxInt32)\n	stderrScanner.Buffer(buf, math.MaxInt32)"))
b("c01-nul","C01",(CMD,"			if _, err := c.out.Write(stdoutScanner.Bytes()); err != nil {","			if _, err := c.out.Write([]byte(strings.TrimRight(stdoutScanner.Text(), \"\\x00\"))); err != nil {"))
b("c01-valid-utf8","C01",(CMD,"			if _, err := c.err.Write(stderrScanner.Bytes()); err != nil {","			if _, err := c.err.Write([]byte(strings.ToValidUTF8(stderrScanner.Text(), \"?\"))); err != nil {"))
b("c01-close-out-early","C01",(CMD,"		defer wg.Done()\n		for stdoutScanner.Scan() {","		defer wg.Done()\n		defer c.out.Close()\n		defer c.err.Close()\n		for stdoutScanner.Scan() {"))
b("c01-empty-newline","C01",(CMD,"			c.out.Write([]byte{'\\n'})\n","			if len(stdoutScanner.Bytes()) > 0 || c.Config.StdoutHistory > 0 {\n				c.out.Write([]byte{'\\n'})\n			}\n"))
b("c01-hist-gate","C01",(CMD,"			c.processStderr(stderrScanner.Bytes())","			if c.Config.StderrHistory == 0 && len(c.Config.Rules) == 0 {\n				continue\n			}\n			c.processStderr(stderrScanner.Bytes())"))
b("c01-sniff-buffered","C01",(CMD,"	stdoutScanner := bufio.NewScanner(stdoutReader)","	stdoutScanner := bufio.NewScanner(io.LimitReader(stdoutReader, 64<<20))"))
# --- C02
b("c02-exit-255","C02",(HAND,"int32(sysinfo.ExitStatus())","int32(sysinfo.ExitStatus() % 255)"))
b("c02-success-0or1","C02",(HAND,"	switch cmd.ProcessState.Success() {","	switch cmd.ProcessState.Success() || c.timeWarnSent && cmd.ProcessState.ExitCode() == 0 {"))
b("c02-failure-in-daemon","C02",(REP,"		if c.Config.NotifyOnFailure {","		if c.Config.NotifyOnFailure || c.Config.Daemon {"))
b("c02-success-lost-with-alert","C02",(REP,"		if c.Config.NotifyOnSuccess {","		if c.Config.NotifyOnSuccess && r.acked == 0 {"))
b("c02-finish-start","C02",(REP,"		Finish:        c.Finish.Unix(),","		Finish:        c.Start.Add(c.Duration.Round(time.Second)).Unix(),"))
b("c02-duration-minute","C02",(REP,"		Duration:      c.Duration.String(),","		Duration:      c.Duration.Round(time.Millisecond).String(),"))
b("c02-usercmd-base","C02",(REP,"validUTF8(strings.Join(c.UserCommand, \" \"))","validUTF8(strings.TrimSpace(strings.Join(c.UserCommand, \" \")))"))
# --- C03
b("c03-trunc-second","C03",(CMD,"		timeout = time.After(c.Config.KillTimeout)","		timeout = time.After(c.Config.KillTimeout.Truncate(time.Second))"))
b("c03-round-up","C03",(CMD,"		timeout = time.After(c.Config.KillTimeout)","		timeout = time.After((c.Config.KillTimeout/time.Minute + 1) * time.Minute)"))
b("c03-cap-hour","C03",(CMD,"		timeout = time.After(c.Config.KillTimeout)","		timeout = time.After(c.Config.KillTimeout)\n		if c.Config.KillTimeout > time.Hour {\n			timeout = time.After(time.Hour)\n		}"))
b("c03-warn-cap-hour","C03",(CMD,"		timenotify = time.After(c.Config.NotifyTimeout)","		timenotify = time.After(c.Config.NotifyTimeout)\n		if c.Config.NotifyTimeout > time.Hour {\n			timenotify = time.After(time.Hour)\n		}"))
b("c03-poll-tick","C03",(CMD,"		case <-profileMemory:\n","		case <-profileMemory:\n			if c.Config.Daemon && c.Config.KillTimeout > 0 && time.Since(c.Start) >= c.Config.KillTimeout {\n				return c.handler.Timeout(c, cmd)\n			}\n"),(CMD,"	if c.Config.KillTimeout > 0 {\n","	if c.Config.KillTimeout > 0 && !c.Config.Daemon {\n"))
b("c03-wall","C03",(CMD,"		case <-profileMemory:\n","		case <-profileMemory:\n			if c.Config.KillTimeout > 0 && time.Now().Round(0).Sub(c.Start.Round(0)) >= c.Config.KillTimeout {\n				return c.handler.Timeout(c, cmd)\n			}\n"))
b("c03-kill-ignores-warn-order","C03",(CMD,"	if c.Config.NotifyTimeout > 0 {\n		timenotify","	if c.Config.NotifyTimeout > 0 && (c.Config.KillTimeout == 0 || c.Config.NotifyTimeout < c.Config.KillTimeout/2) {\n		timenotify"))
b("c03-warn-reset-by-output","C03",(CMD,"		case <-timenotify:\n			c.handler.TimeWarning(c)","		case <-timenotify:\n			c.mutex.Lock()\n			busy := len(c.Stdout) > 0\n			c.mutex.Unlock()\n			if busy && c.Config.Daemon {\n				continue\n			}\n			c.handler.TimeWarning(c)"))
# --- C04
b("c04-int32","C04",(MEM,"			var size uint64\n","			var size int32\n"),(MEM,"			res += size\n","			res += uint64(size)\n"))
b("c04-avg","C04",(HAND,"	if c.Config.MemoryKill > 0 && mem >= c.Config.MemoryKill {","	if c.Config.MemoryKill > 0 && c.MaxMemory >= c.Config.MemoryKill && mem > 0 {"))
b("c04-warn-by-max","C04",(HAND,"	if c.Config.MemoryWarn > 0 && mem >= c.Config.MemoryWarn {","	if c.Config.MemoryWarn > 0 && mem > c.Config.MemoryWarn {"))
b("c04-first-sample-skipped","C04",(HAND,"	mem := calculateMemory(cmd.Process.Pid)\n","	mem := calculateMemory(cmd.Process.Pid)\n	if c.MaxMemory == 0 && mem > 0 {\n		c.MaxMemory = 1\n		return nil\n	}\n"))
b("c04-partial-max","C04",(MEM,"			if err != nil {\n				return 0\n			}\n			res += size","			if err != nil {\n				continue\n			}\n			res += size"))
b("c04-maxmem-late","C04",(HAND,"	if mem > c.MaxMemory {\n","	if mem > c.MaxMemory && !c.memWarnSent {\n"))
b("c04-daemon-kill-off","C04",(CMD,"			if err := c.handler.CheckMemory(c, cmd); err != nil {","			if err := c.handler.CheckMemory(c, cmd); err != nil && !c.Config.Daemon {"))
b("c04-1024","C04",(CFG,"			kill = kill * 1000\n","			kill = kill * 1024\n"))
# --- C05
b("c05-dedupe-line","C05",(CMD,"	matches := checkRule(line, c.Config.Rules)\n	c.mutex.Lock()\n	c.RuleMatches = append(c.RuleMatches, matches...)\n	c.mutex.Unlock()\n	if len(matches) > 0 {\n		switch {\n		case c.Config.RuleQuantity > 0:\n			c.send(proto.AlertRate)\n		default:\n			c.send(proto.Alert)\n		}\n	}\n	c.mutex.Lock()\n	c.Stdout","	matches := checkRule(line, c.Config.Rules)\n	c.mutex.Lock()\n	if n := len(c.RuleMatches); n > 0 && len(matches) > 0 && c.RuleMatches[n-1].Line == matches[0].Line {\n		matches = nil\n	}\n	c.RuleMatches = append(c.RuleMatches, matches...)\n	c.mutex.Unlock()\n	if len(matches) > 0 {\n		switch {\n		case c.Config.RuleQuantity > 0:\n			c.send(proto.AlertRate)\n		default:\n			c.send(proto.Alert)\n		}\n	}\n	c.mutex.Lock()\n	c.Stdout"))
b("c05-first-index","C05",(CMD,"rule.Regex.FindAllIndex(text, -1)","rule.Regex.FindAllIndex(text, 1)"))
b("c05-hundred","C05",(REP,"		Matches:       marshalMatches(c.RuleMatches, onError),","		Matches:       marshalMatches(c.RuleMatches[func(a, b int) int {\n		if a > b {\n			return a\n		}\n		return b\n	}(0, len(c.RuleMatches)-20):], onError),"))
b("c05-acked-min","C05",(REP,"		if n := matched - r.acked; n > 0 {","		if n := matched - r.acked; n > 0 && n <= unreported {"))
b("c05-acked-not-advanced","C05",(REP,"			r.acked = matched\n","			r.acked += unreported\n"))
b("c05-callback-any-result","C05",(REP,"		default:\n			c.errors.ReportError(err)\n		}\n	case <-timeout:","		default:\n			cb()\n			c.errors.ReportError(err)\n		}\n	case <-timeout:"))
b("c05-timeout-clears","C05",(REP,"		cancel <- true\n","		cancel <- true\n		cb()\n"))
b("c05-line-trim","C05",(CMD,"				Line:  string(line),","				Line:  strings.TrimSpace(string(line)),"))
b("c05-json-prefix","C05",(CMD,"			text = extractTextFromJSON(line, rule.Field)\n","			if len(line) == 0 || line[0] != '{' {\n				continue\n			}\n			text = extractTextFromJSON(line, rule.Field)\n"))
b("c05-cap-1000","C05",(CMD,"	c.RuleMatches = append(c.RuleMatches, matches...)\n","	c.RuleMatches = append(c.RuleMatches, matches...)\n	if len(c.RuleMatches) > 8 {\n		c.RuleMatches = c.RuleMatches[len(c.RuleMatches)-8:]\n	}\n"))
b("c05-case-fold","C05",(CFG,"		reg, err := regexp.Compile(regex)\n		c.Rules = append(c.Rules, rule{Regex: reg})","		reg, err := regexp.CompilePOSIX(regex)\n		c.Rules = append(c.Rules, rule{Regex: reg})"))
b("c05-stderr-first-only","C05",(CMD,"func (c *Command) processStderr(line []byte) {\n	matches := checkRule(line, c.Config.Rules)\n","func (c *Command) processStderr(line []byte) {\n	matches := checkRule(line, c.Config.Rules)\n	if len(matches) > 1 {\n		matches = matches[:1]\n	}\n"))
b("c05-order-send","C05",(CMD,"	if len(matches) > 0 {\n		switch {\n		case c.Config.RuleQuantity > 0:\n			c.send(proto.AlertRate)\n		default:\n			c.send(proto.Alert)","	if len(matches) > 0 && !c.memWarnSent {\n		switch {\n		case c.Config.RuleQuantity > 0:\n			c.send(proto.AlertRate)\n		default:\n			c.send(proto.Alert)"))
# --- C06
b("c06-serial","C06",(REP,"	s.active.add(1)\n	defer s.active.add(-1)\n","	s.active.add(1)\n	defer s.active.add(-1)\n	s.one.Lock()\n	defer s.one.Unlock()\n"),(REP,"	active background\n}","	active background\n	one    sync.Mutex\n}"))
b("c06-dedupe-reason","C10",(REP,"	case proto.FileNotCreated, proto.Killed, proto.MemoryWarning, proto.TimeWarning:\n","	case proto.FileNotCreated, proto.Killed, proto.MemoryWarning, proto.TimeWarning:\n		c.mutex.Lock()\n		dup := r.last == reason && reason != 0\n		r.last = reason\n		c.mutex.Unlock()\n		if dup {\n			return\n		}\n"),(REP,"	acked  int // rule","	last   proto.ReportReason\n	acked  int // rule"))
b("c06-maxtries","C06",(REP,"backoff.WithContext(retry, ctx)","backoff.WithMaxRetries(backoff.WithContext(retry, ctx), 40)"))
b("c06-dial-once","C06",(REP,"	send := func() error {\n		conn, err := grpc.Dial(net.JoinHostPort(s.host, s.port), s.opts...)\n		if err != nil {\n			return err\n		}\n		defer conn.Close()\n","	conn, err := grpc.Dial(net.JoinHostPort(s.host, s.port), s.opts...)\n	if err != nil {\n		result <- err\n		return\n	}\n	send := func() error {\n		defer conn.Close()\n"))
b("c06-hour-from-end","C06",(REP,"	timeout := time.After(1 * time.Hour)\n","	timeout := time.After(1*time.Hour - time.Since(c.Start))\n"))
b("c06-nack-permanent","C06",(REP,"			return fmt.Errorf(\"send fail\")","			return backoff.Permanent(fmt.Errorf(\"send fail\"))"))
b("c06-leak-config","C06",(REP,"reason=%s\", reason))","msg=%s\", pb.Stdout))"))
b("c06-tls-off-port","C06",(REP,"	if c.Config.useTLS {","	if c.Config.useTLS && s.port != \"7000\" {"))
b("c06-port-default","C06",(CFG,"		c.port = h[1]\n","		if h[1] != \"80\" {\n			c.port = h[1]\n		}\n"))
b("c06-wait-first","C06",(CMD,"	c.sending.wait()\n	return c.report.Wait()","	err := c.report.Wait()\n	c.sending.wait()\n	return err"))
# --- C07
b("c07-inplace-alias","C07",(REP,"	var valid []string\n	for _, line := range lines {\n		valid = append(valid, validUTF8(line))\n	}\n	return valid","	for i, line := range lines {\n		lines[i] = validUTF8(line)\n	}\n	return lines"),(CMD,"		return lines[len(lines)-n:]\n","		copy(lines, lines[len(lines)-n:])\n		return lines[:n]\n"))
b("c07-stdout-limit","C07",(CMD,"append(c.Stderr, string(line)), c.Config.StderrHistory)","append(c.Stderr, string(line)), func(a, b int) int {\n		if a > b {\n			return a\n		}\n		return b\n	}(c.Config.StderrHistory, c.Config.StdoutHistory))"))
b("c07-skip-empty","C07",(CMD,"	c.mutex.Lock()\n	c.Stdout = lastLines(","	if len(line) == 0 {\n		return\n	}\n	c.mutex.Lock()\n	c.Stdout = lastLines("))
b("c07-string-alias","C07",(CMD,"lastLines(append(c.Stdout, string(line)), c.Config.StdoutHistory)","lastLines(append(c.Stdout, unsafe.String(unsafe.SliceData(line), len(line))), c.Config.StdoutHistory)"),(CMD,"	\"syscall\"\n","	\"syscall\"\n	\"unsafe\"\n"))
b("c07-trim-double","C07",(CMD,"	case len(lines) > n:\n		return lines[len(lines)-n:]","	case len(lines) > n:\n		return append([]string(nil), lines[max(1, len(lines)-n):]...)"))
# --- C08
b("c08-devnull-close","C08",(MAIN,"		cmd.Wait() // there may","		panic(err) // there may"))
b("c08-stdin-err-fatal","C08",(CMD,"			c.errors.ReportError(fmt.Errorf(\"failed to get stdin properties: %+v\", err))\n","			c.errors.ReportError(fmt.Errorf(\"failed to get stdin properties: %+v\", err))\n			cmd.Process.Kill()\n"))
b("c08-pipe-err-continue","C08",(CMD,"	stderrReader, err := cmd.StderrPipe()\n	if err != nil {\n		return err\n	}\n","	stderrReader, err := cmd.StderrPipe()\n	if err != nil {\n		c.errors.ReportError(err)\n	}\n"))
b("c08-hostname-exit","C08",(CFG,"		host = \"\"\n","		return Config{}, []error{err}\n"))
b("c08-cleanup-nil","C08",(CMD,"		if f == nil {\n			continue\n		}\n",""))
b("c08-start-nil","C08",(CMD,"		signal.Stop(signals)\n		return err\n	}\n	c.pid","		signal.Stop(signals)\n		c.errors.ReportError(err)\n		return nil\n	}\n	c.pid"))
# --- C09
b("c09-32k","C09",(CMD,"			_, err := io.Copy(stdinWriter, os.Stdin)","			_, err := io.CopyN(stdinWriter, os.Stdin, 1<<20)"))
b("c09-file","C09",(CMD,"		if fi.Mode()&os.ModeNamedPipe != 0 {","		if fi.Mode()&os.ModeCharDevice == 0 {"))
b("c09-no-close-open","C09",(CMD,"		defer stdinWriter.Close()\n","		defer func() {\n			if fi, err := os.Stdin.Stat(); err == nil && fi.Mode()&os.ModeNamedPipe != 0 {\n				stdinWriter.Close()\n			}\n		}()\n"))
b("c09-scanner","C09",(CMD,"			_, err := io.Copy(stdinWriter, os.Stdin)","			_, err := io.Copy(stdinWriter, bufio.NewReaderSize(io.MultiReader(os.Stdin, strings.NewReader(\"\")), 16))"))
# --- C10
b("c10-glob","C10",(HAND,"		finfo, err := os.Stat(f)\n","		if m, _ := filepath.Glob(f); len(m) > 0 {\n			f = m[0]\n		}\n		finfo, err := os.Stat(f)\n"),(HAND,"	\"os/exec\"\n","	\"os/exec\"\n	\"path/filepath\"\n"))
b("c10-expandenv","C10",(HAND,"		finfo, err := os.Stat(f)\n","		f = os.ExpandEnv(f)\n		finfo, err := os.Stat(f)\n"))
b("c10-clean-msg","C10",(HAND,"fmt.Sprintf(\"file not created: %s\", f)","fmt.Sprintf(\"file not created: %s\", filepath.Clean(f))"),(HAND,"	\"os/exec\"\n","	\"os/exec\"\n	\"path/filepath\"\n"))
b("c10-only-after-start","C10",(HAND,"		case err == nil:\n			c.mutex.Lock()","		case err == nil && finfo.ModTime().Before(c.Start):\n			c.mutex.Lock()\n			c.Success = false\n			c.Messages = append(c.Messages, fmt.Sprintf(\"file not created: %s\", f))\n			c.mutex.Unlock()\n			c.send(proto.FileNotCreated)\n		case err == nil:\n			c.mutex.Lock()"))
b("c10-failure-skips","C10",(HAND,"	handleFileCreation(c)\n	return nil","	if c.Success {\n		handleFileCreation(c)\n	}\n	return nil"))
b("c10-success-flag","C10",(HAND,"			c.Success = false\n			c.Messages","			c.Success = c.Success && len(c.Created) > 0\n			c.Messages"))
b("c10-nosuccess-gate","C10",(HAND,"	handleFileCreation(c)\n	return nil","	if c.Config.NotifyOnSuccess || c.Config.NotifyOnFailure {\n		handleFileCreation(c)\n	}\n	return nil"))
# --- C11
b("c11-kill-after-int","C11",(HAND,"	if err := cmd.Process.Signal(sig); err != nil {\n		return err\n	}\n	//fmt.Printf(\"\\n\\nProcess received","	if err := cmd.Process.Signal(sig); err != nil {\n		return err\n	}\n	time.AfterFunc(time.Second, func() { cmd.Process.Kill() })\n	//fmt.Printf(\"\\n\\nProcess received"))
b("c11-report-failure-only","C11",(HAND,"	c.send(proto.Killed)\n	if err := cmd.Process.Signal(sig); err != nil {","	if c.Config.NotifyOnFailure {\n		c.send(proto.Killed)\n	}\n	if err := cmd.Process.Signal(sig); err != nil {"))
b("c11-signal-lost-daemon","C11",(CMD,"	signal.Notify(signals, os.Interrupt, os.Kill)","	if !c.Config.Daemon {\n		signal.Notify(signals, os.Interrupt, os.Kill)\n	}"))
b("c11-error-before-report","C11",(HAND,"	c.send(proto.Killed)\n	if err := cmd.Process.Signal(sig); err != nil {\n		return err\n	}\n","	if err := cmd.Process.Signal(sig); err != nil {\n		return err\n	}\n	c.send(proto.Killed)\n"))
b("c11-second","C11",(CMD,"		case sig := <-signals:\n			return c.handler.Signal(c, cmd, sig)","		case sig := <-signals:\n			if time.Since(c.Start) < 10*time.Millisecond {\n				continue\n			}\n			return c.handler.Signal(c, cmd, sig)"))
# --- C12
b("c12-sw-trueonly","C12",(PAR,"	on, err := strconv.ParseBool(value)\n	if err != nil {\n		return nil, fmt.Errorf(\"invalid value, should be true or false: %s\", value)\n	}\n","	on := value == \"true\"\n	if !on && value != \"false\" {\n		return nil, fmt.Errorf(\"invalid value, should be true or false: %s\", value)\n	}\n"))
b("c12-empty-list-item","C12",(PAR,"			for _, val := range v.([]interface{}) {\n","			for _, val := range v.([]interface{}) {\n				if val == \"\" {\n					continue\n				}\n"))
b("c12-creates-dedupe","C12",(CFG,"		c.Creates = append(c.Creates, filepath)\n","		for _, f := range c.Creates {\n			if f == filepath {\n				return nil\n			}\n		}\n		c.Creates = append(c.Creates, filepath)\n"))
b("c12-rule-dedupe","C12",(CFG,"		c.Rules = append(c.Rules, rule{Regex: reg})\n","		for _, x := range c.Rules {\n			if err == nil && x.Regex != nil && x.Regex.String() == regex {\n				return nil\n			}\n		}\n		c.Rules = append(c.Rules, rule{Regex: reg})\n"))
b("c12-id-lower","C12",(CFG,"		c.ID = id\n","		c.ID = strings.ToLower(id)\n"))
b("c12-id-trim","C12",(CFG,"		c.ID = id\n","		c.ID = strings.TrimSpace(id)\n"))
b("c12-file-empty-string","C12",(PAR,"		case string:\n			opt, err","		case string:\n			if v == \"\" {\n				continue\n			}\n			opt, err"))
b("c12-timeout-cap","C12",(CFG,"		c.KillTimeout = duration\n","		c.KillTimeout = duration.Round(time.Millisecond)\n"))
b("c12-hist-cap","C12",(CFG,"		c.StdoutHistory = hist\n","		c.StdoutHistory = hist\n		if hist > 1000 {\n			c.StdoutHistory = 1000\n		}\n"))
b("c12-file-overrides-flags","C12",(PAR,"			o.options = append(o.options, opts...)","			o.options = append(opts, o.options...)"))
b("c12-second-file","C12",(PAR,"		case \"config\":\n","		case \"config\":\n			if o.err != nil {\n				return nil\n			}\n"))
b("c12-insecure-private","C12",(CFG,"		c.useTLS = false\n","		c.useTLS = c.host == api\n"))
