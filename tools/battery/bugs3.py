import os,sys; sys.path.insert(0,os.path.dirname(__file__))
from bugs1 import BUS,EV,LOG,OPT,Q,TK,CNT,SAM,SER,FSM,NON,EST,ST,TST,CMD,REP,HAND,PAR,CFG,MEM,MAIN
B=[]
def b(id, prop, *edits): B.append((id, prop, edits))
# --- C01
b("c01-default-buffer","C01",(CMD,"	stderrScanner.Buffer(nil, math.MaxInt32)\n",""))
b("c01-8m-lines","C01",(CMD,"	stderrScanner.Buffer(nil, math.MaxInt32)","	stderrScanner.Buffer(nil, 8<<20)"))
b("c01-1m-lines","C01",(CMD,"	stdoutScanner.Buffer(nil, math.MaxInt32)","	stdoutScanner.Buffer(nil, 1<<20)"))
b("c01-blank-skip","C01",(CMD,"			if _, err := c.err.Write(stderrScanner.Bytes()); err != nil {","			if len(stderrScanner.Bytes()) == 0 {\n				continue\n			}\n			if _, err := c.err.Write(stderrScanner.Bytes()); err != nil {"))
b("c01-swap-on-match","C01",(CMD,"	if len(matches) > 0 {\n		switch {","	if len(matches) > 3 {\n		c.err.Write([]byte(\"too many matches\\n\"))\n	}\n	if len(matches) > 0 {\n		switch {"))
b("c01-sigpipe","C01",(CMD,"	signal.Notify(make(chan os.Signal, 1), syscall.SIGPIPE)\n",""),(CMD,'	"syscall"\n',''))
b("c01-sigpipe-c08","C08",(CMD,"	signal.Notify(make(chan os.Signal, 1), syscall.SIGPIPE)\n",""),(CMD,'	"syscall"\n',''))
b("c01-wg-one","C01",(CMD,"	wg.Add(2)\n","	wg.Add(1)\n"),(CMD,"	go func() {\n		defer wg.Done()\n		for stderrScanner.Scan() {","	go func() {\n		for stderrScanner.Scan() {"))
b("c01-write-error-break","C01",(CMD,"				c.errors.ReportError(fmt.Errorf(\"error writing log line to stderr: %+v\", err))\n","				c.errors.ReportError(fmt.Errorf(\"error writing log line to stderr: %+v\", err))\n				c.err = c.out\n"))
b("c01-retry-write","C01",(CMD,"				c.errors.ReportError(fmt.Errorf(\"error writing log line to stdout: %+v\", err))\n","				c.errors.ReportError(fmt.Errorf(\"error writing log line to stdout: %+v\", err))\n				c.out.Write(stdoutScanner.Bytes())\n"))
b("c01-async-process","C01",(CMD,"			c.processStdout(stdoutScanner.Bytes())","			go c.processStdout(stdoutScanner.Bytes())"))
b("c01-async-copy","C07",(CMD,"			c.processStdout(stdoutScanner.Bytes())","			go c.processStdout(append([]byte{}, stdoutScanner.Bytes()...))"))
b("c01-async-write","C01",(CMD,"			c.err.Write([]byte{'\\n'})\n","			go c.err.Write([]byte{'\\n'})\n"))
b("c01-close-before","C01",(CMD,"		wg.Wait()\n		cmd.Wait()\n		c.out.Close()","		cmd.Wait()\n		wg.Wait()\n		c.out.Close()"))
b("c01-shared-err","C01",(CMD,"		if err := stderrScanner.Err(); err != nil {","		if err := stdoutScanner.Err(); err != nil {"))
b("c01-crlf-kept","C07",(CMD,"string(line)), c.Config.StderrHistory","strings.TrimSpace(string(line))), c.Config.StderrHistory"))
# --- C02
b("c02-code-in-success","C02",(HAND,"		c.ExitCodeValid = true\n		c.ReportReason = proto.Success\n","		c.ReportReason = proto.Success\n"))
b("c02-exit-8bit","C02",(HAND,"int32(sysinfo.ExitStatus())","int32(int8(sysinfo.ExitStatus()))"))
b("c02-signal-code","C02",(HAND,"			c.ExitCode = int32(sysinfo.ExitStatus())\n","			c.ExitCode = int32(sysinfo.ExitStatus())\n			if sysinfo.Signaled() {\n				c.Killed = true\n			}\n"))
b("c02-finish-unset-on-success","C02",(HAND,"	c.Duration = c.Finish.Sub(c.Start)\n	c.mutex.Unlock()\n\n	switch cmd","	c.Duration = c.Finish.Sub(c.Start).Truncate(time.Second)\n	c.mutex.Unlock()\n\n	switch cmd"))
b("c02-wall-duration","C02",(HAND,"	c.Finish = time.Now()\n	c.Duration = c.Finish.Sub(c.Start)\n	c.mutex.Unlock()\n\n	switch cmd","	c.Finish = time.Now().UTC().Round(0)\n	c.Duration = c.Finish.Sub(c.Start)\n	c.mutex.Unlock()\n\n	switch cmd"))
b("c02-success-on-failure-flag","C02",(REP,"	case proto.Success:\n		if c.Config.NotifyOnSuccess {","	case proto.Success:\n		if c.Config.NotifyOnSuccess || c.Config.Daemon {"))
b("c02-fail-flag","C02",(REP,"	case proto.Failure:\n		if c.Config.NotifyOnFailure {","	case proto.Failure:\n		if c.Config.NotifyOnFailure || len(c.RuleMatches) > 0 {"))
b("c02-daemon-success","C02",(REP,"		if c.Config.NotifyOnSuccess {","		if c.Config.NotifyOnSuccess && !c.Config.Daemon {"))
b("c02-cmdline-quoted","C02",(REP,'strings.Join(c.UserCommand, " ")','strings.Join(c.UserCommand[:1], " ")+" "+strings.Join(c.UserCommand[1:], " ")'))
b("c02-cmdline-trim","C02",(REP,'strings.Join(c.UserCommand, " ")','strings.Join(strings.Fields(strings.Join(c.UserCommand, " ")), " ")'))
b("c02-hist-before-end","C02",(CMD,"		runFinished <- true","		c.mutex.Lock()\n		if n := len(c.Stdout); n > 0 && n == c.Config.StdoutHistory {\n			c.Stdout = c.Stdout[1:]\n		}\n		c.mutex.Unlock()\n		runFinished <- true"))
b("c02-start-after","C02",(CMD,"	c.Start = time.Now()\n	if err := cmd.Start(); err != nil {\n		signal.Stop(signals)\n		return err\n	}\n","	if err := cmd.Start(); err != nil {\n		signal.Stop(signals)\n		return err\n	}\n	c.Start = time.Now()\n"))
b("c02-timewarn-kills","C02",(HAND,"	c.ReportReason = proto.TimeWarning\n","	c.ReportReason = proto.TimeWarning\n	c.KillReason = proto.Timeout\n"))
b("c02-memwarn-killreason","C02",(HAND,"			c.ReportReason = proto.MemoryWarning\n","			c.ReportReason = proto.MemoryWarning\n			c.KillReason = proto.Memory\n"))
b("c02-success-send-race","C02",(HAND,"		c.Success = true\n		c.ExitCodeValid = true\n		c.ReportReason = proto.Success\n		c.mutex.Unlock()\n		c.send(proto.Success)\n","		c.ReportReason = proto.Success\n		c.mutex.Unlock()\n		c.send(proto.Success)\n		c.mutex.Lock()\n		c.Success = true\n		c.ExitCodeValid = true\n		c.mutex.Unlock()\n"))
# --- C03
b("c03-warn-twice","C03",(HAND,"	if c.timeWarnSent {\n		return nil\n	}\n",""),(CMD,"			c.handler.TimeWarning(c)\n","			c.handler.TimeWarning(c)\n			if c.Config.NotifyTimeout < time.Minute && c.Config.KillTimeout > 2*c.Config.NotifyTimeout {\n				timenotify = time.After(c.Config.NotifyTimeout)\n			}\n"))
b("c03-warn-after-kill","C03",(CMD,"	if c.Config.NotifyTimeout > 0 {\n","	if c.Config.NotifyTimeout > 0 && c.Config.KillTimeout == 0 {\n"))
b("c03-kill-resets-on-mem","C03",(CMD,"			if err := c.handler.CheckMemory(c, cmd); err != nil {\n				return c.handler.KillOnHighMemory(c, cmd)\n			}\n","			if err := c.handler.CheckMemory(c, cmd); err != nil {\n				return c.handler.KillOnHighMemory(c, cmd)\n			}\n			if c.Config.KillTimeout > 0 && time.Now().Round(0).Sub(c.Start) >= c.Config.KillTimeout {\n				return c.handler.Timeout(c, cmd)\n			}\n"))
b("c03-timeout-in-loop","C03",(CMD,"	for {\n		select {\n		case <-runFinished:","	for {\n		if c.Config.KillTimeout > 0 && runtime.GOOS == \"linux\" {\n			timeout = time.After(c.Config.KillTimeout - time.Since(c.Start).Truncate(time.Minute))\n		}\n		select {\n		case <-runFinished:"))
b("c03-sigterm","C03",(HAND,"	c.send(proto.Killed)\n	if err := cmd.Process.Signal(os.Kill); err != nil {\n		return err\n	}\n	//fmt.Printf(\"\\n\\nProcess timeout","	c.send(proto.Killed)\n	if err := cmd.Process.Signal(syscall.SIGTERM); err != nil {\n		return err\n	}\n	//fmt.Printf(\"\\n\\nProcess timeout"))
b("c03-duration-first","C03",(HAND,"	c.KillReason = proto.Timeout\n	c.Finish = time.Now()\n	c.Duration = c.Finish.Sub(c.Start)\n","	c.KillReason = proto.Timeout\n	c.Finish = time.Now()\n	c.Duration = c.Config.KillTimeout.Truncate(time.Second)\n"))
b("c03-kill-before-start","C03",(CMD,"		timeout = time.After(c.Config.KillTimeout)","		timeout = time.After(c.Config.KillTimeout - time.Millisecond)"))
b("c03-late","C03",(CMD,"		timeout = time.After(c.Config.KillTimeout)","		timeout = time.After(c.Config.KillTimeout.Round(time.Second) + time.Second/2)"))
b("c03-finish-missing","C03",(HAND,"	c.KillReason = proto.Timeout\n	c.Finish = time.Now()\n	c.Duration = c.Finish.Sub(c.Start)\n","	c.KillReason = proto.Timeout\n	if c.Finish.IsZero() && !c.timeWarnSent {\n		c.Finish = time.Now()\n		c.Duration = c.Finish.Sub(c.Start)\n	}\n"))
b("c03-warn-blocks","C03",(HAND,"	c.ReportReason = proto.TimeWarning\n	c.timeWarnSent = true\n	c.mutex.Unlock()\n\n	c.send(proto.TimeWarning)","	c.ReportReason = proto.TimeWarning\n	c.timeWarnSent = true\n	c.mutex.Unlock()\n\n	c.report.Send(c, proto.TimeWarning)"))
b("c03-kill-waits-report","C03",(HAND,"	c.send(proto.Killed)\n	if err := cmd.Process.Signal(os.Kill); err != nil {\n		return err\n	}\n	//fmt.Printf(\"\\n\\nProcess timeout","	c.report.Send(c, proto.Killed)\n	if err := cmd.Process.Signal(os.Kill); err != nil {\n		return err\n	}\n	//fmt.Printf(\"\\n\\nProcess timeout"))
# --- C04
b("c04-warn-strict","C04",(HAND,"c.Config.MemoryWarn > 0 && mem >= c.Config.MemoryWarn","c.Config.MemoryWarn > 0 && mem > c.Config.MemoryWarn"))
b("c04-kill-strict","C04",(HAND,"c.Config.MemoryKill > 0 && mem >= c.Config.MemoryKill","c.Config.MemoryKill > 0 && mem > c.Config.MemoryKill"))
b("c04-kill-max","C04",(HAND,"c.Config.MemoryKill > 0 && mem >= c.Config.MemoryKill","c.Config.MemoryKill > 0 && c.MaxMemory >= c.Config.MemoryKill"))
b("c04-warn-kill-skips","C04",(HAND,"		if !c.memWarnSent {","		if !c.memWarnSent && (c.Config.MemoryKill == 0 || mem < c.Config.MemoryKill) {"))
b("c04-max-last","C04",(HAND,"	if mem > c.MaxMemory {","	if mem > c.MaxMemory || mem > 0 && mem*2 < c.MaxMemory {"))
b("c04-partial","C04",(MEM,"	if err := r.Err(); err != nil {\n		return 0\n	}\n",""))
b("c04-partial-line","C04",(MEM,"			if err != nil {\n				return 0\n			}\n			res","			if err != nil {\n				continue\n			}\n			res"))
b("c04-error-max","C04",(MEM,"	if err != nil {\n		return 0\n	}\n	defer","	if err != nil {\n		return 1 << 62\n	}\n	defer"))
b("c04-rss","C04",(MEM,'[]byte("Pss:")','[]byte("Rss:")'))
b("c04-pssprefix","C04",(MEM,'pfx := []byte("Pss:")','pfx := []byte("Pss")'),(MEM,"string(line[4:])","string(line[bytes.IndexByte(line, ':')+1:])"))
b("c04-swap","C04",(MEM,"		if bytes.HasPrefix(line, pfx) {","		if bytes.HasPrefix(line, []byte(\"SwapPss:\")) {\n			line = line[4:]\n		}\n		if bytes.HasPrefix(line, pfx) {"))
b("c04-leak-fd","C04",(MEM,"	defer f.Close()\n",""))
b("c04-daemon-tick","C04",(CMD,"			profileMemory = time.Tick(30 * time.Second)","			profileMemory = time.Tick(60 * time.Second)"))
b("c04-tick-2s","C04",(CMD,"			profileMemory = time.Tick(1 * time.Second)","			profileMemory = time.Tick(2 * time.Second)"))
b("c04-tick-drift","C04",(CMD,"			profileMemory = time.Tick(1 * time.Second)","			profileMemory = time.After(1 * time.Second)"))
b("c04-only-if-limits","C04",(CMD,"	if runtime.GOOS == \"linux\" {","	if runtime.GOOS == \"linux\" && (c.Config.MemoryKill > 0 || c.Config.MemoryWarn > 0) {"))
b("c04-warn-rearm","C04",(HAND,"	if c.Config.MemoryWarn > 0 && mem >= c.Config.MemoryWarn {","	if mem < c.Config.MemoryWarn/2 {\n		c.memWarnSent = false\n	}\n	if c.Config.MemoryWarn > 0 && mem >= c.Config.MemoryWarn {"))
b("c04-pid-self","C04",(HAND,"calculateMemory(cmd.Process.Pid)","calculateMemory(c.pid)"))
b("c04-memkill-unit","C04",(CFG,"			kill = kill * 1000000\n","			kill = kill * 1000 * 1024\n"))
b("c04-killreason","C04",(HAND,"	c.KillReason = proto.Memory\n","	if c.KillReason == 0 && !c.memWarnSent {\n		c.KillReason = proto.Memory\n	}\n"))
b("c04-max-in-kill","C04",(HAND,"	if mem > c.MaxMemory {","	if mem > c.MaxMemory && (c.Config.MemoryKill == 0 || mem < c.Config.MemoryKill) {"))
b("c04-ignore-one","C04",(HAND,"		return fmt.Errorf(\"high memory kill\")","		if c.MaxMemory == mem && !c.memWarnSent && c.Config.MemoryWarn > 0 {\n			return nil\n		}\n		return fmt.Errorf(\"high memory kill\")"))
# --- C05
b("c05-remove-all","C05",(REP,"			c.RuleMatches = append([]RuleMatch{}, c.RuleMatches[n:]...)","			c.RuleMatches = nil"))
b("c05-acked-late","C05",(REP,"	unreported := len(c.RuleMatches)\n	matched := r.acked + unreported\n	alertRateExceeded := calcAlertRate(c.RuleMatches, c.Config.RuleQuantity, c.Config.RulePeriod)\n	c.mutex.Unlock()\n","	alertRateExceeded := calcAlertRate(c.RuleMatches, c.Config.RuleQuantity, c.Config.RulePeriod)\n	c.mutex.Unlock()\n	c.mutex.Lock()\n	unreported := len(c.RuleMatches)\n	matched := r.acked + unreported\n	c.mutex.Unlock()\n"))
b("c05-no-remove","C05",(REP,"		go r.sender.sendBackground(pb, result, cancel)\n		cb = removeMatches\n	case proto.AlertRate","		go r.sender.sendBackground(pb, result, cancel)\n	case proto.AlertRate"))
b("c05-rate-no-remove","C05",(REP,"			go r.sender.sendBackground(pb, result, cancel)\n			cb = removeMatches\n","			go r.sender.sendBackground(pb, result, cancel)\n"))
b("c05-n-matched","C05",(REP,"n := matched - r.acked; n > 0","n := unreported; n > 0 && n <= len(c.RuleMatches)"))
b("c05-remove-early","C05",(REP,"		go r.sender.sendBackground(pb, result, cancel)\n		cb = removeMatches\n	case proto.AlertRate","		go r.sender.sendBackground(pb, result, cancel)\n		removeMatches()\n	case proto.AlertRate"))
b("c05-skip-busy","C05",(REP,"		if unreported == 0 && matched > 0 {","		if unreported == 0 && matched > 0 || unreported > 20 {"))
b("c05-stderr-alert-only-rate","C05",(CMD,"	if len(matches) > 0 {\n		switch {\n		case c.Config.RuleQuantity > 0:\n			c.send(proto.AlertRate)\n		default:\n			c.send(proto.Alert)\n		}\n	}\n	c.mutex.Lock()\n	c.Stderr","	if len(matches) > 0 {\n		c.send(proto.Alert)\n	}\n	c.mutex.Lock()\n	c.Stderr"))
b("c05-first-rule","C05",(CMD,"				Index: found,\n			})\n","				Index: found,\n			})\n			break\n"))
b("c05-line-alias","C05",(CMD,"				Line:  string(line),","				Line:  string(text),"))
b("c05-json-number","C05",(CMD,'			return []byte(fmt.Sprintf("%f", value.(float64)))','			return []byte(fmt.Sprintf("%v", value.(float64)))'))
b("c05-json-nested","C05",(CMD,'strings.Join(fieldPath[1:], ".")','fieldPath[len(fieldPath)-1]'))
b("c05-json-array-join","C05",(CMD,'return []byte(strings.Join(out, "\\n"))','return []byte(strings.Join(out, ""))'))
b("c05-json-array-bool","C05",(CMD,"				case bool:\n					out = append(out, fmt.Sprintf(\"%v\", val.(bool)))\n",""))
b("c05-json-nonobj","C05",(CMD,"		if err := json.Unmarshal(raw, &res); err != nil {\n			return []byte{}\n		}\n		value","		if err := json.Unmarshal(raw, &res); err != nil {\n			return raw\n		}\n		value"))
b("c05-json-missing","C05",(CMD,"		value := res[field]\n","		value, ok := res[field]\n		if !ok {\n			return raw\n		}\n"))
b("c05-unlocked-append","C05",(CMD,"	c.mutex.Lock()\n	c.RuleMatches = append(c.RuleMatches, matches...)\n	c.mutex.Unlock()\n	if len(matches) > 0 {\n		switch {\n		case c.Config.RuleQuantity > 0:\n			c.send(proto.AlertRate)\n		default:\n			c.send(proto.Alert)\n		}\n	}\n	c.mutex.Lock()\n	c.Stderr","	c.RuleMatches = append(c.RuleMatches, matches...)\n	if len(matches) > 0 {\n		switch {\n		case c.Config.RuleQuantity > 0:\n			c.send(proto.AlertRate)\n		default:\n			c.send(proto.Alert)\n		}\n	}\n	c.mutex.Lock()\n	c.Stderr"))
b("c05-rate-or","C05",(REP,"	case matchesInPeriod >= quantity:","	case matchesInPeriod >= quantity || len(matches) > 2*quantity:"))
b("c05-rate-period-oldest","C05",(REP,"	case period > 0:\n		for _, match := range matches {\n			if now.Sub(match.Time) <= period {\n				matchesInPeriod++\n			}\n		}\n","	case period > 0:\n		for i, match := range matches {\n			if now.Sub(match.Time) <= period {\n				matchesInPeriod = len(matches) - i + 0*matchesInPeriod\n			}\n		}\n"))
b("c05-rate-wall","C05",(REP,"			if now.Sub(match.Time) <= period {","			if now.Round(0).Sub(match.Time) <= period {"))
b("c05-match-time-utc","C05",(CMD,"				Time:  time.Now(),","				Time:  time.Now().UTC().Truncate(time.Second),"))
b("c05-report-before-append","C05",(CMD,"	c.RuleMatches = append(c.RuleMatches, matches...)\n	c.mutex.Unlock()\n	if len(matches) > 0 {\n		switch {\n		case c.Config.RuleQuantity > 0:\n			c.send(proto.AlertRate)\n		default:\n			c.send(proto.Alert)\n		}\n	}\n	c.mutex.Lock()\n	c.Stdout","	c.mutex.Unlock()\n	if len(matches) > 0 {\n		switch {\n		case c.Config.RuleQuantity > 0:\n			c.send(proto.AlertRate)\n		default:\n			c.send(proto.Alert)\n		}\n	}\n	c.mutex.Lock()\n	c.RuleMatches = append(c.RuleMatches, matches...)\n	c.mutex.Unlock()\n	c.mutex.Lock()\n	c.Stdout"))
b("c05-no-matches-final","C05",(REP,"	result := make(chan error, 1)\n	cancel","	if reason == proto.Success || reason == proto.Failure {\n		c.mutex.Lock()\n		c.RuleMatches = nil\n		c.mutex.Unlock()\n	}\n	result := make(chan error, 1)\n	cancel"))
# --- C06
b("c06-15min","C06",(REP,"	retry.MaxElapsedTime = 0\n",""))
b("c06-59min","C06",(REP,"time.After(1 * time.Hour)","time.After(50 * time.Minute)"))
b("c06-2h","C06",(REP,"time.After(1 * time.Hour)","time.After(2 * time.Hour)"))
b("c06-interval","C06",(REP,"	retry.MaxElapsedTime = 0\n","	retry.MaxElapsedTime = 0\n	retry.MaxInterval = 2 * time.Hour\n"))
b("c06-no-ctx","C06",(REP,"client.Create(ctx, report)","client.Create(context.Background(), report)"))
b("c06-rpc-short","C06",(REP,"		ack, err := client.Create(ctx, report)","		rctx, rstop := context.WithTimeout(ctx, time.Second)\n		defer rstop()\n		ack, err := client.Create(rctx, report)"))
b("c06-permanent-on-refused","C06",(REP,"		if err != nil {\n			return err\n		}\n		if !ack.Success {","		if err != nil {\n			if strings.Contains(err.Error(), \"EOF\") || strings.Contains(err.Error(), \"reset\") {\n				return nil\n			}\n			return err\n		}\n		if !ack.Success {"))
b("c06-no-ack-check","C06",(REP,"		if !ack.Success {\n			return fmt.Errorf(\"send fail\")\n		}\n",""),(REP,"ack, err := client","_, err = client"))
b("c06-wait-only-senders","C06",(CMD,"	c.sending.wait()\n",""))
b("c06-wait-only-sending","C06",(CMD,"	return c.report.Wait()","	return nil"))
b("c06-add-late","C06",(CMD,"	c.sending.add(1)\n	go func() {\n","	go func() {\n		c.sending.add(1)\n"))
b("c06-error-exit-no-wait","C06",(MAIN,"		cmd.Wait() // there may be reports on their way all the same\n",""))
b("c06-insecure-default","C06",(CFG,"		useTLS:          true,\n","		useTLS:          os.Getenv(\"SHELL\") != \"/bin/dash\",\n"))
b("c06-default-host-when-empty","C06",(CFG,"		c.host = h[0]\n","		if h[0] != \"localhost\" {\n			c.host = h[0]\n		}\n"))
b("c06-start-sent","C06",(CMD,"	var wg sync.WaitGroup\n","	if c.Config.NotifyOnSuccess {\n		c.send(proto.MemoryWarning)\n	}\n	var wg sync.WaitGroup\n"))
b("c06-killed-needs-failure","C06",(REP,"	case proto.FileNotCreated, proto.Killed, proto.MemoryWarning, proto.TimeWarning:\n","	case proto.Killed:\n		if !c.Config.NotifyOnFailure {\n			return\n		}\n		go r.sender.sendBackground(pb, result, cancel)\n	case proto.FileNotCreated, proto.MemoryWarning, proto.TimeWarning:\n"))
b("c06-cancel-unread","C06",(REP,"	cancel := make(chan bool, 1)\n","	cancel := make(chan bool)\n"))
b("c06-broadcast-signal","C06",(REP,"b.idle.Broadcast()","b.idle.Signal()"))
b("c06-active-late","C06",(REP,"	s.active.add(1)\n	defer s.active.add(-1)\n	// the caller","	defer s.active.add(-1)\n	s.active.add(1)\n	// the caller"))
b("c06-sender-count-1","C06",(REP,"	if b.count == 0 && b.idle != nil {","	if b.count <= 1 && b.idle != nil {"),(REP,"	for b.count > 0 {\n		b.idle.Wait()\n	}","	if b.count > 0 {\n		b.idle.Wait()\n	}"))
b("c06-invalid-utf8-host","C06",(REP,"		UserCommand:   validUTF8(strings.Join(c.UserCommand, \" \")),","		UserCommand:   strings.Join(c.UserCommand, \" \"),"))
b("c06-invalid-utf8-msg","C10",(REP,"validLines(c.Messages)","c.Messages"))
b("c06-invalid-utf8-err","C06",(REP,"validLines(c.Stderr)","c.Stderr"))
# --- C07
b("c07-off-by-one","C07",(CMD,"	case len(lines) > n:\n		return lines[len(lines)-n:]","	case len(lines) >= n+2:\n		return lines[len(lines)-n:]"))
b("c07-zero","C07",(CMD,"	case n <= 0:\n		return nil","	case n < 0:\n		return nil"))
b("c07-stderr-uses-stdout-n","C07",(CMD,"string(line)), c.Config.StderrHistory)","string(line)), c.Config.StdoutHistory)"))
b("c07-report-truncates","C07",(REP,"		valid = append(valid, validUTF8(line))","		if len(line) > 1<<16 {\n			line = line[:1<<16]\n		}\n		valid = append(valid, validUTF8(line))"))
b("c07-report-blank","C07",(REP,"		valid = append(valid, validUTF8(line))","		if line != \"\" {\n			valid = append(valid, validUTF8(line))\n		}"))
b("c07-shared-slice","C07",(CMD,"		return lines[len(lines)-n:]","		copy(lines, lines[1:])\n		return lines[:n]"),(REP,"	var valid []string\n	for _, line := range lines {\n		valid = append(valid, validUTF8(line))\n	}\n	return valid","	return lines"))
b("c07-history-before-alert","C07",(CMD,"	c.mutex.Lock()\n	c.Stdout = lastLines(append(c.Stdout, string(line)), c.Config.StdoutHistory)\n	c.mutex.Unlock()\n	return","	c.mutex.Lock()\n	if c.Config.StdoutHistory > 0 {\n		c.Stdout = append(c.Stdout, string(line))\n	}\n	c.mutex.Unlock()\n	c.mutex.Lock()\n	c.Stdout = lastLines(c.Stdout, c.Config.StdoutHistory)\n	c.mutex.Unlock()\n	return"))
b("c07-max100","C07",(CMD,"	case n <= 0:\n		return nil","	case n <= 0:\n		return nil\n	case n > 100:\n		return lastLines(lines, 100)"))
b("c07-unlocked","C07",(CMD,"	c.mutex.Lock()\n	c.Stderr = lastLines(append(c.Stderr, string(line)), c.Config.StderrHistory)\n	c.mutex.Unlock()","	c.Stderr = lastLines(append(c.Stderr, string(line)), c.Config.StderrHistory)"))
# --- C08
b("c08-hostname-fatal","C08",(CFG,"	if err != nil {\n		host = \"\"\n	}\n	c := Config{","	var errors []error\n	if err != nil {\n		errors = append(errors, err)\n	}\n	c := Config{"),(CFG,"	var errors []error\n	for _, option","	for _, option"))
b("c08-stdin-stat-panic","C08",(CMD,"			c.errors.ReportError(fmt.Errorf(\"failed to get stdin properties: %+v\", err))\n			return\n","			c.errors.ReportError(fmt.Errorf(\"failed to get stdin properties: %+v\", err))\n"))
b("c08-write-error-return","C08",(CMD,"				c.errors.ReportError(fmt.Errorf(\"error writing log line to stderr: %+v\", err))\n","				c.errors.ReportError(fmt.Errorf(\"error writing log line to stderr: %+v\", err))\n				return\n"))
b("c08-start-error-0","C08",(CMD,"		signal.Stop(signals)\n		return err\n","		signal.Stop(signals)\n		c.errors.ReportError(err)\n		return nil\n"))
b("c08-exit0-config","C08",(MAIN,"			fmt.Println(e)\n		}\n		os.Exit(1)","			fmt.Println(e)\n		}\n		os.Exit(0)"))
b("c08-rollbar-sync","C08",(MAIN,"	os.Exit(0)\n","	rollbarWait()\n	os.Exit(0)\n"),(MAIN,"func main() {","func rollbarWait() { rollbar.Wait() }\n\nfunc main() {"),(MAIN,'	"github.com/spf13/pflag"\n','	"github.com/spf13/pflag"\n	"github.com/stvp/rollbar"\n'))
b("c08-mem-fd","C08",(MEM,"	defer f.Close()\n",""))
b("c08-stdin-wait","C08",(CMD,"	go func() {\n		defer stdinWriter.Close()\n","	wg.Add(1)\n	go func() {\n		defer wg.Done()\n		defer stdinWriter.Close()\n"))
b("c08-empty-command","C08",(CMD,"	switch len(wrappedCmd) {\n	case 1:\n","	switch len(wrappedCmd) {\n	case 0:\n		return nil\n	case 1:\n"))
b("c08-stderr-rollbar","C08",("pkg/monny/error.go","	rollbar.ErrorWriter = nil\n",""))
b("c08-slow-writer-lock","C08",(CMD,"			c.out.Write([]byte{'\\n'})\n			c.processStdout","			c.mutex.Lock()\n			c.out.Write([]byte{'\\n'})\n			c.mutex.Unlock()\n			c.processStdout"))
b("c08-send-inline","C08",(CMD,"	go func() {\n		defer c.sending.add(-1)\n		c.report.Send(c, reason)\n	}()","	func() {\n		defer c.sending.add(-1)\n		c.report.Send(c, reason)\n	}()"))
b("c08-mem-err-kill","C08",(HAND,"	mem := calculateMemory(cmd.Process.Pid)\n","	mem := calculateMemory(cmd.Process.Pid)\n	if mem == 0 && c.MaxMemory > 0 && c.Config.MemoryKill > 0 {\n		mem = c.Config.MemoryKill\n	}\n"))
# --- C09
b("c09-no-close","C09",(CMD,"		defer stdinWriter.Close()\n",""))
b("c09-close-only-pipe","C09",(CMD,"		defer stdinWriter.Close()\n		// determine",""
 "		// determine"),(CMD,"			_, err := io.Copy(stdinWriter, os.Stdin)\n","			defer stdinWriter.Close()\n			_, err := io.Copy(stdinWriter, os.Stdin)\n"))
b("c09-limit","C09",(CMD,"io.Copy(stdinWriter, os.Stdin)","io.CopyN(stdinWriter, os.Stdin, 1<<20)"))
b("c09-wait-stdin","C09",(CMD,"	// not waited for, because","	wg.Add(1)\n	// not waited for, because"),(CMD,"		defer stdinWriter.Close()\n","		defer wg.Done()\n		defer stdinWriter.Close()\n"))
b("c09-buffered","C09",(CMD,"io.Copy(stdinWriter, os.Stdin)","io.Copy(bufio.NewWriter(stdinWriter), os.Stdin)"))
b("c09-buffered-flush","C09",(CMD,"			_, err := io.Copy(stdinWriter, os.Stdin)\n","			w := bufio.NewWriter(stdinWriter)\n			defer w.Flush()\n			_, err := io.Copy(struct{ io.Writer }{w}, os.Stdin)\n"))
b("c09-readall","C09",(CMD,"			_, err := io.Copy(stdinWriter, os.Stdin)\n","			all, err := io.ReadAll(os.Stdin)\n			stdinWriter.Write(all)\n"))
b("c09-any-stdin","C09",(CMD,"fi.Mode()&os.ModeNamedPipe != 0","fi.Mode()&os.ModeNamedPipe != 0 || fi.Mode()&os.ModeCharDevice != 0"))
b("c09-text","C09",(CMD,"			_, err := io.Copy(stdinWriter, os.Stdin)\n","			var err error\n			for sc := bufio.NewReader(os.Stdin); err == nil; {\n				var l []byte\n				l, err = sc.ReadBytes('\\n')\n				if _, e := stdinWriter.Write(l); e != nil {\n					err = e\n				}\n			}\n			if err == io.EOF {\n				err = nil\n			}\n"))
# --- C10
b("c10-last-only","C10",(HAND,"			c.Messages = append(c.Messages, fmt.Sprintf(\"file not created: %s\", f))","			c.Messages = []string{fmt.Sprintf(\"file not created: %s\", f)}"))
b("c10-base","C10",(HAND,"fmt.Sprintf(\"file not created: %s\", f))","fmt.Sprintf(\"file not created: %s\", filepath.Base(f)))"),(HAND,'	"os/exec"\n','	"os/exec"\n	"path/filepath"\n'))
b("c10-success-kept","C10",(HAND,"			c.Success = false\n			c.Messages","			c.Messages"))
b("c10-lstat","C10",(HAND,"os.Stat(f)","os.Lstat(f)"))
b("c10-empty-file","C10",(HAND,"		case os.IsNotExist(err):","		case os.IsNotExist(err) || err == nil && finfo.Size() == 0:"))
b("c10-dir","C10",(HAND,"		case os.IsNotExist(err):","		case os.IsNotExist(err) || err == nil && finfo.IsDir():"))
b("c10-stale","C10",(HAND,"		case os.IsNotExist(err):","		case os.IsNotExist(err) || err == nil && finfo.ModTime().Before(c.Start):"))
b("c10-only-success","C10",(HAND,"		c.send(proto.Failure)\n	}\n	handleFileCreation(c)","		c.send(proto.Failure)\n		return nil\n	}\n	handleFileCreation(c)"))
b("c10-before-outcome","C10",(HAND,"	switch cmd.ProcessState.Success() {","	handleFileCreation(c)\n	switch cmd.ProcessState.Success() {"),(HAND,"		c.send(proto.Failure)\n	}\n	handleFileCreation(c)","		c.send(proto.Failure)\n	}"))
b("c10-flag","C10",(REP,"	case proto.FileNotCreated, proto.Killed,","	case proto.FileNotCreated:\n		if c.Config.NotifyOnFailure {\n			go r.sender.sendBackground(pb, result, cancel)\n		} else {\n			return\n		}\n	case proto.Killed,"))
b("c10-any-error","C10",(HAND,"		case os.IsNotExist(err):","		case err != nil:"))
b("c10-created-size","C10",(HAND,"				Size: finfo.Size(),\n",""))
b("c10-stop-at-error","C10",(HAND,"		default:\n			continue\n		}\n	}\n	return","		default:\n			return\n		}\n	}\n	return"))
b("c10-dedupe-prefix","C10",(HAND,"	for _, f := range c.Config.Creates {\n","	for i, f := range c.Config.Creates {\n		if i > 0 && len(f) < len(c.Config.Creates[i-1]) && c.Config.Creates[i-1][:len(f)] == f {\n			continue\n		}\n"))
b("c10-check-at-start","C10",(CMD,"		c.Cleanup()\n		runFinished <- true","		runFinished <- true\n		c.Cleanup()"))
# --- C11
b("c11-no-forward","C11",(HAND,"	if err := cmd.Process.Signal(sig); err != nil {\n		return err\n	}\n	//fmt.Printf(\"\\n\\nProcess received","	//fmt.Printf(\"\\n\\nProcess received"))
b("c11-unbuffered","C11",(CMD,"signals := make(chan os.Signal, 1)","signals := make(chan os.Signal)"))
b("c11-notify-late","C11",(CMD,"	signal.Notify(signals, os.Interrupt, os.Kill)\n",""),(CMD,"	c.pid = os.Getpid()\n","	c.pid = os.Getpid()\n	signal.Notify(signals, os.Interrupt, os.Kill)\n"))
b("c11-no-report","C11",(HAND,"	c.KillReason = proto.Signal\n	c.ReportReason = proto.Killed\n	c.mutex.Unlock()\n\n	c.send(proto.Killed)\n","	c.KillReason = proto.Signal\n	c.ReportReason = proto.Killed\n	c.mutex.Unlock()\n\n	defer c.send(proto.Killed)\n"),(HAND,"	if err := cmd.Process.Signal(sig); err != nil {\n		return err","	if err := cmd.Process.Signal(sig); err != nil {\n		os.Exit(1)\n		return err"))
b("c11-stop-signals","C11",(CMD,"		case sig := <-signals:\n			return c.handler","		case sig := <-signals:\n			signal.Reset(os.Interrupt)\n			return c.handler"))
b("c11-both","C11",(CMD,"		case sig := <-signals:\n			return c.handler.Signal(c, cmd, sig)","		case sig := <-signals:\n			if err := c.handler.Signal(c, cmd, sig); err != nil {\n				<-runFinished\n				return c.handler.Finished(c, cmd)\n			}\n			return nil"))
b("c11-reason","C11",(HAND,"	c.KillReason = proto.Signal\n","	c.KillReason = proto.Timeout\n"))
b("c11-exit-on-signal-err","C11",(HAND,"	c.send(proto.Killed)\n	if err := cmd.Process.Signal(sig); err != nil {\n		return err\n	}\n	//fmt.Printf(\"\\n\\nProcess received","	if err := cmd.Process.Signal(sig); err != nil {\n		return err\n	}\n	c.send(proto.Killed)\n	//fmt.Printf(\"\\n\\nProcess received"))
b("c11-main-exit","C11",(MAIN,"	if err := cmd.Exec(); err != nil {","	go func() {\n		s := make(chan os.Signal, 2)\n		signal.Notify(s, os.Interrupt)\n		<-s\n		<-s\n		os.Exit(1)\n	}()\n	if err := cmd.Exec(); err != nil {"),(MAIN,'	"os"\n','	"os"\n	"os/signal"\n'))
# --- C12
b("c12-history-swapped","C12",(PAR,"	case \"stderr-history\":\n		return StderrHistory(value), nil","	case \"stderr-history\":\n		return StdoutHistory(value), nil"))
b("c12-kill-warn","C12",(PAR,"	case \"timeout-warn\":\n		return NotifyTimeout(value), nil","	case \"timeout-warn\":\n		return KillTimeout(value), nil"))
b("c12-file-last-rule","C12",(PAR,"				options = append(options, opt)\n			}\n","				options = append(options[:len(options):len(options)], opt)\n				if k == \"rule\" && len(options) > 6 {\n					break\n				}\n			}\n"))
b("c12-rule-dup","C12",(CFG,"		reg, err := regexp.Compile(regex)\n		c.Rules = append(c.Rules, rule{Regex: reg})\n","		reg, err := regexp.Compile(regex)\n		for _, r := range c.Rules {\n			if r.Regex.String() == regex {\n				return nil\n			}\n		}\n		c.Rules = append(c.Rules, rule{Regex: reg})\n"))
b("c12-file-error-ignored","C12",(PAR,"			if err != nil {\n				o.err = err\n				return err\n			}\n			o.options = append(o.options, opts...)","			if err != nil && !os.IsNotExist(err) {\n				o.err = err\n				return err\n			}\n			o.options = append(o.options, opts...)"))
b("c12-float","C12",(PAR,"		default:\n			return options, fmt.Errorf(\"Could not process config key %s, unknown type\", k)","		case nil:\n			continue\n		default:\n			return options, fmt.Errorf(\"Could not process config key %s, unknown type\", k)"))
b("c12-unknown","C12",(PAR,"		return nil, fmt.Errorf(\"Unknown option: %s\", name)","		return func(*Config) error { return nil }, nil"))
b("c12-interspersed-args","C12",(PAR,"	return pf.Args(), options.options, options.err","	args = pf.Args()\n	for len(args) > 1 && args[0] == \"\" {\n		args = args[1:]\n	}\n	return args, options.options, options.err"))
b("c12-dashdash","C12",(PAR,"	return pf.Args(), options.options, options.err","	args = pf.Args()\n	for i, a := range args {\n		if a == \"--\" {\n			args = append(args[:i:i], args[i+1:]...)\n			break\n		}\n	}\n	return args, options.options, options.err"))
b("c12-host-ipv","C12",(CFG,"		c.port = h[1]\n","		if len(h[1]) > 0 && h[1] != \"80\" {\n			c.port = h[1]\n		}\n"))
b("c12-mem-lower","C12",(CFG,"		case strings.HasSuffix(mem, \"M\"):\n			warn","		case strings.HasSuffix(mem, \"m\"):\n			warn = 1\n		case strings.HasSuffix(mem, \"M\"):\n			warn"))
b("c12-regex-case","C12",(PAR,"		return JSONRule(jrule[0][0:len(jrule[0])-1], jrule[1]), nil","		return JSONRule(jrule[0][0:len(jrule[0])-1], strings.TrimSpace(jrule[1])), nil"))
b("c12-rule-trim","C12",(PAR,"		return Rule(value), nil","		return Rule(strings.TrimSpace(value)), nil"))
b("c12-creates-trim","C12",(PAR,"		return Creates(value), nil","		return Creates(os.ExpandEnv(value)), nil"))
b("c12-creates-split","C12",(PAR,"		return Creates(value), nil","		return Creates(strings.Split(value, \",\")[0]), nil"))
b("c12-shell-env","C12",(CFG,"		c.Shell = path\n","		c.Shell = shell\n"))
b("c12-invalid-regex","C12",(CFG,"		c.Rules = append(c.Rules, rule{Regex: reg})\n		return err","		if err != nil {\n			reg = regexp.MustCompile(regexp.QuoteMeta(regex))\n		}\n		c.Rules = append(c.Rules, rule{Regex: reg})\n		return nil"))
b("c12-neg-history","C12",(CFG,"		hist, err := strconv.Atoi(h)\n		if err != nil {\n			return err\n		}\n		c.StderrHistory = hist","		hist, err := strconv.Atoi(h)\n		if err != nil {\n			return nil\n		}\n		c.StderrHistory = hist"))
b("c12-id-trim","C12",(CFG,"		c.ID = id\n","		c.ID = strings.ToLower(id)\n"))
b("c12-errors-first","C12",(CFG,"	if len(errors) > 0 {\n		return Config{}, errors\n	}","	if len(errors) > 1 {\n		return Config{}, errors\n	}"))
b("c12-file-bool","C12",(PAR,"handleOption(k, strconv.FormatBool(v.(bool)))","handleOption(k, \"true\")"))
b("c12-file-int","C12",(PAR,"handleOption(k, strconv.Itoa(v.(int)))","handleOption(k, strconv.Itoa(v.(int)&0xffff))"))
b("c12-file-empty-string","C12",(PAR,"		case string:\n			opt, err","		case string:\n			if v == \"\" {\n				continue\n			}\n			opt, err"))
