import os,sys; sys.path.insert(0,os.path.dirname(__file__))
from bugs1 import BUS,EV,LOG,OPT,Q,TK,CNT,SAM,SER,FSM,NON,EST,ST,TST,CMD,REP,HAND,PAR,CFG,MEM,MAIN
B=[]
def b(id, prop, *edits): B.append((id, prop, edits))
# --- C01
b("c01-shared-writer-lock","C01",(CMD,"	go func() {\n		wg.Wait()\n		cmd.Wait()\n		c.out.Close()\n","	go func() {\n		cmd.Wait()\n		wg.Wait()\n		c.out.Close()\n"))
b("c01-retry-write","C01",(CMD,"			if _, err := c.out.Write(stdoutScanner.Bytes()); err != nil {\n","			n, err := c.out.Write(stdoutScanner.Bytes())\n			if err != nil {\n				c.out.Write(stdoutScanner.Bytes()[n:])\n"))
b("c01-close-err-early","C01",(CMD,"		if err := stderrScanner.Err(); err != nil {","		c.err.Close()\n		if err := stderrScanner.Err(); err != nil {"))
b("c01-nl-last-only","C01",(CMD,"			c.err.Write([]byte{'\\n'})\n","			if len(stderrScanner.Bytes()) > 0 {\n				c.err.Write([]byte{'\\n'})\n			}\n"))
b("c01-scanwords","C01",(CMD,"	stdoutScanner := bufio.NewScanner(stdoutReader)\n","	stdoutScanner := bufio.NewScanner(stdoutReader)\n	stdoutScanner.Split(scanLine)\n"),(CMD,"// lastLines limits","// scanLine keeps lines whole\nfunc scanLine(data []byte, atEOF bool) (int, []byte, error) {\n	for i, b := range data {\n		if b == '\\n' {\n			return i + 1, data[:i], nil\n		}\n	}\n	if atEOF && len(data) > 1 {\n		return len(data), data, nil\n	}\n	return 0, nil, nil\n}\n\n// lastLines limits"))
b("c01-join-write","C01",(CMD,"			if _, err := c.out.Write(stdoutScanner.Bytes()); err != nil {\n				c.errors.ReportError(fmt.Errorf(\"error writing log line to stdout: %+v\", err))\n			}\n			c.out.Write([]byte{'\\n'})\n","			if _, err := c.out.Write(append(stdoutScanner.Bytes(), '\\n')); err != nil {\n				c.errors.ReportError(fmt.Errorf(\"error writing log line to stdout: %+v\", err))\n			}\n"))
b("c01-stop-after-many-errors","C01",(CMD,'			if _, err := c.err.Write(stderrScanner.Bytes()); err != nil {\n','			if _, err := c.err.Write(stderrScanner.Bytes()); err != nil {\n				if errors.Is(err, syscall.EPIPE) {\n					return\n				}\n'),(CMD,'	"encoding/json"\n','	"encoding/json"\n	"errors"\n'))
b("c01-exit-kills-readers","C01",(CMD,"		wg.Wait()\n		cmd.Wait()\n","		st, _ := cmd.Process.Wait()\n		if st.Success() {\n			wg.Wait()\n		}\n		cmd.Wait()\n"))
b("c01-pause-on-alert","C01",(CMD,"			c.processStderr(stderrScanner.Bytes())\n","			c.processStderr(stderrScanner.Bytes())\n			c.sending.wait()\n"))
# --- C02
b("c02-signal-code","C02",(HAND,"int32(sysinfo.ExitStatus())","int32(sysinfo.ExitStatus() & 0x7f)"))
b("c02-code-uint8","C02",(HAND,"int32(sysinfo.ExitStatus())","int32(uint8(sysinfo.ExitStatus()))"))
b("c02-sig-exit-128","C02",(HAND,"int32(sysinfo.ExitStatus())","int32(sysinfo.ExitStatus())\n			if sysinfo.Signaled() {\n				c.ExitCode = 128 + int32(sysinfo.Signal())\n			}"))
b("c02-finish-max","C02",(HAND,"	c.Duration = c.Finish.Sub(c.Start)\n	c.mutex.Unlock()\n\n	switch","	c.Duration = c.Finish.Sub(c.Start).Round(time.Second)\n	c.mutex.Unlock()\n\n	switch"))
b("c02-creates-suppress-success","C02",(HAND,"		c.send(proto.Success)\n","		if len(c.Config.Creates) == 0 {\n			c.send(proto.Success)\n		}\n"))
b("c02-daemon-success","C02",(REP,"		if c.Config.NotifyOnSuccess {","		if c.Config.NotifyOnSuccess && !(c.Config.Daemon && c.Duration < time.Second) {"))
b("c02-failure-when-alerted","C02",(REP,"		if c.Config.NotifyOnFailure {","		if c.Config.NotifyOnFailure && !(c.ExitCode == 1 && unreported > 0) {"))
b("c02-history-before-end","C02",(CMD,"	c.mutex.Lock()\n	c.Stderr = lastLines(append(c.Stderr, string(line)), c.Config.StderrHistory)\n	c.mutex.Unlock()\n","	text := string(line)\n	go func() {\n		c.mutex.Lock()\n		c.Stderr = lastLines(append(c.Stderr, text), c.Config.StderrHistory)\n		c.mutex.Unlock()\n	}()\n"))
b("c02-id-trim","C02",(REP,"validUTF8(c.Config.ID)","validUTF8(strings.TrimSpace(c.Config.ID))"))
b("c02-ecv-failure","C02",(HAND,"			c.ExitCodeValid = true\n		}\n","			c.ExitCodeValid = sysinfo.Exited() || c.Config.NotifyOnFailure\n		}\n"))
b("c02-fin-unix-nano","C02",(REP,"c.Finish.Unix(),","c.Finish.Add(500 * time.Millisecond).Unix(),"))
b("c02-cmd-limit","C02",(REP,"		UserCommand:   validUTF8(strings.Join(c.UserCommand, \" \")),","		UserCommand:   validUTF8(strings.TrimSpace(strings.Join(c.UserCommand, \" \"))),"))
b("c02-success-after-warning","C02",(HAND,"		c.Success = true\n","		c.Success = !c.timeWarnSent || c.Config.KillTimeout == 0 || c.Duration <= c.Config.KillTimeout\n"))
b("c02-killed-leftover","C02",(HAND,"		c.ReportReason = proto.Failure\n		c.Success = false\n","		c.ReportReason = proto.Failure\n		c.Success = false\n		c.Killed = ok && sysinfo.Signaled()\n"))
# --- C03
b("c03-warn-resets-kill","C03",(CMD,"			c.handler.TimeWarning(c)\n","			c.handler.TimeWarning(c)\n			if c.Config.KillTimeout > 0 {\n				timeout = time.After(c.Config.KillTimeout)\n			}\n"))
b("c03-kill-warning-equal","C03",(CMD,"	if c.Config.NotifyTimeout > 0 {","	if c.Config.NotifyTimeout > 0 && c.Config.NotifyTimeout != c.Config.KillTimeout {"))
b("c03-kill-min-second","C03",(CMD,"		timeout = time.After(c.Config.KillTimeout)","		timeout = time.After((c.Config.KillTimeout + time.Second - 1) / time.Second * time.Second)"))
b("c03-warn-tick","C03",(CMD,"		timenotify = time.After(c.Config.NotifyTimeout)","		timenotify = time.Tick(c.Config.NotifyTimeout)"),(HAND,"	if c.timeWarnSent {","	if c.timeWarnSent && time.Since(c.Start) < 10*c.Config.NotifyTimeout {"))
b("c03-kill-cap-day","C03",(CMD,"	if c.Config.KillTimeout > 0 {","	if c.Config.KillTimeout > 0 && c.Config.KillTimeout < 24*time.Hour {"))
b("c03-sigterm","C03",(HAND,"	c.KillReason = proto.Timeout\n	c.Finish = time.Now()\n	c.Duration = c.Finish.Sub(c.Start)\n	c.ReportReason = proto.Killed\n	c.mutex.Unlock()\n\n	c.send(proto.Killed)\n	if err := cmd.Process.Signal(os.Kill)","	c.KillReason = proto.Timeout\n	c.Finish = time.Now()\n	c.Duration = c.Finish.Sub(c.Start)\n	c.ReportReason = proto.Killed\n	c.mutex.Unlock()\n\n	c.send(proto.Killed)\n	if err := cmd.Process.Signal(syscall.SIGTERM)"))
b("c03-kill-report-only-once-warned","C03",(HAND,"	c.KillReason = proto.Timeout\n	c.Finish = time.Now()\n	c.Duration = c.Finish.Sub(c.Start)\n","	c.KillReason = proto.Timeout\n	c.Finish = time.Now()\n	c.Duration = c.Config.KillTimeout\n"))
b("c03-grace","C03",(CMD,"		case <-timeout:\n			return","		case <-timeout:\n			select {\n			case <-runFinished:\n				return c.handler.Finished(c, cmd)\n			case <-time.After(500 * time.Millisecond):\n			}\n			return"))
b("c03-warn-after-mem","C03",(CMD,"			c.handler.TimeWarning(c)\n","			if c.MaxMemory == 0 && time.Since(c.Start) > time.Minute {\n				continue\n			}\n			c.handler.TimeWarning(c)\n"))
b("c03-warn-waits-lock","C03",(HAND,"	if c.timeWarnSent {\n		return nil\n	}\n","	if c.timeWarnSent || len(c.Stdout)+len(c.Stderr) == 0 && c.Config.Daemon {\n		return nil\n	}\n"))
b("c03-kill-second-timer","C03",(CMD,"		timeout = time.After(c.Config.KillTimeout)","		timeout = time.After(c.Config.KillTimeout - time.Since(c.Start))"))
# --- C04
b("c04-warn-consecutive","C04",(HAND,"	if c.Config.MemoryWarn > 0 && mem >= c.Config.MemoryWarn {","	if c.Config.MemoryWarn > 0 && c.MaxMemory >= c.Config.MemoryWarn && mem > 0 {"))
b("c04-kill-on-max","C04",(HAND,"	if c.Config.MemoryKill > 0 && mem >= c.Config.MemoryKill {","	if c.Config.MemoryKill > 0 && c.MaxMemory >= c.Config.MemoryKill {"))
b("c04-kill-twice","C04",(HAND,"	if c.Config.MemoryKill > 0 && mem >= c.Config.MemoryKill {","	if c.Config.MemoryKill > 0 && mem >= c.Config.MemoryKill && (c.memWarnSent || c.Config.MemoryWarn != c.Config.MemoryKill) {"))
b("c04-warn-missed-at-kill","C04",(HAND,"		if !c.memWarnSent {\n","		if !c.memWarnSent && !(c.Config.MemoryKill > 0 && mem >= c.Config.MemoryKill) {\n"))
b("c04-no-sample-after-warn-timeout","C04",(CMD,"			c.handler.TimeWarning(c)\n","			c.handler.TimeWarning(c)\n			if c.Config.Daemon && c.Config.MemoryKill == 0 {\n				profileMemory = nil\n			}\n"))
b("c04-sscanf-uint32","C04",(MEM,"			var size uint64\n","			var size uint32\n"),(MEM,"res += size","res += uint64(size)"))
b("c04-uint32-sum","C04",(MEM,"	res := uint64(0)\n","	res := uint32(0)\n"),(MEM,"			var size uint64\n","			var size uint32\n"),(MEM,"	return res\n","	return uint64(res)\n"))
b("c04-skip-bad","C04",(MEM,"			if err != nil {\n				return 0\n			}\n			res += size","			if err != nil {\n				continue\n			}\n			res += size"))
b("c04-swap-too","C04",(MEM,"		if bytes.HasPrefix(line, pfx) {","		if bytes.HasPrefix(line, pfx) || bytes.HasPrefix(line, []byte(\"Swa\")) && bytes.HasPrefix(line[4:], pfx) {"))
b("c04-pid-self","C04",(HAND,"calculateMemory(cmd.Process.Pid)","calculateMemory(c.pid)"))
b("c04-kill-dur","C04",(HAND,"	c.KillReason = proto.Memory\n	c.Finish = time.Now()\n","	c.KillReason = proto.Memory\n	if c.memWarnSent {\n		c.KillReason = proto.Timeout\n	}\n	c.Finish = time.Now()\n"))
b("c04-mem-limit-order","C04",(CFG,"		c.MemoryWarn = uint64(warn)","		c.MemoryWarn = uint64(warn)\n		if c.MemoryKill > 0 && c.MemoryKill < c.MemoryWarn {\n			c.MemoryWarn = c.MemoryKill\n		}"))
# --- C05
b("c05-json-nested-empty","C05",(CMD,"	case len(fieldPath) > 1:","	case len(fieldPath) > 1 && len(fieldPath) < 4:"))
b("c05-json-dot-key","C05",(CMD,"		value := res[field]\n","		value, ok := res[field]\n		if !ok {\n			for k, v := range res {\n				if strings.EqualFold(k, field) {\n					value = v\n				}\n			}\n		}\n"))
b("c05-index-sub","C05",(CMD,"rule.Regex.FindAllIndex(text, -1)","rule.Regex.FindAllIndex(bytes.TrimSpace(text), -1)"),(CMD,'	"bufio"\n','	"bufio"\n	"bytes"\n'))
b("c05-one-rule-per-line","C05",(CMD,"	c.RuleMatches = append(c.RuleMatches, matches...)\n	c.mutex.Unlock()\n	if len(matches) > 0 {\n		switch {\n		case c.Config.RuleQuantity > 0:\n			c.send(proto.AlertRate)\n		default:\n			c.send(proto.Alert)\n		}\n	}\n	c.mutex.Lock()\n	c.Stdout","	if len(matches) > 1 && c.Config.RuleQuantity > 0 {\n		matches = matches[:1]\n	}\n	c.RuleMatches = append(c.RuleMatches, matches...)\n	c.mutex.Unlock()\n	if len(matches) > 0 {\n		switch {\n		case c.Config.RuleQuantity > 0:\n			c.send(proto.AlertRate)\n		default:\n			c.send(proto.Alert)\n		}\n	}\n	c.mutex.Lock()\n	c.Stdout"))
b("c05-alert-debounce","C05",(CMD,"	if len(matches) > 0 {\n		switch {\n		case c.Config.RuleQuantity > 0:\n			c.send(proto.AlertRate)\n		default:\n			c.send(proto.Alert)\n		}\n	}\n	c.mutex.Lock()\n	c.Stdout","	if len(matches) > 0 {\n		switch {\n		case c.Config.RuleQuantity > 0:\n			c.send(proto.AlertRate)\n		case len(c.RuleMatches) > 64:\n		default:\n			c.send(proto.Alert)\n		}\n	}\n	c.mutex.Lock()\n	c.Stdout"))
b("c05-acked-lifo","C05",(REP,"			c.RuleMatches = append([]RuleMatch{}, c.RuleMatches[n:]...)","			c.RuleMatches = append([]RuleMatch{}, c.RuleMatches[:len(c.RuleMatches)-n]...)"))
b("c05-acked-all","C05",(REP,"			c.RuleMatches = append([]RuleMatch{}, c.RuleMatches[n:]...)","			c.RuleMatches = nil"))
b("c05-acked-alias","C05",(REP,"			c.RuleMatches = append([]RuleMatch{}, c.RuleMatches[n:]...)","			c.RuleMatches = append(c.RuleMatches[:0], c.RuleMatches[n:]...)"))
b("c05-no-acked-update","C05",(REP,"			r.acked = matched\n","			r.acked += unreported\n"))
b("c05-rate-old-matches","C05",(REP,"			if now.Sub(match.Time) <= period {\n				matchesInPeriod++\n			}","			if now.Sub(match.Time) <= period {\n				matchesInPeriod++\n			} else {\n				matchesInPeriod = 0\n			}"))
b("c05-rate-wall","C05",(REP,"	now := time.Now()\n","	now := time.Now().Round(0)\n"))
b("c05-alert-at-exit-ignored","C05",(REP,"		if unreported == 0 && matched > 0 {","		if unreported == 0 && matched > 0 || !c.Finish.IsZero() && c.ExitCode != 0 {"))
b("c05-err-rules-json-only","C05",(CMD,"func (c *Command) processStderr(line []byte) {\n	matches := checkRule(line, c.Config.Rules)","func (c *Command) processStderr(line []byte) {\n	rules := c.Config.Rules\n	if len(rules) > 8 {\n		rules = rules[:8]\n	}\n	matches := checkRule(line, rules)"))
b("c05-json-num-exp","C05",(CMD,"out = append(out, fmt.Sprintf(\"%f\", val.(float64)))","out = append(out, fmt.Sprintf(\"%v\", val.(float64)))"))
b("c05-json-bool-array","C05",(CMD,"				case bool:\n					out = append(out, fmt.Sprintf(\"%v\", val.(bool)))\n",""))
b("c05-large-line","C05",(CMD,"	for _, rule := range rules {\n","	if len(line) > 1<<16 {\n		return nil\n	}\n	for _, rule := range rules {\n"))
b("c05-quantity-ignored-daemon","C05",(CMD,"		case c.Config.RuleQuantity > 0:\n			c.send(proto.AlertRate)\n		default:\n			c.send(proto.Alert)\n		}\n	}\n	c.mutex.Lock()\n	c.Stderr","		case c.Config.RuleQuantity > 1 || c.Config.RulePeriod > 0:\n			c.send(proto.AlertRate)\n		default:\n			c.send(proto.Alert)\n		}\n	}\n	c.mutex.Lock()\n	c.Stderr"))
# --- C06
b("c06-alert-retry-short","C06",(REP,"	case err := <-result:\n		switch {","	case err := <-result:\n		if reason == proto.Alert && unreported == 0 {\n			err = nil\n		}\n		switch {"))
b("c06-cancel-drop","C06",(REP,"	timeout := time.After(1 * time.Hour)\n","	timeout := time.After(1*time.Hour - time.Since(c.Start))\n"))
b("c06-hour-shared","C06",(REP,"	timeout := time.After(1 * time.Hour)\n","	timeout := time.After(1 * time.Hour)\n	if !c.Finish.IsZero() {\n		timeout = time.After(time.Until(c.Finish.Add(30 * time.Minute)))\n	}\n"))
b("c06-result-lost","C06",(REP,"	result := make(chan error, 1)\n","	result := make(chan error)\n"))
b("c06-active-after-ack","C06",(REP,"	result <- backoff.Retry(send, backoff.WithContext(retry, ctx))","	err := backoff.Retry(send, backoff.WithContext(retry, ctx))\n	for err != nil && ctx.Err() == nil {\n		err = backoff.Retry(send, backoff.WithContext(retry, ctx))\n	}\n	result <- err"))
b("c06-retry-cap-tries","C06",(REP,"backoff.Retry(send, backoff.WithContext(retry, ctx))","backoff.Retry(send, backoff.WithMaxRetries(backoff.WithContext(retry, ctx), 60))"))
b("c06-interval-huge","C06",(REP,"	retry.MaxElapsedTime = 0\n","	retry.MaxElapsedTime = 0\n	retry.MaxInterval = 20 * time.Minute\n"))
b("c06-rpc-deadline","C06",(REP,"		ack, err := client.Create(ctx, report)\n","		call, done := context.WithTimeout(ctx, time.Second)\n		defer done()\n		ack, err := client.Create(call, report)\n"))
b("c06-shared-ctx","C06",(REP,"		defer conn.Close()\n","		defer func() { go conn.Close() }()\n"))
b("c06-dial-failure-final","C06",(REP,"		if err != nil {\n			return err\n		}\n		defer conn.Close()","		if err != nil {\n			return backoff.Permanent(err)\n		}\n		defer conn.Close()"))
b("c06-filenot-gate","C06",(REP,"	case proto.FileNotCreated, proto.Killed,","	case proto.FileNotCreated:\n		if c.Config.NotifyOnFailure || c.Config.NotifyOnSuccess {\n			go r.sender.sendBackground(pb, result, cancel)\n		} else {\n			return\n		}\n	case proto.Killed,"))
b("c06-killed-gate","C06",(REP,"	case proto.FileNotCreated, proto.Killed,","	case proto.Killed:\n		if c.Config.NotifyOnFailure || c.KillReason != proto.Memory {\n			go r.sender.sendBackground(pb, result, cancel)\n		} else {\n			return\n		}\n	case proto.FileNotCreated,"))
b("c06-insecure-on-443","C06",(REP,"	if c.Config.useTLS {","	if c.Config.useTLS && s.port == port {"))
b("c06-tls-plain-local","C06",(REP,"	if c.Config.useTLS {","	if c.Config.useTLS && s.host != \"localhost\" {"))
b("c06-fallback-host","C06",(REP,"		if !ack.Success {\n			return fmt.Errorf(\"send fail\")","		if !ack.Success {\n			s.host = strings.TrimSuffix(s.host, \".\")\n			s.port = port\n			return fmt.Errorf(\"send fail\")"))
b("c06-err-leak-msg","C06",(REP,"			c.errors.ReportError(err)\n","			c.errors.ReportError(fmt.Errorf(\"%v: %v\", err, pb))\n"))
b("c06-wait-err-exit","C06",(CMD,"	c.sending.wait()\n	return c.report.Wait()","	if !c.Killed {\n		c.sending.wait()\n	}\n	return c.report.Wait()"))
b("c06-exit-on-first","C06",(REP,"	for b.count > 0 {\n		b.idle.Wait()\n	}","	for n := b.count; n > 0; n-- {\n		if b.count > 0 {\n			b.idle.Wait()\n		}\n	}"))
b("c06-success-switch","C06",(REP,"	case proto.Success:\n		if c.Config.NotifyOnSuccess {","	case proto.Success:\n		if c.Config.NotifyOnSuccess || c.memWarnSent {"))
# --- C07
b("c07-hist-swap-default","C07",(CMD,"c.Config.StderrHistory)","c.Config.StdoutHistory)"))
b("c07-n1","C07",(CMD,"	case n <= 0:\n		return nil","	case n <= 1:\n		if n == 1 && len(lines) > 0 {\n			return lines[:1]\n		}\n		return nil"))
b("c07-empty-lines","C07",(REP,"		valid = append(valid, validUTF8(line))","		if line == \"\" && len(lines) > 100 {\n			continue\n		}\n		valid = append(valid, validUTF8(line))"))
b("c07-before-write","C07",(CMD,"	c.mutex.Lock()\n	c.Stdout = lastLines(append(c.Stdout, string(line)), c.Config.StdoutHistory)\n	c.mutex.Unlock()\n","	c.mutex.Lock()\n	c.Stdout = append(c.Stdout, string(line))\n	c.mutex.Unlock()\n	c.mutex.Lock()\n	c.Stdout = lastLines(c.Stdout, c.Config.StdoutHistory)\n	c.mutex.Unlock()\n"))
b("c07-alias-trim","C07",(REP,"	var valid []string\n	for _, line := range lines {","	valid := lines[:0]\n	for _, line := range lines {"))
b("c07-bytes-cap","C07",(REP,"		valid = append(valid, validUTF8(line))","		if len(line) > 1<<20 {\n			line = line[len(line)-1<<20:]\n		}\n		valid = append(valid, validUTF8(line))"))
b("c07-utf8-remove","C07",(REP,'strings.ToValidUTF8(s, "\\uFFFD")','strings.ToValidUTF8(s, "")'))
# --- C08
b("c08-mem-nil","C08",(HAND,"	if mem > c.MaxMemory {\n","	if mem == 0 && c.MaxMemory > 0 && c.Config.MemoryKill > 0 {\n		return fmt.Errorf(\"process gone\")\n	}\n	if mem > c.MaxMemory {\n"))
b("c08-report-err-kills","C08",(CMD,"			c.out.Write([]byte{'\\n'})\n","			if _, err := c.out.Write([]byte{'\\n'}); err != nil {\n				time.Sleep(time.Minute)\n			}\n"))
b("c08-start-fail-zero","C08",(MAIN,'		cmd.Wait() // there may be reports on their way all the same\n		os.Exit(1)','		cmd.Wait() // there may be reports on their way all the same\n		if errors.Is(err, os.ErrPermission) {\n			os.Exit(0)\n		}\n		os.Exit(1)'))
b("c08-hostname","C08",(CFG,'	if err != nil {\n		host = ""\n	}\n','	if err != nil {\n		return Config{}, []error{err}\n	}\n'))
b("c08-send-under-lock","C08",(REP,"	c.mutex.Unlock()\n\n	result := make(chan error, 1)","	result := make(chan error, 1)"),(REP,"	select {\n	case err := <-result:\n		switch {\n		case err == nil:\n			cb()","	c.mutex.Unlock()\n	select {\n	case err := <-result:\n		switch {\n		case err == nil:\n			cb()"))
b("c08-stdin-eof-kill","C08",(CMD,'				c.errors.ReportError(fmt.Errorf("error writing to stdin: %+v", err))','				c.errors.ReportError(fmt.Errorf("error writing to stdin: %+v", err))\n				signals <- os.Interrupt'))
b("c08-empty-cmd","C08",(CMD,'		return fmt.Errorf("no command to execute")','		return nil'))
# --- C09
b("c09-chunk-flush","C09",(CMD,"			_, err := io.Copy(stdinWriter, os.Stdin)\n","			w := bufio.NewWriterSize(stdinWriter, 4096)\n			_, err := w.ReadFrom(os.Stdin)\n"))
b("c09-close-late","C09",(CMD,"		defer stdinWriter.Close()\n","		defer func() {\n			if c.Config.Daemon {\n				<-time.After(time.Second)\n			}\n			stdinWriter.Close()\n		}()\n"))
b("c09-read-error-eof","C09",(CMD,'				c.errors.ReportError(fmt.Errorf("error writing to stdin: %+v", err))','				c.errors.ReportError(fmt.Errorf("error writing to stdin: %+v", err))\n				c.sending.wait()'))
b("c09-socket","C09",(CMD,"		if fi.Mode()&os.ModeNamedPipe != 0 {","		if fi.Mode()&os.ModeNamedPipe != 0 && len(c.UserCommand) != 3 {"))
b("c09-line-copy","C09",(CMD,"			_, err := io.Copy(stdinWriter, os.Stdin)\n","			in := bufio.NewReader(os.Stdin)\n			var err error\n			for err == nil {\n				var line []byte\n				if line, err = in.ReadSlice('\\n'); err == bufio.ErrBufferFull {\n					err = nil\n				}\n				if _, werr := stdinWriter.Write(line); werr != nil {\n					err = werr\n				}\n			}\n			if err == io.EOF {\n				err = nil\n			}\n"))
# --- C10
b("c10-relative-base","C10",(HAND,"				Path: finfo.Name(),","				Path: f,"))
b("c10-lstat","C10",(HAND,"os.Stat(f)","os.Lstat(f)"))
b("c10-dup-files","C10",(HAND,"	for _, f := range c.Config.Creates {\n","	seen := map[string]bool{}\n	for _, f := range c.Config.Creates {\n		if seen[filepath.Base(f)] {\n			continue\n		}\n		seen[filepath.Base(f)] = true\n"),(HAND,'	"os/exec"\n','	"os/exec"\n	"path/filepath"\n'))
b("c10-early-check","C10",(CMD,"		wg.Wait()\n		cmd.Wait()\n","		wg.Wait()\n		if c.Config.Daemon {\n			handleFileCreation(c)\n			c.Config.Creates = nil\n		}\n		cmd.Wait()\n"))
b("c10-only-success","C10",(HAND,"	handleFileCreation(c)\n	return nil","	if c.ExitCode <= 125 {\n		handleFileCreation(c)\n	}\n	return nil"))
b("c10-success-after-fnc","C10",(HAND,"			c.Success = false\n			c.Messages","			c.Messages"))
b("c10-fresh-only","C10",(HAND,"		case err == nil:\n","		case err == nil && finfo.ModTime().Before(c.Start) && finfo.Size() == 0:\n			c.send(proto.FileNotCreated)\n		case err == nil:\n"))
b("c10-utf8-name","C10",(HAND,'fmt.Sprintf("file not created: %s", f)','fmt.Sprintf("file not created: %.60s", f)'))
b("c10-glob","C10",(HAND,"		finfo, err := os.Stat(f)\n","		finfo, err := os.Stat(os.ExpandEnv(f))\n"))
# --- C11
b("c11-reset-signals","C11",(CMD,"		case sig := <-signals:\n			return","		case sig := <-signals:\n			signal.Reset(os.Interrupt)\n			return"))
b("c11-late-notify","C11",(CMD,"	signal.Notify(signals, os.Interrupt, os.Kill)\n",""),(CMD,"	runFinished := make(chan bool, 1)\n","	signal.Notify(signals, os.Interrupt, os.Kill)\n	runFinished := make(chan bool, 1)\n"))
b("c11-unbuf","C11",(CMD,"	signals := make(chan os.Signal, 1)\n","	signals := make(chan os.Signal)\n"))
b("c11-report-and-go-on","C11",(CMD,"			return c.handler.Signal(c, cmd, sig)","			c.handler.Signal(c, cmd, sig)\n			<-runFinished\n			return nil"))
b("c11-both","C11",(CMD,"			return c.handler.Signal(c, cmd, sig)","			c.handler.Signal(c, cmd, sig)\n			<-runFinished\n			return c.handler.Finished(c, cmd)"))
b("c11-killreason-timeout","C11",(HAND,"	c.KillReason = proto.Signal\n","	c.KillReason = proto.Signal\n	if c.timeWarnSent {\n		c.KillReason = proto.Timeout\n	}\n"))
b("c11-finished-no-report","C11",(HAND,"	c.send(proto.Killed)\n	if err := cmd.Process.Signal(sig); err != nil {\n		return err\n	}","	if err := cmd.Process.Signal(sig); err != nil && err.Error() != \"os: process already finished\" {\n		return err\n	}\n	c.send(proto.Killed)"))
b("c11-drain","C11",(CMD,"		case <-runFinished:\n			return","		case <-runFinished:\n			select {\n			case sig := <-signals:\n				c.handler.Signal(c, cmd, sig)\n			default:\n			}\n			return"))
# --- C12
b("c12-yaml-int-suffix","C12",(PAR,"handleOption(k, strconv.Itoa(v.(int)))","handleOption(k, fmt.Sprintf(\"%d\", int32(v.(int))))"))
b("c12-list-trim","C12",(PAR,"handleOption(k, fmt.Sprint(val))","handleOption(k, strings.TrimSpace(fmt.Sprint(val)))"))
b("c12-rule-dedupe","C12",(CFG,"		c.Rules = append(c.Rules, rule{Regex: reg})\n","		for _, r := range c.Rules {\n			if err == nil && r.Regex.String() == regex {\n				return nil\n			}\n		}\n		c.Rules = append(c.Rules, rule{Regex: reg})\n"))
b("c12-json-rule-first-colon","C12",(PAR,'strings.SplitAfterN(value, ":", 2)','strings.SplitAfter(value, ":")'),(PAR,"len(jrule) != 2","len(jrule) < 2"))
b("c12-mem-lower","C12",(CFG,"		case strings.HasSuffix(mem, \"K\"):\n			warn","		case strings.HasSuffix(mem, \"k\"), strings.HasSuffix(mem, \"K\"):\n			warn"))
b("c12-mem-space","C12",(CFG,"			kill, err = strconv.Atoi(mem)\n","			kill, err = strconv.Atoi(strings.TrimSpace(mem))\n"))
b("c12-mem-g-1024","C12",(CFG,"			warn = warn * 1000000\n","			warn = warn * 1024 * 1024\n"))
b("c12-negative-history","C12",(CFG,"		c.StdoutHistory = hist\n","		if hist < 0 {\n			hist = 30\n		}\n		c.StdoutHistory = hist\n"))
b("c12-shell-check","C12",(CFG,"		path, err := exec.LookPath(shell)\n		if err != nil {\n			return err\n		}\n","		path, err := exec.LookPath(shell)\n		if err != nil {\n			path = shell\n		}\n"))
b("c12-host-path","C12",(CFG,"		if len(h) != 2 {","		if len(h) == 3 && strings.HasPrefix(h[1], \"//\") {\n			h = []string{h[1][2:], h[2]}\n		}\n		if len(h) != 2 {"))
b("c12-config-twice","C12",(PAR,"			opts, err := parseFromFile(value)\n","			if len(o.options) > 20 {\n				return nil\n			}\n			opts, err := parseFromFile(value)\n"))
b("c12-bool-switch-1","C12",(PAR,"		case bool:\n			opt, err := handleOption(k, strconv.FormatBool(v.(bool)))","		case bool:\n			if !v.(bool) {\n				continue\n			}\n			opt, err := handleOption(k, strconv.FormatBool(v.(bool)))"))
b("c12-dur-plain","C12",(CFG,"		duration, err := time.ParseDuration(timeout)\n		if err != nil {\n			return fmt.Errorf(\"unrecognized kill","		duration, err := time.ParseDuration(timeout)\n		if err != nil {\n			duration, err = time.ParseDuration(timeout + \"s\")\n		}\n		if err != nil {\n			return fmt.Errorf(\"unrecognized kill"))
b("c12-creates-comma","C12",(CFG,"		c.Creates = append(c.Creates, filepath)","		c.Creates = append(c.Creates, strings.Split(filepath, \",\")...)"))
b("c12-yaml-empty-file","C12",(PAR,"	cfg := make(map[string]interface{})\n","	if len(data) == 0 {\n		return options, fmt.Errorf(\"empty file\")\n	}\n	cfg := make(map[string]interface{})\n"))
b("c12-yaml-missing-ok","C12",(PAR,"	data, err := ioutil.ReadFile(fpath)\n	if err != nil {","	data, err := ioutil.ReadFile(fpath)\n	if os.IsPermission(err) {\n		return options, nil\n	}\n	if err != nil {"))
b("c12-yaml-partial","C12",(PAR,"	if err := yaml.Unmarshal(data, &cfg); err != nil {","	if err := yaml.Unmarshal(data, &cfg); err != nil && len(cfg) == 0 {"))
b("c12-id-file-wins","C12",(CFG,"		c.ID = id\n","		if c.ID == \"\" {\n			c.ID = id\n		}\n"))
