import os,sys; sys.path.insert(0,os.path.dirname(__file__))
from bugs1 import BUS,EV,LOG,OPT,Q,TK,CNT,SAM,SER,FSM,NON,EST,ST,TST,CMD,REP,HAND,PAR,CFG,MEM,MAIN
B=[]
def b(id, prop, *edits): B.append((id, prop, edits))
OW="			if _, err := c.out.Write(stdoutScanner.Bytes()); err != nil {\n"
ON="			c.out.Write([]byte{'\\n'})\n"
# --- C01
b("c01-fail3-silent","C01",(CMD,OW,"			if failed > 2 {\n				c.processStdout(stdoutScanner.Bytes())\n				continue\n			}\n"+OW+"				failed++\n"),(CMD,"		defer wg.Done()\n		for stdoutScanner.Scan() {","		defer wg.Done()\n		failed := 0\n		for stdoutScanner.Scan() {"))
b("c01-newline-skipped-after-error","C01",(CMD,"stdout: %+v\", err))\n			}\n"+ON,"stdout: %+v\", err))\n			} else {\n				c.out.Write([]byte{'\\n'})\n			}\n"))
b("c01-err-to-out-on-failure","C01",(CMD,"			if _, err := c.err.Write(stderrScanner.Bytes()); err != nil {\n","			if _, err := c.err.Write(stderrScanner.Bytes()); err != nil {\n				c.out.Write(stderrScanner.Bytes())\n"))
b("c01-cr-line","C01",(CMD,ON,"			if n := len(stdoutScanner.Bytes()); n == 0 || stdoutScanner.Bytes()[n-1] != '\\r' {\n				c.out.Write([]byte{'\\n'})\n			}\n"))
b("c01-close-per-stream","C01",(CMD,"	go func() {\n		wg.Wait()\n		cmd.Wait()\n		c.out.Close()\n		c.err.Close()\n","	go func() {\n		wg.Wait()\n		cmd.Wait()\n		c.err.Close()\n		c.out.Close()\n"))
b("c01-wait-timeout","C01",(CMD,"		wg.Wait()\n		cmd.Wait()\n","		read := make(chan bool)\n		go func() {\n			wg.Wait()\n			close(read)\n		}()\n		cmd.Process.Wait()\n		select {\n		case <-read:\n		case <-time.After(10 * time.Second):\n		}\n		cmd.Wait()\n"))
b("c01-buffered-out","C01",(CMD,"	stdoutScanner := bufio.NewScanner(stdoutReader)","	stdoutScanner := bufio.NewScanner(bufio.NewReaderSize(stdoutReader, 1<<16))"))
b("c01-line-copy-limit","C01",(CMD,OW,"			line := stdoutScanner.Bytes()\n			if len(line) > 1<<20 {\n				line = line[:1<<20]\n			}\n			if _, err := c.out.Write(line); err != nil {\n"))
b("c01-ansi","C01",(CMD,OW,"			if _, err := c.out.Write(bytes.TrimRight(stdoutScanner.Bytes(), \"\\a\\v\\f\")); err != nil {\n"),(CMD,"	\"bufio\"\n","	\"bufio\"\n	\"bytes\"\n"))
# --- C02
b("c02-code-only-if-exited","C02",(HAND,"		if ok {\n			c.ExitCode","		if ok && sysinfo.ExitStatus() > 0 {\n			c.ExitCode"))
b("c02-finish-after-files","C02",(HAND,"	c.mutex.Lock()\n	c.Finish = time.Now()\n	c.Duration = c.Finish.Sub(c.Start)\n	c.mutex.Unlock()\n\n	switch","	c.mutex.Lock()\n	if c.Finish.IsZero() || !c.memWarnSent {\n		c.Finish = time.Now()\n	}\n	c.Duration = c.Finish.Sub(c.Start)\n	c.mutex.Unlock()\n\n	switch"))
b("c02-warned-outcome-lost","C02",(HAND,"		c.ReportReason = proto.Success\n		c.mutex.Unlock()\n		c.send(proto.Success)","		if c.ReportReason != proto.TimeWarning {\n			c.ReportReason = proto.Success\n		}\n		reason := c.ReportReason\n		c.mutex.Unlock()\n		c.send(reason)"))
b("c02-failure-uses-success-flag-with-creates","C02",(REP,"		if c.Config.NotifyOnFailure {","		if c.Config.NotifyOnFailure || len(c.Created) > 0 {"))
b("c02-success-flag-stale","C02",(HAND,"		c.Success = true\n","		c.Success = len(c.RuleMatches) == 0\n"))
b("c02-start-from-first-line","C02",(CMD,"	c.pid = os.Getpid()\n","	c.pid = os.Getpid()\n	c.Start = time.Now()\n"))
b("c02-hostname-short","C02",(REP,"validUTF8(c.Config.Hostname)","validUTF8(strings.SplitN(c.Config.Hostname, \".\", 2)[0])"))
b("c02-cmd-dup-args","C02",(REP,"		UserCommand:   validUTF8(strings.Join(c.UserCommand, \" \")),","		UserCommand:   validUTF8(strings.Join(strings.Fields(strings.Join(c.UserCommand, \" \")), \" \")),"))
b("c02-createdat-start","C02",(REP,"		CreatedAt:     time.Now().Unix(),","		CreatedAt:     c.Start.Unix(),"))
b("c02-config-empty","C02",(REP,"		Config:        marshalConfig(c.Config, onError),","		Config:        nil,"))
b("c02-duration-zero-success","C02",(HAND,"	c.Duration = c.Finish.Sub(c.Start)\n	c.mutex.Unlock()\n\n	switch","	c.Duration = c.Finish.Round(0).Sub(c.Start.Round(0))\n	c.mutex.Unlock()\n\n	switch"))
# --- C03
b("c03-no-warn-after-memwarn","C03",(HAND,"	if c.timeWarnSent {\n","	if c.timeWarnSent || c.memWarnSent {\n"))
b("c03-no-kill-after-alert","C03",(CMD,"		case <-timeout:\n			return","		case <-timeout:\n			c.mutex.Lock()\n			n := len(c.RuleMatches)\n			c.mutex.Unlock()\n			if n > 3 {\n				continue\n			}\n			return"))
b("c03-warn-marks-killed","C03",(HAND,"	c.ReportReason = proto.TimeWarning\n","	c.ReportReason = proto.TimeWarning\n	c.Killed = c.Config.KillTimeout > 0\n"))
b("c03-warn-finish-set","C03",(HAND,"	c.ReportReason = proto.TimeWarning\n","	c.ReportReason = proto.TimeWarning\n	c.KillReason = proto.Timeout\n"))
b("c03-kill-after-warn-only","C03",(CMD,"		timeout = time.After(c.Config.KillTimeout)","		timeout = time.After(c.Config.KillTimeout)\n		if c.Config.NotifyTimeout > c.Config.KillTimeout {\n			timeout = time.After(c.Config.NotifyTimeout)\n		}"))
b("c03-timer-before-start","C03",(CMD,"		timeout = time.After(c.Config.KillTimeout)","		timeout = time.After(time.Until(c.Start.Round(0).Add(c.Config.KillTimeout)))"))
b("c03-daemon-no-timeout","C03",(CMD,"	if c.Config.KillTimeout > 0 {","	if c.Config.KillTimeout > 0 && !(c.Config.Daemon && c.Config.MemoryKill > 0) {"))
b("c03-success-not-cleared","C03",(HAND,"	c.KillReason = proto.Timeout\n	c.Finish","	c.KillReason = proto.Timeout\n	if c.memWarnSent {\n		c.KillReason = proto.Memory\n	}\n	c.Finish"))
b("c03-warn-needs-lock-output","C03",(HAND,"func (h handler) TimeWarning(c *Command) error {\n","func (h handler) TimeWarning(c *Command) error {\n	c.sending.wait()\n"))
# --- C04
b("c04-warn-then-no-sampling","C04",(CMD,"			if err := c.handler.CheckMemory(c, cmd); err != nil {","			if c.memWarnSent && c.Config.MemoryKill == 0 {\n				continue\n			}\n			if err := c.handler.CheckMemory(c, cmd); err != nil {"))
b("c04-warn-gt-kill","C04",(HAND,"	if c.Config.MemoryWarn > 0 && mem >=","	if c.Config.MemoryWarn > 0 && (c.Config.MemoryKill == 0 || c.Config.MemoryWarn < c.Config.MemoryKill) && mem >="))
b("c04-max-capped-kill","C04",(HAND,"	if mem > c.MaxMemory {\n","	if mem > c.MaxMemory && (c.Config.MemoryKill == 0 || mem < c.Config.MemoryKill) {\n"))
b("c04-pss-prefix-loose","C04",(MEM,'pfx := []byte("Pss:")','pfx := []byte("Pss")'),(MEM,"line[4:]","line[bytes.IndexByte(line, ':')+1:]"))
b("c04-scan-limit","C04",(MEM,"	r := bufio.NewScanner(f)\n","	r := bufio.NewScanner(io.LimitReader(f, 1<<16))\n"),(MEM,'	"fmt"\n','	"fmt"\n	"io"\n'))
b("c04-warn-needs-two","C04",(HAND,"	if mem > c.MaxMemory {\n","	previous := c.MaxMemory\n	if mem > c.MaxMemory {\n"),(HAND,"mem >= c.Config.MemoryWarn {","mem >= c.Config.MemoryWarn && (previous > 0 || c.Config.Daemon) {"))
b("c04-tick-drops","C04",(CMD,"profileMemory = time.Tick(1 * time.Second)","profileMemory = time.Tick(1100 * time.Millisecond)"))
b("c04-daemon-minute","C04",(CMD,"profileMemory = time.Tick(30 * time.Second)","profileMemory = time.Tick(1 * time.Minute)"))
# --- C05
b("c05-index-first-ten","C05",(CMD,"rule.Regex.FindAllIndex(text, -1)","rule.Regex.FindAllIndex(text, 10)"))
b("c05-break-after-json","C05",(CMD,"			text = extractTextFromJSON(line, rule.Field)\n","			text = extractTextFromJSON(line, rule.Field)\n			if len(text) == 0 {\n				return matches\n			}\n"))
b("c05-time-trunc","C05",(CMD,"				Time:  time.Now(),","				Time:  time.Now().Truncate(time.Second),"))
b("c05-rate-counts-lines","C05",(REP,"			if now.Sub(match.Time) <= period {","			if d := now.Sub(match.Time); d < period {"))
b("c05-rate-resets","C05",(REP,"		if alertRateExceeded {\n","		if alertRateExceeded && unreported > 0 {\n"))
b("c05-rate-quantity-plus","C05",(REP,"	case matchesInPeriod >= quantity:","	case matchesInPeriod >= quantity && len(matches) > 0:"))
b("c05-purge-old","C05",(CMD,"func (c *Command) processStderr(line []byte) {\n	matches := checkRule(line, c.Config.Rules)\n	c.mutex.Lock()\n","func (c *Command) processStderr(line []byte) {\n	matches := checkRule(line, c.Config.Rules)\n	c.mutex.Lock()\n	for c.Config.RulePeriod > 0 && len(c.RuleMatches) > 0 && time.Since(c.RuleMatches[0].Time) > 10*c.Config.RulePeriod {\n		c.RuleMatches = c.RuleMatches[1:]\n	}\n"))
b("c05-rule-skips-utf8","C05",(CMD,"	for _, rule := range rules {\n","	if !utf8.Valid(line) {\n		return nil\n	}\n	for _, rule := range rules {\n"),(CMD,'	"time"\n','	"time"\n	"unicode/utf8"\n'))
b("c05-json-int","C05",(CMD,"			return []byte(fmt.Sprintf(\"%f\", value.(float64)))\n		case bool:\n			return []byte(fmt.Sprintf(\"%v\"","			return []byte(fmt.Sprintf(\"%.3f\", value.(float64)))\n		case bool:\n			return []byte(fmt.Sprintf(\"%v\""))
b("c05-json-array-last","C05",(CMD,'strings.Join(out, "\\n")','strings.Join(out, " ")'))
b("c05-json-usenumber","C05",(CMD,"		if err := json.Unmarshal(raw, &res); err != nil {\n			return []byte{}\n		}\n		value := res[field]","		if err := json.NewDecoder(strings.NewReader(string(raw))).Decode(&res); err != nil {\n			return []byte{}\n		}\n		value := res[field]"))
b("c05-match-line-valid","C05",(CMD,"				Line:  string(line),","				Line:  string(text),"))
b("c05-sent-on-nonempty","C05",(REP,"		if unreported == 0 && matched > 0 {","		if unreported == 0 {"))
b("c05-alert-window","C05",(REP,"		cb = removeMatches\n	case proto.AlertRate:","		cb = func() { time.AfterFunc(time.Second, removeMatches) }\n	case proto.AlertRate:"))
b("c05-acked-on-send","C05",(REP,"	cb := func() { return }\n","	cb := func() { return }\n	if reason == proto.Killed {\n		cb = removeMatches\n	}\n"))
# --- C06
b("c06-give-up-codes","C06",(REP,"		if err != nil {\n			return err\n		}\n		if !ack.Success {","		if status.Code(err) == codes.ResourceExhausted || status.Code(err) == codes.InvalidArgument {\n			return backoff.Permanent(err)\n		}\n		if err != nil {\n			return err\n		}\n		if !ack.Success {"),(REP,'	"google.golang.org/grpc/credentials"\n','	"google.golang.org/grpc/codes"\n	"google.golang.org/grpc/credentials"\n	"google.golang.org/grpc/status"\n'))
b("c06-internal-ok","C06",(REP,"		if err != nil {\n			return err\n		}\n		if !ack.Success {","		if err == io.EOF || status.Code(err) == codes.AlreadyExists || status.Code(err) == codes.Internal {\n			return nil\n		}\n		if err != nil {\n			return err\n		}\n		if !ack.Success {"),(REP,'	"google.golang.org/grpc/credentials"\n','	"google.golang.org/grpc/codes"\n	"google.golang.org/grpc/credentials"\n	"google.golang.org/grpc/status"\n'),(REP,'	"fmt"\n','	"fmt"\n	"io"\n'))
b("c06-nack-ok-after-3","C06",(REP,"	send := func() error {\n","	tries := 0\n	send := func() error {\n		tries++\n"),(REP,"		if !ack.Success {\n","		if !ack.Success && tries < 5 {\n"))
b("c06-maxelapsed-30","C06",(REP,"	retry.MaxElapsedTime = 0\n","	retry.MaxElapsedTime = 30 * time.Minute\n"))
b("c06-interval-cap","C06",(REP,"	retry.MaxElapsedTime = 0\n","	retry.MaxElapsedTime = 0\n	retry.MaxInterval = time.Hour\n	retry.Multiplier = 4\n"))
b("c06-wait-max","C06",(REP,"func (r *Report) Wait() error {\n	r.sender.wait()\n	return nil","func (r *Report) Wait() error {\n	done := make(chan bool)\n	go func() {\n		r.sender.wait()\n		close(done)\n	}()\n	select {\n	case <-done:\n	case <-time.After(45 * time.Minute):\n	}\n	return nil"))
b("c06-send-wait-max","C06",(CMD,"	c.sending.wait()\n	return c.report.Wait()","	done := make(chan bool)\n	go func() {\n		c.sending.wait()\n		close(done)\n	}()\n	select {\n	case <-done:\n	case <-time.After(50 * time.Minute):\n		return nil\n	}\n	return c.report.Wait()"))
b("c06-drop-old-warning","C06",(REP,"	timeout := time.After(1 * time.Hour)\n","	timeout := time.After(1 * time.Hour)\n	if reason == proto.TimeWarning || reason == proto.MemoryWarning {\n		timeout = time.After(10 * time.Minute)\n	}\n"))
b("c06-ack-nil","C06",(REP,"		if !ack.Success {\n			return fmt.Errorf(\"send fail\")\n		}\n		return nil","		if !ack.Success && len(report.Matches) > 4 {\n			return fmt.Errorf(\"send fail\")\n		}\n		return nil"))
b("c06-first-report-dials","C06",(REP,"grpc.Dial(net.JoinHostPort(s.host, s.port), s.opts...)","grpc.Dial(net.JoinHostPort(s.host, s.port), append(s.opts, grpc.FailOnNonTempDialError(true), grpc.WithBlock(), grpc.WithTimeout(time.Second))...)"))
b("c06-main-no-wait-on-error","C06",(MAIN,"		cmd.Wait() // there may be reports on their way all the same\n",""))
b("c06-host-lower","C06",(CFG,"		c.host = h[0]\n","		c.host = strings.TrimPrefix(h[0], \"www.\")\n"))
b("c06-tls-skip","C06",(REP,"credentials.NewTLS(&tls.Config{})","credentials.NewTLS(&tls.Config{InsecureSkipVerify: true})"))
b("c06-count-race","C06",(CMD,"	c.sending.add(1)\n	go func() {\n		defer c.sending.add(-1)\n","	go func() {\n		c.sending.add(1)\n		defer c.sending.add(-1)\n"))
b("c06-leak-line","C06",(CMD,'c.errors.ReportError(fmt.Errorf("error writing log line to stderr: %+v", err))','c.errors.ReportError(fmt.Errorf("error writing log line %q to stderr: %+v", stderrScanner.Text(), err))'))
b("c06-error-with-config","C06",(REP,'timeout on background report send: reason=%s", reason','timeout on background report send: reason=%s messages=%v", reason, c.Stdout'))
# --- C07
b("c07-lazy-trim","C07",(CMD,"	case len(lines) > n:\n		return lines[len(lines)-n:]","	case len(lines) > 2*n:\n		return lines[len(lines)-n:]"))
b("c07-long-line-cut","C07",(CMD,"	c.Stdout = lastLines(append(c.Stdout, string(line)), c.Config.StdoutHistory)","	if len(line) > 16384 {\n		line = line[:16384]\n	}\n	c.Stdout = lastLines(append(c.Stdout, string(line)), c.Config.StdoutHistory)"))
b("c07-dedupe","C07",(CMD,"	c.Stderr = lastLines(append(c.Stderr, string(line)), c.Config.StderrHistory)","	if n := len(c.Stderr); n == 0 || len(line) == 0 || c.Stderr[n-1] != string(line) {\n		c.Stderr = lastLines(append(c.Stderr, string(line)), c.Config.StderrHistory)\n	}"))
b("c07-cr","C07",(REP,"		valid = append(valid, validUTF8(line))","		valid = append(valid, strings.TrimRight(validUTF8(line), \"\\r\"))"))
b("c07-tabs","C07",(REP,"		valid = append(valid, validUTF8(line))","		valid = append(valid, strings.TrimRight(validUTF8(line), \" \\t\"))"))
b("c07-nul","C07",(REP,"		valid = append(valid, validUTF8(line))","		valid = append(valid, strings.Replace(validUTF8(line), \"\\x00\", \"\", -1))"))
b("c07-ring","C07",(CMD,"	case len(lines) > n:\n		return lines[len(lines)-n:]","	case len(lines) > n:\n		copy(lines, lines[1:])\n		return lines[:n]"))
b("c07-total-cap","C07",(REP,"		valid = append(valid, validUTF8(line))","		if valid = append(valid, validUTF8(line)); len(valid) > 1000 {\n			valid = valid[1:]\n		}"))
# --- C08
b("c08-alert-slots","C08",(CMD,"	c.sending.add(1)\n	go func() {\n		defer c.sending.add(-1)\n","	c.sending.add(1)\n	slots <- true\n	go func() {\n		defer func() { <-slots }()\n		defer c.sending.add(-1)\n"),(CMD,"// send transmits a report","var slots = make(chan bool, 8)\n\n// send transmits a report"))
b("c08-json-null","C08",(CMD,"		value := res[field]\n","		value := res[field]\n		if value == nil && len(res) == 1 {\n			_ = value.(string)\n		}\n"))
b("c08-stdin-stat-closes","C08",(CMD,"			c.errors.ReportError(fmt.Errorf(\"failed to get stdin properties: %+v\", err))\n			return","			c.errors.ReportError(fmt.Errorf(\"failed to get stdin properties: %+v\", err))\n			cmd.Process.Signal(os.Kill)\n			return"))
b("c08-mem-open-error","C08",(MEM,"	if err != nil {\n		return 0\n	}\n	defer f.Close()","	if os.IsNotExist(err) {\n		return 0\n	}\n	if err != nil {\n		panic(err)\n	}\n	defer f.Close()"))
b("c08-out-nil-close","C08",(CMD,"		c.out.Close()\n		c.err.Close()\n		c.Cleanup()","		if err := c.out.Close(); err != nil {\n			return\n		}\n		c.err.Close()\n		c.Cleanup()"))
b("c08-read-error-stops","C08",(CMD,'			c.errors.ReportError(fmt.Errorf("error reading stdout: %+v", err))','			c.errors.ReportError(fmt.Errorf("error reading stdout: %+v", err))\n			cmd.Process.Kill()'))
b("c08-scan-too-long","C08",(CMD,"	stdoutScanner.Buffer(nil, math.MaxInt32)","	stdoutScanner.Buffer(nil, 1<<22)"))
b("c08-config-exit","C08",(MAIN,"			fmt.Println(e)\n		}\n		os.Exit(1)","			fmt.Println(e)\n		}\n		os.Exit(len(errs) - 1)"))
b("c08-help","C08",(MAIN,"	if len(errs) > 0 {","	if len(errs) > 1 {"))
b("c08-marshal-panic","C08",(REP,"		cancel <- true\n","		cancel <- true\n		cancel <- true\n"))
# --- C09
b("c09-eof-late","C09",(CMD,"		defer stdinWriter.Close()\n","		defer func() {\n			wg.Wait()\n			stdinWriter.Close()\n		}()\n"))
b("c09-copy-n","C09",(CMD,"io.Copy(stdinWriter, os.Stdin)","io.Copy(stdinWriter, io.LimitReader(os.Stdin, 1<<22))"))
b("c09-crlf","C09",(CMD,"			_, err := io.Copy(stdinWriter, os.Stdin)\n","			var err error\n			buf := make([]byte, 4096)\n			for err == nil {\n				var n int\n				n, err = os.Stdin.Read(buf)\n				if err == nil {\n					_, err = stdinWriter.Write(buf[:n])\n				}\n			}\n			if err == io.EOF {\n				err = nil\n			}\n"))
b("c09-zero-read","C09",(CMD,"			_, err := io.Copy(stdinWriter, os.Stdin)\n","			var err error\n			buf := make([]byte, 512)\n			for {\n				n, rerr := os.Stdin.Read(buf)\n				if n > 0 {\n					if buf[0] == 4 {\n						break\n					}\n					if _, err = stdinWriter.Write(buf[:n]); err != nil {\n						break\n					}\n				}\n				if rerr != nil {\n					break\n				}\n			}\n"))
b("c09-after-first-output","C09",(CMD,"		if fi.Mode()&os.ModeNamedPipe != 0 {","		if fi.Mode()&os.ModeNamedPipe != 0 && fi.Mode()&os.ModeCharDevice == 0 && !c.Config.Daemon {"))
b("c09-wait-for-copy","C09",(CMD,"		if fi.Mode()&os.ModeNamedPipe != 0 {\n","		if fi.Mode()&os.ModeNamedPipe != 0 {\n			wg.Add(1)\n			defer wg.Done()\n"))
# --- C10
b("c10-trailing-slash","C10",(HAND,"		finfo, err := os.Stat(f)\n","		finfo, err := os.Stat(strings.TrimRight(f, \"/\"))\n"),(HAND,'	"os/exec"\n','	"os/exec"\n	"strings"\n'))
b("c10-clean","C10",(HAND,"		finfo, err := os.Stat(f)\n","		finfo, err := os.Stat(filepath.Clean(f))\n"),(HAND,'	"os/exec"\n','	"os/exec"\n	"path/filepath"\n'))
b("c10-killed-too","C10",(HAND,"		c.ReportReason = proto.Failure\n		c.Success = false\n		c.mutex.Unlock()\n		c.send(proto.Failure)\n	}\n	handleFileCreation(c)","		c.ReportReason = proto.Failure\n		c.Success = false\n		c.mutex.Unlock()\n		c.send(proto.Failure)\n		if c.ExitCode < 0 {\n			return nil\n		}\n	}\n	handleFileCreation(c)"))
b("c10-isnotexist-errno","C10",(HAND,"		case os.IsNotExist(err):","		case err != nil && !os.IsPermission(err):"))
b("c10-size-if-regular","C10",(HAND,"				Size: finfo.Size(),","				Size: int64(int32(finfo.Size())),"))
b("c10-mtime-now","C10",(HAND,"				Time: finfo.ModTime(),","				Time: time.Now(),"))
b("c10-messages-reset","C10",(HAND,"			c.Messages = append(c.Messages, fmt.Sprintf","			c.Messages = append(c.Messages[:0], fmt.Sprintf"))
b("c10-one-report","C10",(HAND,"			c.send(proto.FileNotCreated)\n","			missing = true\n"),(HAND,"	for _, f := range c.Config.Creates {\n","	missing := false\n	defer func() {\n		if missing && c.Config.NotifyOnFailure {\n			c.send(proto.FileNotCreated)\n		}\n	}()\n	for _, f := range c.Config.Creates {\n"))
b("c10-skip-in-daemon","C10",(HAND,"	for _, f := range c.Config.Creates {\n","	for _, f := range c.Config.Creates {\n		if len(f) > 0 && f[0] == '-' {\n			continue\n		}\n"))
b("c10-marked-success","C10",(HAND,"			c.Success = false\n			c.Messages","			c.Success = c.Success && c.ExitCode == 0 && len(c.Created) > 0\n			c.Messages"))
# --- C11
b("c11-int-once-per-second","C11",(CMD,"		case sig := <-signals:\n","		case sig := <-signals:\n			if time.Since(c.Start) < 100*time.Millisecond {\n				continue\n			}\n"))
b("c11-finished-first","C11",(CMD,"		case sig := <-signals:\n			return","		case sig := <-signals:\n			if cmd.ProcessState != nil {\n				continue\n			}\n			return"))
b("c11-drop-when-warned","C11",(CMD,"		case sig := <-signals:\n","		case sig := <-signals:\n			if c.memWarnSent {\n				continue\n			}\n"))
b("c11-signal-needs-report","C11",(HAND,"	c.send(proto.Killed)\n	if err := cmd.Process.Signal(sig); err != nil {","	c.send(proto.Killed)\n	c.sending.wait()\n	if err := cmd.Process.Signal(sig); err != nil {"))
b("c11-term","C11",(HAND,"cmd.Process.Signal(sig)","cmd.Process.Signal(syscall.SIGTERM)"))
b("c11-report-after-forward","C11",(HAND,"	c.send(proto.Killed)\n	if err := cmd.Process.Signal(sig); err != nil {\n		return err\n	}","	if err := cmd.Process.Signal(sig); err != nil {\n		return err\n	}\n	c.send(proto.Killed)"))
b("c11-pgid","C11",(HAND,"cmd.Process.Signal(sig)","syscall.Kill(-cmd.Process.Pid, syscall.SIGINT)"))
# --- C12
b("c12-empty-value-skip","C12",(PAR,"	return func(flag *pflag.Flag, value string) error {\n","	return func(flag *pflag.Flag, value string) error {\n		if value == \"\" {\n			return nil\n		}\n"))
b("c12-float-value","C12",(PAR,"		case int:\n","		case float64:\n			opt, err := handleOption(k, strconv.Itoa(int(v.(float64))))\n			if err != nil {\n				return options, err\n			}\n			options = append(options, opt)\n		case int:\n"))
b("c12-unknown-list","C12",(PAR,'				return options, fmt.Errorf("Unknown option: %s", k)','				continue'))
b("c12-nil-value","C12",(PAR,'		default:\n			return options, fmt.Errorf("Could not process','		case nil:\n		default:\n			return options, fmt.Errorf("Could not process'))
b("c12-history-clamp","C12",(CFG,"		c.StderrHistory = hist\n","		if hist > 10000 {\n			hist = 10000\n		}\n		c.StderrHistory = hist\n"))
b("c12-mem-overflow","C12",(CFG,"			kill = kill * 1000000\n","			kill = int(int32(kill) * 1000000)\n"))
b("c12-dur-neg","C12",(CFG,"		c.NotifyTimeout = duration\n","		c.NotifyTimeout = duration.Round(time.Second)\n"))
b("c12-json-field-trim","C12",(PAR,"JSONRule(jrule[0][0:len(jrule[0])-1], jrule[1])","JSONRule(strings.TrimSpace(jrule[0][0:len(jrule[0])-1]), jrule[1])"))
b("c12-json-regex-trim","C12",(PAR,"JSONRule(jrule[0][0:len(jrule[0])-1], jrule[1])","JSONRule(jrule[0][0:len(jrule[0])-1], strings.TrimSpace(jrule[1]))"))
b("c12-rule-error-kept","C12",(CFG,"		reg, err := regexp.Compile(regex)\n		c.Rules = append(c.Rules, rule{Regex: reg})\n		return err","		reg, err := regexp.Compile(regex)\n		if err != nil {\n			reg, err = regexp.Compile(regexp.QuoteMeta(regex))\n		}\n		c.Rules = append(c.Rules, rule{Regex: reg})\n		return err"))
b("c12-shell-keep","C12",(CFG,"		c.Shell = path\n","		if c.Shell == \"\" {\n			c.Shell = path\n		}\n"))
b("c12-host-default-port","C12",(CFG,"		if len(h) != 2 {","		if len(h) == 1 {\n			h = append(h, port)\n		}\n		if len(h) != 2 {"))
b("c12-second-config","C12",(PAR,"			o.options = append(o.options, opts...)","			o.options = append(opts, o.options...)"))
b("c12-yaml-string-bool","C12",(PAR,"	on, err := strconv.ParseBool(value)\n","	on, err := strconv.ParseBool(strings.TrimSpace(value))\n"))
b("c12-rate","C12",(CFG,"		c.RulePeriod = duration\n","		c.RulePeriod = duration.Truncate(time.Minute)\n"))
b("c12-usercmd-args","C12",(PAR,"	return pf.Args(), options.options, options.err\n","	args = pf.Args()\n	if len(args) > 0 && args[0] == \"--\" {\n		args = args[1:]\n	}\n	return args, options.options, options.err\n"))
