import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

BUS="pkg/eventbus/bus.go"
p("E01","Event bus: every subscriber gets each event once per matching topic",
 "An event published on a set of topics is received exactly once per shared topic by every subscriber of one of those topics, exactly once by every subscriber that named no topic, and never by anybody else; what is received decodes to exactly what was published. A subscriber that is slow, or that never reads at all, does not keep the others from receiving everything. Nothing is invented, duplicated or lost while no shutdown or unsubscription is in progress.",
 ["schedules","inputs","histories"],"Any number of publishers and subscribers on any topic sets, any subscriber speed including never, any interleaving of publications, deliveries and new subscriptions.",
 "The unit tests use one publisher, one reader at a time and fixed sleeps; delivery happens in background goroutines whose interleavings, and whose behaviour when a channel is full, are never varied.",
 [BUS,"pkg/eventbus/event.go"],[("one goroutine per event and subscriber so a full channel blocks only itself",BUS+": Dispatch"),("topics plus the default topic",BUS+": Dispatch")],["the channel returned by Subscribe","Event.Decode"])
p("E02","Event bus: publishing never blocks and the bus never deadlocks",
 "Publishing an event, subscribing and unsubscribing all return promptly whatever the subscribers do: with subscribers that never read, that publish, subscribe or unsubscribe from inside their event loop, and while a shutdown is under way. Publishing after or during a shutdown is silently dropped rather than panicking. No sequence of calls to the bus wedges it or crashes the process.",
 ["schedules","histories"],"All interleavings of publish, subscribe, unsubscribe and shutdown from several tasks, including re-entrant calls from subscribers and subscribers that stop reading.",
 "Tests call the bus from one goroutine at a time; a lock cycle needs a full channel, a pending writer and a re-entrant call to line up.",
 [BUS],[("reader lock around dispatch",BUS+": Dispatch"),("background delivery",BUS+": Dispatch")],["return of Dispatch, Subscribe, Unsubscribe"])
p("E03","Event bus: shutdown waits for every subscriber, or its deadline",
 "Shutting the bus down closes each subscriber's channel exactly once, returns nil only after every subscriber has reported that it finished, and otherwise returns the timeout error no later than its context ends, whatever the subscribers are doing. Nothing is delivered after a subscriber's channel is closed, and no subscriber is left waiting on a channel that is never closed. It never panics, however many topics a subscriber has and however late or often subscribers report.",
 ["schedules","histories","fault_sequences"],"Any subscriber set (several topics each, slow, stuck, re-entrant, finishing early, late, twice or never), any deadline or cancellation time, any publications in flight.",
 "The tests shut down idle buses with one-topic subscribers; in-flight deliveries to full channels and multi-topic subscribers are never present at shutdown.",
 [BUS],[("done channels collected per subscriber",BUS+": shutdownNotify"),("context select",BUS+": Shutdown")],["return value and time of Shutdown","the subscriber channels"])
p("E04","Event bus: unsubscribing stops delivery and leaves the others alone",
 "Once an unsubscription has returned, that subscriber's channel is closed, exactly once, and nothing further is delivered to it on any topic it had named. All other subscribers keep receiving every event exactly as before, and the bus can still be shut down. No concurrent publication makes it panic or block forever.",
 ["schedules","histories"],"Any subscriber position and topic set, any number of unsubscriptions, concurrent with publications whose deliveries may be blocked on the departing subscriber.",
 "One unit test removes one of a few subscribers from an idle bus.",
 [BUS],[("removal from every topic under the write lock",BUS+": Unsubscribe")],["the channels of the departed and the remaining subscribers"])

PL="pkg/monny/proc/logs.go"; PO="pkg/monny/proc/logopt.go"
p("L01","Log processor: sinks receive exactly the source lines, in order",
 "The log processor writes every line of every configured source to that source's sinks, complete, in order, unmodified apart from line-ending normalisation, each terminated by one newline, whatever the chunking and speed of source and sink and whatever the length of a line. Standard output goes to standard output and standard error to standard error unless an option says otherwise, and sinks or sources switched off by an option see nothing. A failing or slow sink costs at most the writes that failed.",
 ["inputs","schedules","fault_sequences","configurations"],"Any line contents and lengths, any chunk boundaries, any combination and order of options, slow, failing and torn sink writes, child exit at any point.",
 "Tests run one echo command and compare a few bytes; they never fragment reads, fail a write or use long lines.",
 [PL,PO],[("one scanner goroutine per source",PL+": startLogEmitter"),("sink filtering per source",PL+": NewLogProcessor")],["bytes written to the sinks"])
p("L02","Log processor: one event per line, and Wait means everything was processed",
 "Every source line yields exactly one log event on the log topic carrying that line's exact bytes and a timestamp no earlier than when the line was written, and every sink or read failure yields an error event on the error topic. Waiting on the processor returns nil only after every line of every source has been echoed and published, and otherwise returns an error by the time its context ends; the sinks are closed when it returns. An event handed to a subscriber keeps the line it was published with, whatever is read afterwards.",
 ["schedules","inputs","fault_sequences"],"Any source sizes and timings, subscribers that lag, waits that start before, during or after the sources end, contexts ending at any moment, sink and source faults at any write or read.",
 "Tests publish a handful of lines and wait once with everything already idle.",
 [PL,"pkg/monny/proc/errors.go","pkg/eventbus/event.go"],[("wait group over sources",PL+": Wait"),("event encoded before the scanner buffer is reused",PL+": startLogEmitter"),("error events",PL+": newError")],["events received by subscribers of the log and error topics","return of Wait"])
p("L03","Log history queue is a linearizable bounded FIFO",
 "A log history of capacity n behaves, under any concurrent use, as one atomic first-in first-out list that keeps exactly the n most recent entries, for every n including zero. A copy is a consistent snapshot that later additions do not change, and clearing empties it and leaves it usable. The history a log processor keeps of each of its sources is, once everything has been processed, exactly the last lines of that source, as many as configured (thirty unless an option says otherwise, wherever among the options it stands).",
 ["schedules","histories","configurations"],"All interleavings of adds, copies and clears from several tasks, every capacity from 0 up.",
 "One sequential test with one capacity.",
 ["pkg/monny/proc/queue.go","pkg/monny/proc/logs.go","pkg/monny/proc/logopt.go"],[("mutex around each operation","pkg/monny/proc/queue.go")],["Queue.Copy"])
p("T01","Ticker: emits at its period while the bus lives and stops at shutdown",
 "A ticker started on a bus publishes events of its configured type at its configured period, never more often and, as long as its task gets to run, without gaps, until the bus is shut down. On shutdown it reports itself finished, stops publishing and uses no further resources, and a bus whose only remaining subscribers are tickers shuts down cleanly. A period of zero starts nothing.",
 ["schedules","histories","fault_sequences"],"Any period, any number of tickers and other subscribers, shutdown at any moment, wall-clock jumps.",
 "The test waits for a couple of real ticks and shuts down once, and does not look at what the ticker does afterwards.",
 ["pkg/monny/proc/ticker.go"],[("subscribe, select on bus channel and timer","pkg/monny/proc/ticker.go")],["events on the bus","return of Shutdown"])

p("M01","Concurrent counter is linearizable",
 "A concurrent counter used from any number of tasks behaves as one atomic counter: every value read is the sum of the additions since the last reset in some order of operations consistent with when they ran. No addition is lost or counted twice.",
 ["schedules","histories"],"All interleavings of add, value and reset.",
 "No test uses the concurrent counter from more than one goroutine.",
 ["pkg/metric/counter.go"],[("read-write mutex","pkg/metric/counter.go: ConcurrentCounter")],["Value"])
p("M02","Windowed counters: each count lands in the window it was made in",
 "A windowed counter reports the count of the current window only, opens a new window with the first addition after the previous one has elapsed, and reports zero once the current window has elapsed; every addition is counted in exactly one window. The history lists the closed windows, oldest first, with their start, duration and count, bounded by the configured number or age, and a history once returned never changes. A counter without windowing is a plain counter, and the concurrent form behaves as one atomic object under any interleaving.",
 ["schedules","histories","configurations"],"Any window length, history limits, addition and read times, interleavings of several tasks, resets at any point.",
 "Tests add a few values around real sleeps with one goroutine and never keep a returned history.",
 ["pkg/metric/counter.go"],[("window rotation in Add","pkg/metric/counter.go: WindowedCounter.Add"),("history filter","pkg/metric/counter.go: newHistory")],["Value, History, HistoryInclusive"])
p("M03","Sampled series: every observation is in exactly one sample",
 "A sampled series adds one value per sample window, the configured transform of exactly the observations recorded in that window (zero for an empty one), so that no observation is lost, counted twice or attributed to two windows, however recorders, readers and resets interleave. It keeps the most recent samples up to its capacity, oldest first, without a sample window it records directly, and a returned list of values never changes. Stopping it ends its sampling for good and returns.",
 ["schedules","histories","configurations"],"Any capacity, window and transform, any number of recording and reading tasks, stop and reset at any moment.",
 "One test records from one goroutine around a real ticker.",
 ["pkg/metric/sampled.go","pkg/metric/series.go"],[("mutex shared by recorder and sampler","pkg/metric/sampled.go"),("ring buffer","pkg/metric/series.go")],["Values, Count"])
p("D01","Change detector: lifecycle, baseline and alarm are consistent",
 "A change detector collects its full baseline before testing, goes on collecting while the baseline has no spread to derive a limit from, alarms exactly when its smoothed statistic reaches the control limit derived from that baseline, and stays alarmed until it is moved on explicitly; each observation counts once. Only the documented transitions between its phases can be made, a refused one changes nothing, and observations it cannot use are refused without changing it. A reset restarts it from a fresh baseline.",
 ["histories","inputs","configurations"],"Any sequence of observations, explicit transitions (with or without discarding the series) and resets, for log-normal and windowed Poisson tests, with the sampling timer firing at any point between observations.",
 "Tests drive one happy path of each test with fixed seeds.",
 ["pkg/stat/estimator.go","pkg/stat/stattest.go","pkg/stat/pdf.go","pkg/fsm/fsm.go"],[("state machine per statistic","pkg/stat/state.go"),("record switch","pkg/stat/estimator.go: Record")],["State, HasAlarmed, Value, Limit"])
p("F01","Nonce-protected transitions: each nonce authorises at most one transition",
 "A transition of a nonce-protected state machine succeeds only if it is an allowed one and presents the current nonce, and every nonce ever issued is accepted at most once: after any attempt, successful or refused, the presented nonce no longer works. Refused attempts never change the state, a stoppable machine refuses everything after its first refusal until it is reset, and this also holds when the source of random nonces fails.",
 ["histories","inputs","fault_sequences"],"Any sequence of transition attempts with current, stale, wrong or empty nonces, resets, and failures of the entropy source at any draw.",
 "Tests use three attempts and a working entropy source.",
 ["pkg/fsm/nonce.go","pkg/fsm/fsm.go"],[("nonce guard","pkg/fsm/nonce.go"),("stop guard","pkg/fsm/options.go")],["Transition, Nonce, State"])

CM="pkg/monny/command.go"; HD="pkg/monny/handlers.go"; RP="pkg/monny/report.go"
M=[CM,HD,RP]
p("C01","Wrapped command's output passes through complete and in order",
 "Everything the monitored command writes to standard output and standard error appears on monny's own standard output and standard error respectively: every line, complete, in order, with nothing added, for any line length, chunking, timing and exit order, provided the command ends by itself. A failed or slow write to monny's own output loses at most that write and never stops the rest.",
 ["inputs","schedules","fault_sequences"],"Any output of the command on both streams, any pipe chunking, any interleaving of the reader tasks with process exit, slow or failing output.",
 "The tests run a shell echo and look at a few lines; end-of-process races, long lines, split reads and failing output never occur.",
 [CM],[("two scanner goroutines, process reaped after both end",CM+": Exec")],["bytes on monny's stdout and stderr"])
p("C02","The outcome report tells the truth about how the command ended",
 "When the monitored command ends by itself exactly one outcome is reported: success if and only if it exited with status zero, otherwise failure with its true exit code; a success report is sent only if success notifications are on, a failure report only if failure notifications are on. The report carries the run's identity and configuration, the command line, its true start, finish and duration, and the output history as of the end. Nothing about a kill is reported for a command that ended by itself.",
 ["inputs","schedules","configurations","fault_sequences"],"Any exit status or fatal signal, any output, timing and configuration, any delivery faults on the reporting network.",
 "Handler tests feed hand-made states to one handler at a time and mock the sender.",
 M,[("Finished handler",HD+": Finished"),("report snapshot",RP+": reportFromCommand")],["reports received by the server"])
p("C03","Kill and warning timeouts fire once, on time, and only when exceeded",
 "A command still running when the kill timeout elapses is killed then and reported as killed for timeout, with a duration that is at least the timeout; one that ends sooner is neither killed nor reported as such. A command still running when the warning timeout elapses gets exactly one time warning report and is otherwise undisturbed, and one that ends sooner gets none. A command counts as running until its output, too, has been read to its end; neither wall-clock changes nor slow output delay either timeout.",
 ["schedules","configurations","fault_sequences"],"Any run time relative to the two timeouts, any output load, any delivery faults, clock jumps, slow output.",
 "Handler tests call the timeout handlers directly; no test lets a timeout race with output, exit and delivery.",
 [CM,HD],[("timer channels in the main select",CM+": Exec"),("Timeout and TimeWarning handlers",HD)],["signals the command receives","reports received by the server"])
p("C04","Memory limits: warn once, kill at the limit, report the true maximum",
 "A command whose memory is sampled at or above the kill limit is killed and reported as killed for memory; one sampled at or above the warning limit yields exactly one memory warning report and goes on; below the limits neither happens. The reported maximum is the largest memory seen by sampling, and sampling happens about every second (every thirty for daemons). Failing or racing memory readings never cause a kill or a warning.",
 ["schedules","inputs","configurations","fault_sequences"],"Any memory profile over time, any limits, exit racing with sampling, unreadable process accounting.",
 "Handler tests call one check against a real process with fixed memory.",
 [CM,HD,"pkg/monny/memory.go"],[("ticker in the main select",CM+": Exec"),("CheckMemory and KillOnHighMemory",HD)],["signals the command receives","reports received by the server"])
p("C05","Alert rules: every match on either stream is reported at least once",
 "Every output line, on either stream, of a command that monny neither kills nor passes a signal to, that matches an alert rule is included as a match, once for each rule it matches and saying where it matches, in at least one alert report delivered to the server, provided the server becomes reachable within the retry period; matches are never lost because an earlier alert was being delivered meanwhile, and those of an alert that could not be delivered are in the next one. Lines that match no rule are never reported as matches, no alert is sent when nothing matched, and a match once acknowledged is not carried again in alerts created afterwards. With an alert quantity set, an alert is sent if and only if at least that many unreported matches lie within the configured period.",
 ["inputs","schedules","configurations","fault_sequences"],"Any placement and timing of matching lines over both streams, any rules, quantity and period, any delivery delay, loss and duplication.",
 "Tests match single lines and never have two matches, or a match and a delivery, in flight at once.",
 M,[("match list and asynchronous alert send",CM+": processStdout/processStderr"),("clearing on acknowledgement",RP+": Send"),("rate calculation",RP+": calcAlertRate")],["alert reports received by the server"])
p("C06","Reports due are retried to delivery, and monny exits only then",
 "Every report that is due is delivered at least once if the server becomes reachable within an hour of its creation, through refused connections, lost requests, lost acknowledgements, negative acknowledgements, error answers and outages, and monny does not exit before every due report has been acknowledged or has used up its retry hour (alerts on output that is read only after monny killed the command or passed a signal on to it excepted). If the server stays unreachable or hangs, monny still exits within about that hour after the command ends. Report kinds the user switched off are never sent, nor a report that nothing calls for, and a report is sent only to the configured host, encrypted unless the user said otherwise; nothing of the command's output goes to the error reporting service.",
 ["fault_sequences","schedules","configurations"],"Any outage and fault sequence on the network, any set of reports created at any time, any configuration of host, port, encryption and suppressed kinds.",
 "Tests mock the sender or use an always-up in-process server; retry, timeout and exit ordering are never exercised.",
 [RP,CM,"cmd/monny/main.go"],[("exponential backoff until acknowledged",RP+": sendBackground"),("one hour timeout",RP+": Send"),("wait before exit","cmd/monny/main.go")],["reports received by the server","time of monny's exit"])
p("C07","Report history is exactly the last N lines of each stream",
 "The output history in a report is, for each stream, the most recent lines that stream had produced when the report was created, in order, complete, and at most as many as configured: exactly the last N when at least N were produced, all of them when fewer. This holds for every configured N, including zero, and for reports created in the middle of the output.",
 ["inputs","schedules","configurations"],"Any number of lines on each stream, any N, reports of every kind created at any point of the output.",
 "Tests check one report after a handful of lines with the default history.",
 [CM,RP],[("bounded append",CM+": processStdout/processStderr"),("snapshot under lock",RP+": Send")],["stdout and stderr in reports received by the server"])
p("C08","Monitoring never harms the monitored command, nor crashes or hangs",
 "Whatever goes wrong around the monitoring - output that cannot be written, an unreachable or misbehaving report server, unreadable standard input or process accounting, a missing host name, a command that cannot be started - monny itself neither crashes nor hangs, and the command runs to its own end, undisturbed, with its full input and output. A command that cannot be started, or an invalid configuration, ends monny with an error exit.",
 ["fault_sequences","schedules","configurations"],"Any combination of injected faults at any point of the run.",
 "Every error path of the monitor is untested: the tests inject no fault.",
 M+["pkg/monny/error.go","cmd/monny/main.go"],[("errors go to the error reporter and monitoring goes on",CM+": Exec")],["monny's exit","the command's recorded run"])
p("C09","Piped standard input reaches the command, and its end never blocks exit",
 "When monny stands in a pipeline, the command receives exactly the bytes piped in, in order, followed by end of file; otherwise its input ends at once. monny finishes when the command has ended, also when the command stops reading early or the upstream of the pipeline stays open.",
 ["inputs","schedules","fault_sequences"],"Any input size and chunking, any reading behaviour of the command, any relative order of upstream close and command exit.",
 "No test pipes anything in.",
 [CM],[("copy goroutine when stdin is a pipe",CM+": Exec")],["bytes read by the command","time of monny's exit"])
p("C10","Expected files: every missing one is reported, none that exists",
 "For each file the command is expected to create, monny looks after the command has ended: if it is missing, a report that names it as not created and does not mark the run successful is delivered, even when outcome notifications are off; no such report is made for one that exists. A file that cannot be examined is neither. What a report says about files that were created is true of them.",
 ["configurations","schedules","fault_sequences"],"Any number and mix of present, missing, removed and unreadable files, created at any time up to the end of the command, any delivery faults.",
 "One handler test with one missing file.",
 [HD],[("check on completion",HD+": handleFileCreation")],["reports received by the server"])
p("C11","Signals reach the command and are reported",
 "An interrupt sent to monny while the command runs is passed on to the command, and one kill report saying a signal caused it is delivered before monny exits. An interrupt that arrives around the command's own end never makes monny crash or hang, and whatever it then reports is either the signal or the command's own outcome, never both and never neither.",
 ["schedules","fault_sequences"],"A signal at any moment of the run, including start-up and end, any command reaction (dies, ignores, cleans up), any delivery faults.",
 "Handler tests call the signal handler directly.",
 [CM,HD],[("signal channel in the main select",CM+": Exec"),("Signal handler",HD+": Signal")],["signals the command receives","reports received by the server"])
p("C12","Settings take effect as written, wherever they are written",
 "Every setting given on the command line or in the configuration file takes effect exactly as written, whichever of the two it is in and in whatever order the entries of the file are processed: rules and expected files all count, once each; of a setting given twice the later one on the command line counts, with the file in the place of its -c; a switch set to false stays off. An invalid setting, an unknown one or an unreadable file ends monny with an error before the command is started. What follows the separator is the user's command, verbatim.",
 ["inputs","schedules","configurations","fault_sequences"],"Any settings spread over flags and a file in any order, any order in which the file's entries are met (Go's random map iteration), unreadable files, invalid values.",
 "The tests parse one setting at a time, so neither the combination of lists, nor the random order of the file's entries, nor a false switch ever matters.",
 ["pkg/monny/parse.go","pkg/monny/config.go","cmd/monny/main.go"],[("pflag callbacks and iteration over the YAML map","pkg/monny/parse.go: parse, parseFromFile"),("functional options","pkg/monny/config.go")],["configuration carried by reports","address and encryption of reports","the command that is run"])
# pure
p("N02","JSON rules match exactly the selected field",
 "A rule on a JSON field matches a line if and only if it is a JSON object whose field at that path, rendered as text, matches the expression; a line without it, however malformed, counts as having an empty text there.",
 ["inputs"],"All lines, field paths and expressions.","The tests sample a few documents.",
 [CM],[("recursive field lookup",CM+": extractTextFromJSON")],["alert reports"])
p("N03","Metric names survive a round trip",
 "A metric name with any metadata, written out and read back, is the same name with the same metadata.",
 ["inputs"],"All names and metadata.","The tests sample a few names.",
 ["pkg/metric/name.go"],[("text form","pkg/metric/name.go")],["Name"])
p("N04","Detectors keep their configured false alarm rate",
 "The fraction of false alarms of a default detector on a stationary process stays close to the configured error rate over long runs.",
 ["inputs"],"All stationary inputs of the stated distribution.","A statistical statement over infinitely many samples.",
 ["pkg/stat/k.go","pkg/stat/kconst_gen.go"],[("fitted constants","pkg/stat/kconst_gen.go")],["HasAlarmed"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s)
    assert len(x["title"])<=80,x["title"]
    print(x["id"],len(x["title"]), x["statement"].count(". ")+1)
