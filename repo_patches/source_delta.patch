From 8074a0d35a3a19d4fc589830e6c649870053f42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:14 +0000
Subject: [PATCH 01/38] fix: eventbus: close a subscriber's channel only once

A subscriber of several topics had its channel closed once per topic by
Unsubscribe and Shutdown, and neither the deferred nor the inline recover()
caught the resulting panic.
---
 pkg/eventbus/bus.go | 42 ++++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/pkg/eventbus/bus.go b/pkg/eventbus/bus.go
index 3f0ac1a..84ba1f1 100644
--- a/pkg/eventbus/bus.go
+++ b/pkg/eventbus/bus.go
@@ -96,22 +96,39 @@ func (e *EventBus) Unsubscribe(c chan Event, done chan struct{}) {
 	defer e.mutex.Unlock()
 
 	for topic, chs := range e.subscribers {
-		for i, ch := range chs {
+		remaining := make([]chan Event, 0, len(chs))
+		for _, ch := range chs {
 			if ch == c {
-				close(ch)
-				recover()
-				e.subscribers[topic] = append(e.subscribers[topic][0:i], e.subscribers[topic][i+1:]...)
+				closeEvents(ch)
+				continue
 			}
+			remaining = append(remaining, ch)
 		}
+		e.subscribers[topic] = remaining
 	}
 
-	for i, d := range e.done {
+	waiting := make([]chan struct{}, 0, len(e.done))
+	for _, d := range e.done {
 		if d == done {
-			close(d)
-			recover()
-			e.done = append(e.done[0:i], e.done[i+1:]...)
+			closeDone(d)
+			continue
 		}
+		waiting = append(waiting, d)
 	}
+	e.done = waiting
+}
+
+// closeEvents closes an event channel that may be closed already, either because the subscriber is registered for
+// several topics or because it closed the channel itself
+func closeEvents(c chan Event) {
+	defer func() { recover() }()
+	close(c)
+}
+
+// closeDone closes a done channel that the subscriber may have closed already
+func closeDone(d chan struct{}) {
+	defer func() { recover() }()
+	close(d)
 }
 
 // Dispatch will send the event to 0 or more topics.  All events are broadcast to default topic subscribers, even when
@@ -154,7 +171,7 @@ func (e *EventBus) Dispatch(event Event, topics ...Topic) {
 					if e.sdStarted {
 						return
 					}
-					defer recover()
+					defer func() { recover() }()
 					c <- evt
 				}(event, ch)
 			}
@@ -176,12 +193,9 @@ func (e *EventBus) Shutdown(ctx context.Context) error {
 
 	for _, chs := range e.subscribers {
 		for _, ch := range chs {
-			// close all subscriber channels to signal shutdown, recover above in case
+			// close all subscriber channels to signal shutdown, even in case
 			// one of the channels is closed improperly by subscriber which would cause a panic
-			close(ch)
-			if r := recover(); r != nil {
-				continue
-			}
+			closeEvents(ch)
 		}
 	}
 
-- 
2.43.0


From 535d4bcf2b066a34fccaffe792bd06bc26616881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 02/38] fix: eventbus: do not hold the lock while a delivery or
 shutdown waits

A delivery blocked on a slow subscriber held the read lock, so the next
Subscribe, Unsubscribe or Shutdown and with it every later Dispatch blocked
too, and Shutdown ignored its context. Shutdown itself held the write lock
while waiting, which blocked subscribers publishing during their cleanup, and
a subscriber arriving during shutdown never had its channel closed.
---
 pkg/eventbus/bus.go | 47 +++++++++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/pkg/eventbus/bus.go b/pkg/eventbus/bus.go
index 84ba1f1..dba3ba1 100644
--- a/pkg/eventbus/bus.go
+++ b/pkg/eventbus/bus.go
@@ -27,6 +27,8 @@ type EventBus struct {
 	done        []chan struct{}
 	mutex       sync.RWMutex
 	sdStarted   bool
+	closing     chan struct{}  // closed when shutdown starts
+	pending     sync.WaitGroup // deliveries in progress
 }
 
 // New returns a new event bus.  A default topic is created, but subscribers may create other topics
@@ -34,6 +36,7 @@ type EventBus struct {
 func New() *EventBus {
 	return &EventBus{
 		subscribers: make(map[Topic][]chan Event),
+		closing:     make(chan struct{}),
 	}
 }
 
@@ -71,6 +74,11 @@ func (e *EventBus) subscribe(topics ...Topic) (chan Event, chan struct{}) {
 
 	c := make(chan Event, 1)
 	done := make(chan struct{})
+	// nobody will close the channel of a subscriber that arrives after shutdown started
+	if e.sdStarted {
+		close(c)
+		return c, done
+	}
 	e.done = append(e.done, done)
 
 	// subscribe to the default topic if no topics defined
@@ -162,17 +170,23 @@ func (e *EventBus) Dispatch(event Event, topics ...Topic) {
 				// blocks because channel buffer is full it won't prevent other subscribers
 				// from receiving the event
 
-				// this will pessimistically lock the send channel in case the event bus is behind in sending
-				// events and shutdown has started.  Events will be silently dropped if shutdown is called and there
+				// the lock must not be held while the send blocks or a slow subscriber would prevent everyone else
+				// from using the bus.  Events will be silently dropped if shutdown is called and there
 				// are still pending events because subscribers are blocking.
 				go func(evt Event, c chan Event) {
 					e.mutex.RLock()
-					defer e.mutex.RUnlock()
 					if e.sdStarted {
+						e.mutex.RUnlock()
 						return
 					}
+					e.pending.Add(1)
+					e.mutex.RUnlock()
+					defer e.pending.Done()
 					defer func() { recover() }()
-					c <- evt
+					select {
+					case c <- evt:
+					case <-e.closing:
+					}
 				}(event, ch)
 			}
 		}(event, chs)
@@ -184,20 +198,25 @@ func (e *EventBus) Dispatch(event Event, topics ...Topic) {
 // a reasonable time.  Shutdown returns an error if it reaches context timeout or cancel to distinguish from a completely
 // successful shutdown.
 func (e *EventBus) Shutdown(ctx context.Context) error {
-	e.mutex.Lock()
-	defer e.mutex.Unlock()
-	e.sdStarted = true
-
 	done := make(chan struct{})
-	go shutdownNotify(done, append([]chan struct{}{}, e.done...))
 
-	for _, chs := range e.subscribers {
-		for _, ch := range chs {
-			// close all subscriber channels to signal shutdown, even in case
-			// one of the channels is closed improperly by subscriber which would cause a panic
-			closeEvents(ch)
+	e.mutex.Lock()
+	if !e.sdStarted {
+		e.sdStarted = true
+		// give up on blocked deliveries before closing the channels they send on
+		close(e.closing)
+		e.pending.Wait()
+
+		for _, chs := range e.subscribers {
+			for _, ch := range chs {
+				// close all subscriber channels to signal shutdown, even in case
+				// one of the channels is closed improperly by subscriber which would cause a panic
+				closeEvents(ch)
+			}
 		}
 	}
+	go shutdownNotify(done, append([]chan struct{}{}, e.done...))
+	e.mutex.Unlock()
 
 	select {
 	case <-ctx.Done():
-- 
2.43.0


From b5a61970fda8b6af9e931c0504dfe8981e737def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 03/38] fix: eventbus: do not write into the caller's list of
 topics

Dispatch appended the default topic to the caller's variadic slice, so
publishing on a prefix of a longer list replaced the next topic in that list.
---
 pkg/eventbus/bus.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/eventbus/bus.go b/pkg/eventbus/bus.go
index dba3ba1..cec057d 100644
--- a/pkg/eventbus/bus.go
+++ b/pkg/eventbus/bus.go
@@ -151,7 +151,8 @@ func (e *EventBus) Dispatch(event Event, topics ...Topic) {
 	}
 
 	// always send to the defaultTopic even if other topics specified
-	topics = append(topics, defaultTopic)
+	// (on a copy, the caller may still use the array behind its list of topics)
+	topics = append(append([]Topic{}, topics...), defaultTopic)
 
 	for _, topic := range topics {
 		// it no subscribers on the topic, silently drop message.  This is probably the behavior we want since
-- 
2.43.0


From cf9c42dbb63093f501dd4e4ae6decc0c0858b048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:00 +0000
Subject: [PATCH 04/38] fix: metric: windowed counter without a window counts

The value of a windowed counter with zero duration was always zero, and one
instantiated as an empty struct, as documented, dereferenced a nil pointer.
---
 pkg/metric/counter.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pkg/metric/counter.go b/pkg/metric/counter.go
index c9aa9f1..9c3c45b 100644
--- a/pkg/metric/counter.go
+++ b/pkg/metric/counter.go
@@ -71,14 +71,23 @@ type WindowedCounter struct {
 	MaxHistoryDuration time.Duration
 }
 
+// window returns the counter for the most recent window, which is a counter without windowing if the struct was not
+// initialized with NewWindowedCounter
+func (c *WindowedCounter) window() *Counter {
+	if c.current == nil {
+		c.current = &Counter{}
+	}
+	return c.current
+}
+
 // Value returns the current value of the counter in the most recent window
 func (c *WindowedCounter) Value() int {
 	now := time.Now().UTC()
-	end := c.current.start.Add(c.current.duration)
+	end := c.window().start.Add(c.window().duration)
 
 	// check if the current window has closed, if so return 0
 	switch {
-	case now.After(end) && c.current.duration >= 0:
+	case now.After(end) && c.current.duration > 0:
 		return 0
 	default:
 		return c.current.Value()
@@ -88,7 +97,7 @@ func (c *WindowedCounter) Value() int {
 // Add will increment the current counter value within the window by i
 func (c *WindowedCounter) Add(i uint) {
 	now := time.Now().UTC()
-	end := c.current.start.Add(c.current.duration)
+	end := c.window().start.Add(c.window().duration)
 	switch {
 	case now.Before(end) || c.current.duration == 0:
 		c.current.Add(i)
@@ -102,7 +111,7 @@ func (c *WindowedCounter) Add(i uint) {
 // History will return the history of counters not including the current value if the window is still open
 func (c *WindowedCounter) History() []Counter {
 	now := time.Now().UTC()
-	end := c.current.start.Add(c.current.duration)
+	end := c.window().start.Add(c.window().duration)
 	switch {
 	case now.After(end) || c.current.duration == 0:
 		return newHistory(append(c.hist, *c.current), c.MaxHistory, c.MaxHistoryDuration)
@@ -114,7 +123,7 @@ func (c *WindowedCounter) History() []Counter {
 // HistoryInclusive will return the history of all counters, including the current value even if the window
 // is still open on the current counter
 func (c *WindowedCounter) HistoryInclusive() []Counter {
-	return newHistory(append(c.hist, *c.current), c.MaxHistory, c.MaxHistoryDuration)
+	return newHistory(append(c.hist, *c.window()), c.MaxHistory, c.MaxHistoryDuration)
 }
 
 // filters the history based on both MaxHistoryDuration and MaxHistory
@@ -140,7 +149,7 @@ func newHistory(hist []Counter, max int, maxduration time.Duration) []Counter {
 // Reset will clear the current counters history and start a new zero-valued counter with the same window duration
 func (c *WindowedCounter) Reset() {
 	c.hist = []Counter{}
-	c.current = &Counter{start: time.Now().UTC(), duration: c.current.duration}
+	c.current = &Counter{start: time.Now().UTC(), duration: c.window().duration}
 }
 
 // NewWindowedCounter creates a new windowed counter with a window size of duration
-- 
2.43.0


From 3ac7f0aecca87f2cca241f6970f33e53d8884150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 05/38] fix: metric: return a history that does not change
 later

History and HistoryInclusive returned, and appended to, the slice the counter
itself keeps appending to, so a window added later overwrote the last element
of a history handed out earlier.
---
 pkg/metric/counter.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pkg/metric/counter.go b/pkg/metric/counter.go
index 9c3c45b..7df10c6 100644
--- a/pkg/metric/counter.go
+++ b/pkg/metric/counter.go
@@ -102,7 +102,7 @@ func (c *WindowedCounter) Add(i uint) {
 	case now.Before(end) || c.current.duration == 0:
 		c.current.Add(i)
 	default:
-		c.hist = newHistory(append(c.hist, *c.current), c.MaxHistory, c.MaxHistoryDuration)
+		c.hist = newHistory(closedWith(c.hist, *c.current), c.MaxHistory, c.MaxHistoryDuration)
 		c.current = &Counter{start: time.Now().UTC(), duration: c.current.duration}
 		c.current.Add(i)
 	}
@@ -114,7 +114,7 @@ func (c *WindowedCounter) History() []Counter {
 	end := c.window().start.Add(c.window().duration)
 	switch {
 	case now.After(end) || c.current.duration == 0:
-		return newHistory(append(c.hist, *c.current), c.MaxHistory, c.MaxHistoryDuration)
+		return newHistory(closedWith(c.hist, *c.current), c.MaxHistory, c.MaxHistoryDuration)
 	default:
 		return newHistory(c.hist, c.MaxHistory, c.MaxHistoryDuration)
 	}
@@ -123,11 +123,18 @@ func (c *WindowedCounter) History() []Counter {
 // HistoryInclusive will return the history of all counters, including the current value even if the window
 // is still open on the current counter
 func (c *WindowedCounter) HistoryInclusive() []Counter {
-	return newHistory(append(c.hist, *c.window()), c.MaxHistory, c.MaxHistoryDuration)
+	return newHistory(closedWith(c.hist, *c.window()), c.MaxHistory, c.MaxHistoryDuration)
+}
+
+// closedWith returns the history with the most recent counter added, never reusing the array behind the history
+func closedWith(hist []Counter, current Counter) []Counter {
+	return append(hist[:len(hist):len(hist)], current)
 }
 
 // filters the history based on both MaxHistoryDuration and MaxHistory
+// and returns a copy, because the counter goes on using the array behind its own history
 func newHistory(hist []Counter, max int, maxduration time.Duration) []Counter {
+	hist = append([]Counter{}, hist...)
 	if max == 0 && maxduration == 0 {
 		return hist
 	}
-- 
2.43.0


From e22e61af39f5561fcea1927099cb6da7498c8c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:48 +0000
Subject: [PATCH 06/38] fix: proc: popping from the queue returns its head

pop returned the element after the head, so adding to a full queue of
capacity one panicked.
---
 pkg/monny/proc/queue.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/monny/proc/queue.go b/pkg/monny/proc/queue.go
index bd6dcf9..d36a6ee 100644
--- a/pkg/monny/proc/queue.go
+++ b/pkg/monny/proc/queue.go
@@ -25,8 +25,9 @@ func (q *Queue) add(s string) {
 }
 
 func (q *Queue) pop() string {
+	head := q.q[0]
 	q.q = q.q[1:]
-	return q.q[0]
+	return head
 }
 
 // Add puts the string in the queue, popping the head if the queue is already filled to capacity
-- 
2.43.0


From 9d81d69d167f0c2cfa741444409edfd2823aead5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:50 +0000
Subject: [PATCH 07/38] fix: proc: end the ticker when the bus shuts down

After reporting that it had finished, the ticker kept receiving from the
closed channel in a busy loop.
---
 pkg/monny/proc/ticker.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/monny/proc/ticker.go b/pkg/monny/proc/ticker.go
index 2e74597..183314d 100644
--- a/pkg/monny/proc/ticker.go
+++ b/pkg/monny/proc/ticker.go
@@ -22,6 +22,7 @@ func NewTicker(d time.Duration, e *eventbus.EventBus, evt eventbus.EventType) {
 				if !open {
 					t.Stop()
 					finished()
+					return
 				}
 
 			case <-t.C:
-- 
2.43.0


From 38fcb3d8178416d633e2ffda86cb62adbf6c8dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 08/38] fix: fsm: survive a failing source of nonces

When no new nonce could be drawn, a refused transition left the machine
without a nonce, so the next call panicked, and an accepted one reported an
error although the state had changed.
---
 pkg/fsm/nonce.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pkg/fsm/nonce.go b/pkg/fsm/nonce.go
index 8d4041d..37480a0 100644
--- a/pkg/fsm/nonce.go
+++ b/pkg/fsm/nonce.go
@@ -59,17 +59,15 @@ func (m *MachineNonce) Reset() error {
 // value
 func (m *MachineNonce) Transition(to State, nonce []byte) error {
 	m.nonce.received = nonce
-	if err := m.m.transition(to, m.m.stoppable, m.nonce); err != nil {
-		n, _ := newNonce()
-		m.nonce = n
-		return err
-	}
 	n, err := newNonce()
 	if err != nil {
+		// there is no nonce for another transition, so refuse this one and use up the current nonce
+		m.nonce.ok()
 		return err
 	}
+	err = m.m.transition(to, m.m.stoppable, m.nonce)
 	m.nonce = n
-	return nil
+	return err
 }
 
 // Nonce returns the current nonce value
-- 
2.43.0


From a6a4fae7a076b888c93a8da24f6402c951217065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:58 +0000
Subject: [PATCH 09/38] fix: stat: collect a fresh baseline after a reset

Record in the reset state fell through into testing the first observation
against the limit of the old baseline, which either reported a transition error
or changed the statistic.
---
 pkg/stat/estimator.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pkg/stat/estimator.go b/pkg/stat/estimator.go
index a9cce8d..0251f3f 100644
--- a/pkg/stat/estimator.go
+++ b/pkg/stat/estimator.go
@@ -54,7 +54,6 @@ func (e *TestStatistic) Record(o float64) error {
 			// re-record the current observation after reseting the series
 			e.series.Record(o)
 		}
-		fallthrough
 	case TestingUCL:
 		e.calculateCurrent(o)
 		if e.current >= e.limit {
-- 
2.43.0


From a858f46ec5800d9309281781c435018e1b8db837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:06 +0000
Subject: [PATCH 10/38] fix: stat: a refused transition keeps the series

Transition discarded the observations before finding out that the transition
is not allowed.
---
 pkg/stat/estimator.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/stat/estimator.go b/pkg/stat/estimator.go
index 0251f3f..e26209a 100644
--- a/pkg/stat/estimator.go
+++ b/pkg/stat/estimator.go
@@ -122,10 +122,13 @@ func (e *TestStatistic) calculateCurrent(o float64) {
 // Transition will attempt to transition to estimator to the desired state.  Optionally reset the series to
 // force it to collect new baseline observations before entering testing phase
 func (e *TestStatistic) Transition(state fsm.State, resetSeries bool) error {
+	if err := e.fsm.Transition(state); err != nil {
+		return err
+	}
 	if resetSeries {
 		e.series.Reset()
 	}
-	return e.fsm.Transition(state)
+	return nil
 }
 
 // calculateLimit will determine the UCL or LCL limit (UCL => direction +1, LCL => direction -1)
-- 
2.43.0


From f2fd94c7e1143056e496c8679ab8101837c74166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:34 +0000
Subject: [PATCH 11/38] fix: proc: read lines of any length and report read
 failures

---
 pkg/monny/proc/logs.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/monny/proc/logs.go b/pkg/monny/proc/logs.go
index b971844..1681db8 100644
--- a/pkg/monny/proc/logs.go
+++ b/pkg/monny/proc/logs.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"context"
 	"fmt"
+	"math"
 	"sort"
 	"sync"
 	"time"
@@ -73,6 +74,8 @@ func startLogEmitter(bus eventbus.EventDispatcher, src source, sinks []sink, don
 		defer done()
 	}
 	scanner := bufio.NewScanner(src.in)
+	// lines may be longer than the scanner's default limit, at which it stops for good
+	scanner.Buffer(nil, math.MaxInt32)
 	for scanner.Scan() {
 		data := scanner.Bytes()
 		src.q.Add(string(data))
@@ -93,6 +96,9 @@ func startLogEmitter(bus eventbus.EventDispatcher, src source, sinks []sink, don
 			}
 		}
 	}
+	if err := scanner.Err(); err != nil {
+		newError(bus, ScanError{fmt.Errorf("error reading from source %s: %v", src.name, err)})
+	}
 }
 
 // Wait will wait for all log sources to finish processing.  Context can can
-- 
2.43.0


From 3886bdd15b7b813609fa9e2f9e4f82b1cc3110a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:35 +0000
Subject: [PATCH 12/38] fix: monny: give a command its error reporter

New left Command.errors nil, so the first report that could not be sent, or
the first failing write to standard output, crashed monny and left the
monitored command without its reader.
---
 pkg/monny/command.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 35c649a..8b9e86b 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -82,8 +82,9 @@ func New(usercmd []string, options ...ConfigOption) (*Command, []error) {
 				errors: errorService{},
 			},
 		},
-		out: cfg.out,
-		err: cfg.err,
+		errors: errorService{},
+		out:    cfg.out,
+		err:    cfg.err,
 	}, nil
 }
 
-- 
2.43.0


From c858a2a0b76517713c449c329d800eddc8638e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 13/38] fix: monny: pass on lines of any length

A line longer than the scanner's 64 KiB stopped the copying of its stream: the
rest of the output was lost and a command that kept writing hung for ever.
---
 pkg/monny/command.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 8b9e86b..b6b9591 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"os/exec"
 	"os/signal"
@@ -124,6 +125,9 @@ func (c *Command) Exec() error {
 	}
 	stdoutScanner := bufio.NewScanner(stdoutReader)
 	stderrScanner := bufio.NewScanner(stderrReader)
+	// lines may be of any length
+	stdoutScanner.Buffer(nil, math.MaxInt32)
+	stderrScanner.Buffer(nil, math.MaxInt32)
 
 	c.Start = time.Now()
 	if err := cmd.Start(); err != nil {
@@ -157,6 +161,9 @@ func (c *Command) Exec() error {
 			c.out.Write([]byte{'\n'})
 			c.processStdout(stdoutScanner.Bytes())
 		}
+		if err := stdoutScanner.Err(); err != nil {
+			c.errors.ReportError(fmt.Errorf("error reading stdout: %+v", err))
+		}
 	}()
 	go func() {
 		defer wg.Done()
@@ -167,6 +174,9 @@ func (c *Command) Exec() error {
 			c.err.Write([]byte{'\n'})
 			c.processStderr(stderrScanner.Bytes())
 		}
+		if err := stderrScanner.Err(); err != nil {
+			c.errors.ReportError(fmt.Errorf("error reading stderr: %+v", err))
+		}
 	}()
 
 	runFinished := make(chan bool, 1)
-- 
2.43.0


From 9330e571a106e25c50e4b8a954e988c041d971dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:39 +0000
Subject: [PATCH 14/38] fix: monny: survive a standard input that cannot be
 examined

The file info of a failed Stat is nil; using it crashed monny.
---
 pkg/monny/command.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index b6b9591..4254325 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -144,6 +144,7 @@ func (c *Command) Exec() error {
 		fi, err := os.Stdin.Stat()
 		if err != nil {
 			c.errors.ReportError(fmt.Errorf("failed to get stdin properties: %+v", err))
+			return
 		}
 		if fi.Mode()&os.ModeNamedPipe != 0 {
 			_, err := io.Copy(stdinWriter, os.Stdin)
-- 
2.43.0


From 2a9e765d4937ef1f4104f34da14c1854704b9bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:15 +0000
Subject: [PATCH 15/38] fix: monny: keep exactly the configured lines of
 history

Once full the history dropped two lines for each new one, so it held one line
less than configured, and histories of 0 and 1 lines crashed monny.
---
 pkg/monny/command.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 4254325..8f9530e 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -304,6 +304,18 @@ func extractTextFromJSON(raw []byte, field string) []byte {
 	}
 }
 
+// lastLines limits the history of an output stream to its last n lines
+func lastLines(lines []string, n int) []string {
+	switch {
+	case n <= 0:
+		return nil
+	case len(lines) > n:
+		return lines[len(lines)-n:]
+	default:
+		return lines
+	}
+}
+
 func (c *Command) processStdout(line []byte) {
 	matches := checkRule(line, c.Config.Rules)
 	c.mutex.Lock()
@@ -317,14 +329,8 @@ func (c *Command) processStdout(line []byte) {
 			go c.report.Send(c, proto.Alert)
 		}
 	}
-	history := len(c.Stdout)
 	c.mutex.Lock()
-	switch {
-	case history >= c.Config.StdoutHistory:
-		c.Stdout = append(c.Stdout[2:], string(line))
-	default:
-		c.Stdout = append(c.Stdout, string(line))
-	}
+	c.Stdout = lastLines(append(c.Stdout, string(line)), c.Config.StdoutHistory)
 	c.mutex.Unlock()
 	return
 }
@@ -342,14 +348,8 @@ func (c *Command) processStderr(line []byte) {
 			go c.report.Send(c, proto.Alert)
 		}
 	}
-	history := len(c.Stderr)
 	c.mutex.Lock()
-	switch {
-	case history >= c.Config.StderrHistory:
-		c.Stderr = append(c.Stderr[2:], string(line))
-	default:
-		c.Stderr = append(c.Stderr, string(line))
-	}
+	c.Stderr = lastLines(append(c.Stderr, string(line)), c.Config.StderrHistory)
 	c.mutex.Unlock()
 	return
 }
-- 
2.43.0


From 0f98e469df6e9e8309caa6af35097b18bdcf7c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:19 +0000
Subject: [PATCH 16/38] fix: monny: alert on a line that matches, not on every
 line after it

Every line after a match, until the alert was acknowledged, caused one more
alert; it also read the matches without the lock.
---
 pkg/monny/command.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 8f9530e..20f4e9b 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -321,7 +321,7 @@ func (c *Command) processStdout(line []byte) {
 	c.mutex.Lock()
 	c.RuleMatches = append(c.RuleMatches, matches...)
 	c.mutex.Unlock()
-	if len(c.RuleMatches) > 0 {
+	if len(matches) > 0 {
 		switch {
 		case c.Config.RuleQuantity > 0:
 			go c.report.Send(c, proto.AlertRate)
@@ -340,7 +340,7 @@ func (c *Command) processStderr(line []byte) {
 	c.mutex.Lock()
 	c.RuleMatches = append(c.RuleMatches, matches...)
 	c.mutex.Unlock()
-	if len(c.RuleMatches) > 0 {
+	if len(matches) > 0 {
 		switch {
 		case c.Config.RuleQuantity > 0:
 			go c.report.Send(c, proto.AlertRate)
-- 
2.43.0


From e3345c48f2557c72d6ae5633396e25195ad49e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:23 +0000
Subject: [PATCH 17/38] fix: monny: send the memory and time warnings

The handlers note that a warning was sent just before they send it, and the
sender took that note to mean that there was nothing left to send: no warning
was ever sent. The handlers already make sure there is only one.
---
 pkg/monny/report.go | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/pkg/monny/report.go b/pkg/monny/report.go
index 39e5fc9..f13d4be 100644
--- a/pkg/monny/report.go
+++ b/pkg/monny/report.go
@@ -89,7 +89,7 @@ func (r *Report) Send(c *Command, reason proto.ReportReason) {
 			closeChannels()
 			return
 		}
-	case proto.FileNotCreated, proto.Killed:
+	case proto.FileNotCreated, proto.Killed, proto.MemoryWarning, proto.TimeWarning:
 		go r.sender.sendBackground(pb, result, cancel)
 	case proto.Alert:
 		go r.sender.sendBackground(pb, result, cancel)
@@ -109,18 +109,6 @@ func (r *Report) Send(c *Command, reason proto.ReportReason) {
 			closeChannels()
 			return
 		}
-	case proto.MemoryWarning:
-		if c.memWarnSent {
-			closeChannels()
-			return
-		}
-		go r.sender.sendBackground(pb, result, cancel)
-	case proto.TimeWarning:
-		if c.timeWarnSent {
-			closeChannels()
-			return
-		}
-		go r.sender.sendBackground(pb, result, cancel)
 	case proto.Start:
 		if c.Config.Daemon {
 			go r.sender.sendBackground(pb, result, cancel)
-- 
2.43.0


From 560e97c948c53e9dee474e2ed4b8df0f159de85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:27 +0000
Subject: [PATCH 18/38] fix: monny: report a positive duration for a command
 killed by timeout

---
 pkg/monny/handlers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/monny/handlers.go b/pkg/monny/handlers.go
index 9ecb99f..e32cd6f 100644
--- a/pkg/monny/handlers.go
+++ b/pkg/monny/handlers.go
@@ -81,7 +81,7 @@ func (h handler) Timeout(c *Command, cmd *exec.Cmd) error {
 	c.Killed = true
 	c.KillReason = proto.Timeout
 	c.Finish = time.Now()
-	c.Duration = c.Start.Sub(c.Finish)
+	c.Duration = c.Finish.Sub(c.Start)
 	c.ReportReason = proto.Killed
 	c.mutex.Unlock()
 
-- 
2.43.0


From 3d1fe00c1e0688ce326a4affa682c582309884f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:31 +0000
Subject: [PATCH 19/38] fix: monny: name the default report host without a
 scheme

The constant is joined with the port into the address to dial, and
https://report.lmkwtf.com cannot be resolved: without --host no report ever
arrived.
---
 pkg/monny/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/monny/config.go b/pkg/monny/config.go
index 2b35c30..e413ca7 100644
--- a/pkg/monny/config.go
+++ b/pkg/monny/config.go
@@ -11,7 +11,7 @@ import (
 	"time"
 )
 
-const api string = "https://report.lmkwtf.com"
+const api string = "report.lmkwtf.com"
 const port string = "443"
 
 // Config stores configuration data for the monitoring service.  Functional options are
-- 
2.43.0


From cefb749462de64f75c86a90447fc94885fae0d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:35 +0000
Subject: [PATCH 20/38] fix: monny: read numbers in JSON arrays

Any number in an array that a JSON rule looks at crashed monny.
---
 pkg/monny/command.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 20f4e9b..c7a8a70 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -289,9 +289,9 @@ func extractTextFromJSON(raw []byte, field string) []byte {
 				case string:
 					out = append(out, val.(string))
 				case float32:
-					out = append(out, fmt.Sprintf("%f", value.(float32)))
+					out = append(out, fmt.Sprintf("%f", val.(float32)))
 				case float64:
-					out = append(out, fmt.Sprintf("%f", value.(float64)))
+					out = append(out, fmt.Sprintf("%f", val.(float64)))
 				case bool:
 					out = append(out, fmt.Sprintf("%v", val.(bool)))
 				default:
-- 
2.43.0


From dc973dc7a24c7d002c0392bc80bb245d459ff35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:57 +0000
Subject: [PATCH 21/38] fix: monny: send reports of output that is not UTF-8

A protobuf string has to be UTF-8. One stray byte in the history, the command
line or a file name made every attempt to send the report fail.
---
 pkg/monny/report.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/pkg/monny/report.go b/pkg/monny/report.go
index f13d4be..fb13013 100644
--- a/pkg/monny/report.go
+++ b/pkg/monny/report.go
@@ -211,10 +211,10 @@ func calcAlertRate(matches []RuleMatch, quantity int, period time.Duration) bool
 // schema on the backend
 func reportFromCommand(c *Command, reason proto.ReportReason, onError func(e error)) *pb.Report {
 	return &pb.Report{
-		Id:            c.Config.ID,
-		Hostname:      c.Config.Hostname,
-		Stdout:        c.Stdout,
-		Stderr:        c.Stderr,
+		Id:            validUTF8(c.Config.ID),
+		Hostname:      validUTF8(c.Config.Hostname),
+		Stdout:        validLines(c.Stdout),
+		Stderr:        validLines(c.Stderr),
 		Success:       c.Success,
 		MaxMemory:     c.MaxMemory,
 		Killed:        c.Killed,
@@ -226,14 +226,28 @@ func reportFromCommand(c *Command, reason proto.ReportReason, onError func(e err
 		Duration:      c.Duration.String(),
 		ExitCode:      c.ExitCode,
 		ExitCodeValid: c.ExitCodeValid,
-		Messages:      c.Messages,
+		Messages:      validLines(c.Messages),
 		Matches:       marshalMatches(c.RuleMatches, onError),
-		UserCommand:   strings.Join(c.UserCommand, " "),
+		UserCommand:   validUTF8(strings.Join(c.UserCommand, " ")),
 		Config:        marshalConfig(c.Config, onError),
 		CreatedAt:     time.Now().Unix(),
 	}
 }
 
+// validUTF8 replaces what is not UTF-8, because a report with an invalid string
+// can not be encoded and would never be sent
+func validUTF8(s string) string {
+	return strings.ToValidUTF8(s, "\uFFFD")
+}
+
+func validLines(lines []string) []string {
+	var valid []string
+	for _, line := range lines {
+		valid = append(valid, validUTF8(line))
+	}
+	return valid
+}
+
 func marshalMatches(a []RuleMatch, onError func(e error)) []byte {
 	b, err := json.Marshal(a)
 	if err != nil {
-- 
2.43.0


From 608f784e28da135dafc5045fe04203ceb525b133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:00 +0000
Subject: [PATCH 22/38] fix: monny: finish when the command does, not when its
 input ends

In a pipeline whose upstream stays open the end of the command was noticed only
when the upstream closed, or never.
---
 pkg/monny/command.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index c7a8a70..e7cc534 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -136,9 +136,9 @@ func (c *Command) Exec() error {
 	c.pid = os.Getpid()
 
 	var wg sync.WaitGroup
-	wg.Add(3)
+	wg.Add(2)
+	// not waited for, because the end of stdin may come long after the process has finished
 	go func() {
-		defer wg.Done()
 		defer stdinWriter.Close()
 		// determine if a monny is after a previous piped process, copy to forked process stdin if necessary
 		fi, err := os.Stdin.Stat()
-- 
2.43.0


From acaf89dd49de78e6dbec4a3d04d5483de1ba86d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:04 +0000
Subject: [PATCH 23/38] fix: monny: trap signals before the command starts

An interrupt just after the start killed monny, which left the command behind
and nothing reported.
---
 pkg/monny/command.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index e7cc534..5927f02 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -129,8 +129,13 @@ func (c *Command) Exec() error {
 	stdoutScanner.Buffer(nil, math.MaxInt32)
 	stderrScanner.Buffer(nil, math.MaxInt32)
 
+	// signals are trapped before there is a process that one could leave behind
+	signals := make(chan os.Signal, 1)
+	signal.Notify(signals, os.Interrupt, os.Kill)
+
 	c.Start = time.Now()
 	if err := cmd.Start(); err != nil {
+		signal.Stop(signals)
 		return err
 	}
 	c.pid = os.Getpid()
@@ -183,9 +188,7 @@ func (c *Command) Exec() error {
 	runFinished := make(chan bool, 1)
 	timeout := make(<-chan time.Time, 1)
 	timenotify := make(<-chan time.Time, 1)
-	signals := make(chan os.Signal, 1)
 	profileMemory := make(<-chan time.Time, 1)
-	signal.Notify(signals, os.Interrupt, os.Kill)
 
 	if c.Config.KillTimeout > 0 {
 		timeout = time.After(c.Config.KillTimeout)
-- 
2.43.0


From 524726867d2603f76417097aa1dc36a2d334f708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:25 +0000
Subject: [PATCH 24/38] fix: monny: retry a report for its whole hour, and no
 longer

The backoff gave up after 15 minutes. When the hour ended during a call that
was not answered, the call was left waiting, and so was monny; had it returned,
its result would have been sent on a closed channel.
---
 pkg/monny/report.go | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/pkg/monny/report.go b/pkg/monny/report.go
index fb13013..78b0be9 100644
--- a/pkg/monny/report.go
+++ b/pkg/monny/report.go
@@ -68,25 +68,18 @@ func (r *Report) Send(c *Command, reason proto.ReportReason) {
 	cancel := make(chan bool, 1)
 	timeout := time.After(1 * time.Hour)
 
-	closeChannels := func() {
-		close(result)
-		close(cancel)
-	}
-
 	cb := func() { return }
 	switch reason {
 	case proto.Failure:
 		if c.Config.NotifyOnFailure {
 			go r.sender.sendBackground(pb, result, cancel)
 		} else {
-			closeChannels()
 			return
 		}
 	case proto.Success:
 		if c.Config.NotifyOnSuccess {
 			go r.sender.sendBackground(pb, result, cancel)
 		} else {
-			closeChannels()
 			return
 		}
 	case proto.FileNotCreated, proto.Killed, proto.MemoryWarning, proto.TimeWarning:
@@ -106,14 +99,12 @@ func (r *Report) Send(c *Command, reason proto.ReportReason) {
 				return
 			}
 		} else {
-			closeChannels()
 			return
 		}
 	case proto.Start:
 		if c.Config.Daemon {
 			go r.sender.sendBackground(pb, result, cancel)
 		} else {
-			closeChannels()
 			return
 		}
 	default:
@@ -132,7 +123,6 @@ func (r *Report) Send(c *Command, reason proto.ReportReason) {
 		cancel <- true
 		c.errors.ReportError(fmt.Errorf("timeout on background report send: msg=%+v", pb))
 	}
-	closeChannels()
 }
 
 // Wait will cause the process to block until the report is finished sending in the background.
@@ -158,6 +148,18 @@ func (s *senderService) sendBackground(report *pb.Report, result chan error, can
 	}
 	s.wg.Add(1)
 	defer s.wg.Done()
+	// the caller decides when to give up, also on a call that is not answered
+	ctx, stop := context.WithCancel(context.Background())
+	defer stop()
+	go func() {
+		select {
+		case <-cancel:
+			stop()
+		case <-ctx.Done():
+		}
+	}()
+	retry := backoff.NewExponentialBackOff()
+	retry.MaxElapsedTime = 0
 	send := func() error {
 		conn, err := grpc.Dial(net.JoinHostPort(s.host, s.port), s.opts...)
 		if err != nil {
@@ -166,7 +168,7 @@ func (s *senderService) sendBackground(report *pb.Report, result chan error, can
 		defer conn.Close()
 
 		client := pb.NewReportsClient(conn)
-		ack, err := client.Create(context.Background(), report)
+		ack, err := client.Create(ctx, report)
 		if err != nil {
 			return err
 		}
@@ -175,10 +177,7 @@ func (s *senderService) sendBackground(report *pb.Report, result chan error, can
 		}
 		return nil
 	}
-	select {
-	case result <- backoff.Retry(send, backoff.NewExponentialBackOff()):
-	case <-cancel:
-	}
+	result <- backoff.Retry(send, backoff.WithContext(retry, ctx))
 }
 
 // calcAlertRate determines if the rate of rule matches exceeds the limit in the
-- 
2.43.0


From da8d65f4aec94f61d04da0426628eb7dbcde888a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:42 +0000
Subject: [PATCH 25/38] fix: monny: an acknowledged alert removes only the
 matches it carried

It removed every match, without the lock, so a match found while the alert was
being delivered was never reported; its own alert then went out empty.
---
 pkg/monny/report.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/pkg/monny/report.go b/pkg/monny/report.go
index 78b0be9..fbcc9fe 100644
--- a/pkg/monny/report.go
+++ b/pkg/monny/report.go
@@ -26,6 +26,7 @@ type ReportSender interface {
 // Report is a wrapper for sending a report via GRPC. See pb.Report for details.
 type Report struct {
 	sender sender
+	acked  int // rule matches removed from the command so far, protected by its mutex
 }
 
 // sender is an interface for creating and sending a report in the background.
@@ -62,12 +63,25 @@ func (s *senderService) create(c *Command, reason proto.ReportReason) *pb.Report
 func (r *Report) Send(c *Command, reason proto.ReportReason) {
 	c.mutex.Lock()
 	pb := r.sender.create(c, reason)
+	unreported := len(c.RuleMatches)
+	matched := r.acked + unreported
+	alertRateExceeded := calcAlertRate(c.RuleMatches, c.Config.RuleQuantity, c.Config.RulePeriod)
 	c.mutex.Unlock()
 
 	result := make(chan error, 1)
 	cancel := make(chan bool, 1)
 	timeout := time.After(1 * time.Hour)
 
+	// only what this report contained, there may be new matches by now
+	removeMatches := func() {
+		c.mutex.Lock()
+		if n := matched - r.acked; n > 0 {
+			c.RuleMatches = append([]RuleMatch{}, c.RuleMatches[n:]...)
+			r.acked = matched
+		}
+		c.mutex.Unlock()
+	}
+
 	cb := func() { return }
 	switch reason {
 	case proto.Failure:
@@ -85,19 +99,16 @@ func (r *Report) Send(c *Command, reason proto.ReportReason) {
 	case proto.FileNotCreated, proto.Killed, proto.MemoryWarning, proto.TimeWarning:
 		go r.sender.sendBackground(pb, result, cancel)
 	case proto.Alert:
-		go r.sender.sendBackground(pb, result, cancel)
-		cb = func() {
-			c.RuleMatches = []RuleMatch{}
+		if unreported == 0 && matched > 0 {
+			// an earlier alert has reported everything
 			return
 		}
+		go r.sender.sendBackground(pb, result, cancel)
+		cb = removeMatches
 	case proto.AlertRate:
-		alertRateExceeded := calcAlertRate(c.RuleMatches, c.Config.RuleQuantity, c.Config.RulePeriod)
 		if alertRateExceeded {
 			go r.sender.sendBackground(pb, result, cancel)
-			cb = func() {
-				c.RuleMatches = []RuleMatch{}
-				return
-			}
+			cb = removeMatches
 		} else {
 			return
 		}
-- 
2.43.0


From a9118e59625ba64da02559a135967264d681b6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:57 +0000
Subject: [PATCH 26/38] fix: monny: wait for reports that are just about to be
 sent

A report was counted only once its own goroutine had got as far as sending it.
When monny's main goroutine was faster it found nothing to wait for and exited,
and the report was lost.
---
 pkg/monny/command.go  | 20 ++++++++++++++++----
 pkg/monny/handlers.go | 16 ++++++++--------
 pkg/monny/report.go   | 36 ++++++++++++++++++++++++++++++++----
 3 files changed, 56 insertions(+), 16 deletions(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 5927f02..5257c64 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -44,6 +44,7 @@ type Command struct {
 	timeWarnSent bool
 	handler      ProcessHandlers
 	report       ReportSender
+	sending      background
 	errors       ErrorReporter
 	cleanup      []func() error
 	out          io.WriteCloser
@@ -92,9 +93,20 @@ func New(usercmd []string, options ...ConfigOption) (*Command, []error) {
 // Wait blocks program termination until the user's command finishes and all potential
 // reports and metrics are transmitted to the server
 func (c *Command) Wait() error {
+	c.sending.wait()
 	return c.report.Wait()
 }
 
+// send transmits a report in the background.  It is counted from here on, so that
+// Wait can not miss one that is just about to be sent.
+func (c *Command) send(reason proto.ReportReason) {
+	c.sending.add(1)
+	go func() {
+		defer c.sending.add(-1)
+		c.report.Send(c, reason)
+	}()
+}
+
 // Exec will execute the user's command in a forked process and monitor log output and process
 // metrics
 func (c *Command) Exec() error {
@@ -327,9 +339,9 @@ func (c *Command) processStdout(line []byte) {
 	if len(matches) > 0 {
 		switch {
 		case c.Config.RuleQuantity > 0:
-			go c.report.Send(c, proto.AlertRate)
+			c.send(proto.AlertRate)
 		default:
-			go c.report.Send(c, proto.Alert)
+			c.send(proto.Alert)
 		}
 	}
 	c.mutex.Lock()
@@ -346,9 +358,9 @@ func (c *Command) processStderr(line []byte) {
 	if len(matches) > 0 {
 		switch {
 		case c.Config.RuleQuantity > 0:
-			go c.report.Send(c, proto.AlertRate)
+			c.send(proto.AlertRate)
 		default:
-			go c.report.Send(c, proto.Alert)
+			c.send(proto.Alert)
 		}
 	}
 	c.mutex.Lock()
diff --git a/pkg/monny/handlers.go b/pkg/monny/handlers.go
index e32cd6f..5b20fb1 100644
--- a/pkg/monny/handlers.go
+++ b/pkg/monny/handlers.go
@@ -38,7 +38,7 @@ func (h handler) Finished(c *Command, cmd *exec.Cmd) error {
 		c.ExitCodeValid = true
 		c.ReportReason = proto.Success
 		c.mutex.Unlock()
-		go c.report.Send(c, proto.Success)
+		c.send(proto.Success)
 	default:
 		sysinfo, ok := cmd.ProcessState.Sys().(syscall.WaitStatus)
 		c.mutex.Lock()
@@ -49,7 +49,7 @@ func (h handler) Finished(c *Command, cmd *exec.Cmd) error {
 		c.ReportReason = proto.Failure
 		c.Success = false
 		c.mutex.Unlock()
-		go c.report.Send(c, proto.Failure)
+		c.send(proto.Failure)
 	}
 	handleFileCreation(c)
 	return nil
@@ -66,7 +66,7 @@ func (h handler) Signal(c *Command, cmd *exec.Cmd, sig os.Signal) error {
 	c.ReportReason = proto.Killed
 	c.mutex.Unlock()
 
-	go c.report.Send(c, proto.Killed)
+	c.send(proto.Killed)
 	if err := cmd.Process.Signal(sig); err != nil {
 		return err
 	}
@@ -85,7 +85,7 @@ func (h handler) Timeout(c *Command, cmd *exec.Cmd) error {
 	c.ReportReason = proto.Killed
 	c.mutex.Unlock()
 
-	go c.report.Send(c, proto.Killed)
+	c.send(proto.Killed)
 	if err := cmd.Process.Signal(os.Kill); err != nil {
 		return err
 	}
@@ -103,7 +103,7 @@ func (h handler) TimeWarning(c *Command) error {
 	c.timeWarnSent = true
 	c.mutex.Unlock()
 
-	go c.report.Send(c, proto.TimeWarning)
+	c.send(proto.TimeWarning)
 
 	return nil
 }
@@ -125,7 +125,7 @@ func (h handler) CheckMemory(c *Command, cmd *exec.Cmd) error {
 			c.memWarnSent = true
 			c.mutex.Unlock()
 
-			go c.report.Send(c, proto.MemoryWarning)
+			c.send(proto.MemoryWarning)
 		}
 	}
 	if c.Config.MemoryKill > 0 && mem >= c.Config.MemoryKill {
@@ -144,7 +144,7 @@ func (h handler) KillOnHighMemory(c *Command, cmd *exec.Cmd) error {
 	c.ReportReason = proto.Killed
 	c.mutex.Unlock()
 
-	go c.report.Send(c, proto.Killed)
+	c.send(proto.Killed)
 	if err := cmd.Process.Signal(os.Kill); err != nil {
 		return err
 	}
@@ -163,7 +163,7 @@ func handleFileCreation(c *Command) {
 			c.Messages = append(c.Messages, fmt.Sprintf("file not created: %s", f))
 			c.ReportReason = proto.FileNotCreated
 			c.mutex.Unlock()
-			go c.report.Send(c, proto.FileNotCreated)
+			c.send(proto.FileNotCreated)
 		case err == nil:
 			c.mutex.Lock()
 			c.Created = append(c.Created, File{
diff --git a/pkg/monny/report.go b/pkg/monny/report.go
index fbcc9fe..c98fa75 100644
--- a/pkg/monny/report.go
+++ b/pkg/monny/report.go
@@ -42,7 +42,35 @@ type senderService struct {
 	port   string
 	opts   []grpc.DialOption
 	errors ErrorReporter
-	wg     sync.WaitGroup
+	active background
+}
+
+// background counts what is still being sent.  Unlike a sync.WaitGroup it allows
+// adding to it at any time, also while it is waited for.
+type background struct {
+	mutex sync.Mutex
+	idle  *sync.Cond
+	count int
+}
+
+func (b *background) add(delta int) {
+	b.mutex.Lock()
+	defer b.mutex.Unlock()
+	b.count += delta
+	if b.count == 0 && b.idle != nil {
+		b.idle.Broadcast()
+	}
+}
+
+func (b *background) wait() {
+	b.mutex.Lock()
+	defer b.mutex.Unlock()
+	if b.idle == nil {
+		b.idle = sync.NewCond(&b.mutex)
+	}
+	for b.count > 0 {
+		b.idle.Wait()
+	}
 }
 
 // Create prepares a new report based on the current status of the command.
@@ -145,7 +173,7 @@ func (r *Report) Wait() error {
 }
 
 func (s *senderService) wait() {
-	s.wg.Wait()
+	s.active.wait()
 	return
 }
 
@@ -157,8 +185,8 @@ func (s *senderService) sendBackground(report *pb.Report, result chan error, can
 		result <- fmt.Errorf("no report created")
 		return
 	}
-	s.wg.Add(1)
-	defer s.wg.Done()
+	s.active.add(1)
+	defer s.active.add(-1)
 	// the caller decides when to give up, also on a call that is not answered
 	ctx, stop := context.WithCancel(context.Background())
 	defer stop()
-- 
2.43.0


From cb44c9b0a359a5748eab0c3db6cbd52ed2cad6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 27/38] fix: monny: wait for the reports of a command that
 could not be killed

When a signal or a limit coincided with the end of the command, passing the
signal on failed and monny exited at once, losing the report.
---
 cmd/monny/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/monny/main.go b/cmd/monny/main.go
index 0d662b0..3b81270 100644
--- a/cmd/monny/main.go
+++ b/cmd/monny/main.go
@@ -30,6 +30,7 @@ func main() {
 
 	if err := cmd.Exec(); err != nil {
 		fmt.Println("Process error:", err)
+		cmd.Wait() // there may be reports on their way all the same
 		os.Exit(1)
 	}
 	if err := cmd.Wait(); err != nil {
-- 
2.43.0


From 40dc6204ce0e886ed9e7766bc2f5fcf6655b09ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:23 +0000
Subject: [PATCH 28/38] fix: monny: read each list of the configuration file
 once

Every list in the file added all rules and files of all lists again, so that
with two lists every rule counted twice, and a list beside a single rule or
file was rejected.
---
 pkg/monny/parse.go | 34 ++++++----------------------------
 1 file changed, 6 insertions(+), 28 deletions(-)

diff --git a/pkg/monny/parse.go b/pkg/monny/parse.go
index 91b89cc..d1193e6 100644
--- a/pkg/monny/parse.go
+++ b/pkg/monny/parse.go
@@ -163,30 +163,14 @@ func parseFromFile(fpath string) ([]ConfigOption, error) {
 			}
 			options = append(options, opt)
 		// handles the case of a list of rules
-		case interface{}:
-			alt := listFieldsYAML{}
-			if err := yaml.Unmarshal(data, &alt); err != nil {
-				return options, fmt.Errorf("Could not unmarshal config value for key: %s", k)
-			}
-			if len(alt.Rule) == 0 && len(alt.JSONRule) == 0 && len(alt.Creates) == 0 {
+		case []interface{}:
+			switch k {
+			case "rule", "rule-json", "creates":
+			default:
 				return options, fmt.Errorf("Unknown option: %s", k)
 			}
-			for _, val := range alt.Rule {
-				opt, err := handleOption("rule", val)
-				if err != nil {
-					return options, err
-				}
-				options = append(options, opt)
-			}
-			for _, val := range alt.JSONRule {
-				opt, err := handleOption("rule-json", val)
-				if err != nil {
-					return options, err
-				}
-				options = append(options, opt)
-			}
-			for _, val := range alt.Creates {
-				opt, err := handleOption("creates", val)
+			for _, val := range v.([]interface{}) {
+				opt, err := handleOption(k, fmt.Sprint(val))
 				if err != nil {
 					return options, err
 				}
@@ -198,9 +182,3 @@ func parseFromFile(fpath string) ([]ConfigOption, error) {
 	}
 	return options, nil
 }
-
-type listFieldsYAML struct {
-	Rule     []string `yaml:"rule"`
-	JSONRule []string `yaml:"rule-json"`
-	Creates  []string `yaml:"creates"`
-}
-- 
2.43.0


From ee581a96c85afef4786460cf3810f7aa1869d25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:37 +0000
Subject: [PATCH 29/38] fix: monny: let a switch be turned off

insecure: false in the configuration file, or --insecure=false, turned the
encryption of reports off, and likewise for the other switches.
---
 pkg/monny/parse.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/pkg/monny/parse.go b/pkg/monny/parse.go
index d1193e6..196cd85 100644
--- a/pkg/monny/parse.go
+++ b/pkg/monny/parse.go
@@ -102,11 +102,11 @@ func handleOption(name string, value string) (ConfigOption, error) {
 	case "stderr-history":
 		return StderrHistory(value), nil
 	case "no-notify-on-success":
-		return NoNotifyOnSuccess(), nil
+		return switchOption(NoNotifyOnSuccess(), value)
 	case "no-notify-on-failure":
-		return NoNotifyOnFailure(), nil
+		return switchOption(NoNotifyOnFailure(), value)
 	case "daemon":
-		return Daemon(), nil
+		return switchOption(Daemon(), value)
 	case "memory-warn":
 		return MemoryWarn(value), nil
 	case "memory-kill":
@@ -120,9 +120,9 @@ func handleOption(name string, value string) (ConfigOption, error) {
 	case "host":
 		return Host(value), nil
 	case "insecure":
-		return Insecure(), nil
+		return switchOption(Insecure(), value)
 	case "no-error-reports":
-		return NoErrorReports(), nil
+		return switchOption(NoErrorReports(), value)
 	case "shell":
 		return Shell(value), nil
 	default:
@@ -130,6 +130,18 @@ func handleOption(name string, value string) (ConfigOption, error) {
 	}
 }
 
+// switchOption is the option unless it is set to false
+func switchOption(option ConfigOption, value string) (ConfigOption, error) {
+	on, err := strconv.ParseBool(value)
+	if err != nil {
+		return nil, fmt.Errorf("invalid value, should be true or false: %s", value)
+	}
+	if !on {
+		return func(c *Config) error { return nil }, nil
+	}
+	return option, nil
+}
+
 func parseFromFile(fpath string) ([]ConfigOption, error) {
 	var options []ConfigOption
 	data, err := ioutil.ReadFile(fpath)
@@ -157,7 +169,7 @@ func parseFromFile(fpath string) ([]ConfigOption, error) {
 			}
 			options = append(options, opt)
 		case bool:
-			opt, err := handleOption(k, "")
+			opt, err := handleOption(k, strconv.FormatBool(v.(bool)))
 			if err != nil {
 				return options, err
 			}
-- 
2.43.0


From 9298c5d36c2157e08b4df1fcbbe09e116a22b164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:47 +0000
Subject: [PATCH 30/38] fix: monny: do not replace the configured shell

The default shell overwrote it, and where there is no default monny refused to
run even with the --shell that its error message asks for.
---
 pkg/monny/config.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/monny/config.go b/pkg/monny/config.go
index e413ca7..d809241 100644
--- a/pkg/monny/config.go
+++ b/pkg/monny/config.go
@@ -76,11 +76,13 @@ func newConfig(options ...ConfigOption) (Config, []error) {
 		}
 	}
 
-	shell, err := findDefaultShell()
-	if err != nil {
-		errors = append(errors, err)
+	if len(c.Shell) == 0 {
+		shell, err := findDefaultShell()
+		if err != nil {
+			errors = append(errors, err)
+		}
+		c.Shell = shell
 	}
-	c.Shell = shell
 	if len(c.ID) == 0 {
 		errors = append(errors, fmt.Errorf("id is required, use monny -i <id>; new ids are created with monctl create or pass your email address to get a notifications via email without an account"))
 	}
-- 
2.43.0


From c6ff9cef47f197889f1dc4e601b0bccc6ab995ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:49 +0000
Subject: [PATCH 31/38] fix: a reader of the output that leaves no longer ends
 monny and the command

---
 pkg/monny/command.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 5257c64..5dcf932 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -12,6 +12,7 @@ import (
 	"runtime"
 	"strings"
 	"sync"
+	"syscall"
 
 	"time"
 
@@ -144,6 +145,8 @@ func (c *Command) Exec() error {
 	// signals are trapped before there is a process that one could leave behind
 	signals := make(chan os.Signal, 1)
 	signal.Notify(signals, os.Interrupt, os.Kill)
+	// a reader that leaves costs the output it would have read, not the process and its reports
+	signal.Notify(make(chan os.Signal, 1), syscall.SIGPIPE)
 
 	c.Start = time.Now()
 	if err := cmd.Start(); err != nil {
-- 
2.43.0


From 39b782695fcb328e3f33cdfb6fce1dbac94100af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:40 +0000
Subject: [PATCH 32/38] fix: failing error reports write nothing among the
 command's output

---
 pkg/monny/error.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/monny/error.go b/pkg/monny/error.go
index 176434f..64e2ef7 100644
--- a/pkg/monny/error.go
+++ b/pkg/monny/error.go
@@ -27,6 +27,8 @@ func init() {
 	default:
 		rollbar.Environment = "production"
 	}
+	// standard error belongs to the user's command
+	rollbar.ErrorWriter = nil
 	rollbar.Token = "8046af1f8781407faad15c1f86c0dccc"
 }
 
-- 
2.43.0


From bc178669788d7aadde7bfa4ce6b0ea073b464b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:46 +0000
Subject: [PATCH 33/38] fix: creating an event writes nothing to standard error

---
 pkg/eventbus/event.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pkg/eventbus/event.go b/pkg/eventbus/event.go
index 0675460..dce936c 100644
--- a/pkg/eventbus/event.go
+++ b/pkg/eventbus/event.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"encoding/gob"
 	"fmt"
-	"log"
 )
 
 // EventType represents the type of event being passed on the bus.  It allows handlers receiving the event to
@@ -46,8 +45,6 @@ func NewEvent(t EventType, data interface{}) (Event, error) {
 			return Event{}, fmt.Errorf("failed to create event %s: %v", t, err)
 		}
 	}
-
-	log.Printf("encoded: %v", string(b.Bytes()))
 	return Event{t: t, d: b.Bytes()}, nil
 }
 
-- 
2.43.0


From c5058520e293b1e527bbf6ae6361d666a8b0c4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:21 +0000
Subject: [PATCH 34/38] fix: a switch set to false takes back an earlier
 setting of it

Of a setting given twice the later one counts, but --insecure=false did not
undo an earlier --insecure or one in the configuration file.
---
 pkg/monny/parse.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pkg/monny/parse.go b/pkg/monny/parse.go
index 196cd85..36ea9d5 100644
--- a/pkg/monny/parse.go
+++ b/pkg/monny/parse.go
@@ -102,11 +102,11 @@ func handleOption(name string, value string) (ConfigOption, error) {
 	case "stderr-history":
 		return StderrHistory(value), nil
 	case "no-notify-on-success":
-		return switchOption(NoNotifyOnSuccess(), value)
+		return switchOption(NoNotifyOnSuccess(), func(c *Config) { c.NotifyOnSuccess = true }, value)
 	case "no-notify-on-failure":
-		return switchOption(NoNotifyOnFailure(), value)
+		return switchOption(NoNotifyOnFailure(), func(c *Config) { c.NotifyOnFailure = true }, value)
 	case "daemon":
-		return switchOption(Daemon(), value)
+		return switchOption(Daemon(), func(c *Config) { c.Daemon = false }, value)
 	case "memory-warn":
 		return MemoryWarn(value), nil
 	case "memory-kill":
@@ -120,9 +120,9 @@ func handleOption(name string, value string) (ConfigOption, error) {
 	case "host":
 		return Host(value), nil
 	case "insecure":
-		return switchOption(Insecure(), value)
+		return switchOption(Insecure(), func(c *Config) { c.useTLS = true }, value)
 	case "no-error-reports":
-		return switchOption(NoErrorReports(), value)
+		return switchOption(NoErrorReports(), func(c *Config) { SuppressErrorReporting = false }, value)
 	case "shell":
 		return Shell(value), nil
 	default:
@@ -130,14 +130,17 @@ func handleOption(name string, value string) (ConfigOption, error) {
 	}
 }
 
-// switchOption is the option unless it is set to false
-func switchOption(option ConfigOption, value string) (ConfigOption, error) {
+// switchOption is the option unless it is set to false, which takes back what was set before
+func switchOption(option ConfigOption, off func(c *Config), value string) (ConfigOption, error) {
 	on, err := strconv.ParseBool(value)
 	if err != nil {
 		return nil, fmt.Errorf("invalid value, should be true or false: %s", value)
 	}
 	if !on {
-		return func(c *Config) error { return nil }, nil
+		return func(c *Config) error {
+			off(c)
+			return nil
+		}, nil
 	}
 	return option, nil
 }
-- 
2.43.0


From 3081e17660f09b7b73cbf3ab6f132d52b4c92292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:39 +0000
Subject: [PATCH 35/38] fix: a log history of no lines keeps nothing instead of
 crashing

---
 pkg/monny/proc/queue.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/monny/proc/queue.go b/pkg/monny/proc/queue.go
index d36a6ee..1f01818 100644
--- a/pkg/monny/proc/queue.go
+++ b/pkg/monny/proc/queue.go
@@ -16,6 +16,9 @@ type Queue struct {
 // calls to add without pop will grow the size of the queue.  Use Enqueue to maintain a fixed capacity
 // queue.
 func NewQueue(capacity int) *Queue {
+	if capacity < 0 {
+		capacity = 0
+	}
 	q := make([]string, 0, capacity+1)
 	return &Queue{q: q, capacity: capacity}
 }
@@ -36,6 +39,8 @@ func (q *Queue) Add(s string) {
 	defer q.mu.Unlock()
 
 	switch {
+	case q.capacity == 0:
+		// there is no history to keep
 	case len(q.q) < q.capacity:
 		q.add(s)
 	default:
-- 
2.43.0


From 63bb40b60f2c37003c36ecf46c3a33af542fa008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:06 +0000
Subject: [PATCH 36/38] fix: a missing command is an error, not a crash

---
 pkg/monny/command.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 5dcf932..8ef04e7 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -119,6 +119,8 @@ func (c *Command) Exec() error {
 	c.cleanup = append(c.cleanup, cleanup)
 
 	switch len(wrappedCmd) {
+	case 0:
+		return fmt.Errorf("no command to execute")
 	case 1:
 		cmd = exec.Command(wrappedCmd[0])
 	default:
-- 
2.43.0


From 36832fa7c28d444100f94387ebb088ddbf024ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:12 +0000
Subject: [PATCH 37/38] fix: a report that timed out is no longer sent to the
 error reporting service

The error made when a report could not be sent within the hour carried the
whole report, with the command's output, to the error reporting service,
although no private data is to be sent there.
---
 pkg/monny/report.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/monny/report.go b/pkg/monny/report.go
index c98fa75..0b54ef8 100644
--- a/pkg/monny/report.go
+++ b/pkg/monny/report.go
@@ -160,7 +160,8 @@ func (r *Report) Send(c *Command, reason proto.ReportReason) {
 		}
 	case <-timeout:
 		cancel <- true
-		c.errors.ReportError(fmt.Errorf("timeout on background report send: msg=%+v", pb))
+		// the report itself is not for the error reporting service
+		c.errors.ReportError(fmt.Errorf("timeout on background report send: reason=%s", reason))
 	}
 }
 
-- 
2.43.0


From aa41bfefb4d7486b1d77dcf8670a3d8712a27f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:26 +0000
Subject: [PATCH 38/38] fix: a malformed configuration file that makes the YAML
 parser panic is an error

---
 pkg/monny/parse.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/monny/parse.go b/pkg/monny/parse.go
index 36ea9d5..3a4d55a 100644
--- a/pkg/monny/parse.go
+++ b/pkg/monny/parse.go
@@ -153,7 +153,7 @@ func parseFromFile(fpath string) ([]ConfigOption, error) {
 	}
 
 	cfg := make(map[string]interface{})
-	if err := yaml.Unmarshal(data, &cfg); err != nil {
+	if err := unmarshal(data, &cfg); err != nil {
 		return options, err
 	}
 	for k, v := range cfg {
@@ -197,3 +197,13 @@ func parseFromFile(fpath string) ([]ConfigOption, error) {
 	}
 	return options, nil
 }
+
+// unmarshal reads YAML, of which some that is malformed makes the parser panic
+func unmarshal(data []byte, cfg *map[string]interface{}) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("could not read config: %v", r)
+		}
+	}()
+	return yaml.Unmarshal(data, cfg)
+}
-- 
2.43.0

