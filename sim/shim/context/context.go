// Package context is the simulated counterpart of context.
package context

import (
	real "context"
	"time"

	"simverif/rt"
)

type (
	Context    = real.Context
	CancelFunc = real.CancelFunc
)

type cancelKey struct{}

type ctx struct {
	parent   Context
	mu       rt.Mutex
	done     chan struct{}
	err      error
	cause    error
	children map[*ctx]bool
	order    []*ctx
	deadline time.Time
	hasDL    bool
	timer    *rt.Timer
}

func (c *ctx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *ctx) Done() <-chan struct{} { return c.done }
func (c *ctx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}
func (c *ctx) Value(k any) any {
	if _, ok := k.(cancelKey); ok {
		return c
	}
	return c.parent.Value(k)
}

func (c *ctx) cancel(err, cause error) {
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		return
	}
	if cause == nil {
		cause = err
	}
	c.err = err
	c.cause = cause
	rt.Close(c.done)
	kids := c.order
	c.order, c.children = nil, nil
	if c.timer != nil {
		c.timer.Stop()
	}
	c.mu.Unlock()
	for _, k := range kids {
		k.cancel(err, cause)
	}
}

func newCtx(parent Context) *ctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &ctx{parent: parent, done: rt.MadeChan(make(chan struct{}))}
	if parent.Done() == nil {
		return c
	}
	if p, ok := parent.Value(cancelKey{}).(*ctx); ok && p.done == parent.Done() {
		p.mu.Lock()
		if p.err != nil {
			err, cause := p.err, p.cause
			p.mu.Unlock()
			c.cancel(err, cause)
			return c
		}
		p.order = append(p.order, c)
		p.mu.Unlock()
		return c
	}
	rt.Go(func() {
		a, b := rt.RecvCase(parent.Done()), rt.RecvCase((<-chan struct{})(c.done))
		if rt.Select(false, a, b) == 0 {
			c.cancel(parent.Err(), nil)
		}
	})
	return c
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := newCtx(parent)
	return c, func() { c.cancel(real.Canceled, nil) }
}

func WithCancelCause(parent Context) (Context, real.CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(cause error) { c.cancel(real.Canceled, cause) }
}

func Cause(c Context) error {
	if x, ok := c.Value(cancelKey{}).(*ctx); ok {
		x.mu.Lock()
		defer x.mu.Unlock()
		return x.cause
	}
	return c.Err()
}

func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	c := newCtx(parent)
	if cur, ok := parent.Deadline(); ok && cur.Before(d) {
		return c, func() { c.cancel(real.Canceled, nil) }
	}
	c.deadline, c.hasDL = d, true
	dur := d.Sub(rt.Now())
	if dur <= 0 {
		c.cancel(real.DeadlineExceeded, nil)
		return c, func() {}
	}
	c.mu.Lock()
	if c.err == nil {
		c.timer = rt.AfterFunc(dur, func() { c.cancel(real.DeadlineExceeded, nil) })
	}
	c.mu.Unlock()
	return c, func() { c.cancel(real.Canceled, nil) }
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, rt.Now().Add(d))
}

func AfterFunc(parent Context, f func()) func() bool {
	c := newCtx(parent)
	fired := false
	rt.Go(func() {
		rt.Recv((<-chan struct{})(c.done))
		if c.err == real.Canceled && parent.Err() == nil {
			return
		}
		fired = true
		f()
	})
	return func() bool { was := fired; c.cancel(real.Canceled, nil); return !was }
}

type noCancel struct{ Context }

func (noCancel) Deadline() (time.Time, bool) { return time.Time{}, false }
func (noCancel) Done() <-chan struct{}       { return nil }
func (noCancel) Err() error                  { return nil }
func (n noCancel) Value(k any) any {
	if _, ok := k.(cancelKey); ok {
		return nil
	}
	return n.Context.Value(k)
}

func WithoutCancel(parent Context) Context { return noCancel{parent} }
