// Package signal is the simulated counterpart of os/signal.
package signal

import (
	"context"
	real "os"

	"simverif/rt"
	sctx "simverif/shim/context"
	"simverif/world"
)

func Notify(c chan<- real.Signal, sig ...real.Signal) { world.W().Notify(c, sig...) }
func Stop(c chan<- real.Signal)                       { world.W().StopNotify(c) }
func Reset(sig ...real.Signal)                        { world.W().ResetSignals(sig...) }
func Ignore(sig ...real.Signal)                       { world.W().IgnoreSignals(sig...) }
func Ignored(real.Signal) bool                        { return false }

func NotifyContext(parent context.Context, sig ...real.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := sctx.WithCancel(parent)
	c := rt.MadeChan(make(chan real.Signal, 1))
	Notify(c, sig...)
	rt.Go(func() {
		rt.Select(false, rt.RecvCase((<-chan real.Signal)(c)), rt.RecvCase(ctx.Done()))
		cancel()
	})
	return ctx, func() { Stop(c); cancel() }
}
