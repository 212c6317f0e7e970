// Package time is the simulated counterpart of time.
package time

import (
	real "time"

	"simverif/rt"
)

type (
	Timer  = rt.Timer
	Ticker = rt.Ticker
)

func Now() real.Time                             { return rt.Now() }
func Sleep(d real.Duration)                      { rt.Sleep(d) }
func Since(t real.Time) real.Duration            { return rt.Now().Sub(t) }
func Until(t real.Time) real.Duration            { return t.Sub(rt.Now()) }
func After(d real.Duration) <-chan real.Time     { return rt.NewTimer(d).C }
func AfterFunc(d real.Duration, f func()) *Timer { return rt.AfterFunc(d, f) }
func NewTimer(d real.Duration) *Timer            { return rt.NewTimer(d) }
func NewTicker(d real.Duration) *Ticker          { return rt.NewTicker(d) }
func Tick(d real.Duration) <-chan real.Time {
	if d <= 0 {
		return nil
	}
	return rt.NewTicker(d).C
}
