// Package runtime is the simulated counterpart of runtime.
package runtime

import "simverif/rt"

func Gosched()              { rt.GoschedPoint() }
func Goexit()               { rt.Goexit() }
func GC()                   {}
func NumGoroutine() int     { return 1 }
func GOMAXPROCS(int) int    { return 8 }
func NumCPU() int           { return 8 }
func LockOSThread()         {}
func UnlockOSThread()       {}
func SetFinalizer(any, any) {}
func GOROOT() string        { return "/usr/local/go" }
