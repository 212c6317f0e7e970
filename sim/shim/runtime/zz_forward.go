// Code generated by genshim from package runtime; DO NOT EDIT.

package runtime

import real "runtime"

var Caller = real.Caller
var Callers = real.Callers
var CallersFrames = real.CallersFrames
const Compiler = real.Compiler
type Error = real.Error
type Frame = real.Frame
type Frames = real.Frames
type Func = real.Func
var FuncForPC = real.FuncForPC
const GOARCH = real.GOARCH
const GOOS = real.GOOS
var KeepAlive = real.KeepAlive
type MemStats = real.MemStats
var NumCgoCall = real.NumCgoCall
var ReadMemStats = real.ReadMemStats
var Stack = real.Stack
type TypeAssertionError = real.TypeAssertionError
var Version = real.Version
