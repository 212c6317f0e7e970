// Code generated by genshim from package os/exec; DO NOT EDIT.

package exec

import real "os/exec"

var ErrDot = real.ErrDot
var ErrNotFound = real.ErrNotFound
var ErrWaitDelay = real.ErrWaitDelay
