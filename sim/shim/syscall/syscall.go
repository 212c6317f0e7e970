// Package syscall is the simulated counterpart of syscall: constants, errors and
// types only, and signalling of simulated processes.
package syscall

import (
	real "syscall"

	os "simverif/shim/os"
)

// Kill signals a simulated process.
func Kill(pid int, sig real.Signal) error {
	p, err := os.FindProcess(pid)
	if err != nil {
		return err
	}
	return p.Signal(sig)
}

func Getpid() int   { return os.Getpid() }
func Exit(code int) { os.Exit(code) }
