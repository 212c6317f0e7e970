// Package rollbar stands in for github.com/stvp/rollbar: it records reports.
package rollbar

import (
	"errors"
	"fmt"
	"io"
	"time"

	"simverif/rt"
	"simverif/shim/os"
	"simverif/world"
)

const (
	CRIT  = "critical"
	ERR   = "error"
	WARN  = "warning"
	INFO  = "info"
	DEBUG = "debug"
)

var (
	Token       = ""
	Environment = "development"
	Platform    = "linux"
	Endpoint    = ""
	Buffer      = 1000
	// ErrorWriter is told when an error could not be sent.
	ErrorWriter io.Writer = os.Stderr
	CodeVersion           = ""
)

// Field is extra data.
type Field struct {
	Name string
	Data interface{}
}

// Count is the number of errors reported in this run.
func Count() int {
	n, _ := rt.S.Local["rollbar"].(int)
	return n
}

// Told is what the error reports of this run said.
func Told() []string {
	l, _ := rt.S.Local["rollbar.told"].([]string)
	return l
}

func Error(level string, err error, fields ...*Field) {
	if rt.S == nil {
		return
	}
	msg := err.Error() // as the real package does, whatever err is
	rt.Y()
	n, _ := rt.S.Local["rollbar"].(int)
	rt.S.Local["rollbar"] = n + 1
	rt.Stat("probe.error-reported")
	told, _ := rt.S.Local["rollbar.told"].([]string)
	rt.S.Local["rollbar.told"] = append(told, msg)
	if len(msg) > 100 {
		msg = msg[:100]
	}
	rt.Logf("error report: %s", msg)
	w := world.W()
	if rt.Fault("rollbar-error", w.RollbarErr, 1) == 0 {
		return
	}
	first, _ := rt.S.Local["rollbar.failed"].(int)
	rt.S.Local["rollbar.failed"] = first + 1
	rt.Go(func() {
		rt.Sleep(3 * time.Millisecond)
		if ErrorWriter != nil {
			fmt.Fprintf(ErrorWriter, "Rollbar error: POST failed: no route to host\n")
		}
	})
}

func ErrorWithStackSkip(level string, err error, skip int, fields ...*Field) { Error(level, err) }
func Message(level string, msg string)                                       { Error(level, errors.New(msg)) }

// Wait waits until everything was posted.
func Wait() {
	if rt.S == nil || Count() == 0 {
		return
	}
	if world.W().RollbarHang {
		rt.Stat("fault.rollbar-hang")
		rt.BlockForever()
	}
	rt.Sleep(3 * time.Millisecond)
}
