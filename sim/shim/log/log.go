// Package log is the simulated counterpart of log: the standard logger writes to the
// simulated standard error, one write for each entry.
package log

import (
	"fmt"
	"io"
	real "log"
	"strings"

	"simverif/rt"
	os "simverif/shim/os"
)

type state struct {
	w      io.Writer
	flags  int
	prefix string
}

func std() *state {
	if rt.S == nil {
		return &state{w: io.Discard}
	}
	s, _ := rt.S.Local["log"].(*state)
	if s == nil {
		s = &state{w: os.Stderr, flags: real.LstdFlags}
		rt.S.Local["log"] = s
	}
	return s
}

func out(s string) {
	st := std()
	if !strings.HasSuffix(s, "\n") {
		s += "\n"
	}
	if st.flags&(real.Ldate|real.Ltime) != 0 {
		s = rt.Now().Format("2006/01/02 15:04:05 ") + s
	}
	io.WriteString(st.w, st.prefix+s)
}

func Print(v ...any)               { out(fmt.Sprint(v...)) }
func Printf(f string, v ...any)    { out(fmt.Sprintf(f, v...)) }
func Println(v ...any)             { out(fmt.Sprintln(v...)) }
func Output(_ int, s string) error { out(s); return nil }
func Fatal(v ...any)               { out(fmt.Sprint(v...)); os.Exit(1) }
func Fatalf(f string, v ...any)    { out(fmt.Sprintf(f, v...)); os.Exit(1) }
func Fatalln(v ...any)             { out(fmt.Sprintln(v...)); os.Exit(1) }
func Panic(v ...any)               { s := fmt.Sprint(v...); out(s); panic(s) }
func Panicf(f string, v ...any)    { s := fmt.Sprintf(f, v...); out(s); panic(s) }
func Panicln(v ...any)             { s := fmt.Sprintln(v...); out(s); panic(s) }
func SetOutput(w io.Writer)        { std().w = w }
func SetFlags(f int)               { std().flags = f }
func SetPrefix(p string)           { std().prefix = p }
func Flags() int                   { return std().flags }
func Prefix() string               { return std().prefix }
func Writer() io.Writer            { return std().w }
func Default() *real.Logger        { return real.New(io.Discard, "", 0) }
