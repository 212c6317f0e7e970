// Package fmt is the simulated counterpart of fmt: printing goes to the simulated
// standard streams.
package fmt

import (
	real "fmt"

	os "simverif/shim/os"
)

func Print(a ...any) (int, error)            { return real.Fprint(os.Stdout, a...) }
func Printf(f string, a ...any) (int, error) { return real.Fprintf(os.Stdout, f, a...) }
func Println(a ...any) (int, error)          { return real.Fprintln(os.Stdout, a...) }
func Scan(a ...any) (int, error)             { return real.Fscan(os.Stdin, a...) }
func Scanln(a ...any) (int, error)           { return real.Fscanln(os.Stdin, a...) }
func Scanf(f string, a ...any) (int, error)  { return real.Fscanf(os.Stdin, f, a...) }
