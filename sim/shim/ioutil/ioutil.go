// Package ioutil is the simulated counterpart of io/ioutil.
package ioutil

import (
	"io"
	real "os"

	os "simverif/shim/os"
)

var (
	Discard   = io.Discard
	NopCloser = io.NopCloser
)

func ReadAll(r io.Reader) ([]byte, error)                    { return io.ReadAll(r) }
func ReadFile(n string) ([]byte, error)                      { return os.ReadFile(n) }
func WriteFile(n string, b []byte, perm real.FileMode) error { return os.WriteFile(n, b, perm) }
func TempFile(dir, pattern string) (*os.File, error) {
	return os.CreateTemp(dir, pattern)
}

func TempDir(dir, pattern string) (string, error) { return os.MkdirTemp(dir, pattern) }
func ReadDir(n string) ([]real.FileInfo, error) {
	es, err := os.ReadDir(n)
	var out []real.FileInfo
	for _, e := range es {
		i, _ := e.Info()
		out = append(out, i)
	}
	return out, err
}
