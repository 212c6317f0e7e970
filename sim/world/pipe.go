// Package world is the simulated operating system around the process under test:
// pipes, standard streams, a small file system, child processes that follow
// scripts, and signals. Every blocking operation and every fault in it goes
// through package rt.
package world

import (
	"errors"
	"io"
	"syscall"
	"unsafe"

	"simverif/rt"
)

// Pipe is a kernel pipe.
type Pipe struct {
	Name    string
	Cap     int
	buf     []byte
	readers int
	writers int
	rq, wq  rt.WaitQ
	Total   int // bytes ever written
}

// NewPipe returns a pipe with one open reader and one open writer.
func NewPipe(name string, capacity int) *Pipe {
	return &Pipe{Name: name, Cap: capacity, readers: 1, writers: 1}
}

func (p *Pipe) AddWriter() { p.writers++ }

func (p *Pipe) read(b []byte, closed *bool) (int, error) {
	rt.Sync("pipe.read", unsafe.Pointer(p))
	if len(b) == 0 {
		return 0, nil
	}
	for {
		if *closed {
			return 0, errClosed
		}
		if len(p.buf) > 0 {
			n := len(b)
			if n > len(p.buf) {
				n = len(p.buf)
			}
			if n > 1 {
				if f := rt.Fault("short-read", W().ShortRead, 64); f > 0 {
					n = 1 + (n-1)*(f-1)/64
				}
			}
			copy(b, p.buf[:n])
			p.buf = append([]byte{}, p.buf[n:]...)
			p.wq.WakeAll()
			return n, nil
		}
		if p.writers == 0 {
			return 0, io.EOF
		}
		p.rq.Wait("pipe read " + p.Name)
	}
}

// write blocks until everything is in the pipe; EPIPE when nobody reads.
func (p *Pipe) write(b []byte, closed *bool) (int, error) {
	rt.Sync("pipe.write", unsafe.Pointer(p))
	done := 0
	for {
		if *closed {
			return done, errClosed
		}
		if p.readers == 0 {
			return done, syscall.EPIPE
		}
		if done == len(b) {
			return done, nil
		}
		room := p.Cap - len(p.buf)
		if room > 0 {
			n := len(b) - done
			if n > room {
				n = room
			}
			p.buf = append(p.buf, b[done:done+n]...)
			done += n
			p.Total += n
			p.rq.WakeAll()
			continue
		}
		p.wq.Wait("pipe write " + p.Name)
	}
}

func (p *Pipe) closeReader() {
	p.readers--
	p.wq.WakeAll()
	p.rq.WakeAll()
}

func (p *Pipe) closeWriter() {
	p.writers--
	p.rq.WakeAll()
	p.wq.WakeAll()
}

// Buffered is the number of bytes in the pipe.
func (p *Pipe) Buffered() int { return len(p.buf) }

var errClosed = errors.New("file already closed")

// ErrClosed reports whether err is the use of a closed file.
func ErrClosed(err error) bool { return err == errClosed }
