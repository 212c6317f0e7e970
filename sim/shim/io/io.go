// Package io is the simulated counterpart of io: only the pipe, which blocks, differs.
package io

import (
	real "io"

	"simverif/rt"
)

// ErrClosedPipe etc. are the real ones.

type pipe struct {
	wrMu    rt.Mutex
	mu      rt.Mutex
	data    []byte
	has     bool
	rq, wq  rt.WaitQ
	rerr    error
	werr    error
	rclosed bool
	wclosed bool
}

// PipeReader is the read half of a pipe.
type PipeReader struct{ p *pipe }

// PipeWriter is the write half of a pipe.
type PipeWriter struct{ p *pipe }

func Pipe() (*PipeReader, *PipeWriter) {
	p := &pipe{}
	return &PipeReader{p}, &PipeWriter{p}
}

func (r *PipeReader) Read(b []byte) (int, error) {
	p := r.p
	rt.Y()
	for {
		if p.rclosed {
			return 0, real.ErrClosedPipe
		}
		if p.has {
			n := copy(b, p.data)
			p.data = p.data[n:]
			if len(p.data) == 0 {
				p.has = false
				p.wq.WakeAll()
			}
			return n, nil
		}
		if p.wclosed {
			return 0, p.werr
		}
		p.rq.Wait("pipe read")
	}
}

func (r *PipeReader) Close() error { return r.CloseWithError(nil) }
func (r *PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = real.ErrClosedPipe
	}
	if !r.p.rclosed {
		r.p.rclosed = true
		r.p.rerr = err
	}
	r.p.wq.WakeAll()
	r.p.rq.WakeAll()
	return nil
}

func (w *PipeWriter) Write(b []byte) (int, error) {
	p := w.p
	p.wrMu.Lock()
	defer p.wrMu.Unlock()
	if p.wclosed {
		return 0, real.ErrClosedPipe
	}
	if p.rclosed {
		return 0, p.rerr
	}
	p.data, p.has = b, true
	p.rq.WakeAll()
	for p.has && !p.rclosed && !p.wclosed {
		p.wq.Wait("pipe write")
	}
	n := len(b) - len(p.data)
	if p.has {
		p.has = false
		if p.rclosed {
			return n, p.rerr
		}
		return n, real.ErrClosedPipe
	}
	return n, nil
}

func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }
func (w *PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = real.EOF
	}
	if !w.p.wclosed {
		w.p.wclosed = true
		w.p.werr = err
	}
	w.p.rq.WakeAll()
	w.p.wq.WakeAll()
	return nil
}
