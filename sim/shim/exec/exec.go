// Package exec is the simulated counterpart of os/exec: commands are scripted
// processes of the simulated machine.
package exec

import (
	"bytes"
	"context"
	"errors"
	"io"
	"io/fs"
	realos "os"
	real "os/exec"
	"strings"
	"syscall"
	"time"

	"simverif/rt"
	os "simverif/shim/os"
	"simverif/world"
)

// ExitError reports an unsuccessful exit.
type ExitError struct {
	*os.ProcessState
	Stderr []byte
}

func (e *ExitError) Error() string { return e.ProcessState.String() }

// Error is returned when a program cannot be found.
type Error = real.Error

// Cmd is an external command being prepared or run.
type Cmd struct {
	Path         string
	Args         []string
	Env          []string
	Dir          string
	Stdin        io.Reader
	Stdout       io.Writer
	Stderr       io.Writer
	ExtraFiles   []*os.File
	SysProcAttr  *syscall.SysProcAttr
	Process      *os.Process
	ProcessState *os.ProcessState
	Err          error
	Cancel       func() error
	WaitDelay    time.Duration

	ctx        context.Context
	lookErr    error
	finished   bool
	started    bool
	pipes      [3]*world.Pipe
	childEnds  []func()
	parentEnds []*os.File
	copiers    []func() error
	copyErr    []error
	copyWG     rt.WaitGroup
	ctxDone    chan struct{}
}

// Command prepares a command.
func Command(name string, arg ...string) *Cmd {
	c := &Cmd{Path: name, Args: append([]string{name}, arg...)}
	if p, err := LookPath(name); err != nil {
		c.lookErr, c.Err = err, err
	} else {
		c.Path = p
	}
	return c
}

// CommandContext is Command with a context that kills it.
func CommandContext(ctx context.Context, name string, arg ...string) *Cmd {
	if ctx == nil {
		panic("nil Context")
	}
	c := Command(name, arg...)
	c.ctx = ctx
	return c
}

// LookPath finds a program of the simulated machine.
func LookPath(file string) (string, error) {
	if w := world.W(); w != nil {
		if _, ok := w.Lookup(file); ok {
			return file, nil
		}
		for _, dir := range []string{"/usr/bin/", "/bin/"} { // the search path
			if _, ok := w.Lookup(dir + file); ok && file != "" && !strings.Contains(file, "/") {
				return dir + file, nil
			}
		}
	}
	return "", &Error{Name: file, Err: notFound(file)}
}

// notFound is why there is no such program.
func notFound(file string) error {
	if !strings.Contains(file, "/") {
		return real.ErrNotFound
	}
	if w := world.W(); w != nil && w.FS.Get(file) != nil {
		return fs.ErrPermission
	}
	return &realos.PathError{Op: "stat", Path: file, Err: syscall.ENOENT}
}

func noPipe() error {
	if rt.Fault("pipe-error", world.W().PipeErr, 1) > 0 {
		return realos.NewSyscallError("pipe2", syscall.EMFILE)
	}
	return nil
}

func (c *Cmd) String() string {
	s := c.Path
	for i, a := range c.Args {
		if i > 0 {
			s += " " + a
		}
	}
	return s
}

// Environ is the command's environment.
func (c *Cmd) Environ() []string {
	if c.Env != nil {
		return c.Env
	}
	return os.Environ()
}

func (c *Cmd) StdinPipe() (io.WriteCloser, error) {
	if c.Stdin != nil || c.pipes[0] != nil {
		return nil, errors.New("exec: Stdin already set")
	}
	if c.Process != nil {
		return nil, errors.New("exec: StdinPipe after process started")
	}
	if err := noPipe(); err != nil {
		return nil, err
	}
	w := world.W()
	c.pipes[0] = world.NewPipe("child-stdin", w.PipeCap)
	f := os.Wrap(w.PipeWriter(c.pipes[0]))
	c.parentEnds = append(c.parentEnds, f)
	return &closeOnce{File: f}, nil
}

type closeOnce struct {
	*os.File
	done bool
	err  error
}

func (c *closeOnce) Close() error {
	if !c.done {
		c.done = true
		c.err = c.File.Close()
	}
	return c.err
}

func (c *Cmd) outPipe(i int, name string) (io.ReadCloser, error) {
	if c.pipes[i] != nil || (i == 1 && c.Stdout != nil) || (i == 2 && c.Stderr != nil) {
		return nil, errors.New("exec: " + name + " already set")
	}
	if c.Process != nil {
		return nil, errors.New("exec: " + name + "Pipe after process started")
	}
	if err := noPipe(); err != nil {
		return nil, err
	}
	w := world.W()
	c.pipes[i] = world.NewPipe("child-"+name, w.PipeCap)
	f := os.Wrap(w.PipeReader(c.pipes[i]))
	c.parentEnds = append(c.parentEnds, f)
	return f, nil
}

func (c *Cmd) StdoutPipe() (io.ReadCloser, error) { return c.outPipe(1, "Stdout") }
func (c *Cmd) StderrPipe() (io.ReadCloser, error) { return c.outPipe(2, "Stderr") }

func (c *Cmd) closeParents() {
	for _, f := range c.parentEnds {
		f.Close()
	}
}

// Start starts the command.
func (c *Cmd) Start() error {
	rt.Sync("fork", nil)
	if c.Process != nil || c.started {
		return errors.New("exec: already started")
	}
	w := world.W()
	var s *world.Script
	var err error
	switch {
	case c.Path == "" && c.lookErr == nil && c.Err == nil:
		err = errors.New("exec: no command")
	case c.lookErr != nil:
		err = c.lookErr
	case c.Err != nil:
		err = c.Err
	default:
		var ok bool
		if s, ok = w.Lookup(c.Path); !ok {
			err = &Error{Name: c.Path, Err: notFound(c.Path)}
		} else if k := rt.Fault("fork-error", w.ForkErr, 5); k > 0 {
			err = &realos.PathError{Op: "fork/exec", Path: c.Path, Err: []error{syscall.EAGAIN, syscall.EACCES, syscall.ENOENT, syscall.ENOMEM, syscall.ENOEXEC}[k-1]}
		}
	}
	if err == nil && c.ctx != nil && c.ctx.Err() != nil {
		err = c.ctx.Err()
	}
	if err != nil {
		c.closeParents()
		return err
	}
	c.started = true
	// streams given as readers and writers: copied by tasks, as the real package does
	if c.Stdin != nil {
		if f, ok := c.Stdin.(*os.File); ok {
			c.inherit(f)
		} else {
			p := world.NewPipe("child-stdin", w.PipeCap)
			c.pipes[0] = p
			pw := os.Wrap(w.PipeWriter(p))
			in := c.Stdin
			c.copiers = append(c.copiers, func() error {
				_, err := io.Copy(pw, in)
				if errors.Is(err, syscall.EPIPE) {
					err = nil
				}
				pw.Close()
				return err
			})
		}
	}
	outs := [2]io.Writer{c.Stdout, c.Stderr}
	for i := range outs {
		if outs[i] == nil {
			continue
		}
		if i == 1 && c.Stderr == c.Stdout && c.pipes[1] != nil {
			c.pipes[2] = c.pipes[1]
			c.pipes[1].AddWriter()
			continue
		}
		p := world.NewPipe("child-out", w.PipeCap)
		c.pipes[i+1] = p
		pr := os.Wrap(w.PipeReader(p))
		out := outs[i]
		c.copiers = append(c.copiers, func() error { _, err := io.Copy(out, pr); pr.Close(); return err })
	}
	p := w.Spawn(c.Args, s, c.pipes[0], c.pipes[1], c.pipes[2])
	c.Process = &os.Process{Pid: p.Pid, P: p}
	for _, f := range c.copiers {
		f := f
		c.copyWG.Add(1)
		rt.Go(func() {
			if err := f(); err != nil {
				c.copyErr = append(c.copyErr, err)
			}
			c.copyWG.Done()
		})
	}
	if c.ctx != nil && c.ctx.Done() != nil {
		c.ctxDone = rt.MadeChan(make(chan struct{}))
		rt.Go(func() {
			if rt.Select(false, rt.RecvCase(c.ctx.Done()), rt.RecvCase((<-chan struct{})(c.ctxDone))) == 0 {
				if c.Cancel != nil {
					c.Cancel()
				} else {
					c.Process.Kill()
				}
			}
		})
	}
	return nil
}

// inherit gives the child the process's own standard input.
func (c *Cmd) inherit(f *os.File) {
	if wf := f.World(); wf != nil {
		c.pipes[0] = wf.SharePipe()
	}
}

// Wait waits for the command to exit; it closes the parent's pipe ends.
func (c *Cmd) Wait() error {
	if c.Process == nil {
		return errors.New("exec: not started")
	}
	if c.finished {
		return errors.New("exec: Wait was already called")
	}
	c.finished = true
	st, err := c.Process.Wait()
	if c.ctxDone != nil {
		rt.Close(c.ctxDone)
	}
	if err == nil && !st.Success() {
		err = &ExitError{ProcessState: st}
	}
	c.ProcessState = st
	c.copyWG.Wait()
	if err == nil && len(c.copyErr) > 0 {
		err = c.copyErr[0]
	}
	c.closeParents()
	return err
}

// Run starts the command and waits.
func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}

// Output runs the command and returns its standard output.
func (c *Cmd) Output() ([]byte, error) {
	var b bytes.Buffer
	c.Stdout = &b
	err := c.Run()
	return b.Bytes(), err
}

// CombinedOutput runs the command and returns both outputs.
func (c *Cmd) CombinedOutput() ([]byte, error) {
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	err := c.Run()
	return b.Bytes(), err
}
