// Package os is the simulated counterpart of os: files, streams, processes and
// exit are those of the simulated machine. Nothing here reaches the real system.
package os

import (
	"errors"
	"io"
	"io/fs"
	real "os"
	"path"
	"sort"
	"syscall"
	"time"

	"simverif/rt"
	"simverif/world"
)

// File is an open file of the simulated machine.
type File struct {
	std int // 1..3: the standard streams, looked up per run
	f   *world.File
}

var (
	Stdin  = &File{std: 1}
	Stdout = &File{std: 2}
	Stderr = &File{std: 3}
)

// Args is the command line of the process under test; set by Reset.
var Args = []string{"monny"}

// Reset prepares the package for a run.
func Reset(args []string) {
	Stdin, Stdout, Stderr = &File{std: 1}, &File{std: 2}, &File{std: 3}
	Args = append([]string{}, args...)
}

// Wrap makes a File of a simulated descriptor.
func Wrap(f *world.File) *File { return &File{f: f} }

// World returns the simulated descriptor behind f.
func (f *File) World() *world.File {
	if f == nil {
		return nil
	}
	if f.std == 0 {
		return f.f
	}
	w := world.W()
	if w == nil {
		return nil
	}
	switch f.std {
	case 1:
		return w.Stdin
	case 2:
		return w.Stdout
	}
	return w.Stderr
}

func (f *File) err(op string, err error) error {
	if err == nil || err == io.EOF {
		return err
	}
	if world.ErrClosed(err) {
		err = real.ErrClosed
	}
	return &real.PathError{Op: op, Path: f.Name(), Err: err}
}

func (f *File) Name() string {
	if w := f.World(); w != nil {
		return w.Nm
	}
	return "?"
}

func (f *File) Read(b []byte) (int, error) {
	w := f.World()
	if w == nil {
		return 0, real.ErrInvalid
	}
	n, err := w.Read(b)
	return n, f.err("read", err)
}

func (f *File) Write(b []byte) (int, error) {
	w := f.World()
	if w == nil {
		return len(b), nil // outside a run: package initialisation output is dropped
	}
	n, err := w.Write(b)
	if err == syscall.EPIPE && f.std > 1 && !world.W().BrokenStd() {
		rt.KillSelf()
	}
	return n, f.err("write", err)
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Close() error {
	w := f.World()
	if w == nil {
		return real.ErrInvalid
	}
	return f.err("close", w.Close())
}

func (f *File) Sync() error                     { rt.Y(); return nil }
func (f *File) Fd() uintptr                     { return uintptr(f.std) }
func (f *File) Chmod(real.FileMode) error       { return nil }
func (f *File) SetDeadline(time.Time) error     { return real.ErrNoDeadline }
func (f *File) SetReadDeadline(time.Time) error { return real.ErrNoDeadline }

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	return 0, f.err("read", syscall.ESPIPE)
}

func (f *File) Seek(int64, int) (int64, error) { return 0, f.err("seek", syscall.ESPIPE) }

type info struct {
	name string
	size int64
	mode fs.FileMode
	mt   time.Time
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return i.size }
func (i info) Mode() fs.FileMode  { return i.mode }
func (i info) ModTime() time.Time { return i.mt }
func (i info) IsDir() bool        { return i.mode.IsDir() }
func (i info) Sys() any           { return nil }

func (f *File) Stat() (real.FileInfo, error) {
	w := f.World()
	if w == nil {
		return nil, real.ErrInvalid
	}
	rt.Sync("fstat", nil)
	if f.std == 1 && world.W().StdinStat {
		rt.Stat("fault.stdin-stat")
		return nil, f.err("stat", syscall.EIO)
	}
	return info{path.Base(w.Nm), w.Len(), w.Mode(), w.Mtime()}, nil
}

// --- paths ---------------------------------------------------------------------

func pathErr(op, p string, err error) error {
	if err == nil {
		return nil
	}
	return &real.PathError{Op: op, Path: p, Err: err}
}

func OpenFile(name string, flag int, perm real.FileMode) (*File, error) {
	f, err := world.W().Open(name, flag)
	if err != nil {
		return nil, pathErr("open", name, err)
	}
	return &File{f: f}, nil
}

func Open(name string) (*File, error) { return OpenFile(name, real.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, real.O_RDWR|real.O_CREATE|real.O_TRUNC, 0o666)
}

func Stat(name string) (real.FileInfo, error) {
	n, err := world.W().Stat(name)
	if err != nil {
		return nil, pathErr("stat", name, err)
	}
	return info{path.Base(name), n.Len(), n.Mode, n.Mtime}, nil
}

func Lstat(name string) (real.FileInfo, error) {
	n, err := world.W().Lstat(name)
	if err != nil {
		return nil, pathErr("lstat", name, err)
	}
	return info{path.Base(name), n.Len(), n.Mode, n.Mtime}, nil
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm real.FileMode) error {
	f, err := Create(name)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}

func Remove(name string) error {
	rt.Sync("unlink", nil)
	if world.W().FS.Get(name) == nil {
		return pathErr("remove", name, syscall.ENOENT)
	}
	world.W().FS.Del(name)
	return nil
}

func RemoveAll(name string) error {
	rt.Sync("unlink", nil)
	world.W().FS.Del(name)
	return nil
}

func Rename(a, b string) error {
	rt.Sync("rename", nil)
	n := world.W().FS.Get(a)
	if n == nil {
		return pathErr("rename", a, syscall.ENOENT)
	}
	world.W().FS.Del(a)
	world.W().FS.Put(b, n)
	return nil
}

func Mkdir(name string, perm real.FileMode) error {
	rt.Sync("mkdir", nil)
	world.W().FS.Put(name, &world.Node{Mode: fs.ModeDir | perm, Mtime: rt.Now()})
	return nil
}

func MkdirAll(name string, perm real.FileMode) error { return Mkdir(name, perm) }
func TempDir() string                                { return "/tmp" }
func Getwd() (string, error)                         { return world.Cwd, nil }
func Chdir(string) error                             { return nil }

// --- the process ---------------------------------------------------------------

func Exit(code int) {
	w := world.W()
	if w == nil {
		panic("os.Exit outside a simulated run")
	}
	rt.Sync("exit", nil)
	w.Exit(code)
}

func Getenv(k string) string {
	if w := world.W(); w != nil {
		return w.Env[k]
	}
	return ""
}

func LookupEnv(k string) (string, bool) {
	if w := world.W(); w != nil {
		v, ok := w.Env[k]
		return v, ok
	}
	return "", false
}

func Setenv(k, v string) error {
	if w := world.W(); w != nil {
		w.Env[k] = v
	}
	return nil
}

func Unsetenv(k string) error {
	if w := world.W(); w != nil {
		delete(w.Env, k)
	}
	return nil
}

func Environ() []string {
	var out []string
	if w := world.W(); w != nil {
		for k, v := range w.Env {
			out = append(out, k+"="+v)
		}
	}
	sort.Strings(out)
	return out
}

func ExpandEnv(s string) string { return real.Expand(s, Getenv) }

func Hostname() (string, error) {
	w := world.W()
	if w.HostErr {
		rt.Stat("fault.hostname")
		return "", errors.New("hostname: not available")
	}
	return w.Host, nil
}

func Getpid() int  { return world.W().Pid }
func Getppid() int { return 1 }
func Getuid() int  { return 1000 }
func Geteuid() int { return 1000 }
func Getgid() int  { return 1000 }
func Executable() (string, error) {
	return "/usr/bin/monny", nil
}
func UserHomeDir() (string, error) { return Getenv("HOME"), nil }

// Process is a simulated process.
type Process struct {
	Pid int
	P   *world.Proc
	// Waited: the process has been reaped through this handle
	Waited bool
}

func FindProcess(pid int) (*Process, error) {
	return &Process{Pid: pid, P: world.W().FindProc(pid)}, nil
}

func (p *Process) Signal(sig real.Signal) error {
	rt.Sync("kill", nil)
	s, ok := sig.(syscall.Signal)
	if !ok {
		return errors.New("os: unsupported signal type")
	}
	if p.Waited || p.P == nil || p.P.Reaped {
		return real.ErrProcessDone
	}
	p.P.Signal(s, "monny")
	return nil
}

func (p *Process) Kill() error    { return p.Signal(real.Kill) }
func (p *Process) Release() error { return nil }

func (p *Process) Wait() (*ProcessState, error) {
	if p.Waited || p.P == nil {
		return nil, real.NewSyscallError("wait", syscall.ECHILD)
	}
	st := p.P.Wait()
	p.Waited = true
	return &ProcessState{pid: p.Pid, status: st, p: p.P}, nil
}

// ProcessState describes an ended process.
type ProcessState struct {
	pid    int
	status syscall.WaitStatus
	p      *world.Proc
}

func (p *ProcessState) Pid() int                  { return p.pid }
func (p *ProcessState) Exited() bool              { return p.status.Exited() }
func (p *ProcessState) Success() bool             { return p.status.ExitStatus() == 0 }
func (p *ProcessState) Sys() any                  { return p.status }
func (p *ProcessState) SysUsage() any             { return &syscall.Rusage{Maxrss: int64(p.p.MaxMem)} }
func (p *ProcessState) UserTime() time.Duration   { return 0 }
func (p *ProcessState) SystemTime() time.Duration { return 0 }
func (p *ProcessState) ExitCode() int {
	if p == nil {
		return -1
	}
	return p.status.ExitStatus()
}

func (p *ProcessState) String() string {
	if p == nil {
		return "<nil>"
	}
	switch {
	case p.status.Exited():
		return "exit status " + itoa(p.status.ExitStatus())
	case p.status.Signaled():
		return "signal: " + p.status.Signal().String()
	}
	return "?"
}

func itoa(n int) string {
	if n < 0 {
		return "-" + itoa(-n)
	}
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + string(rune('0'+n%10))
}
