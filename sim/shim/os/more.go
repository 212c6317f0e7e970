package os

import (
	"io"
	"io/fs"
	real "os"
	"strconv"
	"strings"
	"syscall"
	"time"

	"simverif/rt"
	"simverif/world"
)

// Pipe returns a connected pair of files.
func Pipe() (*File, *File, error) {
	rt.Sync("pipe", nil)
	w := world.W()
	if rt.Fault("pipe-error", w.PipeErr, 1) > 0 {
		return nil, nil, real.NewSyscallError("pipe2", syscall.EMFILE)
	}
	p := world.NewPipe("pipe", w.PipeCap)
	return &File{f: w.PipeReader(p)}, &File{f: w.PipeWriter(p)}, nil
}

// NewFile returns a standard stream.
func NewFile(fd uintptr, _ string) *File {
	switch fd {
	case 0:
		return Stdin
	case 1:
		return Stdout
	case 2:
		return Stderr
	}
	return nil
}

func (f *File) SetWriteDeadline(time.Time) error { return real.ErrNoDeadline }
func (f *File) SyscallConn() (syscall.RawConn, error) {
	return nil, f.err("SyscallConn", syscall.EINVAL)
}
func (f *File) Truncate(int64) error               { return f.err("truncate", syscall.EINVAL) }
func (f *File) WriteAt([]byte, int64) (int, error) { return 0, f.err("write", syscall.ESPIPE) }
func (f *File) Chown(int, int) error               { return nil }
func (f *File) Chdir() error                       { return nil }
func (f *File) ReadDir(int) ([]fs.DirEntry, error) { return nil, f.err("readdir", syscall.ENOTDIR) }
func (f *File) Readdir(int) ([]fs.FileInfo, error) { return nil, f.err("readdir", syscall.ENOTDIR) }
func (f *File) Readdirnames(int) ([]string, error) { return nil, f.err("readdir", syscall.ENOTDIR) }

type plainW struct{ *File }

func (plainW) ReadFrom() {}

type plainR struct{ *File }

func (plainR) WriteTo() {}

// ReadFrom copies from r.
func (f *File) ReadFrom(r io.Reader) (int64, error) { return io.Copy(plainW{f}, r) }

// WriteTo copies to w.
func (f *File) WriteTo(w io.Writer) (int64, error) { return io.Copy(w, plainR{f}) }

func temp(dir, pattern string) string {
	if dir == "" {
		dir = TempDir()
	}
	for i := 1; ; i++ {
		n := dir + "/" + pattern + strconv.Itoa(i)
		if k := strings.LastIndex(pattern, "*"); k >= 0 {
			n = dir + "/" + pattern[:k] + strconv.Itoa(i) + pattern[k+1:]
		}
		if world.W().FS.Get(n) == nil {
			return n
		}
	}
}

func CreateTemp(dir, pattern string) (*File, error) { return Create(temp(dir, pattern)) }
func MkdirTemp(dir, pattern string) (string, error) {
	n := temp(dir, pattern)
	return n, Mkdir(n, 0o700)
}

type entry struct{ info }

func (e entry) Type() fs.FileMode          { return e.mode.Type() }
func (e entry) Info() (fs.FileInfo, error) { return e.info, nil }
func (e entry) String() string             { return e.name }

func ReadDir(name string) ([]fs.DirEntry, error) {
	rt.Sync("readdir", nil)
	n, err := world.W().Follow(name)
	if err == nil && !n.Mode.IsDir() {
		err = syscall.ENOTDIR
	}
	if err != nil {
		return nil, pathErr("open", name, err)
	}
	var out []fs.DirEntry
	for _, k := range world.W().FS.In(name) {
		n := world.W().FS.Get(name + "/" + k)
		out = append(out, entry{info{k, n.Len(), n.Mode, n.Mtime}})
	}
	return out, nil
}

func exists(op, name string) error {
	rt.Sync(op, nil)
	if world.W().FS.Get(name) == nil {
		return pathErr(op, name, syscall.ENOENT)
	}
	return nil
}

func Chmod(name string, mode real.FileMode) error {
	if err := exists("chmod", name); err != nil {
		return err
	}
	world.W().FS.Get(name).Mode = mode
	return nil
}

func Chtimes(name string, _, mtime time.Time) error {
	if err := exists("chtimes", name); err != nil {
		return err
	}
	world.W().FS.Get(name).Mtime = mtime
	return nil
}

func Truncate(name string, size int64) error {
	if err := exists("truncate", name); err != nil {
		return err
	}
	n := world.W().FS.Get(name)
	for int64(len(n.Data)) < size {
		n.Data = append(n.Data, 0)
	}
	n.Data = n.Data[:size:size]
	return nil
}

func Chown(name string, _, _ int) error  { return exists("chown", name) }
func Lchown(name string, _, _ int) error { return exists("lchown", name) }
func Link(a, b string) error {
	if err := exists("link", a); err != nil {
		return err
	}
	world.W().FS.Put(b, world.W().FS.Get(a))
	return nil
}
func Symlink(a, b string) error {
	rt.Sync("symlink", nil)
	if world.W().FS.Get(b) != nil {
		return pathErr("symlink", b, syscall.EEXIST)
	}
	world.W().FS.Put(b, &world.Node{Link: a, Mtime: rt.Now()})
	return nil
}
func Readlink(name string) (string, error) {
	rt.Sync("readlink", nil)
	n := world.W().FS.Get(name)
	switch {
	case n == nil:
		return "", pathErr("readlink", name, syscall.ENOENT)
	case n.Link == "":
		return "", pathErr("readlink", name, syscall.EINVAL)
	}
	return n.Link, nil
}
func SameFile(a, b real.FileInfo) bool { return a == b }

func Clearenv() {
	if w := world.W(); w != nil {
		w.Env = map[string]string{}
	}
}
func Getegid() int                   { return 1000 }
func Getgroups() ([]int, error)      { return []int{1000}, nil }
func Getpagesize() int               { return 4096 }
func UserCacheDir() (string, error)  { return "/home/user/.cache", nil }
func UserConfigDir() (string, error) { return "/home/user/.config", nil }

// ProcAttr is kept for its type.
type ProcAttr = real.ProcAttr
