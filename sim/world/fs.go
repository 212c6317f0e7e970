package world

import (
	"io/fs"
	"path"
	"sort"
	"strings"
	"syscall"

	"simverif/rt"
)

// Cwd is the working directory of monny and its command.
const Cwd = "/work"

// Files is the file system: clean absolute paths, every parent of a file being
// a directory.
type Files struct{ m map[string]*Node }

func abs(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = Cwd + "/" + p
	}
	return path.Clean(p)
}

// Get returns what is at a path, nil for nothing.
func (f *Files) Get(p string) *Node {
	if p == "" {
		return nil
	}
	return f.m[abs(p)]
}

var root = &Node{Mode: fs.ModeDir | 0o755}

// walk looks a path up step by step, as the kernel does.
func (f *Files) walk(p string, follow bool) (*Node, error) {
	if p == "" {
		return nil, syscall.ENOENT
	}
	at := Cwd
	if p[0] == '/' {
		at = "/"
	}
	todo := strings.Split(p, "/")
	links := 0
	for {
		n := f.m[at]
		if n == nil && (at == "/" || at == Cwd) {
			n = root
		}
		if n == nil {
			return nil, syscall.ENOENT
		}
		if n.Link != "" && (follow || len(todo) > 0) {
			if links++; links > 40 {
				return nil, syscall.ELOOP
			}
			todo = append(strings.Split(n.Link, "/"), todo...)
			at = path.Dir(at)
			if n.Link[0] == '/' {
				at = "/"
			}
			continue
		}
		if len(todo) == 0 {
			return n, nil
		}
		if !n.Mode.IsDir() {
			return nil, syscall.ENOTDIR
		}
		if todo[0] != "" && todo[0] != "." {
			at = path.Join(at, todo[0])
		}
		todo = todo[1:]
	}
}

// Put puts n at a path, unless a directory is there already or a
// file is above, and makes the directories above it.
func (f *Files) Put(p string, n *Node) {
	if p == "" {
		return
	}
	if strings.HasSuffix(p, "/") {
		n = &Node{Mode: fs.ModeDir | 0o755, Mtime: n.Mtime}
	}
	k := abs(p)
	if old := f.m[k]; old != nil && old.Mode.IsDir() {
		return
	}
	for d := path.Dir(k); d != "/"; d = path.Dir(d) {
		if up := f.m[d]; up != nil && !up.Mode.IsDir() {
			return // not below a file
		}
	}
	f.m[k] = n
	for d := path.Dir(k); ; d = path.Dir(d) {
		if f.m[d] == nil {
			f.m[d] = &Node{Mode: fs.ModeDir | 0o755, Mtime: rt.Now()}
		}
		if d == "/" {
			return
		}
	}
}

// Del removes what is at a path, and all below.
func (f *Files) Del(p string) {
	if p == "" {
		return
	}
	k := abs(p)
	for q := range f.m {
		if q == k || strings.HasPrefix(q, k+"/") {
			delete(f.m, q)
		}
	}
}

// Paths lists all paths in order.
func (f *Files) Paths() []string {
	var out []string
	for k := range f.m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// In lists the names in a directory in order.
func (f *Files) In(dir string) []string {
	var out []string
	for _, k := range f.Paths() {
		if k != "/" && path.Dir(k) == abs(dir) {
			out = append(out, path.Base(k))
		}
	}
	return out
}
