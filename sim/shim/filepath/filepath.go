// Package filepath is path/filepath over the simulated file system.
package filepath

import (
	"errors"
	"io/fs"
	"path"
	real "path/filepath"
	"sort"
	"strings"

	"simverif/shim/os"
)

const (
	Separator     = real.Separator
	ListSeparator = real.ListSeparator
)

var (
	ErrBadPattern = real.ErrBadPattern
	SkipDir       = real.SkipDir
	SkipAll       = real.SkipAll
)

type WalkFunc = real.WalkFunc

func Base(p string) string                     { return real.Base(p) }
func Clean(p string) string                    { return real.Clean(p) }
func Dir(p string) string                      { return real.Dir(p) }
func Ext(p string) string                      { return real.Ext(p) }
func FromSlash(p string) string                { return real.FromSlash(p) }
func ToSlash(p string) string                  { return real.ToSlash(p) }
func HasPrefix(p, prefix string) bool          { return strings.HasPrefix(p, prefix) }
func IsAbs(p string) bool                      { return real.IsAbs(p) }
func IsLocal(p string) bool                    { return real.IsLocal(p) }
func Join(e ...string) string                  { return real.Join(e...) }
func Localize(p string) (string, error)        { return real.Localize(p) }
func Match(pattern, name string) (bool, error) { return real.Match(pattern, name) }
func Rel(base, target string) (string, error)  { return real.Rel(base, target) }
func Split(p string) (dir, file string)        { return real.Split(p) }
func SplitList(p string) []string              { return real.SplitList(p) }
func VolumeName(p string) string               { return real.VolumeName(p) }

func Abs(p string) (string, error) {
	if IsAbs(p) {
		return Clean(p), nil
	}
	wd, err := os.Getwd()
	if err != nil {
		return "", err
	}
	return Join(wd, p), nil
}

// EvalSymlinks follows the links of the last element; the simulated directories are no links.
func EvalSymlinks(p string) (string, error) {
	for i := 0; i < 255; i++ {
		fi, err := os.Lstat(p)
		if err != nil {
			return "", err
		}
		if fi.Mode()&fs.ModeSymlink == 0 {
			return Clean(p), nil
		}
		to, err := os.Readlink(p)
		if err != nil {
			return "", err
		}
		if !IsAbs(to) {
			to = Join(Dir(p), to)
		}
		p = to
	}
	return "", errors.New("EvalSymlinks: too many links")
}

func hasMeta(p string) bool { return strings.ContainsAny(p, `*?[\`) }

func Glob(pattern string) (matches []string, err error) {
	if _, err := Match(pattern, ""); err != nil {
		return nil, err
	}
	if !hasMeta(pattern) {
		if _, err := os.Lstat(pattern); err != nil {
			return nil, nil
		}
		return []string{pattern}, nil
	}
	dir, file := Split(pattern)
	switch dir {
	case "":
		dir = "."
	case "/":
	default:
		dir = dir[:len(dir)-1]
	}
	dirs := []string{dir}
	if hasMeta(dir) {
		if dir == pattern {
			return nil, ErrBadPattern
		}
		if dirs, err = Glob(dir); err != nil {
			return nil, err
		}
	}
	for _, d := range dirs {
		es, err := os.ReadDir(d)
		if err != nil {
			continue
		}
		var names []string
		for _, e := range es {
			names = append(names, e.Name())
		}
		sort.Strings(names)
		for _, n := range names {
			ok, err := Match(file, n)
			if err != nil {
				return matches, err
			}
			if ok {
				matches = append(matches, Join(d, n))
			}
		}
	}
	return matches, nil
}

func Walk(root string, fn WalkFunc) error {
	return WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if d == nil {
			return fn(p, nil, err)
		}
		fi, e := d.Info()
		if err == nil {
			err = e
		}
		return fn(p, fi, err)
	})
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	fi, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, fs.FileInfoToDirEntry(fi), fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func walk(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	es, err := os.ReadDir(p)
	if err != nil {
		if err = fn(p, d, err); err != nil {
			if err == SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, e := range es {
		if err := walk(path.Join(p, e.Name()), e, fn); err != nil {
			if err == SkipDir {
				break
			}
			return err
		}
	}
	return nil
}
