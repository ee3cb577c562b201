// Package filepath is the simulated replacement of path/filepath: the
// functions that look at the file system use the simulated one.
package filepath

import (
	"io/fs"
	"path"
	real "path/filepath"
	"sort"
	"strings"
	"syscall"

	"verifsim/shim/os"
)

const (
	Separator     = '/'
	ListSeparator = ':'
)

var (
	ErrBadPattern = real.ErrBadPattern
	SkipAll       = fs.SkipAll
	SkipDir       = fs.SkipDir

	Base       = real.Base
	Clean      = real.Clean
	Dir        = real.Dir
	Ext        = real.Ext
	FromSlash  = real.FromSlash
	HasPrefix  = strings.HasPrefix
	IsAbs      = real.IsAbs
	IsLocal    = real.IsLocal
	Localize   = real.Localize
	Match      = real.Match
	Rel        = real.Rel
	Split      = real.Split
	SplitList  = real.SplitList
	ToSlash    = real.ToSlash
	VolumeName = real.VolumeName
)

type WalkFunc = real.WalkFunc

func Join(elem ...string) string { return real.Join(elem...) }

func Abs(p string) (string, error) {
	if path.IsAbs(p) {
		return Clean(p), nil
	}
	wd, err := os.Getwd()
	if err != nil {
		return "", err
	}
	return Join(wd, p), nil
}

func EvalSymlinks(p string) (string, error) {
	abs := path.IsAbs(p)
	parts := strings.Split(p, "/")
	res := ""
	if abs {
		res = "/"
	}
	for n := 0; len(parts) > 0; {
		c := parts[0]
		parts = parts[1:]
		if c == "" || c == "." {
			continue
		}
		if c == ".." {
			res = path.Join(res, "..")
			continue
		}
		next := path.Join(res, c)
		i, err := os.Lstat(next)
		if err != nil {
			return "", err
		}
		if i.Mode()&fs.ModeSymlink == 0 {
			if len(parts) > 0 && !i.IsDir() {
				return "", &fs.PathError{Op: "lstat", Path: next, Err: syscall.ENOTDIR}
			}
			res = next
			continue
		}
		if n++; n > 255 {
			return "", &fs.PathError{Op: "EvalSymlinks", Path: p, Err: syscall.ELOOP}
		}
		t, err := os.Readlink(next)
		if err != nil {
			return "", err
		}
		if path.IsAbs(t) {
			res = "/"
		}
		parts = append(strings.Split(t, "/"), parts...)
	}
	if res == "" {
		res = "."
	}
	return res, nil
}

func Glob(pattern string) ([]string, error) {
	if _, err := Match(pattern, ""); err != nil {
		return nil, err
	}
	if !strings.ContainsAny(pattern, "*?[\\") {
		if _, err := os.Lstat(pattern); err != nil {
			return nil, nil
		}
		return []string{pattern}, nil
	}
	dir, file := Split(pattern)
	if dir == "" {
		dir = "."
	} else if dir != "/" {
		dir = strings.TrimSuffix(dir, "/")
	}
	dirs := []string{dir}
	if strings.ContainsAny(dir, "*?[\\") {
		var err error
		dirs, err = Glob(dir)
		if err != nil {
			return nil, err
		}
	}
	var r []string
	for _, d := range dirs {
		es, err := os.ReadDir(d)
		if err != nil {
			continue
		}
		for _, e := range es {
			if ok, _ := Match(file, e.Name()); ok {
				r = append(r, Join(d, e.Name()))
			}
		}
	}
	return r, nil
}

func Walk(root string, fn WalkFunc) error {
	i, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, i, fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func walk(p string, info fs.FileInfo, fn WalkFunc) error {
	if !info.IsDir() {
		return fn(p, info, nil)
	}
	var names []string
	f, err := os.Open(p)
	if err == nil {
		names, err = f.Readdirnames(-1)
		f.Close()
		sort.Strings(names)
	}
	err1 := fn(p, info, err)
	if err != nil || err1 != nil {
		return err1
	}
	for _, n := range names {
		fp := Join(p, n)
		i, err := os.Lstat(fp)
		if err != nil {
			if err := fn(fp, nil, err); err != nil && err != SkipDir {
				return err
			}
			continue
		}
		err = walk(fp, i, fn)
		if err != nil {
			if !i.IsDir() || err != SkipDir {
				return err
			}
		}
	}
	return nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	return Walk(root, func(p string, info fs.FileInfo, err error) error {
		var d fs.DirEntry
		if info != nil {
			d = fs.FileInfoToDirEntry(info)
		}
		return fn(p, d, err)
	})
}
