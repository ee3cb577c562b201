// Package os is the simulated replacement of the standard os package.
package os

import (
	"errors"
	"io"
	"io/fs"
	real "os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"verifsim/simk"
)

const (
	O_RDONLY = real.O_RDONLY
	O_WRONLY = real.O_WRONLY
	O_RDWR   = real.O_RDWR
	O_APPEND = real.O_APPEND
	O_CREATE = real.O_CREATE
	O_EXCL   = real.O_EXCL
	O_SYNC   = real.O_SYNC
	O_TRUNC  = real.O_TRUNC

	SEEK_SET = 0
	SEEK_CUR = 1
	SEEK_END = 2

	PathSeparator     = '/'
	PathListSeparator = ':'
	DevNull           = "/dev/null"

	ModeDir        = fs.ModeDir
	ModeAppend     = fs.ModeAppend
	ModeExclusive  = fs.ModeExclusive
	ModeTemporary  = fs.ModeTemporary
	ModeSymlink    = fs.ModeSymlink
	ModeDevice     = fs.ModeDevice
	ModeNamedPipe  = fs.ModeNamedPipe
	ModeSocket     = fs.ModeSocket
	ModeSetuid     = fs.ModeSetuid
	ModeSetgid     = fs.ModeSetgid
	ModeCharDevice = fs.ModeCharDevice
	ModeSticky     = fs.ModeSticky
	ModeIrregular  = fs.ModeIrregular
	ModeType       = fs.ModeType
	ModePerm       = fs.ModePerm
)

var (
	ErrInvalid          = fs.ErrInvalid
	ErrPermission       = fs.ErrPermission
	ErrExist            = fs.ErrExist
	ErrNotExist         = fs.ErrNotExist
	ErrClosed           = fs.ErrClosed
	ErrNoDeadline       = real.ErrNoDeadline
	ErrDeadlineExceeded = real.ErrDeadlineExceeded
	ErrProcessDone      = real.ErrProcessDone
	Interrupt           = real.Interrupt
	Kill                = real.Kill
)

type (
	DirEntry     = fs.DirEntry
	FileInfo     = fs.FileInfo
	FileMode     = fs.FileMode
	PathError    = fs.PathError
	LinkError    = real.LinkError
	SyscallError = real.SyscallError
	Signal       = real.Signal
	ProcessState = simk.ProcessState
	Process      = simk.Process
)

// File is an open file of the simulated machine, or a standard stream of the
// process that uses it.
type File struct {
	h    *simk.Handle
	std  int // 1 stdin, 2 stdout, 3 stderr
	name string
}

var (
	Stdin  = &File{std: 1, name: "/dev/stdin"}
	Stdout = &File{std: 2, name: "/dev/stdout"}
	Stderr = &File{std: 3, name: "/dev/stderr"}
)

var noArgs = []string{"sim"}

// SimArgs is the running process's os.Args.
func SimArgs() *[]string {
	if p := simk.Cur(); p != nil {
		return &p.Args
	}
	return &noArgs
}

func perr(op, name string, err error) error {
	if err == nil || err == io.EOF {
		return err
	}
	return &PathError{Op: op, Path: name, Err: err}
}

func Open(name string) (*File, error) { return OpenFile(name, O_RDONLY, 0) }

func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	h, err := simk.Must().Open(name, flag, perm)
	if err != nil {
		return nil, perr("open", name, err)
	}
	return &File{h: h, name: name}, nil
}

func NewFile(fd uintptr, name string) *File {
	switch fd {
	case 0:
		return Stdin
	case 1:
		return Stdout
	case 2:
		return Stderr
	}
	return nil
}

func (f *File) Name() string { return f.name }

func (f *File) Fd() uintptr {
	if f.std > 0 {
		return uintptr(f.std - 1)
	}
	return 10
}

func (f *File) Read(b []byte) (int, error) {
	if f == nil {
		return 0, ErrInvalid
	}
	if f.std > 0 {
		p := simk.Must()
		if f.std != 1 {
			return 0, perr("read", f.name, syscall.EBADF)
		}
		n, err := p.ReadStream(p.Stdin, b)
		return n, perr("read", f.name, err)
	}
	n, err := f.h.Read(b)
	return n, perr("read", f.name, err)
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if f == nil || f.h == nil {
		return 0, ErrInvalid
	}
	old := f.h.Pos()
	f.h.SetPos(off)
	n, err := io.ReadFull(readerOnly{f}, b)
	f.h.SetPos(old)
	if err == io.ErrUnexpectedEOF {
		err = io.EOF
	}
	return n, err
}

type readerOnly struct{ f *File }

func (r readerOnly) Read(b []byte) (int, error) { return r.f.Read(b) }

func (f *File) Write(b []byte) (int, error) {
	if f == nil {
		return 0, ErrInvalid
	}
	if f.std > 0 {
		p := simk.Must()
		var n int
		var err error
		switch f.std {
		case 2:
			n, err = p.WriteStream(p.Stdout, b)
		case 3:
			n, err = p.WriteStream(p.Stderr, b)
		default:
			err = syscall.EBADF
		}
		return n, perr("write", f.name, err)
	}
	n, err := f.h.Write(b)
	return n, perr("write", f.name, err)
}

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if f == nil || f.h == nil {
		return 0, ErrInvalid
	}
	old := f.h.Pos()
	f.h.SetPos(off)
	n, err := f.Write(b)
	f.h.SetPos(old)
	return n, err
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(writerOnlyF{f}, r)
}

type writerOnlyF struct{ f *File }

func (w writerOnlyF) Write(b []byte) (int, error) { return w.f.Write(b) }

func (f *File) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, readerOnly{f})
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if f == nil || f.h == nil {
		return 0, ErrInvalid
	}
	n, err := f.h.Seek(off, whence)
	return n, perr("seek", f.name, err)
}

func (f *File) Close() error {
	if f == nil {
		return ErrInvalid
	}
	if f.std > 0 {
		if f.std == 1 {
			return nil
		}
		return perr("close", f.name, simk.Must().Syscall("close", f.name))
	}
	return perr("close", f.name, f.h.Close())
}

func (f *File) Sync() error {
	if f == nil {
		return ErrInvalid
	}
	if f.std > 0 {
		return perr("sync", f.name, syscall.EINVAL)
	}
	return perr("sync", f.name, f.h.Sync())
}

func (f *File) Stat() (FileInfo, error) {
	if f == nil {
		return nil, ErrInvalid
	}
	if f.std > 0 {
		return &simk.Info{N: f.name, M: fs.ModeNamedPipe | 0600}, nil
	}
	i, err := f.h.Stat()
	if err != nil {
		return nil, perr("stat", f.name, err)
	}
	return i, nil
}

func (f *File) Truncate(n int64) error {
	if f == nil || f.h == nil {
		return ErrInvalid
	}
	return perr("truncate", f.name, f.h.Truncate(n))
}

func (f *File) Chmod(m FileMode) error {
	if f == nil || f.h == nil {
		return ErrInvalid
	}
	return perr("chmod", f.name, f.h.Chmod(m))
}

func (f *File) Chown(uid, gid int) error {
	return perr("chown", f.name, simk.Must().Syscall("chown", f.name))
}
func (f *File) Chdir() error {
	if f == nil || f.h == nil {
		return ErrInvalid
	}
	simk.Must().Cwd = f.h.Path
	return nil
}
func (f *File) SetDeadline(t time.Time) error      { return ErrNoDeadline }
func (f *File) SetReadDeadline(t time.Time) error  { return ErrNoDeadline }
func (f *File) SetWriteDeadline(t time.Time) error { return ErrNoDeadline }
func (f *File) SyscallConn() (syscall.RawConn, error) {
	return nil, errors.New("not supported by the simulator")
}

func (f *File) ReadDir(n int) ([]DirEntry, error) {
	if f == nil || f.h == nil {
		return nil, ErrInvalid
	}
	is, err := f.h.ReadDir(n)
	var r []DirEntry
	for _, i := range is {
		r = append(r, i)
	}
	return r, perr("readdirent", f.name, err)
}

func (f *File) Readdir(n int) ([]FileInfo, error) {
	if f == nil || f.h == nil {
		return nil, ErrInvalid
	}
	is, err := f.h.ReadDir(n)
	var r []FileInfo
	for _, i := range is {
		r = append(r, i)
	}
	return r, perr("readdirent", f.name, err)
}

func (f *File) Readdirnames(n int) ([]string, error) {
	if f == nil || f.h == nil {
		return nil, ErrInvalid
	}
	is, err := f.h.ReadDir(n)
	var r []string
	for _, i := range is {
		r = append(r, i.Name())
	}
	return r, perr("readdirent", f.name, err)
}

func ReadDir(name string) ([]DirEntry, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	es, err := f.ReadDir(-1)
	sort.Slice(es, func(i, j int) bool { return es[i].Name() < es[j].Name() })
	return es, err
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func Stat(name string) (FileInfo, error) {
	i, err := simk.Must().Stat(name, true)
	if err != nil {
		return nil, perr("stat", name, err)
	}
	return i, nil
}

func Lstat(name string) (FileInfo, error) {
	i, err := simk.Must().Stat(name, false)
	if err != nil {
		return nil, perr("lstat", name, err)
	}
	return i, nil
}

func SameFile(a, b FileInfo) bool {
	x, ok1 := a.(*simk.Info)
	y, ok2 := b.(*simk.Info)
	return ok1 && ok2 && x.In == y.In
}

func Mkdir(name string, perm FileMode) error {
	return perr("mkdir", name, simk.Must().Mkdir(name, perm))
}

func MkdirAll(p string, perm FileMode) error {
	if i, err := Stat(p); err == nil {
		if i.IsDir() {
			return nil
		}
		return perr("mkdir", p, syscall.ENOTDIR)
	}
	if d := path.Dir(path.Clean(p)); d != p && d != "." && d != "/" {
		if err := MkdirAll(d, perm); err != nil {
			return err
		}
	}
	err := Mkdir(p, perm)
	if err != nil && IsExist(err) {
		return nil
	}
	return err
}

func tempPattern(pattern string) (string, string) {
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		return pattern[:i], pattern[i+1:]
	}
	return pattern, ""
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = TempDir()
	}
	a, b := tempPattern(pattern)
	for try := 0; ; try++ {
		name := dir + "/" + a + simk.Must().K.TempName() + b
		err := Mkdir(name, 0700)
		if err == nil || !IsExist(err) || try == 100 {
			return name, err
		}
	}
}

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = TempDir()
	}
	a, b := tempPattern(pattern)
	for try := 0; ; try++ {
		name := dir + "/" + a + simk.Must().K.TempName() + b
		f, err := OpenFile(name, O_RDWR|O_CREATE|O_EXCL, 0600)
		if err == nil || !IsExist(err) || try == 100 {
			return f, err
		}
	}
}

func Remove(name string) error { return perr("remove", name, simk.Must().Unlink(name)) }

func RemoveAll(p string) error {
	i, err := Lstat(p)
	if err != nil {
		if IsNotExist(err) {
			return nil
		}
		return err
	}
	if i.IsDir() {
		es, err := ReadDir(p)
		if err != nil {
			return err
		}
		for _, e := range es {
			if err := RemoveAll(p + "/" + e.Name()); err != nil {
				return err
			}
		}
	}
	return Remove(p)
}

func lerr(op, a, b string, err error) error {
	if err == nil {
		return nil
	}
	return &LinkError{Op: op, Old: a, New: b, Err: err}
}

func Rename(a, b string) error  { return lerr("rename", a, b, simk.Must().Rename(a, b)) }
func Link(a, b string) error    { return lerr("link", a, b, simk.Must().LinkTo(a, b)) }
func Symlink(a, b string) error { return lerr("symlink", a, b, simk.Must().Symlink(a, b)) }

func Readlink(name string) (string, error) {
	s, err := simk.Must().Readlink(name)
	return s, perr("readlink", name, err)
}

func Chmod(name string, mode FileMode) error {
	return perr("chmod", name, simk.Must().Attr("chmod", name, func(in *simk.Inode) { in.SetPerm(mode) }))
}

func Chown(name string, uid, gid int) error {
	return perr("chown", name, simk.Must().Attr("chown", name, func(in *simk.Inode) {}))
}

func Lchown(name string, uid, gid int) error { return Chown(name, uid, gid) }

func Chtimes(name string, a, m time.Time) error {
	return perr("chtimes", name, simk.Must().Attr("chtimes", name, func(in *simk.Inode) {}))
}

func Truncate(name string, n int64) error {
	return perr("truncate", name, simk.Must().Attr("truncate", name, func(in *simk.Inode) { in.Resize(n) }))
}

func Getwd() (string, error) { return simk.Must().Cwd, nil }

func Chdir(dir string) error {
	p := simk.Must()
	i, err := p.Stat(dir, true)
	if err == nil && !i.IsDir() {
		err = syscall.ENOTDIR
	}
	if err != nil {
		return perr("chdir", dir, err)
	}
	if !strings.HasPrefix(dir, "/") {
		dir = p.Cwd + "/" + dir
	}
	p.Cwd = path.Clean(dir)
	return nil
}

func Exit(code int) { simk.Must().Exit(code) }

func env() map[string]string {
	if p := simk.Cur(); p != nil {
		return p.Env
	}
	return nil
}

func Getenv(k string) string { return env()[k] }

func LookupEnv(k string) (string, bool) {
	v, ok := env()[k]
	return v, ok
}

func Setenv(k, v string) error {
	simk.Must().Env[k] = v
	return nil
}

func Unsetenv(k string) error {
	delete(simk.Must().Env, k)
	return nil
}

func Clearenv() { simk.Must().Env = map[string]string{} }

func Environ() []string {
	var r []string
	for k, v := range env() {
		r = append(r, k+"="+v)
	}
	sort.Strings(r)
	return r
}

func Expand(s string, m func(string) string) string { return real.Expand(s, m) }
func ExpandEnv(s string) string                     { return real.Expand(s, Getenv) }
func Executable() (string, error)                   { return (*SimArgs())[0], nil }
func Getpid() int                                   { return simk.Must().Pid }
func Getppid() int                                  { return 1 }
func Getuid() int                                   { return 1000 }
func Geteuid() int                                  { return 1000 }
func Getgid() int                                   { return 1000 }
func Getegid() int                                  { return 1000 }
func Getgroups() ([]int, error)                     { return nil, nil }
func Getpagesize() int                              { return 4096 }
func Hostname() (string, error)                     { return "sim", nil }
func TempDir() string                               { return "/tmp" }
func UserHomeDir() (string, error)                  { return "/home/sim", nil }
func UserCacheDir() (string, error)                 { return "/home/sim/.cache", nil }
func UserConfigDir() (string, error)                { return "/home/sim/.config", nil }
func IsPathSeparator(c uint8) bool                  { return c == '/' }

var (
	IsExist         = real.IsExist
	IsNotExist      = real.IsNotExist
	IsPermission    = real.IsPermission
	IsTimeout       = real.IsTimeout
	NewSyscallError = real.NewSyscallError
)

type dirFS string

func (d dirFS) Open(name string) (fs.File, error) {
	f, err := Open(string(d) + "/" + name)
	if err != nil {
		return nil, err
	}
	return f, nil
}

func DirFS(dir string) fs.FS { return dirFS(dir) }

func Pipe() (*File, *File, error) {
	return nil, nil, errors.New("pipes are not supported by the simulator")
}
