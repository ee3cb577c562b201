// Package simk is the simulated operating system: an in-memory file system
// with a volatile (page cache) and a durable view, processes with their own
// arguments, standard streams and exit status, and a fault plan addressed by
// the ordinal of the operation within the process that issues it.
package simk

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"strings"
	"sync"
	"syscall"
	"time"

	"verifsim/simrt"
)

// Fault is one planned fault.
type Fault struct {
	// Proc is the name of the process that suffers it ("" for any).
	Proc string `json:"proc,omitempty"`
	// Op is the ordinal, within that process, of the operation hit.
	Op int `json:"op"`
	// Kind is one of
	//   err    the call fails; Arg picks among the errors real systems give
	//   short  a read returns fewer bytes than asked / a write stores a
	//          prefix and then fails with "no space left on device"
	//   sticky like err with "no space left" or "I/O error", from here on
	//   crash  the process is killed; Arg 0 before, 1 during, 2 after the call
	//   power  the machine loses power (same Arg); unsynced state may be lost
	Kind string `json:"kind"`
	Arg  int    `json:"arg,omitempty"`
	// Path and Call, if given, select the operation instead of Op: every such
	// call on that path suffers the fault. Call "reread" is every read of an
	// opened file but the first.
	Path string `json:"path,omitempty"`
	Call string `json:"call,omitempty"`
}

func (f Fault) String() string {
	if f.Path != "" {
		return fmt.Sprintf("%s(%d)@%s:%s:%s", f.Kind, f.Arg, f.Proc, f.Call, f.Path)
	}
	return fmt.Sprintf("%s(%d)@%s:%d", f.Kind, f.Arg, f.Proc, f.Op)
}

// OpRec is one operation of the history.
type OpRec struct {
	Proc  string
	N     int
	Op    string
	Path  string
	Err   string
	Fault string
	Bytes int
}

func (o OpRec) String() string {
	s := fmt.Sprintf("%s#%d %s %s", o.Proc, o.N, o.Op, o.Path)
	if o.Bytes > 0 {
		s += fmt.Sprintf(" (%d bytes)", o.Bytes)
	}
	if o.Fault != "" {
		s += " !" + o.Fault
	}
	if o.Err != "" {
		s += " -> " + o.Err
	}
	return s
}

// Inode is a file, directory or symbolic link.
type Inode struct {
	Ino    int
	Mode   fs.FileMode
	Data   []byte
	Synced []byte // durable content
	Link   string
	Mtime  int64

	names  []string // directory entries, in creation order
	ents   []*Inode
	dnames []string // entries when the journal was last emptied
	dents  []*Inode
	isDir  bool
}

// Kernel is one simulated machine.
type Kernel struct {
	mu     sync.Mutex
	Root   *Inode
	ino    int
	clock  int64
	Faults []Fault
	Log    []OpRec
	// Fired counts the faults that actually happened, by kind and operation.
	Fired    []string
	rng      *simrt.Rand
	tmp      int
	pids     int
	Off      bool // power is gone
	Programs map[string]*Program
	sticky   map[string]error
	reads    map[string]int
	Procs    []*Proc
	running  map[string]bool
	// OnOp, when set, sees every operation before it happens.
	OnOp func(p *Proc, op, path string)
	// journal holds the directory changes since the machine was set up, in
	// order; those before flushed survive power loss for certain.
	journal [][]dirChange
	flushed int
}

type dirChange struct {
	dir  *Inode
	name string
	in   *Inode // nil removes the name
}

func (k *Kernel) change(cs ...dirChange) {
	applyChange(cs)
	k.journal = append(k.journal, cs)
}

func applyChange(cs []dirChange) {
	for _, c := range cs {
		if c.in == nil {
			c.dir.del(c.name)
		} else {
			c.dir.set(c.name, c.in)
		}
	}
}

// Program is an executable that runs as simulated code.
type Program struct {
	Reset func()
	Main  func()
}

// New returns an empty machine. The seed decides what survives power loss
// and the names of temporary files.
func New(seed uint64) *Kernel {
	k := &Kernel{rng: simrt.NewRand(seed), Programs: map[string]*Program{}, sticky: map[string]error{}, reads: map[string]int{}, running: map[string]bool{}}
	k.Root = k.newInode(fs.ModeDir | 0755)
	k.Root.isDir = true
	return k
}

func (k *Kernel) newInode(mode fs.FileMode) *Inode {
	k.ino++
	return &Inode{Ino: k.ino, Mode: mode, isDir: mode.IsDir(), Mtime: k.clock}
}

// Proc is one simulated process.
type Proc struct {
	K      *Kernel
	Name   string
	Pid    int
	Args   []string
	Cwd    string
	Env    map[string]string
	Exited bool
	Dead   bool // no effects any more
	Code   int
	Killed bool

	Stdin  *Stream
	Stdout *Stream
	Stderr *Stream

	IsTTY  bool
	Width  int
	UID    int
	Panic  interface{}
	Stack  string
	ops    int
	fds    int
	Slots  map[string]interface{} // per-process state of shim packages
	Parent *Proc
	done   bool
}

// Stream is a standard stream.
type Stream struct {
	Buf    []byte // what was written, or what is left to read
	Closed bool   // the other end went away
	W      io.Writer
}

// NewProc makes a process that can be started with Start or Exec.
func (k *Kernel) NewProc(name string, args []string, stdin []byte) *Proc {
	k.pids++
	p := &Proc{K: k, Name: name, Pid: 100 + k.pids, Args: args, Cwd: "/", Env: map[string]string{}, Width: 80, UID: 1000,
		Stdin: &Stream{Buf: stdin}, Stdout: &Stream{}, Stderr: &Stream{}, Slots: map[string]interface{}{}}
	k.Procs = append(k.Procs, p)
	return p
}

// Cur returns the process of the running task, or nil.
func Cur() *Proc {
	t := simrt.Current()
	if t == nil {
		return nil
	}
	p, _ := t.Data.(*Proc)
	return p
}

// Must returns the process of the running task.
func Must() *Proc {
	p := Cur()
	if p == nil {
		panic("simulated system call outside a simulated process")
	}
	return p
}

// Body wraps a program into the function of its first task.
func (p *Proc) Body(prog *Program) func() {
	return func() {
		defer func() {
			if r := recover(); r != nil {
				p.Panic = r
				p.Stack = stack()
				if !p.Exited {
					p.Exited = true
					p.Code = 2
				}
			}
			if !p.Exited && !p.Dead {
				p.Exited = true
			}
			p.Dead = true
			p.done = true
			simrt.Wake()
		}()
		if prog.Reset != nil {
			prog.Reset()
		}
		prog.Main()
	}
}

// Exit ends the process of the running task.
func (p *Proc) Exit(code int) {
	if p.Dead {
		simrt.Exit()
	}
	p.Exited = true
	p.Dead = true
	p.Code = code
	simrt.Exit()
}

// errsFor are the errors a call of the given kind can fail with.
func errsFor(op string) []error {
	switch op {
	case "open":
		return []error{syscall.EACCES, syscall.EIO, syscall.EMFILE, syscall.ENOENT}
	case "create":
		return []error{syscall.ENOSPC, syscall.EACCES, syscall.EIO, syscall.EROFS}
	case "read":
		return []error{syscall.EIO, syscall.EISDIR}
	case "write":
		return []error{syscall.ENOSPC, syscall.EIO, syscall.EDQUOT}
	case "stdout":
		return []error{syscall.EPIPE, syscall.ENOSPC, syscall.EIO}
	case "stdin":
		return []error{syscall.EIO}
	case "close":
		return []error{syscall.EIO, syscall.EDQUOT}
	case "sync":
		return []error{syscall.EIO, syscall.ENOSPC}
	case "stat", "lstat", "readlink":
		return []error{syscall.EACCES, syscall.EIO, syscall.ELOOP}
	case "readdir":
		return []error{syscall.EIO, syscall.EACCES}
	case "rename", "unlink", "mkdir", "link", "symlink":
		return []error{syscall.EACCES, syscall.EIO, syscall.EROFS, syscall.ENOSPC}
	case "chmod", "truncate", "chtimes", "chown":
		return []error{syscall.EPERM, syscall.EIO, syscall.EROFS}
	case "exec":
		return []error{syscall.EAGAIN, syscall.ENOMEM, syscall.EACCES}
	}
	return []error{syscall.EIO}
}

// gate is passed by every operation. It returns the error the call must fail
// with, or how many bytes a partial transfer may move (-1 for all). after is
// called once the operation has taken effect.
func (k *Kernel) gate(p *Proc, op, pth string, n int) (limit int, err error, after func()) {
	nop := func() {}
	if p.Dead || k.Off {
		// The process is gone; only deferred calls get here.
		return 0, syscall.EIO, nop
	}
	if k.OnOp != nil {
		k.OnOp(p, op, pth)
	}
	k.clock++
	ord := p.ops
	p.ops++
	switch op {
	case "open":
		k.reads[pth] = 0
	case "read":
		k.reads[pth]++
	}
	rec := OpRec{Proc: p.Name, N: ord, Op: op, Path: pth, Bytes: n}
	idx := len(k.Log)
	k.Log = append(k.Log, rec)
	limit = -1
	if se := k.sticky[p.Name+"|"+class(op)]; se != nil {
		k.Log[idx].Fault = "sticky"
		k.Log[idx].Err = se.Error()
		k.Fired = append(k.Fired, "sticky/"+op)
		return 0, se, nop
	}
	for _, f := range k.Faults {
		if f.Proc != "" && f.Proc != p.Name {
			continue
		}
		if f.Path != "" {
			if f.Path != pth || f.Call != op && !(f.Call == "reread" && op == "read" && k.reads[pth] > 1) {
				continue
			}
		} else if f.Op != ord {
			continue
		}
		switch f.Kind {
		case "err":
			es := errsFor(op)
			e := es[f.Arg%len(es)]
			k.Log[idx].Fault, k.Log[idx].Err = "err", e.Error()
			k.Fired = append(k.Fired, "err/"+op)
			return 0, e, nop
		case "sticky":
			if class(op) != "w" {
				continue
			}
			es := []error{syscall.ENOSPC, syscall.EIO}
			e := es[f.Arg%2]
			k.sticky[p.Name+"|w"] = e
			k.Log[idx].Fault, k.Log[idx].Err = "sticky", e.Error()
			k.Fired = append(k.Fired, "sticky/"+op)
			lim := 0
			if n > 0 {
				lim = (f.Arg / 2) % n
			}
			return lim, e, nop
		case "short":
			if n <= 1 {
				continue
			}
			switch op {
			case "read", "stdin":
				k.Log[idx].Fault = "short"
				k.Fired = append(k.Fired, "short/"+op)
				return 1 + f.Arg%(n-1), nil, nop
			case "write", "stdout":
				k.Log[idx].Fault = "short"
				k.Log[idx].Err = syscall.ENOSPC.Error()
				k.Fired = append(k.Fired, "short/"+op)
				return f.Arg % n, syscall.ENOSPC, nop
			}
		case "crash", "power":
			stop := func() {
				if f.Kind == "power" {
					k.Off = true
				} else {
					k.Fired = append(k.Fired, fmt.Sprintf("crash%d/%s", f.Arg%3, op))
				}
				for _, q := range k.Procs {
					if f.Kind == "power" || q == p {
						q.Dead = true
						q.Killed = true
						q.Code = -1
					}
				}
			}
			if f.Kind == "power" {
				k.Fired = append(k.Fired, fmt.Sprintf("power%d/%s", f.Arg%3, op))
			}
			k.Log[idx].Fault = fmt.Sprintf("%s%d", f.Kind, f.Arg%3)
			switch f.Arg % 3 {
			case 0:
				stop()
				return 0, errStop, nop
			case 1:
				if n > 1 && (op == "write" || op == "stdout") {
					return (f.Arg / 3) % n, errStop, stop
				}
				stop()
				return 0, errStop, nop
			default:
				return -1, nil, stop
			}
		}
	}
	return limit, nil, nop
}

var errStop = errors.New("process stopped")

func class(op string) string {
	switch op {
	case "write", "create", "stdout", "mkdir", "truncate":
		return "w"
	}
	return "r"
}

// do runs one operation under the kernel lock.
func (p *Proc) do(op, pth string, n int, f func(limit int) (int, error)) (int, error) {
	simrt.Yield()
	k := p.K
	k.mu.Lock()
	limit, err, after := k.gate(p, op, pth, n)
	idx := len(k.Log) - 1
	moved := 0
	if err == nil {
		moved, err = f(limit)
		if err != nil && idx >= 0 && !p.Dead {
			k.Log[idx].Err = err.Error()
		}
	} else if limit > 0 {
		// partial transfer, then the error
		moved, _ = f(limit)
	}
	after()
	dead := p.Dead
	k.mu.Unlock()
	if dead {
		if !simrt.Dying() {
			simrt.Exit()
		}
		return 0, syscall.EIO
	}
	simrt.Yield()
	return moved, err
}

// abs makes a path absolute and clean.
func (p *Proc) abs(name string) string {
	if !strings.HasPrefix(name, "/") {
		name = p.Cwd + "/" + name
	}
	if strings.Contains(name, "..") {
		return name // the walk resolves it, since links may be involved
	}
	return path.Clean(name)
}

func (d *Inode) lookup(name string) *Inode {
	for i, n := range d.names {
		if n == name {
			return d.ents[i]
		}
	}
	return nil
}

func (d *Inode) set(name string, in *Inode) {
	for i, n := range d.names {
		if n == name {
			d.ents[i] = in
			return
		}
	}
	d.names = append(d.names, name)
	d.ents = append(d.ents, in)
}

func (d *Inode) del(name string) {
	for i, n := range d.names {
		if n == name {
			d.names = append(append([]string{}, d.names[:i]...), d.names[i+1:]...)
			d.ents = append(append([]*Inode{}, d.ents[:i]...), d.ents[i+1:]...)
			return
		}
	}
}

// walk resolves a path. It returns the parent directory, the last component
// and the inode (nil when it does not exist).
func (k *Kernel) walk(p string, follow bool, depth int) (dir *Inode, base string, in *Inode, err error) {
	if depth > 20 {
		return nil, "", nil, syscall.ELOOP
	}
	if len(p) > 4000 {
		return nil, "", nil, syscall.ENAMETOOLONG
	}
	var parts []string
	for _, c := range strings.Split(p, "/") {
		if c != "" && c != "." {
			parts = append(parts, c)
		}
	}
	if len(parts) == 0 {
		return k.Root, ".", k.Root, nil
	}
	cur := k.Root
	var up []*Inode // the directories above cur
	at := ""
	for i, c := range parts {
		if len(c) > 255 {
			return nil, "", nil, syscall.ENAMETOOLONG
		}
		if !cur.isDir {
			return nil, "", nil, syscall.ENOTDIR
		}
		if cur.Mode.Perm()&0111 == 0 {
			return nil, "", nil, syscall.EACCES
		}
		last := i == len(parts)-1
		if c == ".." {
			if len(up) > 0 {
				cur, up = up[len(up)-1], up[:len(up)-1]
				at = at[:strings.LastIndexByte(at, '/')]
			}
			if last {
				return cur, ".", cur, nil
			}
			continue
		}
		next := cur.lookup(c)
		if next != nil && next.Mode&fs.ModeSymlink != 0 && (!last || follow) {
			t := next.Link
			if !strings.HasPrefix(t, "/") {
				t = at + "/" + t
			}
			rest := strings.Join(parts[i+1:], "/")
			return k.walk(t+"/"+rest, follow, depth+1)
		}
		if last {
			return cur, c, next, nil
		}
		if next == nil {
			return nil, "", nil, syscall.ENOENT
		}
		up = append(up, cur)
		cur = next
		at += "/" + c
	}
	return nil, "", nil, syscall.ENOENT
}

// Handle is an open file.
type Handle struct {
	P      *Proc
	In     *Inode
	Path   string
	Flags  int
	pos    int64
	Closed bool
	dirPos int
}

// Open opens or creates a file.
func (p *Proc) Open(name string, flags int, perm fs.FileMode) (*Handle, error) {
	ap := p.abs(name)
	op := "open"
	if flags&(syscall.O_CREAT|syscall.O_TRUNC) != 0 {
		op = "create"
	}
	if name == "" {
		return nil, syscall.ENOENT
	}
	var h *Handle
	_, err := p.do(op, ap, 0, func(int) (int, error) {
		k := p.K
		dir, base, in, err := k.walk(ap, flags&syscall.O_NOFOLLOW == 0, 0)
		if err != nil {
			return 0, err
		}
		if p.fds >= 64 {
			return 0, syscall.EMFILE
		}
		wr := flags&(syscall.O_WRONLY|syscall.O_RDWR) != 0
		if in == nil {
			if flags&syscall.O_CREAT == 0 {
				return 0, syscall.ENOENT
			}
			if strings.HasSuffix(name, "/") {
				return 0, syscall.EISDIR
			}
			if dir.Mode.Perm()&0200 == 0 {
				return 0, syscall.EACCES
			}
			in = k.newInode(perm.Perm() &^ 022)
			k.change(dirChange{dir, base, in})
		} else {
			if flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0 {
				return 0, syscall.EEXIST
			}
			if in.isDir && wr {
				return 0, syscall.EISDIR
			}
			if wr && in.Mode.Perm()&0200 == 0 {
				return 0, syscall.EACCES
			}
			if flags&(syscall.O_WRONLY) == 0 && in.Mode.Perm()&0400 == 0 {
				return 0, syscall.EACCES
			}
			if flags&syscall.O_TRUNC != 0 && wr {
				in.Data = nil
				in.Mtime = k.clock
			}
		}
		p.fds++
		h = &Handle{P: p, In: in, Path: ap, Flags: flags}
		return 0, nil
	})
	if err != nil {
		return nil, err
	}
	return h, nil
}

func (h *Handle) Read(b []byte) (int, error) {
	if h.Closed {
		return 0, fs.ErrClosed
	}
	if len(b) == 0 {
		return 0, nil
	}
	p := h.P
	want := len(b)
	if l := int64(len(h.In.Data)) - h.pos; l >= 0 && int64(want) > l {
		want = int(l)
	}
	n, err := p.do("read", h.Path, want, func(limit int) (int, error) {
		if h.In.isDir {
			return 0, syscall.EISDIR
		}
		if h.Flags&syscall.O_WRONLY != 0 {
			return 0, syscall.EBADF
		}
		if h.pos >= int64(len(h.In.Data)) {
			return 0, nil
		}
		if limit > 0 && limit < len(b) {
			b = b[:limit]
		}
		n := copy(b, h.In.Data[h.pos:])
		h.pos += int64(n)
		return n, nil
	})
	if err == nil && n == 0 {
		return 0, io.EOF
	}
	return n, err
}

func (h *Handle) Write(b []byte) (int, error) {
	if h.Closed {
		return 0, fs.ErrClosed
	}
	p := h.P
	return p.do("write", h.Path, len(b), func(limit int) (int, error) {
		if h.Flags&(syscall.O_WRONLY|syscall.O_RDWR) == 0 {
			return 0, syscall.EBADF
		}
		if limit >= 0 && limit < len(b) {
			b = b[:limit]
		}
		if h.Flags&syscall.O_APPEND != 0 {
			h.pos = int64(len(h.In.Data))
		}
		h.In.writeAt(b, h.pos)
		h.pos += int64(len(b))
		h.In.Mtime = p.K.clock
		return len(b), nil
	})
}

func (in *Inode) writeAt(b []byte, pos int64) {
	end := pos + int64(len(b))
	nd := append([]byte{}, in.Data...)
	for int64(len(nd)) < end {
		nd = append(nd, 0)
	}
	copy(nd[pos:], b)
	in.Data = nd
}

func (h *Handle) Seek(off int64, whence int) (int64, error) {
	if h.Closed {
		return 0, fs.ErrClosed
	}
	switch whence {
	case 0:
	case 1:
		off += h.pos
	case 2:
		off += int64(len(h.In.Data))
	default:
		return 0, syscall.EINVAL
	}
	if off < 0 {
		return 0, syscall.EINVAL
	}
	h.pos = off
	h.dirPos = 0
	return off, nil
}

func (h *Handle) Close() error {
	if h.Closed {
		return fs.ErrClosed
	}
	h.Closed = true
	p := h.P
	op := "close"
	if h.Flags&(syscall.O_WRONLY|syscall.O_RDWR) == 0 {
		op = "closer" // closing a file that was only read
	}
	_, err := p.do(op, h.Path, 0, func(int) (int, error) { return 0, nil })
	if err != nil && op == "close" && string(h.In.Data) != string(h.In.Synced) {
		// What had not been made durable could not be stored.
		h.In.Data = append([]byte{}, h.In.Data[:p.K.rng.N(len(h.In.Data)+1)]...)
	}
	p.fds--
	return err
}

// Sync makes a file's content durable, or a directory's entries.
func (h *Handle) Sync() error {
	if h.Closed {
		return fs.ErrClosed
	}
	_, err := h.P.do("sync", h.Path, 0, func(int) (int, error) {
		h.In.sync()
		if h.In.isDir {
			p := h.P
			p.K.flushed = len(p.K.journal)
		}
		return 0, nil
	})
	return err
}

func (in *Inode) sync() {
	if in.isDir {
		return
	}
	in.Synced = append([]byte{}, in.Data...)
}

func (h *Handle) Truncate(size int64) error {
	if h.Closed {
		return fs.ErrClosed
	}
	_, err := h.P.do("truncate", h.Path, 0, func(int) (int, error) {
		if h.Flags&(syscall.O_WRONLY|syscall.O_RDWR) == 0 {
			return 0, syscall.EINVAL
		}
		h.In.truncate(size)
		return 0, nil
	})
	return err
}

func (in *Inode) truncate(size int64) {
	nd := append([]byte{}, in.Data...)
	for int64(len(nd)) < size {
		nd = append(nd, 0)
	}
	in.Data = nd[:size]
}

// SetPos and Pos give positional reads and writes.
func (h *Handle) SetPos(n int64) { h.pos = n }
func (h *Handle) Pos() int64     { return h.pos }

// Info is the result of Stat.
type Info struct {
	N  string
	In *Inode
	Sz int64
	M  fs.FileMode
	T  int64
}

func (i *Info) Name() string               { return i.N }
func (i *Info) Size() int64                { return i.Sz }
func (i *Info) Mode() fs.FileMode          { return i.M }
func (i *Info) ModTime() time.Time         { return time.Unix(1500000000+i.T, 0).UTC() }
func (i *Info) IsDir() bool                { return i.M.IsDir() }
func (i *Info) Sys() interface{}           { return nil }
func (i *Info) Type() fs.FileMode          { return i.M.Type() }
func (i *Info) Info() (fs.FileInfo, error) { return i, nil }
func (i *Info) String() string             { return i.N }

func info(name string, in *Inode) *Info {
	return &Info{N: path.Base(name), In: in, Sz: int64(len(in.Data)), M: in.Mode, T: in.Mtime}
}

func (p *Proc) Stat(name string, follow bool) (*Info, error) {
	ap := p.abs(name)
	op := "stat"
	if !follow {
		op = "lstat"
	}
	if name == "" {
		return nil, syscall.ENOENT
	}
	var r *Info
	_, err := p.do(op, ap, 0, func(int) (int, error) {
		_, _, in, err := p.K.walk(ap, follow, 0)
		if err != nil {
			return 0, err
		}
		if in == nil {
			return 0, syscall.ENOENT
		}
		r = info(ap, in)
		return 0, nil
	})
	if err != nil {
		return nil, err
	}
	return r, nil
}

func (h *Handle) Stat() (*Info, error) {
	if h.Closed {
		return nil, fs.ErrClosed
	}
	var r *Info
	_, err := h.P.do("stat", h.Path, 0, func(int) (int, error) {
		r = info(h.Path, h.In)
		return 0, nil
	})
	if err != nil {
		return nil, err
	}
	return r, nil
}

// ReadDir returns the entries that have not been returned yet, in creation
// order.
func (h *Handle) ReadDir(n int) ([]*Info, error) {
	if h.Closed {
		return nil, fs.ErrClosed
	}
	var r []*Info
	_, err := h.P.do("readdir", h.Path, 0, func(int) (int, error) {
		if !h.In.isDir {
			return 0, syscall.ENOTDIR
		}
		for h.dirPos < len(h.In.names) && (n <= 0 || len(r) < n) {
			r = append(r, info(h.In.names[h.dirPos], h.In.ents[h.dirPos]))
			h.dirPos++
		}
		return 0, nil
	})
	if err == nil && n > 0 && len(r) == 0 {
		return nil, io.EOF
	}
	return r, err
}

func (p *Proc) Mkdir(name string, perm fs.FileMode) error {
	ap := p.abs(name)
	_, err := p.do("mkdir", ap, 0, func(int) (int, error) {
		dir, base, in, err := p.K.walk(ap, false, 0)
		if err != nil {
			return 0, err
		}
		if in != nil {
			return 0, syscall.EEXIST
		}
		if dir.Mode.Perm()&0200 == 0 {
			return 0, syscall.EACCES
		}
		p.K.change(dirChange{dir, base, p.K.newInode(fs.ModeDir | perm.Perm()&^022)})
		return 0, nil
	})
	return err
}

func (p *Proc) Unlink(name string) error {
	ap := p.abs(name)
	_, err := p.do("unlink", ap, 0, func(int) (int, error) {
		dir, base, in, err := p.K.walk(ap, false, 0)
		if err != nil {
			return 0, err
		}
		if in == nil {
			return 0, syscall.ENOENT
		}
		if in.isDir && len(in.names) > 0 {
			return 0, syscall.ENOTEMPTY
		}
		if dir.Mode.Perm()&0200 == 0 {
			return 0, syscall.EACCES
		}
		p.K.change(dirChange{dir, base, nil})
		return 0, nil
	})
	return err
}

func (p *Proc) Rename(from, to string) error {
	af, at := p.abs(from), p.abs(to)
	_, err := p.do("rename", af+" "+at, 0, func(int) (int, error) {
		fd, fb, fi, err := p.K.walk(af, false, 0)
		if err != nil {
			return 0, err
		}
		if fi == nil {
			return 0, syscall.ENOENT
		}
		td, tb, ti, err := p.K.walk(at, false, 0)
		if err != nil {
			return 0, err
		}
		if fd.Mode.Perm()&0200 == 0 || td.Mode.Perm()&0200 == 0 {
			return 0, syscall.EACCES
		}
		if ti == fi {
			return 0, nil
		}
		if ti != nil && ti.isDir != fi.isDir {
			if ti.isDir {
				return 0, syscall.EISDIR
			}
			return 0, syscall.ENOTDIR
		}
		p.K.change(dirChange{fd, fb, nil}, dirChange{td, tb, fi})
		return 0, nil
	})
	return err
}

func (p *Proc) LinkTo(old, name string) error {
	ao, an := p.abs(old), p.abs(name)
	_, err := p.do("link", an, 0, func(int) (int, error) {
		_, _, oi, err := p.K.walk(ao, false, 0)
		if err != nil {
			return 0, err
		}
		if oi == nil {
			return 0, syscall.ENOENT
		}
		d, b, in, err := p.K.walk(an, false, 0)
		if err != nil {
			return 0, err
		}
		if in != nil {
			return 0, syscall.EEXIST
		}
		p.K.change(dirChange{d, b, oi})
		return 0, nil
	})
	return err
}

func (p *Proc) Symlink(target, name string) error {
	an := p.abs(name)
	_, err := p.do("symlink", an, 0, func(int) (int, error) {
		d, b, in, err := p.K.walk(an, false, 0)
		if err != nil {
			return 0, err
		}
		if in != nil {
			return 0, syscall.EEXIST
		}
		l := p.K.newInode(fs.ModeSymlink | 0777)
		l.Link = target
		p.K.change(dirChange{d, b, l})
		return 0, nil
	})
	return err
}

func (p *Proc) Readlink(name string) (string, error) {
	an := p.abs(name)
	var r string
	_, err := p.do("readlink", an, 0, func(int) (int, error) {
		_, _, in, err := p.K.walk(an, false, 0)
		if err != nil {
			return 0, err
		}
		if in == nil {
			return 0, syscall.ENOENT
		}
		if in.Mode&fs.ModeSymlink == 0 {
			return 0, syscall.EINVAL
		}
		r = in.Link
		return 0, nil
	})
	return r, err
}

// Attr runs a metadata change on a path.
func (p *Proc) Attr(op, name string, f func(in *Inode)) error {
	an := p.abs(name)
	_, err := p.do(op, an, 0, func(int) (int, error) {
		_, _, in, err := p.K.walk(an, true, 0)
		if err != nil {
			return 0, err
		}
		if in == nil {
			return 0, syscall.ENOENT
		}
		f(in)
		return 0, nil
	})
	return err
}

// SetPerm changes the permission bits.
func (in *Inode) SetPerm(m fs.FileMode) {
	in.Mode = in.Mode&^0777 | m.Perm()
}

// Resize truncates or extends.
func (in *Inode) Resize(n int64) { in.truncate(n) }

// TempName returns the next temporary name component.
func (k *Kernel) TempName() string {
	k.tmp++
	return fmt.Sprintf("%d%d", 100+k.tmp, k.rng.N(1000000))
}

// ReadStream reads from standard input.
func (p *Proc) ReadStream(s *Stream, b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	want := len(b)
	if want > len(s.Buf) {
		want = len(s.Buf)
	}
	n, err := p.do("stdin", "", want, func(limit int) (int, error) {
		if limit > 0 && limit < len(b) {
			b = b[:limit]
		}
		n := copy(b, s.Buf)
		s.Buf = s.Buf[n:]
		return n, nil
	})
	if err == nil && n == 0 {
		return 0, io.EOF
	}
	return n, err
}

// WriteStream writes to standard output or standard error.
func (p *Proc) WriteStream(s *Stream, b []byte) (int, error) {
	op, name := "stdout", "1"
	if s == p.Stderr {
		op, name = "stderr", "2"
	}
	n, err := p.do(op, name, len(b), func(limit int) (int, error) {
		if limit >= 0 && limit < len(b) {
			b = b[:limit]
		}
		s.Buf = append(s.Buf, b...)
		if s.W != nil {
			s.W.Write(b)
		}
		return len(b), nil
	})
	return n, err
}

// Ops returns how many operations the process has issued.
func (p *Proc) Ops() int { return p.ops }

// Syscall runs a no-effect operation of the given kind through the gate.
func (p *Proc) Syscall(op, what string) error {
	_, err := p.do(op, what, 0, func(int) (int, error) { return 0, nil })
	return err
}

// each visits every inode reachable from the volatile or the durable tree.
func (k *Kernel) each(f func(in *Inode)) {
	seen := map[*Inode]bool{}
	var visit func(in *Inode)
	visit = func(in *Inode) {
		if in == nil || seen[in] {
			return
		}
		seen[in] = true
		f(in)
		for _, e := range in.ents {
			visit(e)
		}
		for _, e := range in.dents {
			visit(e)
		}
	}
	visit(k.Root)
	for _, cs := range k.journal {
		for _, c := range cs {
			visit(c.in)
		}
	}
}

// Settle makes everything written so far durable.
func (k *Kernel) Settle() {
	k.each(func(in *Inode) {
		in.Synced = in.Data
		in.dnames = append([]string{}, in.names...)
		in.dents = append([]*Inode{}, in.ents...)
	})
	k.journal = nil
	k.flushed = 0
}

// Restart brings the machine back after power loss. Directory changes that
// were not flushed survive up to a seeded point of the journal; unsynced file
// content survives whole, partly, or not at all.
func (k *Kernel) Restart() {
	var all []*Inode
	k.each(func(in *Inode) { all = append(all, in) })
	for _, in := range all {
		in.names = append([]string{}, in.dnames...)
		in.ents = append([]*Inode{}, in.dents...)
	}
	cut := k.flushed
	if n := len(k.journal) - k.flushed; n > 0 {
		if k.rng.P(1, 2) {
			cut = len(k.journal)
		} else {
			cut += k.rng.N(n + 1)
		}
	}
	for _, cs := range k.journal[:cut] {
		applyChange(cs)
	}
	for _, in := range all {
		if in.isDir || string(in.Data) == string(in.Synced) {
			continue
		}
		switch k.rng.N(4) {
		case 0: // nothing reached the disk
			in.Data = in.Synced
		case 1: // everything did
		case 2: // the size did, the data only in part
			nd := append([]byte{}, in.Data...)
			from := k.rng.N(len(nd) + 1)
			for i := from; i < len(nd); i++ {
				nd[i] = 0
			}
			in.Data = nd
		case 3: // a prefix did
			in.Data = append([]byte{}, in.Data[:k.rng.N(len(in.Data)+1)]...)
		}
	}
	k.Off = false
	k.Settle()
}

// The functions below are the harness's own access to the machine; they are
// not operations of any process and cannot fail.

// Put creates or replaces a file, making its directories.
func (k *Kernel) Put(name string, data []byte, mode fs.FileMode) {
	k.MkdirAll(path.Dir(name))
	dir, base, _, err := k.walk(name, true, 0)
	if err != nil {
		panic(err)
	}
	in := k.newInode(mode)
	in.Data = append([]byte{}, data...)
	dir.set(base, in)
}

// Drop removes a file, outside of any process.
func (k *Kernel) Drop(name string) {
	if dir, base, in, err := k.walk(name, false, 0); err == nil && in != nil {
		dir.del(base)
	}
}

// PutLink creates a symbolic link.
func (k *Kernel) PutLink(name, target string) {
	k.MkdirAll(path.Dir(name))
	dir, base, _, err := k.walk(name, false, 0)
	if err != nil {
		panic(err)
	}
	in := k.newInode(fs.ModeSymlink | 0777)
	in.Link = target
	dir.set(base, in)
}

// MkdirAll creates directories.
func (k *Kernel) MkdirAll(name string) {
	cur := k.Root
	for _, c := range strings.Split(strings.Trim(path.Clean(name), "/"), "/") {
		if c == "" || c == "." {
			continue
		}
		n := cur.lookup(c)
		if n == nil {
			n = k.newInode(fs.ModeDir | 0755)
			cur.set(c, n)
		}
		cur = n
	}
}

// Get returns a file's current content.
func (k *Kernel) Get(name string) ([]byte, bool) {
	_, _, in, err := k.walk(name, true, 0)
	if err != nil || in == nil || in.isDir {
		return nil, false
	}
	return in.Data, true
}

// Node returns the inode a path leads to.
func (k *Kernel) Node(name string, follow bool) *Inode {
	_, _, in, err := k.walk(name, follow, 0)
	if err != nil {
		return nil
	}
	return in
}

// List returns every file below a directory with its content, sorted walk.
func (k *Kernel) List(dir string) []string {
	var out []string
	var visit func(p string, in *Inode)
	visit = func(p string, in *Inode) {
		for i, n := range in.names {
			c := in.ents[i]
			out = append(out, p+"/"+n)
			if c.isDir {
				visit(p+"/"+n, c)
			}
		}
	}
	in := k.Node(dir, true)
	if in != nil {
		visit(strings.TrimSuffix(dir, "/"), in)
	}
	return out
}

// Peek reads a file the way a concurrent reader would, at this instant.
func (k *Kernel) Peek(name string) ([]byte, bool) {
	k.mu.Lock()
	defer k.mu.Unlock()
	d, ok := k.Get(name)
	return append([]byte{}, d...), ok
}

// Chmod changes the permission bits of an open file.
func (h *Handle) Chmod(m fs.FileMode) error {
	if h.Closed {
		return fs.ErrClosed
	}
	_, err := h.P.do("chmod", h.Path, 0, func(int) (int, error) {
		h.In.SetPerm(m)
		return 0, nil
	})
	return err
}

// ProcessState describes a finished child process.
type ProcessState struct {
	Code int
	Pid_ int
}

func (s *ProcessState) ExitCode() int             { return s.Code }
func (s *ProcessState) Exited() bool              { return s.Code >= 0 }
func (s *ProcessState) Success() bool             { return s.Code == 0 }
func (s *ProcessState) Pid() int                  { return s.Pid_ }
func (s *ProcessState) Sys() interface{}          { return nil }
func (s *ProcessState) SysUsage() interface{}     { return nil }
func (s *ProcessState) SystemTime() time.Duration { return 0 }
func (s *ProcessState) UserTime() time.Duration   { return 0 }
func (s *ProcessState) String() string {
	if s == nil {
		return "<nil>"
	}
	if s.Code < 0 {
		return "signal: killed"
	}
	return fmt.Sprintf("exit status %d", s.Code)
}

// Process is a started child process.
type Process struct {
	Pid int
	P   *Proc
}

// Kill ends the process at its next operation.
func (p *Process) Kill() error {
	p.P.Dead = true
	p.P.Killed = true
	p.P.Code = -1
	return nil
}

// Release does nothing.
func (p *Process) Release() error { return nil }

// Spawn starts a child process of p running the program at the given path.
// The returned function waits for its end.
func (p *Proc) Spawn(pth string, args []string, stdin []byte, stdout, stderr io.Writer) (*Proc, error) {
	ap := p.abs(pth)
	_, err := p.do("exec", ap, 0, func(int) (int, error) {
		in := p.K.Node(ap, true)
		if in == nil {
			return 0, syscall.ENOENT
		}
		if in.isDir || in.Mode.Perm()&0111 == 0 {
			return 0, syscall.EACCES
		}
		if p.K.Programs[string(in.Data)] == nil {
			return 0, syscall.ENOEXEC
		}
		return 0, nil
	})
	if err != nil {
		return nil, err
	}
	prog := p.K.Programs[string(p.K.Node(ap, true).Data)]
	name := string(p.K.Node(ap, true).Data)
	// The programs keep their state in package variables, so two instances
	// of one program take turns.
	for p.K.running[name] {
		simrt.Block("another instance of " + name)
	}
	p.K.running[name] = true
	k := p.K
	c := k.NewProc(fmt.Sprintf("%s.%d", name, k.children(name)), args, stdin)
	c.Cwd = p.Cwd
	c.Parent = p
	c.Stdout.W = stdout
	c.Stderr.W = stderr
	t := simrt.Go(func() {
		defer func() { k.running[name] = false }()
		c.Body(prog)()
	})
	t.Data = c
	t.Name = c.Name
	return c, nil
}

func (k *Kernel) children(name string) int {
	n := 0
	for _, p := range k.Procs {
		if p.Parent != nil && strings.HasPrefix(p.Name, name+".") {
			n++
		}
	}
	return n
}

// WaitFor waits until c has ended.
func (p *Proc) WaitFor(c *Proc) *ProcessState {
	for !c.done {
		simrt.Block("child process")
	}
	return &ProcessState{Code: c.Code, Pid_: c.Pid}
}
