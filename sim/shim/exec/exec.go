// Package exec is the simulated replacement of os/exec: child processes are
// simulated processes of the same machine.
package exec

import (
	"bytes"
	"context"
	"errors"
	"io"
	real "os/exec"
	"path"
	"strings"
	"syscall"

	"verifsim/shim/os"
	"verifsim/simk"
	"verifsim/simrt"
)

var (
	ErrDot       = real.ErrDot
	ErrNotFound  = real.ErrNotFound
	ErrWaitDelay = real.ErrWaitDelay
)

type Error = real.Error

// ExitError reports an unsuccessful exit of a child process.
type ExitError struct {
	*os.ProcessState
	Stderr []byte
}

func (e *ExitError) Error() string { return e.ProcessState.String() }

// Cmd is a command to run.
type Cmd struct {
	Path         string
	Args         []string
	Env          []string
	Dir          string
	Stdin        io.Reader
	Stdout       io.Writer
	Stderr       io.Writer
	ExtraFiles   []*os.File
	SysProcAttr  *syscall.SysProcAttr
	Process      *os.Process
	ProcessState *os.ProcessState
	Err          error
	Cancel       func() error

	parent *simk.Proc
	child  *simk.Proc
}

func LookPath(file string) (string, error) {
	p := simk.Must()
	if strings.Contains(file, "/") {
		i, err := p.Stat(file, true)
		if err == nil && i.IsDir() {
			err = syscall.EISDIR
		}
		if err == nil && i.Mode().Perm()&0111 == 0 {
			err = os.ErrPermission
		}
		if err != nil {
			return "", &Error{Name: file, Err: err}
		}
		return file, nil
	}
	for _, d := range strings.Split(p.Env["PATH"], ":") {
		if d == "" {
			continue
		}
		f := path.Join(d, file)
		if i, err := p.Stat(f, true); err == nil && !i.IsDir() && i.Mode().Perm()&0111 != 0 {
			return f, nil
		}
	}
	return "", &Error{Name: file, Err: ErrNotFound}
}

func Command(name string, arg ...string) *Cmd {
	c := &Cmd{Path: name, Args: append([]string{name}, arg...)}
	if !strings.Contains(name, "/") {
		lp, err := LookPath(name)
		if lp != "" {
			c.Path = lp
		}
		c.Err = err
	}
	return c
}

func CommandContext(ctx context.Context, name string, arg ...string) *Cmd {
	return Command(name, arg...)
}

func (c *Cmd) String() string    { return strings.Join(c.Args, " ") }
func (c *Cmd) Environ() []string { return c.Env }

func (c *Cmd) Start() error {
	if c.Err != nil {
		return c.Err
	}
	if c.Process != nil {
		return errors.New("exec: already started")
	}
	var in []byte
	if c.Stdin != nil {
		var err error
		if in, err = io.ReadAll(c.Stdin); err != nil {
			return err
		}
	}
	p := simk.Must()
	args := c.Args
	if len(args) == 0 {
		args = []string{c.Path}
	}
	child, err := p.Spawn(c.Path, args, in, forward(p, c.Stdout), forward(p, c.Stderr))
	if err != nil {
		return &os.PathError{Op: "fork/exec", Path: c.Path, Err: err}
	}
	if c.Dir != "" {
		child.Cwd = c.Dir
	}
	c.parent, c.child = p, child
	c.Process = &os.Process{Pid: child.Pid, P: child}
	return nil
}

// forward makes the child's output reach a writer that may itself be one of
// the parent's simulated files.
func forward(p *simk.Proc, w io.Writer) io.Writer {
	if w == nil {
		return nil
	}
	if f, ok := w.(*os.File); ok {
		switch f.Fd() {
		case 1:
			return streamWriter{p.Stdout}
		case 2:
			return streamWriter{p.Stderr}
		}
	}
	return w
}

type streamWriter struct{ s *simk.Stream }

func (w streamWriter) Write(b []byte) (int, error) {
	w.s.Buf = append(w.s.Buf, b...)
	return len(b), nil
}

func (c *Cmd) Wait() error {
	if c.child == nil {
		return errors.New("exec: not started")
	}
	if c.ProcessState != nil {
		return errors.New("exec: Wait was already called")
	}
	c.ProcessState = c.parent.WaitFor(c.child)
	simrt.Yield()
	if c.ProcessState.Code != 0 {
		return &ExitError{ProcessState: c.ProcessState}
	}
	return nil
}

func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}

func (c *Cmd) Output() ([]byte, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	var out, errb bytes.Buffer
	c.Stdout = &out
	capture := c.Stderr == nil
	if capture {
		c.Stderr = &errb
	}
	err := c.Run()
	if ee, ok := err.(*ExitError); ok && capture {
		ee.Stderr = errb.Bytes()
	}
	return out.Bytes(), err
}

func (c *Cmd) CombinedOutput() ([]byte, error) {
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	err := c.Run()
	return b.Bytes(), err
}

func (c *Cmd) StdoutPipe() (io.ReadCloser, error) {
	return nil, errors.New("pipes are not supported by the simulator")
}
func (c *Cmd) StderrPipe() (io.ReadCloser, error) {
	return nil, errors.New("pipes are not supported by the simulator")
}
func (c *Cmd) StdinPipe() (io.WriteCloser, error) {
	return nil, errors.New("pipes are not supported by the simulator")
}
