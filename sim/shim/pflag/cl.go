package pflag

import (
	"fmt"
	real "github.com/spf13/pflag"

	"verifsim/shim/os"
	"verifsim/simk"
)

type cl struct {
	set   *FlagSet
	usage func()
}

func cur() *cl {
	p := simk.Cur()
	if p == nil {
		// Package initialisation outside any simulated process.
		return newCL("sim")
	}
	if c, ok := p.Slots["pflag"].(*cl); ok {
		return c
	}
	c := newCL(p.Args[0])
	p.Slots["pflag"] = c
	return c
}

func newCL(name string) *cl {
	c := &cl{set: real.NewFlagSet(name, real.PanicOnError)}
	c.set.SetOutput(os.Stderr)
	c.usage = func() {
		fmt.Fprintf(os.Stderr, "Usage of %s:\n", name)
		c.set.PrintDefaults()
	}
	c.set.Usage = func() { c.usage() }
	return c
}

// SimCommandLine is the running process's CommandLine.
func SimCommandLine() **FlagSet { return &cur().set }

// SimUsage is the running process's Usage.
func SimUsage() *func() { return &cur().usage }

// NewFlagSet makes a flag set that never ends the real process.
func NewFlagSet(name string, h ErrorHandling) *FlagSet {
	if h == real.ExitOnError {
		h = real.PanicOnError
	}
	fs := real.NewFlagSet(name, h)
	fs.SetOutput(os.Stderr)
	return fs
}

// Parse parses the running process's arguments.
func Parse() {
	defer func() {
		if r := recover(); r != nil {
			if err, ok := r.(error); ok {
				fmt.Fprintln(os.Stdout, err)
				os.Exit(2)
			}
			panic(r)
		}
	}()
	cur().set.Parse((*os.SimArgs())[1:])
}
