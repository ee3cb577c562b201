package props

import (
	"bytes"
	"fmt"
	"io/fs"
	"sort"
	"strings"

	hcldecmain "github.com/hashicorp/hcl2/cmd/hcldec"
	hclfmtmain "github.com/hashicorp/hcl2/cmd/hclfmt"
	specmain "github.com/hashicorp/hcl2/cmd/hclspecsuite"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"

	"verifsim/harness"
	"verifsim/simk"
	"verifsim/simrt"
)

var (
	progHclfmt = &simk.Program{Reset: hclfmtmain.SimReset, Main: hclfmtmain.SimMain}
	progHcldec = &simk.Program{Reset: hcldecmain.SimReset, Main: hcldecmain.SimMain}
	progSuite  = &simk.Program{Reset: specmain.SimReset, Main: specmain.SimMain}
)

// genFaults draws up to max faults for a process. Their positions are given
// in thousandths of the number of operations of the undisturbed run.
func genFaults(r *rnd, proc string, max int, kinds []string) []simk.Fault {
	var fs []simk.Fault
	if r.P(1, 12) {
		return nil
	}
	for n := r.Range(1, max); n > 0; n-- {
		fs = append(fs, simk.Fault{Proc: proc, Op: r.N(1000), Kind: kinds[r.N(len(kinds))], Arg: r.N(600)})
	}
	return fs
}

// place turns the relative positions into ordinals.
func place(fs []simk.Fault, ops map[string]int) []simk.Fault {
	var out []simk.Fault
	for _, f := range fs {
		f.Op = f.Op * ops[f.Proc] / 1000
		out = append(out, f)
	}
	return out
}

// opCounts returns how many operations each process made.
func opCounts(k *simk.Kernel) map[string]int {
	m := map[string]int{}
	for _, l := range k.Log {
		m[l.Proc]++
	}
	return m
}

func noteKernel(o *harness.Outcome, k *simk.Kernel, p *simk.Proc) {
	for _, l := range k.Log {
		o.Note("%s", l)
		o.Sig = simrt.Mix(o.Sig, l.String())
	}
	o.Note("%s: exited %v code %d killed %v", p.Name, p.Exited, p.Code, p.Killed)
	if len(p.Stderr.Buf) > 0 {
		o.Note("stderr: %s", p.Stderr.Buf)
	}
	o.Faults = append(o.Faults, k.Fired...)
}

// fired reports whether a fault hit one of the operations.
func fired(k *simk.Kernel, ops ...string) bool {
	for _, f := range k.Fired {
		for _, op := range ops {
			if strings.HasSuffix(f, "/"+op) {
				return true
			}
		}
	}
	return false
}

func firedExcept(k *simk.Kernel, ops ...string) bool {
next:
	for _, f := range k.Fired {
		for _, op := range ops {
			if strings.HasSuffix(f, "/"+op) {
				continue next
			}
		}
		return true
	}
	return false
}

// mess spoils the layout of a native document without changing its tokens.
func mess(r *rnd, s string) string {
	if strings.Contains(s, "<<") {
		return s
	}
	var b strings.Builder
	for _, l := range strings.SplitAfter(s, "\n") {
		if r.P(1, 3) && strings.TrimSpace(l) != "" {
			l = strings.Repeat(" ", r.N(5)) + strings.TrimLeft(l, " ")
		}
		if i := strings.Index(l, " = "); i > 0 && r.P(1, 3) && !strings.ContainsAny(l[:i], `"`) {
			l = l[:i] + r.Pick([]string{"=", "  =", "=  ", " =    "}) + l[i+3:]
		}
		b.WriteString(l)
	}
	return b.String()
}

// sameTokens says whether two native texts consist of the same tokens.
func sameTokens(a, b []byte) string {
	ta, _ := hclsyntax.LexConfig(a, "a", hcl.Pos{Line: 1, Column: 1})
	tb, _ := hclsyntax.LexConfig(b, "a", hcl.Pos{Line: 1, Column: 1})
	for i := 0; i < len(ta) || i < len(tb); i++ {
		if i >= len(ta) || i >= len(tb) {
			return fmt.Sprintf("%d tokens became %d", len(ta), len(tb))
		}
		if ta[i].Type != tb[i].Type || !bytes.Equal(ta[i].Bytes, tb[i].Bytes) {
			return fmt.Sprintf("token %d, %s %q, became %s %q", i, ta[i].Type, ta[i].Bytes, tb[i].Type, tb[i].Bytes)
		}
	}
	return ""
}

// snapshot lists all files below a directory with mode, link and content.
func snapshot(k *simk.Kernel, dir string) map[string]string {
	m := map[string]string{}
	for _, n := range k.List(dir) {
		in := k.Node(n, false)
		m[n] = describeNode(in)
	}
	return m
}

func describeNode(in *simk.Inode) string {
	if in == nil {
		return "nothing"
	}
	if in.Mode&fs.ModeSymlink != 0 {
		return "link to " + in.Link
	}
	if in.Mode.IsDir() {
		return "directory"
	}
	return fmt.Sprintf("file %o %q", in.Mode.Perm(), in.Data)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// runCmd runs one command alone on a machine.
func runCmd(o *harness.Outcome, prop *harness.Property, k *simk.Kernel, prog *simk.Program, name string, args []string, stdin []byte) (*simk.Proc, *simrt.Result) {
	p := k.NewProc(name, append([]string{name}, args...), stdin)
	p.Cwd = "/w"
	res := o.Alone(prop, name, p, p.Body(prog))
	return p, res
}

// crashed reports a panic of the command.
func crashed(o *harness.Outcome, p *simk.Proc) bool {
	if p.Panic != nil {
		o.Fail("panic:"+harness.PanicSite(p.Stack), "%s crashed: %v at %s", p.Name, p.Panic, harness.PanicSite(p.Stack))
		return true
	}
	return false
}
