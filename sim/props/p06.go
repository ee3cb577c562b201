package props

import (
	"bytes"
	"fmt"
	"io/fs"
	"path"
	"strings"

	"github.com/hashicorp/hcl2/hclwrite"

	"verifsim/harness"
	"verifsim/simk"
	"verifsim/simrt"
)

// Files of the hclfmt workloads: per document flags in the low bits of
// N["f<i>"]: 1 already formatted, 2 reached through a symbolic link,
// 4 has a syntax error, 8 missing, 16 a directory, 32 and 64 the way its path
// is written; bits 8.. choose the mode.
const (
	fFormatted = 1 << iota
	fLink
	fBroken
	fMissing
	fDir
	fUp // named through a link to a directory and back up
	fAbs
)

var fileModes = []fs.FileMode{0644, 0600, 0664, 0640, 0755}

func genFmtFiles(r *rnd, sc *harness.Scenario, max int, odd bool) {
	n := r.Range(1, max)
	for i := 0; i < n; i++ {
		g := &xgen{r: r}
		d := g.genNative(fmt.Sprintf("f%d.hcl", i), docOpts{depth: r.Range(0, 2), blocks: true, comment: true, stray: r.Bool()})
		if k := r.Range(1, 5); len(d.Chunks) > k {
			d.Chunks = d.Chunks[:k]
		}
		for j := range d.Chunks {
			d.Chunks[j] = mess(r, d.Chunks[j])
		}
		fl := int64(r.N(len(fileModes))) << 8
		if r.P(1, 6) {
			fl |= fFormatted
		}
		if r.P(1, 5) {
			fl |= fLink
		}
		switch r.N(16) {
		case 0, 1:
			fl |= fUp
		case 2:
			fl |= fAbs
		}
		if r.P(1, 8) {
			fl |= fBroken
			d.Post = r.Pick([]string{"oops = {\n", "a = \n", "]\n", "x {\n", "b = \"abc\n", "x = 1 y = 2\n"})
		}
		if r.P(1, 10) {
			d.Post = strings.TrimSuffix(d.Post, "\n") // no newline at the end
			if d.Post == "" {
				d.Post = "last = 1"
			}
		}
		if odd && r.P(1, 12) {
			fl |= fMissing
		} else if odd && r.P(1, 16) {
			fl |= fDir
		}
		sc.N[fmt.Sprintf("f%d", i)] = fl
		sc.Docs = append(sc.Docs, d)
	}
}

const decoy = "decoy   =   1\n"

type fmtFile struct {
	arg, path  string // as given, as stored
	name, base string // last component of arg and the directory it is in
	flags      int64
	mode       fs.FileMode
	old, fresh []byte
}

// putFmtFiles stores the files and returns what is known about them.
func putFmtFiles(k *simk.Kernel, sc *harness.Scenario) []*fmtFile {
	var out []*fmtFile
	k.MkdirAll("/w")
	for i, d := range sc.Docs {
		f := &fmtFile{arg: d.Name, name: d.Name, base: "/w/", path: "/w/" + d.Name, flags: sc.N[fmt.Sprintf("f%d", i)]}
		f.mode = fileModes[int(f.flags>>8)%len(fileModes)]
		f.old = []byte(d.Text())
		if f.flags&fFormatted != 0 {
			f.old = hclwrite.Format(f.old)
		}
		f.fresh = hclwrite.Format(f.old)
		if f.flags&fUp != 0 {
			// link leads to /w/a/b, so link/../f is /w/a/f; a file /w/f that
			// would need formatting as well is not the one that is named.
			k.MkdirAll("/w/a/b")
			k.PutLink("/w/link", "a/b")
			k.Put("/w/"+d.Name, []byte(decoy), 0644)
			f.arg, f.base = "link/../"+d.Name, "/w/a/"
			f.path = f.base + d.Name
		}
		if f.flags&fAbs != 0 {
			f.arg = "/w/" + f.arg
		}
		switch {
		case f.flags&fMissing != 0:
		case f.flags&fDir != 0:
			k.MkdirAll(f.path)
		case f.flags&fLink != 0:
			f.path = f.base + "real/" + d.Name
			k.Put(f.path, f.old, f.mode)
			k.PutLink(f.base+d.Name, "real/"+d.Name)
		default:
			k.Put(f.path, f.old, f.mode)
		}
		out = append(out, f)
	}
	k.Put("/w/other.txt", []byte("not yours"), 0600)
	k.Settle()
	return out
}

func genP06(r *rnd, tier string) *harness.Scenario {
	sc := &harness.Scenario{N: map[string]int64{}}
	genFmtFiles(r, sc, 3, false)
	if r.P(1, 4) {
		sc.N["check"] = 1
	}
	if r.P(1, 6) {
		sc.N["nochange"] = 1
	}
	sc.Faults = genFaults(r, "hclfmt", 2, []string{"err", "err", "short", "short", "sticky", "crash", "crash", "power", "power", "power"})
	if r.P(1, 3) {
		sc.N["reader"] = 1
		sc.N["readsize"] = int64(r.Range(3, 60))
	}
	if r.P(1, 6) {
		sc.N["taken"] = int64(1 + r.N(2)) // names it would use are in use
	}
	sc.Pol = genPolicy(r, 3000)
	if sc.Pol.Kind == "hot" {
		sc.Pol = simrt.Policy{Kind: "rand", Mean: 60, Seed: sc.Pol.Seed}
	}
	return sc
}

func fmtArgs(sc *harness.Scenario, files []*fmtFile) []string {
	var args []string
	if sc.N["check"] == 1 {
		args = append(args, "-check")
	}
	if sc.N["nochange"] == 1 {
		args = append(args, "-require-no-change")
	}
	for _, f := range files {
		args = append(args, f.arg)
	}
	return args
}

func runP06(sc *harness.Scenario, o *harness.Outcome) {
	p := harness.Find("P06")
	// The undisturbed run tells how many operations there are.
	k0 := simk.New(sc.Seed)
	files := putFmtFiles(k0, sc)
	args := append([]string{"-w"}, fmtArgs(sc, files)...)
	p0, _ := runCmd(o, p, k0, progHclfmt, "hclfmt", args, nil)
	if o.Violation != "" || crashed(o, p0) {
		return
	}
	for _, f := range files {
		if d := sameTokens(f.old, f.fresh); d != "" {
			o.Fail("tokens", "formatting %s changes more than spacing: %s\n--- before\n%s\n--- after\n%s", f.arg, d, f.old, f.fresh)
			return
		}
	}
	checkFmtDir(o, sc, k0, files, nil, p0, "in an undisturbed run")
	if o.Violation != "" {
		return
	}

	k := simk.New(sc.Seed)
	files = putFmtFiles(k, sc)
	taken := map[string]string{}
	if sc.N["taken"] > 0 {
		// Whatever names the undisturbed run made for itself belong to
		// somebody else here.
		had := snapshot(k, "/w")
		for _, l := range k0.Log {
			if l.Op != "create" || k.Node(l.Path, false) != nil || k.Node(path.Dir(l.Path), true) == nil {
				continue
			}
			if sc.N["taken"] == 2 {
				k.PutLink(l.Path, "/w/other.txt")
			} else {
				k.Put(l.Path, []byte("not yours either"), 0600)
			}
		}
		for n, s := range snapshot(k, "/w") {
			if had[n] == "" {
				taken[n] = s
			}
		}
		if len(taken) > 0 {
			o.Tag("name-taken")
		}
		k.Settle()
	}
	k.Faults = place(sc.Faults, opCounts(k0))
	look := func(when string) {
		for _, f := range files {
			got, ok := k.Get(f.arg1())
			if !ok || !bytes.Equal(got, f.old) && !bytes.Equal(got, f.fresh) {
				o.Fail("content", "%s holds neither its old nor its complete formatted content %s: %s", f.arg, when, state(got, ok, f))
			}
		}
	}
	k.OnOp = func(pr *simk.Proc, op, path string) {
		look(fmt.Sprintf("when operation %d (%s %s) begins", pr.Ops(), op, path))
	}
	proc := k.NewProc("hclfmt", append([]string{"hclfmt"}, args...), nil)
	proc.Cwd = "/w"
	specs := []simrt.Spec{{Name: "hclfmt", Data: proc, Fn: proc.Body(progHclfmt)}}
	if sc.N["reader"] == 1 && len(files) > 0 {
		rd := k.NewProc("reader", []string{"reader"}, nil)
		specs = append(specs, simrt.Spec{Name: "reader", Data: rd, Fn: func() {
			for i := 0; i < 6; i++ {
				f := files[i%len(files)]
				h, err := rd.Open(f.arg1(), 0, 0)
				if err != nil {
					o.Fail("reader", "a concurrent reader could not open %s: %v", f.arg, err)
					return
				}
				var all []byte
				buf := make([]byte, sc.N["readsize"])
				for {
					n, err := h.Read(buf)
					all = append(all, buf[:n]...)
					if err != nil || n == 0 {
						break
					}
				}
				h.Close()
				if !bytes.Equal(all, f.old) && !bytes.Equal(all, f.fresh) {
					o.Fail("reader", "a concurrent reader of %s got neither its old nor its complete formatted content: %s", f.arg, state(all, true, f))
					return
				}
			}
		}})
	}
	o.Sim(sc, p, specs)
	k.OnOp = nil
	noteKernel(o, k, proc)
	if o.Violation != "" || crashed(o, proc) {
		return
	}
	o.Nontrivial = len(k.Fired) > 0 || sc.N["reader"] == 1 || len(taken) > 0
	when := "after the run"
	if k.Off {
		k.Restart()
		when = "after power loss and restart"
		o.Tag("power-loss")
	} else if proc.Killed {
		when = "after the process was killed"
		o.Tag("killed")
	}
	look(when)
	if o.Violation != "" {
		return
	}
	checkFmtDir(o, sc, k, files, taken, proc, when)
}

func (f *fmtFile) arg1() string { return f.base + f.name }

func state(got []byte, ok bool, f *fmtFile) string {
	if !ok {
		return "it is gone"
	}
	return fmt.Sprintf("\n--- content (%d bytes)\n%s\n--- old (%d bytes)\n%s\n--- formatted (%d bytes)\n%s", len(got), got, len(f.old), f.old, len(f.fresh), f.fresh)
}

// checkFmtDir checks everything around the files' content.
func checkFmtDir(o *harness.Outcome, sc *harness.Scenario, k *simk.Kernel, files []*fmtFile, taken map[string]string, proc *simk.Proc, when string) {
	want := map[string]string{"/w/other.txt": fmt.Sprintf("file 600 %q", "not yours")}
	for _, f := range files {
		if f.flags&fUp != 0 {
			want["/w/a"], want["/w/a/b"], want["/w/link"] = "directory", "directory", "link to a/b"
			want["/w/"+f.name] = fmt.Sprintf("file 644 %q", decoy)
		}
		if f.flags&fLink != 0 {
			want[f.base+"real"] = "directory"
			want[f.base+f.name] = "link to real/" + f.name
		}
		want[f.path] = ""
		in := k.Node(f.path, false)
		if in == nil || !in.Mode.IsRegular() {
			o.Fail("kind", "%s is no longer a regular file %s: %s", f.arg, when, describeNode(in))
			return
		}
		if in.Mode.Perm() != f.mode {
			o.Fail("mode", "%s had mode %o and has %o %s", f.arg, f.mode, in.Mode.Perm(), when)
		}
		if sc.N["check"] == 1 && f.flags&fBroken != 0 && !bytes.Equal(in.Data, f.old) {
			o.Fail("broken-rewritten", "%s has a syntax error and was rewritten although -check was given, %s", f.arg, when)
		}
	}
	for _, n := range sortedKeys(taken) {
		if d := describeNode(k.Node(n, false)); d != taken[n] {
			o.Fail("others", "%s was %s and is %s %s", n, taken[n], d, when)
		}
		want[n] = ""
	}
	got := snapshot(k, "/w")
	for _, n := range sortedKeys(want) {
		if want[n] != "" && got[n] != want[n] {
			o.Fail("others", "%s was %s and is %s %s", n, want[n], describeNode(k.Node(n, false)), when)
		}
	}
	orderly := !proc.Killed && !fired(k, "unlink")
	for _, n := range sortedKeys(got) {
		if _, ok := want[n]; !ok && orderly {
			o.Fail("leftover", "%s was left behind %s", n, when)
		}
	}
	// What needs no change is not touched at all.
	for _, l := range k.Log {
		if l.Proc == "reader" {
			continue
		}
		switch l.Op {
		case "create", "write", "truncate", "rename", "unlink", "chmod":
		default:
			continue
		}
		for _, f := range files {
			if k.Node(l.Path, false) == k.Node(f.path, false) && bytes.Equal(f.old, f.fresh) {
				o.Fail("touched", "%s needs no change and was still modified (%s)", f.arg, l)
			}
		}
	}
}

func init() {
	harness.Register(&harness.Property{
		ID: "P06", QuickRuns: 250000, QuickSecs: 60, ThoroughRuns: 2000000, ThoroughSecs: 600,
		Rule:        "a run counts when a fault fired, a concurrent reader was present, or a name it would use was taken; distinct by schedule and faults as fired (kind, operation and position)",
		Real:        []string{"cmd/hclfmt", "hclwrite", "hclparse", "hclsyntax"},
		Stub:        []string{"file system with volatile and durable state", "process start and exit", "terminal", "command-line front end (the real parser over simulated arguments)"},
		Assumptions: []string{"rename is atomic; directory changes reach the disk in order; a file's content is durable only after it was synced", "the formatted content is that of an undisturbed call of the same formatter, and its tokens must be those of the original"},
		Gen:         genP06, Run: runP06,
	})
}
