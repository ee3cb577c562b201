package props

import (
	"bytes"
	"fmt"
	"strings"

	"verifsim/harness"
	"verifsim/simk"
)

func genP07(r *rnd, tier string) *harness.Scenario {
	sc := &harness.Scenario{N: map[string]int64{}}
	if r.P(1, 6) {
		// standard input
		genFmtFiles(r, sc, 1, false)
		sc.N["stdin"] = 1
	} else {
		genFmtFiles(r, sc, 4, true)
		if r.P(1, 2) {
			sc.N["w"] = 1
		}
	}
	if r.P(1, 3) {
		sc.N["check"] = 1
	}
	if r.P(1, 4) {
		sc.N["nochange"] = 1
	}
	sc.Faults = genFaults(r, "hclfmt", 2, []string{"err", "err", "err", "short", "short", "sticky"})
	return sc
}

func runP07(sc *harness.Scenario, o *harness.Outcome) {
	p := harness.Find("P07")
	run := func(faults []simk.Fault) (*simk.Kernel, []*fmtFile, *simk.Proc) {
		k := simk.New(sc.Seed)
		files := putFmtFiles(k, sc)
		k.Faults = faults
		args := fmtArgs(sc, files)
		var stdin []byte
		if sc.N["stdin"] == 1 && len(files) > 0 {
			stdin = files[0].old
			args = args[:len(args)-len(files)]
		}
		if sc.N["w"] == 1 {
			args = append([]string{"-w"}, args...)
		}
		pr, _ := runCmd(o, p, k, progHclfmt, "hclfmt", args, stdin)
		return k, files, pr
	}
	k0, files, p0 := run(nil)
	if o.Violation != "" || crashed(o, p0) {
		return
	}
	if len(files) == 0 {
		return
	}
	judgeFmt(o, sc, k0, files, p0, false)
	if o.Violation != "" {
		noteKernel(o, k0, p0)
		return
	}
	k, files, pr := run(place(sc.Faults, opCounts(k0)))
	noteKernel(o, k, pr)
	if o.Violation != "" || crashed(o, pr) {
		return
	}
	o.Nontrivial = len(k.Fired) > 0
	judgeFmt(o, sc, k, files, pr, len(k.Fired) > 0)
	// nothing ever depends on how input arrives in pieces
	if !firedExceptShortRead(k) && len(k.Fired) > 0 {
		if pr.Code != p0.Code || !bytes.Equal(pr.Stdout.Buf, p0.Stdout.Buf) {
			o.Fail("pieces", "the result depends on how input arrived in pieces: exit %d and %d bytes of output instead of %d and %d", pr.Code, len(pr.Stdout.Buf), p0.Code, len(p0.Stdout.Buf))
		}
	}
}

func firedExceptShortRead(k *simk.Kernel) bool {
	for _, f := range k.Fired {
		if f != "short/read" && f != "short/stdin" {
			return true
		}
	}
	return false
}

// judgeFmt compares what hclfmt said with what it did.
func judgeFmt(o *harness.Outcome, sc *harness.Scenario, k *simk.Kernel, files []*fmtFile, pr *simk.Proc, faulted bool) {
	check, w, nochange := sc.N["check"] == 1, sc.N["w"] == 1, sc.N["nochange"] == 1
	// What an undisturbed run has to do.
	code, why := 0, ""
	var out []byte
	done := 0
	for _, f := range files {
		if f.flags&(fMissing|fDir) != 0 {
			code, why = 1, f.arg+" cannot be read"
			break
		}
		done++
		if check && f.flags&fBroken != 0 {
			code, why = 1, f.arg+" has a syntax error"
			continue
		}
		if nochange && !bytes.Equal(f.old, f.fresh) && why == "" {
			code, why = 1, f.arg+" needs formatting"
		}
		if !w {
			out = append(out, f.fresh...)
		}
	}
	if !faulted {
		if (pr.Code == 0) != (code == 0) {
			o.Fail("exit", "hclfmt exited with status %d without any fault although %s", pr.Code, orNothing(why))
		}
	}
	if pr.Code != 0 {
		if len(pr.Stderr.Buf) == 0 && !fired(k, "stderr") {
			o.Fail("silent", "hclfmt exited with status %d and said nothing on standard error", pr.Code)
		}
		if !faulted && sc.N["stdin"] == 0 && why != "" && check && strings.HasSuffix(why, "syntax error") && !strings.Contains(string(pr.Stderr.Buf), strings.Fields(why)[0]) {
			o.Fail("unnamed", "hclfmt does not name the file with the syntax error: %q", pr.Stderr.Buf)
		}
	}
	if pr.Code == 0 && code != 0 {
		o.Fail("exit0", "hclfmt exited with status 0 although %s", why)
	}
	if pr.Code == 0 || !faulted {
		if !bytes.Equal(pr.Stdout.Buf, out) {
			o.Fail("stdout", "hclfmt exited with status %d, but standard output is not the formatted text:\n--- got\n%s\n--- want\n%s", pr.Code, pr.Stdout.Buf, out)
		}
		for i, f := range files {
			if f.flags&(fMissing|fDir) != 0 {
				continue
			}
			want := f.fresh
			if !w || i >= done || check && f.flags&fBroken != 0 {
				want = f.old
			}
			if got, ok := k.Get(f.arg1()); !ok || !bytes.Equal(got, want) {
				o.Fail("file", "hclfmt exited with status %d, but %s does not hold what it should:\n--- got\n%s\n--- want\n%s", pr.Code, f.arg, got, want)
			}
		}
	} else if !w {
		// What was printed before the failure is the beginning of the output.
		if !bytes.HasPrefix(out, pr.Stdout.Buf) {
			o.Fail("garbled", "hclfmt failed after printing text that is not the beginning of its output:\n--- got\n%s\n--- want\n%s", pr.Stdout.Buf, out)
		}
	}
	if pr.Code == 0 && faulted && fired(k, "open", "read", "stdin", "write", "stdout", "create", "rename", "sync", "close") && firedExceptShortRead(k) {
		o.Tag("exit0-after-fault")
	}
	for _, n := range sortedKeys(snapshot(k, "/w")) {
		if n == "/w/other.txt" && describeNode(k.Node(n, false)) != fmt.Sprintf("file 600 %q", "not yours") {
			o.Fail("others", "%s was changed", n)
		}
	}
}

func orNothing(s string) string {
	if s == "" {
		return "nothing is wrong"
	}
	return s
}

func init() {
	harness.Register(&harness.Property{
		ID: "P07", QuickRuns: 250000, QuickSecs: 60, ThoroughRuns: 2000000, ThoroughSecs: 600,
		Rule:        "a run counts when a fault fired; distinct by the faults as fired (kind, operation) and their trace",
		Real:        []string{"cmd/hclfmt", "hclwrite", "hclparse", "hclsyntax", "hcl diagnostics"},
		Stub:        []string{"file system", "standard streams", "process start and exit", "terminal", "command-line front end (the real parser over simulated arguments)"},
		Assumptions: []string{"the formatted content is that of an undisturbed call of the same formatter"},
		Gen:         genP07, Run: runP07,
	})
}
