package props

import (
	"fmt"
	"sort"
	"strings"

	"verifsim/harness"
	"verifsim/simk"
	"verifsim/simrt"
)

// suiteTest is one generated test of a specification suite.
type suiteTest struct {
	name   string // below the suite's directory, without suffix
	files  []harnessFile
	inputs int  // how many inputs it has
	runs   int  // how often the decoder is run for one input
	clean  bool // whether the decoder succeeds
	bad    string
}

func posHCL(what string, line, col, byt int) string {
	return fmt.Sprintf("    %s {\n      line = %d\n      column = %d\n      byte = %d\n    }\n", what, line, col, byt)
}

// litHCL writes a model value of the given type as an expression. The
// decoder's output leaves null elements of maps out.
func litHCL(v, t interface{}) string {
	switch v := v.(type) {
	case nil:
		return "null"
	case string:
		q := varJSON(v)
		q = strings.ReplaceAll(q, "${", "$${")
		q = strings.ReplaceAll(q, "%{", "%%{")
		return q
	case []interface{}:
		return litSeq(v, t)
	case mset:
		return litSeq(v, t)
	case map[string]interface{}:
		tt := t.([]interface{})
		var s []string
		var ks []string
		for k := range v {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			et := tt[1]
			if tt[0] == "object" {
				et = tt[1].(map[string]interface{})[k]
			} else if v[k] == nil {
				continue
			}
			s = append(s, fmt.Sprintf("%q = %s", k, litHCL(v[k], et)))
		}
		return "{" + strings.Join(s, ", ") + "}"
	}
	return varJSON(v)
}

func litSeq(v []interface{}, t interface{}) string {
	tt := t.([]interface{})
	var s []string
	for i, e := range v {
		et := tt[1]
		if tt[0] == "tuple" {
			et = tt[1].([]interface{})[i]
		}
		s = append(s, litHCL(e, et))
	}
	return "[" + strings.Join(s, ", ") + "]"
}

func typeHCL(t interface{}) string {
	switch t := t.(type) {
	case string:
		return t
	case []interface{}:
		switch in := t[1].(type) {
		case map[string]interface{}:
			var ks, s []string
			for k := range in {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				s = append(s, k+" = "+typeHCL(in[k]))
			}
			return "object({" + strings.Join(s, ", ") + "})"
		case []interface{}:
			if t[0] == "tuple" {
				var s []string
				for _, e := range in {
					s = append(s, typeHCL(e))
				}
				return "tuple([" + strings.Join(s, ", ") + "])"
			}
		}
		return fmt.Sprintf("%s(%s)", t[0], typeHCL(t[1]))
	}
	panic("type")
}

var suiteBads = []string{"wrong-value", "wrong-value", "wrong-type", "unexpected-error", "no-spec", "test-syntax", "diag-line", "diag-end", "diag-missing", "diag-extra", "diag-severity", "diag-none",
	"ref-name", "ref-missing", "ref-extra", "ref-range", "ref-end", "one-input-differs"}

// buildSuiteTest makes one test; with bad set it must fail for that reason.
func buildSuiteTest(r *rnd, name, bad string, size int) *suiteTest {
	t := &suiteTest{name: name, runs: 1, bad: bad}
	add := func(suffix, text string) { t.files = append(t.files, harnessFile{name + suffix, text}) }
	kind := r.N(8)
	switch {
	case strings.HasPrefix(bad, "diag"):
		kind = 0
	case strings.HasPrefix(bad, "ref"):
		kind = 1
	case bad != "" || kind > 1:
		kind = 2
	}
	switch kind {
	case 0: // diagnostics
		lines := r.Range(0, 3)
		pre := strings.Repeat("# c\n", lines)
		src := pre + "zz_extra = 1\n"
		line, col, byt, end := lines+1, 1, len(pre), 8
		exp := 1
		sev := "error"
		n := 1
		switch bad {
		case "diag-line":
			line++
		case "diag-end":
			end++
		case "diag-missing":
			exp = 0
		case "diag-extra":
			n = 2
		case "diag-severity":
			sev = "warning"
		case "diag-none":
			src = pre
		}
		two := bad == "diag-missing" || r.P(1, 2)
		if two && bad != "diag-none" {
			src += "zz_more = 2\n"
		}
		txt := ""
		blk := func(sev string, line, col, byt, end int) {
			txt += "  " + sev + " {\n" + posHCL("from", line, col, byt) + posHCL("to", line, col+end, byt+end) + "  }\n"
		}
		if exp == 1 {
			blk(sev, line, col, byt, end)
		}
		if two && bad != "diag-none" {
			blk("error", lines+2, 1, len(pre)+13, 7)
		}
		if n == 2 {
			blk("error", line+7, 1, byt+90, 4)
		}
		add(".t", "diagnostics {\n"+txt+"}\n")
		add(".hcldec", "literal {\n  value = \"x\"\n}\n")
		add(".hcl", src)
		t.inputs = 1
	case 1: // traversals
		t.runs = 2
		t.clean = true
		refs := []string{"v_o.a", "v_s", "v_l[1]", "v_o.deep.er", `v_o["b"]`}
		order := r.Perm(len(refs))
		n := r.Range(1, 3)
		if bad == "ref-missing" && n == 1 {
			n = 2
		}
		src, exp := "", ""
		vals := ""
		for i := 0; i < n; i++ {
			ref := refs[order[i]]
			pre := fmt.Sprintf("t%d = ", i)
			line, col, byt, end := i+1, len(pre)+1, len(src)+len(pre), len(ref)
			src += pre + ref + "\n"
			vals += fmt.Sprintf("  attr {\n    name = \"t%d\"\n    type = any\n  }\n", i)
			if i == 0 {
				switch bad {
				case "ref-name":
					ref = "v_other"
				case "ref-range":
					line++
				case "ref-end":
					end++
				case "ref-missing":
					continue
				}
			}
			exp += "  expect {\n    ref = " + ref + "\n" + posHCL("from", line, col, byt) + posHCL("to", line, col+end, byt+end) + "  }\n"
		}
		if bad == "ref-extra" {
			exp += "  expect {\n    ref = v_never\n" + posHCL("from", 1, 1, 0) + posHCL("to", 1, 2, 1) + "  }\n"
		}
		add(".t", "traversals {\n"+exp+"}\n")
		add(".hcldec", "variables {\n  v_o = {a = \"x\", b = 2, deep = {er = 1}}\n  v_s = \"s\"\n  v_l = [1, 2]\n}\narray {\n"+vals+"}\n")
		add(".hcl", src)
		t.inputs = 1
	default: // values
		t.clean = true
		flaw := ""
		if bad == "unexpected-error" {
			flaw = decodeFlaws[r.N(len(decodeFlaws))]
		}
		var c *decCase
		var root mspec
		var body *mbody
		var val, typ interface{}
		for try := 0; try < 20; try++ {
			c = &decCase{r: r, size: size, flaw: flaw, user: r.Bool(), plain: true}
			c.vars = map[string]interface{}{
				"v_s": "str", "v_n": rat(int64(r.N(50))), "v_b": r.Bool(),
				"v_l": []interface{}{rat(int64(r.N(9))), rat(12)},
				"v_o": map[string]interface{}{"a": "A", "b": rat(int64(r.N(1000)))},
			}
			root = c.objectSpec(r.Range(1, 2), true)
			body = &mbody{}
			val, typ = root.fill(body)
			c.extras(body)
			c.shuffle(body)
			if flaw == "" || c.applied {
				break
			}
		}
		if flaw != "" && !c.applied {
			body.attr("zz_extra", mexpr{nat: "1", js: "1"})
		}
		spec := "variables {\n"
		for _, n := range []string{"v_b", "v_l", "v_n", "v_o", "v_s"} {
			spec += "  " + n + " = " + varNative(c.vars[n]) + "\n"
		}
		spec += "}\n"
		if c.user {
			spec += "function \"dup\" {\n  params = [s]\n  result = \"${s}${s}\"\n}\nfunction \"up\" {\n  params = [s]\n  result = upper(s)\n}\n"
		}
		txt := ""
		if r.P(3, 4) || bad != "" {
			txt = "result_type = " + typeHCL(typ) + "\n"
			if r.P(3, 4) || bad != "" {
				v := val.(map[string]interface{})
				if bad == "wrong-value" {
					// an object of the same type with one difference
					var ks []string
					for k := range v {
						ks = append(ks, k)
					}
					sort.Strings(ks)
					w := map[string]interface{}{}
					done := false
					at := typ.([]interface{})[1].(map[string]interface{})
					for _, k := range ks {
						w[k] = v[k]
						if done {
							continue
						}
						switch x := v[k].(type) {
						case string:
							w[k], done = x+"!", true
						case bool:
							w[k], done = !x, true
						case nil:
							if at[k] == "string" {
								w[k], done = "", true
							}
						default:
							if at[k] == "number" {
								w[k], done = rat(-5), true
								if fmt.Sprint(x) == fmt.Sprint(rat(-5)) {
									w[k] = rat(-6)
								}
							}
						}
					}
					if !done {
						txt = "result_type = object({zzz = string})\n"
						w = map[string]interface{}{"zzz": "x"}
						typ = []interface{}{"object", map[string]interface{}{"zzz": "string"}}
					}
					v = w
				}
				txt += "result = " + litHCL(v, typ) + "\n"
			}
		}
		if bad == "wrong-type" {
			txt = "result_type = list(string)\n"
		}
		if bad == "test-syntax" {
			txt += r.Pick([]string{"result_type = \n", "}\n", "oops {\n", "unknown = 1\n"})
		}
		add(".t", txt)
		if bad != "no-spec" {
			add(".hcldec", spec+root.text(""))
		}
		other := &mbody{items: append([]mitem{}, body.items...)}
		if bad == "one-input-differs" {
			other.attr("zz_extra", mexpr{nat: "1", js: "1"})
		}
		which := r.N(3)
		if bad == "one-input-differs" {
			which = 2
		}
		if which != 1 {
			add(".hcl", body.native(""))
			t.inputs++
		}
		if which != 0 {
			add(".hcl.json", other.json())
			t.inputs++
		}
	}
	return t
}

type suite struct {
	tests []*suiteTest
	fake  string
	// what the scripted decoder says, by input, or nil
	script map[string]*decAnswer
}

// Decoders that do not do their work.
var fakes = []string{"exit1-empty", "exit1-nothing", "exit1-no-diags", "exit0-nothing", "exit0-cut", "exit0-other", "exit2-text"}

func buildSuite(seed uint64, n, size int, bad, fake string, script bool) *suite {
	r := simrt.NewRand(seed)
	s := &suite{fake: fake}
	if script {
		s.script = map[string]*decAnswer{}
	}
	at := r.N(n)
	dirs := []string{"", "", "sub/", "sub/deeper/", "other/", "v1.2/", "two words/x/"}
	for i := 0; i < n; i++ {
		b := ""
		if i == at {
			b = bad
		}
		if script {
			s.tests = append(s.tests, buildScriptTest(r, s, fmt.Sprintf("%stest%d", dirs[r.N(len(dirs))], i), b))
			continue
		}
		s.tests = append(s.tests, buildSuiteTest(r, fmt.Sprintf("%stest%d", dirs[r.N(len(dirs))], i), b, size))
	}
	return s
}

func fakeDecoder(mode string) func() {
	return func() {
		p := simk.Must()
		out := func(s string) { p.WriteStream(p.Stdout, []byte(s)) }
		err := func(s string) { p.WriteStream(p.Stderr, []byte(s)) }
		switch mode {
		case "exit1-empty":
			err("{\"diagnostics\": []}\n")
			p.Exit(1)
		case "exit1-no-diags":
			err("{}\n")
			p.Exit(1)
		case "exit1-nothing":
			p.Exit(1)
		case "exit0-nothing":
			p.Exit(0)
		case "exit0-cut":
			out("{\"type\":[\"object\",{}],\"val")
			p.Exit(0)
		case "exit0-other":
			out("[{\"steps\":[]}]")
			p.Exit(0)
		case "exit2-text":
			err("segmentation fault\n")
			p.Exit(2)
		}
	}
}

func genP09(r *rnd, tier string) *harness.Scenario {
	sc := &harness.Scenario{N: map[string]int64{}, S: map[string]string{}}
	sc.N["gs"] = int64(r.U64() >> 12)
	sc.N["tests"] = int64(r.Range(1, 4))
	sc.N["size"] = int64(r.Range(1, 2))
	switch {
	case r.P(2, 5):
		sc.N["script"] = 1
		if r.P(2, 3) {
			sc.S["bad"] = scriptBads[r.N(len(scriptBads))]
		}
	case r.P(1, 3):
		sc.S["bad"] = suiteBads[r.N(len(suiteBads))]
	case r.P(1, 8):
		sc.S["fake"] = fakes[r.N(len(fakes))]
	}
	kinds := []string{"err", "err", "err", "short", "short", "sticky", "crash"}
	for _, f := range genFaults(r, "hclspecsuite", 2, kinds) {
		if r.P(1, 2) {
			f.Proc = "*"
		} else if f.Kind == "crash" {
			f.Kind = "err"
		}
		sc.Faults = append(sc.Faults, f)
	}
	return sc
}

func runP09(sc *harness.Scenario, o *harness.Outcome) {
	p := harness.Find("P09")
	s := buildSuite(uint64(sc.N["gs"]), int(sc.N["tests"]), int(sc.N["size"]), sc.S["bad"], sc.S["fake"], sc.N["script"] == 1)
	for _, t := range s.tests {
		for _, f := range t.files {
			o.Note("%s:\n%s", f.Name, f.Text)
			for _, q := range []string{"", " refs"} {
				if a := s.script["suite/"+f.Name+q]; a != nil {
					o.Note("decoder for %s%s: exit status %d, stdout %s, stderr %s", f.Name, q, a.code, a.out, a.err)
				}
			}
		}
	}
	run := func(faults []simk.Fault) (*simk.Kernel, *simk.Proc) { return execSuite(o, p, sc, s, faults) }
	k0, p0 := run(nil)
	anyMixed := func(pr *simk.Proc) bool {
		if !crashed(o, pr) {
			return false
		}
		if sc.S["bad"] == "f-any-mixed" {
			o.Key = "any-mixed-crash" // a known finding
		}
		return true
	}
	if o.Violation != "" || anyMixed(p0) {
		return
	}
	bad := sc.S["bad"]
	if s.fake != "" {
		bad = "decoder-" + s.fake
	}
	if bad != "" {
		o.Tag("bad-" + bad)
	}
	judgeSuite(o, s, k0, p0, bad, false)
	if o.Violation != "" {
		noteKernel(o, k0, p0)
		return
	}
	var fs []simk.Fault
	ops := opCounts(k0)
	for _, f := range sc.Faults {
		if f.Proc == "*" {
			rec := k0.Log[f.Op*len(k0.Log)/1000]
			f.Proc, f.Op = rec.Proc, rec.N
			if f.Proc == "hclspecsuite" && f.Kind == "crash" {
				f.Kind = "err"
			}
		} else {
			f.Op = f.Op * ops[f.Proc] / 1000
		}
		fs = append(fs, f)
	}
	k, pr := run(fs)
	noteKernel(o, k, pr)
	if o.Violation != "" || anyMixed(pr) {
		return
	}
	o.Nontrivial = len(k.Fired) > 0
	judgeSuite(o, s, k, pr, bad, firedExceptShortRead(k))
}

// execSuite runs hclspecsuite on the suite.
func execSuite(o *harness.Outcome, p *harness.Property, sc *harness.Scenario, s *suite, faults []simk.Fault) (*simk.Kernel, *simk.Proc) {
	k := simk.New(sc.Seed)
	k.MkdirAll("/w/suite/.hidden")
	k.Put("/w/suite/.hidden/x.t", []byte("not a test {{{"), 0644)
	for _, t := range s.tests {
		for _, f := range t.files {
			k.Put("/w/suite/"+f.Name, []byte(f.Text), 0644)
		}
	}
	k.Put("/bin/hcldec", []byte("hcldec"), 0755)
	k.Programs["hcldec"] = progHcldec
	if s.fake != "" {
		k.Programs["hcldec"] = &simk.Program{Main: fakeDecoder(s.fake)}
	}
	if s.script != nil {
		k.Programs["hcldec"] = &simk.Program{Main: scriptedDecoder(s)}
	}
	k.Faults = faults
	pr, _ := runCmd(o, p, k, progSuite, "hclspecsuite", []string{"suite", "/bin/hcldec"}, nil)
	return k, pr
}

func judgeSuite(o *harness.Outcome, s *suite, k *simk.Kernel, pr *simk.Proc, bad string, faulted bool) {
	if pr.Code != 0 {
		if bad == "" && !faulted {
			o.Fail("exit", "the runner exited with status %d although every test passes; it said: %s", pr.Code, pr.Stderr.Buf)
			return
		}
		if len(pr.Stderr.Buf) == 0 && !fired(k, "stderr") {
			o.Fail("silent", "the runner exited with status %d and said nothing on standard error", pr.Code)
			return
		}
		if !faulted && s.fake == "" {
			// the test is named
			for _, t := range s.tests {
				if t.bad != "" && !strings.Contains(string(pr.Stdout.Buf)+string(pr.Stderr.Buf), t.name) {
					o.Fail("unnamed", "the runner does not name the failing test %s: %s%s", t.name, pr.Stdout.Buf, pr.Stderr.Buf)
				}
			}
		}
		return
	}
	if bad != "" {
		o.Fail("exit0", "the runner exited with status 0 although a test fails (%s)", bad)
		return
	}
	for _, t := range s.tests {
		for _, f := range t.files {
			if !strings.HasSuffix(f.Name, ".hcl") && !strings.HasSuffix(f.Name, ".hcl.json") {
				continue
			}
			n := 0
			for _, c := range k.Procs {
				if c.Parent == nil || len(c.Args) == 0 || c.Args[len(c.Args)-1] != "suite/"+f.Name {
					continue
				}
				if c.Killed || c.Panic != nil || t.clean && c.Code != 0 {
					continue
				}
				n++
			}
			if n < t.runs {
				o.Fail("not-run", "the runner exited with status 0 although the decoder ran successfully %d times instead of %d for %s", n, t.runs, f.Name)
				return
			}
		}
	}
}

func init() {
	harness.Register(&harness.Property{
		ID: "P09", QuickRuns: 80000, QuickSecs: 60, ThoroughRuns: 1000000, ThoroughSecs: 600,
		Rule:        "a run counts when a fault fired in the runner or in one of its children; distinct by the operation trace with the faults as fired",
		Real:        []string{"cmd/hclspecsuite", "cmd/hcldec as its child process", "hcldec", "hclparse", "hclsyntax", "hcl/json", "gohcl", "typeexpr", "hcl diagnostics"},
		Stub:        []string{"file system", "process start, exit and death", "standard streams", "terminal", "misbehaving decoders (scripted)"},
		Assumptions: []string{"tests pass or fail by construction of a model that shares no code with the repository"},
		Gen:         genP09, Run: runP09, Shrink: func(sc *harness.Scenario) []*harness.Scenario {
			var out []*harness.Scenario
			for n := int64(1); n < sc.N["tests"]; n++ {
				c := sc.Clone()
				c.N["tests"] = n
				out = append(out, c)
			}
			if sc.N["size"] > 1 {
				c := sc.Clone()
				c.N["size"] = 1
				out = append(out, c)
			}
			return out
		},
	})
}
