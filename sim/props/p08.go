package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"verifsim/harness"
	"verifsim/simk"
)

func genP08(r *rnd, tier string) *harness.Scenario {
	sc := &harness.Scenario{N: map[string]int64{}, S: map[string]string{}}
	sc.N["gs"] = int64(r.U64() >> 12)
	sc.N["size"] = int64(r.Range(1, 4))
	sc.N["refs"] = int64(r.N(5) / 4)
	if r.P(1, 3) {
		fl := parseFlaws
		if sc.N["refs"] == 0 && r.P(2, 3) {
			fl = decodeFlaws
		}
		sc.S["flaw"] = fl[r.N(len(fl))]
	}
	for _, k := range []string{"out", "oldout", "json", "type"} {
		sc.N[k] = int64(r.N(3) / 2)
	}
	sc.N["tty"] = int64(r.N(4) / 3)
	sc.Faults = genFaults(r, "hcldec", 2, []string{"err", "err", "err", "short", "short", "sticky"})
	return sc
}

func shrinkDec(sc *harness.Scenario) []*harness.Scenario {
	var out []*harness.Scenario
	for s := int64(1); s < sc.N["size"]; s++ {
		c := sc.Clone()
		c.N["size"] = s
		out = append(out, c)
	}
	for _, k := range []string{"out", "oldout", "json", "type", "tty"} {
		if sc.N[k] != 0 {
			c := sc.Clone()
			c.N[k] = 0
			out = append(out, c)
		}
	}
	if sc.S["flaw"] != "" {
		c := sc.Clone()
		c.S["flaw"] = ""
		out = append(out, c)
	}
	return out
}

// putDec stores an input on a machine and returns the arguments of hcldec.
func putDec(k *simk.Kernel, dir string, in *decInput) []string {
	k.MkdirAll(dir)
	put := func(f harnessFile) {
		if f.Name != in.BadFile {
			k.Put(dir+"/"+f.Name, []byte(f.Text), 0644)
		}
	}
	put(harnessFile{"spec.hcldec", in.Spec})
	args := []string{"--spec=spec.hcldec"}
	for _, f := range in.VarFile {
		put(f)
	}
	for _, v := range in.VarArgs {
		args = append(args, "-V", v)
	}
	for _, f := range in.Files {
		put(f)
		args = append(args, f.Name)
	}
	return args
}

func (in *decInput) note(o *harness.Outcome) {
	o.Note("spec.hcldec:\n%s", in.Spec)
	for _, f := range in.VarFile {
		o.Note("%s:\n%s", f.Name, f.Text)
	}
	for _, v := range in.VarArgs {
		o.Note("-V %s", v)
	}
	if in.UseIn {
		o.Note("standard input:\n%s", in.Stdin)
	}
	for _, f := range in.Files {
		o.Note("%s:\n%s", f.Name, f.Text)
	}
	o.Note("flaw: %q; value %s", in.Bad, canonM(in.Val))
}

func runP08(sc *harness.Scenario, o *harness.Outcome) {
	p := harness.Find("P08")
	in := buildDec(uint64(sc.N["gs"]), int(sc.N["size"]), sc.S["flaw"])
	in.note(o)
	run := func(faults []simk.Fault) (*simk.Kernel, *simk.Proc) { return execDec(o, p, sc, in, faults) }
	k0, p0 := run(nil)
	if o.Violation != "" || crashed(o, p0) {
		if in.Empty {
			o.Key = "empty-map"
		}
		return
	}
	if in.Bad != "" {
		o.Tag("flaw-" + in.Bad)
	}
	judgeDec(o, sc, in, k0, p0, false)
	if in.Empty && (o.Key == "exit" || o.Key == "value") {
		o.Key = "empty-map"
	}
	if o.Violation != "" {
		noteKernel(o, k0, p0)
		return
	}
	k, pr := run(place(sc.Faults, opCounts(k0)))
	noteKernel(o, k, pr)
	if o.Violation != "" || crashed(o, pr) {
		if in.Empty {
			o.Key = "empty-map"
		}
		return
	}
	o.Nontrivial = len(k.Fired) > 0
	judgeDec(o, sc, in, k, pr, firedExceptShortRead(k))
}

// execDec runs hcldec on the input.
func execDec(o *harness.Outcome, p *harness.Property, sc *harness.Scenario, in *decInput, faults []simk.Fault) (*simk.Kernel, *simk.Proc) {
	k := simk.New(sc.Seed)
	args := putDec(k, "/w", in)
	if sc.N["out"] == 1 {
		args = append([]string{"-o", "out.json"}, args...)
		if sc.N["oldout"] == 1 {
			k.Put("/w/out.json", bytes.Repeat([]byte("old output "), 300), 0644)
		}
	}
	if sc.N["json"] == 1 {
		args = append([]string{"--diags=json"}, args...)
	}
	if sc.N["type"] == 1 {
		args = append([]string{"--with-type"}, args...)
	}
	if sc.N["refs"] == 1 {
		args = append([]string{"--var-refs"}, args...)
	}
	k.Faults = faults
	pr := k.NewProc("hcldec", append([]string{"hcldec"}, args...), []byte(in.Stdin))
	pr.Cwd = "/w"
	pr.IsTTY = sc.N["tty"] == 1
	o.Alone(p, "hcldec", pr, pr.Body(progHcldec))
	return k, pr
}

func judgeDec(o *harness.Outcome, sc *harness.Scenario, in *decInput, k *simk.Kernel, pr *simk.Proc, faulted bool) {
	if pr.Code != 0 {
		if in.Bad == "" && !faulted {
			o.Fail("exit", "hcldec exited with status %d although nothing is wrong; it said: %s", pr.Code, pr.Stderr.Buf)
			return
		}
		if fired(k, "stderr") {
			return
		}
		if len(pr.Stderr.Buf) == 0 {
			o.Fail("silent", "hcldec exited with status %d and said nothing on standard error", pr.Code)
			return
		}
		if sc.N["json"] == 1 && !faulted && in.Bad != "infinite" {
			// errors of the input are reported as diagnostics
			var d struct {
				Diagnostics []struct {
					Severity, Summary string
				}
			}
			if err := json.Unmarshal(pr.Stderr.Buf, &d); err != nil {
				o.Fail("diags-json", "the diagnostics asked for as JSON are not JSON (%v): %q", err, pr.Stderr.Buf)
				return
			}
			n := 0
			for _, e := range d.Diagnostics {
				if e.Severity == "error" && e.Summary != "" {
					n++
				}
			}
			if n == 0 {
				o.Fail("diags-none", "hcldec failed without an error among its diagnostics: %s", pr.Stderr.Buf)
			}
		}
		return
	}
	if in.Bad != "" {
		o.Fail("exit0", "hcldec exited with status 0 although the input has an error (%s)", in.Bad)
		return
	}
	out := pr.Stdout.Buf
	if sc.N["out"] == 1 {
		var ok bool
		if out, ok = k.Get("/w/out.json"); !ok {
			o.Fail("no-output", "hcldec exited with status 0 but the output file does not exist")
			return
		}
		if len(pr.Stdout.Buf) > 0 {
			o.Fail("stdout", "hcldec printed %q although an output file was given", pr.Stdout.Buf)
			return
		}
	}
	got, err := decodeJSON(out)
	if err != nil {
		o.Fail("output", "hcldec exited with status 0 but its output is not complete JSON (%v): %q", err, out)
		return
	}
	if !bytes.HasSuffix(out, []byte("\n")) {
		o.Fail("output-cut", "hcldec exited with status 0 but the output has no end of line: %q", out)
		return
	}
	if sc.N["refs"] == 1 {
		judgeRefs(o, in, got)
		return
	}
	want := stripNulls(in.Val)
	if sc.N["type"] == 1 && (want != nil || in.Typ != "dynamic") {
		w := map[string]interface{}{"type": in.Typ}
		if want != nil {
			w["value"] = want
		}
		want = w
	}
	if s := matchJSON(got, want, "value"); s != "" {
		o.Fail("value", "hcldec exited with status 0 with a wrong result, %s\n--- output\n%s\n--- expected\n%s", s, out, canonM(want))
	}
}

func judgeRefs(o *harness.Outcome, in *decInput, got interface{}) {
	list, ok := got.([]interface{})
	if !ok {
		o.Fail("refs", "the variable references are not a list: %v", got)
		return
	}
	var g []string
	for _, e := range list {
		m, _ := e.(map[string]interface{})
		s := fmt.Sprint(m["root_name"])
		text, where := in.at(m["range"])
		var inSteps string
		steps, _ := m["steps"].([]interface{})
		for _, st := range steps {
			t, _ := st.(map[string]interface{})
			if x, p := in.at(t["range"]); p != "" {
				where = p
			} else {
				inSteps += x
			}
			switch t["kind"] {
			case "root":
				if t["name"] != m["root_name"] {
					s += "!"
				}
			case "attr":
				s += "." + fmt.Sprint(t["name"])
			case "index":
				s += "[" + fmt.Sprint(t["key"]) + "]"
			}
		}
		g = append(g, s)
		if where != "" {
			o.Fail("ref-range", "the reference %s is reported at a place that does not exist, %s", s, where)
			return
		}
		if text != anyText && (text != s || inSteps != s) {
			o.Fail("ref-range", "the reference %s is reported at %q with steps at %q", s, text, inSteps)
			return
		}
		if want := lookupVar(in.Vars, s); want != nil {
			if d := matchJSON(m["value"], want, s); d != "" {
				o.Fail("ref-value", "the reference %s is reported with another value: %s", s, d)
				return
			}
		}
	}
	w := append([]string{}, in.Refs...)
	sort.Strings(g)
	sort.Strings(w)
	if a, b := strings.Join(g, " "), strings.Join(w, " "); a != b {
		o.Fail("refs", "hcldec exited with status 0 with the references %q instead of %q", a, b)
	}
}

func ascii(s string) bool {
	return strings.IndexFunc(s, func(c rune) bool { return c >= 0x80 }) < 0
}

const anyText = "?"

// at returns the text of a source range in the output, or what is wrong with
// the range. In JSON the text may be written with escapes, so only the place
// counts there.
func (in *decInput) at(rng interface{}) (text, wrong string) {
	m, _ := rng.(map[string]interface{})
	name := fmt.Sprint(m["filename"])
	src, ok := in.Stdin, in.UseIn
	for _, f := range in.Files {
		if f.Name == name {
			src, ok = f.Text, true
		}
	}
	if !ok {
		return "", "in " + name
	}
	var off [2]int
	for i, e := range []string{"start", "end"} {
		p, _ := m[e].(map[string]interface{})
		num := func(k string) int { n, _ := strconv.Atoi(fmt.Sprint(p[k])); return n }
		off[i] = num("byte")
		if off[i] < 0 || off[i] > len(src) || off[i] < off[0] {
			return "", fmt.Sprintf("byte %d of %s", off[i], name)
		}
		if strings.HasSuffix(name, ".json") {
			continue
		}
		before := src[:off[i]]
		line := before[strings.LastIndexByte(before, '\n')+1:]
		if num("line") != 1+strings.Count(before, "\n") || ascii(line) && num("column") != 1+len(line) {
			return "", fmt.Sprintf("line %d, column %d is not byte %d of %s", num("line"), num("column"), off[i], name)
		}
	}
	if strings.HasSuffix(name, ".json") {
		return anyText, ""
	}
	return src[off[0]:off[1]], ""
}

func lookupVar(vars map[string]interface{}, path string) interface{} {
	var i int
	switch {
	case strings.HasPrefix(path, "v_o."):
		return vars["v_o"].(map[string]interface{})[path[4:]]
	case strings.HasPrefix(path, "v_l["):
		fmt.Sscanf(path, "v_l[%d]", &i)
		if l := vars["v_l"].([]interface{}); i < len(l) {
			return l[i].(*big.Rat)
		}
	}
	return vars[path]
}

func init() {
	harness.Register(&harness.Property{
		ID: "P08", QuickRuns: 300000, QuickSecs: 60, ThoroughRuns: 2000000, ThoroughSecs: 600,
		Rule:        "a run counts when a fault fired; distinct by the operation trace with the faults as fired",
		Real:        []string{"cmd/hcldec", "hcldec", "hclparse", "hclsyntax", "hcl/json", "gohcl", "userfunc", "hcl diagnostics", "pflag", "go-cty"},
		Stub:        []string{"file system", "standard streams", "process start and exit", "terminal"},
		Assumptions: []string{"the expected value comes from a model of the documented specification language that shares no code with the repository"},
		Gen:         genP08, Run: runP08, Shrink: shrinkDec,
	})
}
