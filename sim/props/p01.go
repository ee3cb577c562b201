package props

import (
	"fmt"
	"strings"

	"verifsim/harness"
	"verifsim/simrt"
)

// genPolicy draws a scheduling policy; horizon estimates the run's length.
func genPolicy(r *rnd, horizon int64) simrt.Policy {
	p := simrt.Policy{Seed: r.U64()}
	switch r.N(12) {
	case 0, 1, 2:
		p.Kind, p.Mean = "rand", []int{2, 4, 10, 30, 100, 400}[r.N(6)]
	case 3, 4, 5, 6:
		p.Kind, p.Mean, p.Depth, p.Sync = "hot", []int{100, 1000, 10000}[r.N(3)], r.Range(0, 6), r.Bool()
		if p.Depth == 0 {
			p.Sync = true
		}
	case 7, 8, 9:
		p.Kind, p.Depth, p.Horizon = "pct", r.Range(1, 5), horizon
	case 10:
		p.Kind, p.Mean = "rr", []int{1, 2, 3, 7, 20}[r.N(5)]
	default:
		p.Kind = "seq"
	}
	return p
}

var sharedKinds = []string{"native", "native", "native", "json", "merged", "merged", "expanded", "deep", "included", "packed"}

func genConfDocs(r *rnd, kind string, depth, bad int) []harness.Doc {
	g := &xgen{r: r}
	o := docOpts{depth: depth, bad: bad, blocks: true, stray: true, dynamic: r.P(1, 3) || kind == "expanded", comment: true}
	switch kind {
	case "json":
		return []harness.Doc{g.genJSON("a.hcl.json", o)}
	case "merged", "expanded", "deep", "included":
		ds := []harness.Doc{g.genNative("a.hcl", o)}
		o2 := o
		o2.attrs = []string{"any2", "s2"}
		for i := r.Range(0, 2); i > 0; i-- {
			if r.Bool() {
				ds = append(ds, g.genNative(fmt.Sprintf("b%d.hcl", i), o2))
			} else {
				ds = append(ds, g.genJSON(fmt.Sprintf("b%d.json", i), docOpts{depth: depth, bad: bad, blocks: true}))
			}
		}
		if kind == "included" {
			for i := range ds[1:] {
				ds[0].Chunks = append(ds[0].Chunks, fmt.Sprintf("include {\n  path = \"inc%d\"\n}\n", i))
			}
			if len(ds) > 1 && r.Bool() {
				ds[0].Chunks = append(ds[0].Chunks, "service \"inc\" {\n  port = 1\n  include {\n    path = \"inc0\"\n  }\n}\n")
			}
		}
		return ds
	}
	return []harness.Doc{g.genNative("a.hcl", o)}
}

func genP01(r *rnd, tier string) *harness.Scenario {
	sc := &harness.Scenario{Kind: sharedKinds[r.N(len(sharedKinds))]}
	bad := 0
	if r.Bool() {
		bad = r.Range(1, 8)
	}
	sc.Docs = genConfDocs(r, sc.Kind, r.Range(1, 3), bad)
	focus := r.P(3, 4)
	if focus {
		// A few items only, so that the tasks meet in them.
		for i := range sc.Docs {
			d := &sc.Docs[i]
			n := r.Range(1, 2)
			if len(d.Chunks) <= n {
				continue
			}
			var keep []string
			for _, c := range d.Chunks {
				if strings.HasPrefix(c, "include") || len(keep) == 0 && sc.Kind == "expanded" && strings.Contains(c, "dynamic") {
					keep = append(keep, c)
				}
			}
			for len(keep) < n {
				keep = append(keep, d.Chunks[r.N(len(d.Chunks))])
			}
			d.Chunks = keep
		}
	}
	// Swarm: each run uses a subset of the operations.
	var mask []string
	for len(mask) == 0 {
		for _, k := range readKinds {
			if r.P(1, 2) {
				mask = append(mask, k)
			}
		}
	}
	if focus || r.P(1, 4) {
		mask = []string{mask[r.N(len(mask))]}
	}
	n := r.Range(2, 4)
	for i := 0; i < n; i++ {
		var ops []harness.Op
		for j := r.Range(1, 3); j > 0; j-- {
			op := genRead(r)
			k := mask[r.N(len(mask))]
			for op.K != k {
				op = genRead(r)
			}
			ops = append(ops, op)
		}
		sc.Tasks = append(sc.Tasks, ops)
	}
	if focus || r.P(1, 4) {
		// the same work at the same time, with other variables
		for i := 1; i < n; i++ {
			sc.Tasks[i] = append([]harness.Op{}, sc.Tasks[0]...)
			for j := range sc.Tasks[i] {
				sc.Tasks[i][j].A = r.N(6)
			}
		}
	}
	sc.Pol = genPolicy(r, 6000)
	if focus {
		sc.Pol = genPolicy(r, 1000)
	}
	late(r, sc)
	return sc
}

// late says that the reference results are computed after the concurrent
// run rather than before it, so that the concurrent use is the first one.
func late(r *rnd, sc *harness.Scenario) {
	if sc.N == nil {
		sc.N = map[string]int64{}
	}
	if sc.Pol.Kind != "hot" && r.P(1, 3) {
		sc.N["late"] = 1
	}
}

// together runs the operations of each task alone (do with fresh=true) and
// then all tasks at the same time, and compares.
func together(sc *harness.Scenario, o *harness.Outcome, p *harness.Property, when string, alone func(op harness.Op) string, share func() func(op harness.Op) string) {
	want := make([][]string, len(sc.Tasks))
	reference := func() {
		for i, ops := range sc.Tasks {
			want[i] = make([]string, len(ops))
			for j, op := range ops {
				i, j, op := i, j, op
				o.Alone(p, "alone", nil, func() { want[i][j] = alone(op) })
				o.Note("alone %d.%d %s: %s", i, j, op.K, short(want[i][j]))
			}
		}
	}
	isLate := sc.N["late"] == 1 || sc.N["cold"] == 1
	if !isLate {
		reference()
		if o.Violation != "" {
			return
		}
	}
	do := share()
	got := make([][]string, len(sc.Tasks))
	var specs []simrt.Spec
	live := 0
	for i, ops := range sc.Tasks {
		i, ops := i, ops
		got[i] = make([]string, len(ops))
		if len(ops) > 0 {
			live++
		}
		specs = append(specs, simrt.Spec{Name: fmt.Sprintf("task%d", i), Fn: func() {
			for j, op := range ops {
				got[i][j] = do(op)
			}
		}})
	}
	res := o.Sim(sc, p, specs)
	o.Nontrivial = live >= 2 && len(res.Switches) > live
	if isLate {
		o.Tag("first-use-concurrent")
		reference()
	}
	compareTasks(sc, o, want, got, when)
	if o.Violation != "" {
		return
	}
	for i, ops := range sc.Tasks {
		for j, op := range ops {
			o.Tag("op-" + op.K)
			if again := do(op); again != want[i][j] {
				a, b := firstDiff(want[i][j], again)
				o.Fail("again:"+op.K, "%s gives another result when repeated afterwards:\n--- alone\n%s\n--- repeated\n%s", op.K, a, b)
			}
		}
	}
}

func runP01(sc *harness.Scenario, o *harness.Outcome) {
	p := harness.Find("P01")
	o.Tag("conf-" + sc.Kind)
	var shared *conf
	// What each operation gives alone, on a configuration of its own.
	together(sc, o, p, "while others read the same configuration", func(op harness.Op) string {
		return load(sc.Kind, sc.Docs).hold().readOp(op)
	}, func() func(op harness.Op) string {
		shared = load(sc.Kind, sc.Docs).hold()
		return shared.readOp
	})
	if o.Violation != "" || shared == nil {
		return
	}
	before := load(sc.Kind, sc.Docs).dump()
	if after := shared.dump(); after != before {
		a, b := firstDiff(before, after)
		o.Fail("changed", "reading changed the configuration:\n--- before\n%s\n--- after\n%s", a, b)
	}
}

func compareTasks(sc *harness.Scenario, o *harness.Outcome, want, got [][]string, when string) {
	for i, ops := range sc.Tasks {
		for j, op := range ops {
			o.Note("got %d.%d %s: %s", i, j, op.K, short(got[i][j]))
			if got[i][j] != want[i][j] {
				a, b := firstDiff(want[i][j], got[i][j])
				o.Fail("differs:"+op.K, "task %d operation %d (%s) %s got another result than alone:\n--- alone\n%s\n--- got\n%s", i, j, op, when, a, b)
			}
		}
	}
}

func short(s string) string {
	if len(s) > 100 {
		return fmt.Sprintf("%.100q... (%d bytes, %x)", s, len(s), simrt.Mix(0, s))
	}
	return fmt.Sprintf("%q", s)
}

// dump renders everything an application can see of the configuration.
func (c *conf) dump() string {
	s := ""
	for _, k := range []string{"eval", "exprvars", "walk", "just", "chain", "static"} {
		s += k + "\n" + c.readOp(harness.Op{K: k, A: 2, B: 1}) + "\n"
	}
	for _, n := range c.names {
		s += n + "\n" + string(c.files[n].Bytes) + "\n"
	}
	return s
}

func init() {
	harness.Register(&harness.Property{
		ID: "P01", Race: true, Cold: 32, QuickRuns: 8000, QuickSecs: 60, ThoroughRuns: 400000, ThoroughSecs: 600,
		Rule:        "a run counts when at least two readers had work and the scheduler switched between them more often than tasks ended; distinct by the full schedule (every switch with task and step)",
		Real:        []string{"hcl", "hclsyntax", "hcl/json", "hcldec", "gohcl", "dynblock", "transform", "include", "typeexpr", "hclpack", "hcled", "go-cty"},
		Stub:        []string{"sync (simulated, race-annotated)", "goroutine scheduler", "map iteration seed"},
		Assumptions: []string{"each operation's reference result is that of the same code running alone on a separately parsed copy"},
		Gen:         genP01, Run: runP01,
	})
}
