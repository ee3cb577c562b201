package props

import (
	"fmt"

	"verifsim/harness"
	"verifsim/simrt"
)

func genWorkDocs(r *rnd, n int) []harness.Doc {
	var docs []harness.Doc
	for i := 0; i < n; i++ {
		g := &xgen{r: r}
		o := docOpts{depth: r.Range(1, 3), blocks: true, stray: true, dynamic: r.P(1, 3), comment: true}
		if r.P(1, 2) {
			o.bad = r.Range(1, 8)
		}
		var d harness.Doc
		if r.P(1, 4) {
			d = g.genJSON(fmt.Sprintf("doc%d.json", i), o)
		} else {
			d = g.genNative(fmt.Sprintf("doc%d.hcl", i), o)
		}
		if k := r.Range(2, 6); len(d.Chunks) > k && r.P(2, 3) {
			d.Chunks = d.Chunks[:k]
		}
		if r.P(1, 4) {
			damage(r, &d)
		}
		docs = append(docs, d)
	}
	return docs
}

func genP02(r *rnd, tier string) *harness.Scenario {
	sc := &harness.Scenario{N: map[string]int64{}}
	n := r.Range(2, 4)
	sc.Docs = genWorkDocs(r, n+1)
	var mask []string
	for len(mask) == 0 {
		for _, k := range workKinds {
			if r.P(1, 3) {
				mask = append(mask, k)
			}
		}
	}
	if r.P(1, 3) {
		mask = mask[:1]
	}
	for i := 0; i < n; i++ {
		var ops []harness.Op
		for j := r.Range(1, 3); j > 0; j-- {
			op := genWork(r, n)
			k := mask[r.N(len(mask))]
			for op.K != k {
				op = genWork(r, n)
			}
			op.A = i
			if r.P(1, 6) {
				op.A = n // the same input as another task, parsed separately
			}
			ops = append(ops, op)
		}
		sc.Tasks = append(sc.Tasks, ops)
	}
	sc.N["probe"] = int64(r.N(probeCount))
	sc.N["probe2"] = int64(r.N(probeCount))
	sc.Pol = genPolicy(r, 4000)
	late(r, sc)
	return sc
}

// Probes are fixed pieces of work whose results are recorded when the process
// starts. No work done later may change them.
const probeCount = 46

type probe struct {
	op   harness.Op
	doc  harness.Doc
	want string
}

var probes []probe

func initProbes() {
	for i := 0; i < probeCount; i++ {
		r := simrt.NewRand(uint64(90001 + i))
		simrt.MapSeed(uint64(i))
		op := genWork(r, 1)
		k := workKinds[i%len(workKinds)]
		for op.K != k {
			op = genWork(r, 1)
		}
		d := genWorkDocs(r, 1)[0]
		probes = append(probes, probe{op: op, doc: d, want: doWork(op, d)})
		simrt.MapSeedOff()
	}
}

func runProbe(o *harness.Outcome, i int64) {
	p := probes[i]
	simrt.MapSeed(uint64(i))
	got := doWork(p.op, p.doc)
	if got != p.want {
		a, b := firstDiff(p.want, got)
		o.Fail("history:"+p.op.K, "%s of the same input gives another result than at the start of the process:\n--- at the start\n%s\n--- now\n%s", p.op.K, a, b)
	}
}

func docAt(sc *harness.Scenario, i int) harness.Doc {
	if i < len(sc.Docs) {
		return sc.Docs[i]
	}
	return harness.Doc{Name: "none.hcl"}
}

func runP02(sc *harness.Scenario, o *harness.Outcome) {
	p := harness.Find("P02")
	do := func(op harness.Op) string { return doWork(op, docAt(sc, op.A)) }
	together(sc, o, p, "while others do unrelated work", do, func() func(op harness.Op) string { return do })
	if o.Violation != "" || len(probes) == 0 {
		return
	}
	runProbe(o, sc.N["probe"])
	runProbe(o, sc.N["probe2"])
}

func init() {
	harness.Register(&harness.Property{
		ID: "P02", Race: true, Cold: 32, QuickRuns: 8000, QuickSecs: 50, ThoroughRuns: 400000, ThoroughSecs: 600,
		Rule:        "a run counts when at least two tasks had work and the scheduler switched between them more often than tasks ended; distinct by the full schedule (every switch with task and step)",
		Real:        []string{"hcl", "hclsyntax", "hcl/json", "hcldec", "gohcl", "hclwrite", "hclparse", "hclpack", "dynblock", "transform", "include", "typeexpr", "userfunc", "go-cty"},
		Stub:        []string{"sync (simulated, race-annotated)", "goroutine scheduler", "map iteration seed"},
		Assumptions: []string{"each operation's reference result is that of the same code running alone; fixed probes are compared with their results at process start"},
		Gen:         genP02, Run: runP02, Init: initProbes,
	})
}
