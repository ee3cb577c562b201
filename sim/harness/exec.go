package harness

import (
	"fmt"
	"runtime"
	"runtime/debug"

	"verifsim/simrt"
)

// Exec runs one scenario.
func Exec(p *Property, sc *Scenario) (o *Outcome) {
	o = &Outcome{}
	races := simrt.RaceErrors()
	defer func() {
		simrt.MapSeedOff()
		if r := recover(); r != nil {
			o.Trouble = fmt.Sprintf("harness panic: %v\n%s", r, debug.Stack())
		}
		if n := simrt.RaceErrors(); n > races && o.Trouble == "" {
			o.Violation = "unsynchronised access (data race)"
			o.Key = "race"
		}
		o.Hash = simrt.Mix(o.Hash, o.Key)
		for _, f := range o.Faults {
			o.Hash = simrt.Mix(o.Hash, f)
			o.Sig = simrt.Mix(o.Sig, f)
		}
	}()
	simrt.Epoch++
	simrt.RecordSites(sc.Pol.Kind == "hot")
	defer simrt.RecordSites(false)
	simrt.MapSeed(sc.MapSeed)
	p.Run(sc, o)
	return o
}

// Seed derives the seed of one run.
func Seed(base uint64, prop string, index int) uint64 {
	h := simrt.MixInt(0, int64(base))
	h = simrt.Mix(h, prop)
	h = simrt.MixInt(h, int64(index))
	return simrt.NewRand(h).U64()
}

// ColdIndex is the first index of the runs made in a fresh process each,
// without warm-up.
const ColdIndex = 1 << 20

// Make generates the scenario of one run.
func Make(p *Property, base uint64, index int, tier string) *Scenario {
	seed := Seed(base, p.ID, index)
	r := simrt.NewRand(seed)
	ms := r.U64()
	simrt.MapSeed(ms ^ 0x5555)
	sc := p.Gen(r, tier)
	simrt.MapSeedOff()
	sc.Prop, sc.Index, sc.Seed, sc.MapSeed = p.ID, index, seed, ms
	if index >= ColdIndex {
		if sc.N == nil {
			sc.N = map[string]int64{}
		}
		sc.N["cold"] = 1
		if sc.Pol.Kind == "hot" {
			sc.Pol = simrt.Policy{Kind: "rand", Mean: 30, Seed: seed}
		}
	}
	return sc
}

// Warm fills the process-wide caches of the standard library (reflection,
// JSON) so that every measured run starts from the same state. The runs have a
// single task, so nothing can race in them.
func Warm(p *Property, base uint64) {
	if p.Init != nil {
		p.Init()
	}
	for i := -3; i < 0; i++ {
		sc := Make(p, 0x77a3, i, "quick")
		if p.Race && len(sc.Tasks) > 1 {
			sc.Tasks = sc.Tasks[:1]
		}
		sc.Pol = simrt.Policy{Kind: "seq"}
		Exec(p, sc)
	}
	runtime.GC()
}
