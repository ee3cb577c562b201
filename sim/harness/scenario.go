// Package harness generates, runs, minimises and replays simulated runs.
package harness

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"

	"verifsim/simk"
	"verifsim/simrt"
)

// Doc is a generated document. Its text is the concatenation of its chunks,
// each of which can be left out on its own.
type Doc struct {
	Name   string   `json:"name"`
	Chunks []string `json:"chunks"`
	// Sep, Pre and Post surround the chunks (JSON documents).
	Pre  string `json:"pre,omitempty"`
	Sep  string `json:"sep,omitempty"`
	Post string `json:"post,omitempty"`
}

func (d Doc) Text() string { return d.Pre + strings.Join(d.Chunks, d.Sep) + d.Post }

// Op is one operation of a task.
type Op struct {
	K string   `json:"k"`
	A int      `json:"a,omitempty"`
	B int      `json:"b,omitempty"`
	C int      `json:"c,omitempty"`
	S string   `json:"s,omitempty"`
	T string   `json:"t,omitempty"`
	L []string `json:"l,omitempty"`
}

func (o Op) String() string {
	b, _ := json.Marshal(o)
	return string(b)
}

// Scenario is everything one run depends on.
type Scenario struct {
	Prop    string            `json:"prop"`
	Index   int               `json:"index"`
	Seed    uint64            `json:"seed"`
	MapSeed uint64            `json:"map_seed"`
	Kind    string            `json:"kind,omitempty"`
	Pol     simrt.Policy      `json:"policy"`
	Docs    []Doc             `json:"docs,omitempty"`
	Tasks   [][]Op            `json:"tasks,omitempty"`
	Faults  []simk.Fault      `json:"faults,omitempty"`
	N       map[string]int64  `json:"n,omitempty"`
	S       map[string]string `json:"s,omitempty"`
}

// Clone makes a deep copy.
func (s *Scenario) Clone() *Scenario {
	b, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	var c Scenario
	if err := json.Unmarshal(b, &c); err != nil {
		panic(err)
	}
	return &c
}

// Outcome is what one run showed.
type Outcome struct {
	// Violation describes what broke, empty if nothing did; Key identifies
	// the kind of violation across runs.
	Violation string `json:"violation,omitempty"`
	Key       string `json:"key,omitempty"`
	// Trouble reports a failure of the harness itself.
	Trouble string `json:"trouble,omitempty"`
	// Hash covers the whole trace of the run, Sig its shape (schedule and
	// faults as they happened).
	Hash uint64 `json:"hash"`
	Sig  uint64 `json:"sig"`
	// Nontrivial says whether the run counts as meaningful for the property.
	Nontrivial bool           `json:"nontrivial,omitempty"`
	Steps      int64          `json:"steps"`
	Switches   []simrt.Switch `json:"-"`
	Faults     []string       `json:"-"`
	Tags       []string       `json:"-"`
	Trace      []string       `json:"-"`
}

// Fail records the first violation.
func (o *Outcome) Fail(key, format string, args ...interface{}) {
	if o.Violation == "" {
		o.Key = key
		o.Violation = fmt.Sprintf(format, args...)
	}
}

// Note adds a line to the trace and to the hash.
func (o *Outcome) Note(format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	o.Hash = simrt.Mix(o.Hash, s)
	if len(o.Trace) < 400 {
		o.Trace = append(o.Trace, s)
	}
}

// Tag counts an event kind.
func (o *Outcome) Tag(s string) { o.Tags = append(o.Tags, s) }

// Property is one decided property.
type Property struct {
	ID string
	// Race asks for the race build.
	Race bool
	// Cold is the number of runs made in fresh processes without warm-up, where
	// the concurrent use is the first use of everything.
	Cold int
	// Runs and Secs bound the search per tier: total number of runs, wall
	// clock per worker.
	QuickRuns, QuickSecs       int
	ThoroughRuns, ThoroughSecs int
	// Rule says what makes a run distinct and nontrivial.
	Rule string
	// Real and Stub list what ran as real code and what was simulated.
	Real, Stub  []string
	Assumptions []string
	// Init runs once in each process, before anything else.
	Init func()
	Gen  func(r *simrt.Rand, tier string) *Scenario
	Run  func(sc *Scenario, o *Outcome)
	// Shrink lists extra property-specific simplifications.
	Shrink func(sc *Scenario) []*Scenario
	// MaxSteps bounds each simulated run.
	MaxSteps int64
}

var registry []*Property

// Register adds a property.
func Register(p *Property) {
	if p.MaxSteps == 0 {
		p.MaxSteps = 20000000
	}
	registry = append(registry, p)
}

// Find returns a property by id.
func Find(id string) *Property {
	for _, p := range registry {
		if p.ID == id {
			return p
		}
	}
	return nil
}

// All lists the properties.
func All() []*Property { return registry }

// Sim runs tasks under the scenario's policy and folds the schedule into the
// outcome. Panics of tasks and exceeded bounds are violations unless the
// caller looks at them itself.
func (o *Outcome) Sim(sc *Scenario, p *Property, specs []simrt.Spec) *simrt.Result {
	simrt.RecordSites(false)
	res := simrt.Run(sc.Pol, p.MaxSteps, specs)
	o.Switches = res.Switches
	for _, w := range res.Switches {
		h := o.Sig
		h = simrt.MixInt(h, int64(w.From))
		h = simrt.MixInt(h, w.Step)
		h = simrt.MixInt(h, int64(w.To))
		o.Sig = h
	}
	o.absorb(res, "")
	return res
}

// Alone runs one function as the only task.
func (o *Outcome) Alone(p *Property, name string, data interface{}, fn func()) *simrt.Result {
	res := simrt.Run(simrt.Policy{Kind: "seq"}, p.MaxSteps, []simrt.Spec{{Name: name, Data: data, Fn: fn}})
	o.absorb(res, name)
	return res
}

func (o *Outcome) absorb(res *simrt.Result, ctx string) {
	o.Steps += res.Steps
	o.Hash = simrt.MixInt(o.Hash, res.Steps)
	o.Hash = simrt.MixInt(o.Hash, int64(len(res.Switches)))
	if res.Deadlock != "" {
		o.Fail("deadlock", "deadlock: %s", res.Deadlock)
	}
	if res.Runaway {
		o.Fail("no-progress", "no progress: the run passed %d scheduling points without ending", res.Steps)
	}
	for _, t := range res.Tasks {
		if t.Panic != nil {
			o.Fail("panic:"+PanicSite(t.Stack), "task %s panicked: %v at %s", t.Name, t.Panic, PanicSite(t.Stack))
			if Verbose {
				fmt.Fprintln(os.Stderr, t.Stack)
			}
		}
	}
}

// Verbose makes runs print more.
var Verbose bool

// PanicSite extracts the innermost frame of the code under test.
func PanicSite(stack string) string {
	lines := strings.Split(stack, "\n")
	seenPanic := false
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seenPanic = true
			continue
		}
		if !seenPanic {
			continue
		}
		if strings.HasPrefix(l, "github.com/hashicorp/hcl2/") {
			fn := strings.TrimPrefix(l, "github.com/hashicorp/hcl2/")
			if j := strings.LastIndexByte(fn, '('); j > 0 {
				fn = fn[:j]
			}
			if i+1 < len(lines) {
				return fn
			}
			return fn
		}
	}
	for _, l := range lines {
		if strings.Contains(l, "verifsim/props") && strings.HasSuffix(strings.TrimSpace(strings.Split(l, " +")[0]), ".go") {
			return strings.TrimSpace(l)
		}
	}
	return "?"
}

// InRepo reports whether a panic stack has a frame of the code under test
// innermost (rather than harness code alone).
func InRepo(stack string) bool {
	return strings.Contains(stack, "github.com/hashicorp/hcl2/")
}
