// Package simrt is the simulator's runtime: a deterministic cooperative
// scheduler for the tasks of one simulated run.
//
// The tasks are real goroutines, but exactly one of them runs at any time.
// Instrumented code calls Yield before every statement; a seeded chooser
// decides after how many of those points the running task loses the
// processor and which task gets it. Hand-overs are hidden from the race
// detector, so in a race build the detector's happens-before analysis sees
// only the ordering that the code under test itself establishes.
package simrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"sync"
	_ "unsafe" // for go:linkname
)

//go:linkname simRandSet runtime.simRandSet
func simRandSet(on uint32, state uint64) uint64

// MapSeed fixes all map seeds and iteration offsets to values given by the
// seed until MapSeedOff is called. All maps get the same values, so that the
// order of one iteration does not depend on what else ran before it.
func MapSeed(seed uint64) { simRandSet(1, seed*0x9e3779b97f4a7c15+0x1234567) }

// MapSeedOff returns map randomness to the runtime.
func MapSeedOff() { simRandSet(0, 0) }

// Switch is one scheduling decision: after its local step S, task From gave
// the processor to task To. Forced decisions are those where From could not
// continue (it blocked or ended).
type Switch struct {
	From   int   `json:"f"`
	Step   int64 `json:"s"`
	To     int   `json:"t"`
	Forced bool  `json:"x,omitempty"`
}

// Policy says how scheduling decisions are made.
type Policy struct {
	// Kind is "rand", "pct", "rr", "hot", "seq" or "explicit".
	Kind string `json:"kind"`
	// Mean is the mean slice length ("rand") or the quantum ("rr").
	Mean int `json:"mean,omitempty"`
	// Depth and Horizon place the priority change points of "pct". For "hot",
	// Depth is the number of code regions in which the running task loses the
	// processor half of the time, and Sync adds all synchronisation
	// operations and system calls to them.
	Depth   int   `json:"depth,omitempty"`
	Horizon int64 `json:"horizon,omitempty"`
	Sync    bool  `json:"sync,omitempty"`
	// Seed drives the random kinds.
	Seed uint64 `json:"seed,omitempty"`
	// Switches is the schedule of kind "explicit".
	Switches []Switch `json:"switches,omitempty"`
}

const (
	runnable = iota
	blocked
	done
)

const idleBudget = int64(1) << 60

// Task is one simulated thread of control.
type Task struct {
	ID   int
	Name string
	// Data is inherited by the tasks this one starts.
	Data interface{}

	fn     func()
	wake   chan struct{}
	state  int8
	killed bool
	steps  int64
	slice  int64 // budget given at the start of the current slice
	prio   int

	// Panic and Stack describe a panic that ended the task.
	Panic interface{}
	Stack string
	// Exited is set when the task ended by Exit or by being killed.
	Exited bool
}

// Result describes one finished run.
type Result struct {
	Tasks    []*Task
	Steps    int64
	Switches []Switch
	Deadlock string // non-empty when no task could continue
	Runaway  bool   // the step limit was reached
}

type sched struct {
	tasks    []*Task
	cur      *Task
	pol      Policy
	rng      *Rand
	maxSteps int64
	steps    int64
	changes  []int64 // pct change points (global steps), ascending
	nextPrio int
	expl     [][]Switch // explicit schedule by task
	explPos  []int
	forced   [][]Switch
	forcedPo []int
	log      []Switch
	nlog     int
	abort    bool
	deadlock string
	runaway  bool
	wg       sync.WaitGroup
	spawned  int
}

var (
	budget = idleBudget
	s      *sched
)

// Epoch counts the scenarios executed by this process. Simulated pools forget
// their content when it changes.
var Epoch int

// MaxSites bounds the numbers of scheduling points.
const MaxSites = 1 << 16

const (
	siteOff = iota
	siteRecord
	siteHot
)

var (
	siteMode  int8
	recording bool
	seen      [MaxSites]bool
	hot       [MaxSites]bool
)

// RecordSites starts or stops noting which scheduling points are passed; the
// policy "hot" chooses among them. Starting forgets those noted before.
//
//go:norace
func RecordSites(on bool) {
	if recording = on; on {
		seen = [MaxSites]bool{}
	}
	endSites()
}

// At is the scheduling point with the given number, inserted into the code
// under test before each statement.
//
//go:norace
func At(site int) {
	budget--
	if budget < 0 {
		yieldSlow()
		return
	}
	if siteMode != siteOff {
		site &= MaxSites - 1
		if siteMode == siteRecord {
			seen[site] = true
		} else if hot[site] {
			yieldHot()
		}
	}
}

// Yield is a scheduling point of the simulated environment: a system call or
// a synchronisation operation.
func Yield() { At(0) }

//go:norace
func yieldHot() {
	if s == nil || s.cur == nil || s.cur.killed || s.pol.Kind != "hot" || s.rng.U64()%2 == 0 {
		return
	}
	t := s.cur
	s.account(t)
	n := s.choose(t, false)
	if n == t {
		s.begin(t)
		return
	}
	s.push(Switch{From: t.ID, Step: t.steps, To: n.ID})
	s.handOver(t, n)
}

//go:norace
func yieldSlow() {
	if s == nil || s.cur == nil || s.cur.killed {
		budget = idleBudget
		return
	}
	t := s.cur
	s.account(t)
	if s.steps >= s.maxSteps {
		s.runaway = true
		s.abort = true
		die(t)
	}
	n := s.choose(t, false)
	if n == t {
		s.begin(t)
		return
	}
	s.push(Switch{From: t.ID, Step: t.steps, To: n.ID})
	s.handOver(t, n)
}

// account charges the steps of the slice that just ended.
//
//go:norace
func (s *sched) account(t *Task) {
	used := t.slice - budget
	t.steps += used
	s.steps += used
	t.slice = 0
	budget = 0
}

// begin starts a slice for the (now current) task.
//
//go:norace
func (s *sched) begin(t *Task) {
	b := s.sliceFor(t)
	if left := s.maxSteps - s.steps; b > left {
		b = left
	}
	if b < 0 {
		b = 0
	}
	t.slice = b
	budget = b
}

//go:norace
func (s *sched) sliceFor(t *Task) int64 {
	switch s.pol.Kind {
	case "rand", "hot":
		// geometric with the given mean
		m := uint64(s.pol.Mean)
		if m < 1 {
			m = 1
		}
		b := int64(0)
		for b < 64*int64(m) && s.rng.U64()%(m+1) != 0 {
			b++
			if m > 200 { // coarse steps for long slices
				b += int64(m / 100)
				if s.rng.U64()%100 == 0 {
					break
				}
			}
		}
		return b
	case "rr":
		return int64(s.pol.Mean)
	case "pct":
		for len(s.changes) > 0 && s.changes[0] <= s.steps {
			s.changes = s.changes[1:]
		}
		if len(s.changes) == 0 {
			return idleBudget
		}
		return s.changes[0] - s.steps - 1
	case "explicit":
		if t.ID < len(s.expl) {
			l := s.expl[t.ID]
			for s.explPos[t.ID] < len(l) {
				e := l[s.explPos[t.ID]]
				if e.Step > t.steps {
					return e.Step - t.steps - 1
				}
				s.explPos[t.ID]++
			}
		}
		return idleBudget
	default: // seq
		return idleBudget
	}
}

// choose picks the task that runs next. must is set when t cannot continue.
//
//go:norace
func (s *sched) choose(t *Task, must bool) *Task {
	n := 0
	for _, c := range s.tasks {
		if c.state == runnable && !(must && c == t) {
			n++
		}
	}
	if n == 0 {
		return nil
	}
	switch s.pol.Kind {
	case "explicit":
		if t != nil && t.ID < len(s.expl) {
			l, pos := s.expl[t.ID], s.explPos
			if must {
				l, pos = s.forced[t.ID], s.forcedPo
			}
			for pos[t.ID] < len(l) {
				e := l[pos[t.ID]]
				if e.Step > t.steps {
					break
				}
				pos[t.ID]++
				if e.Step == t.steps && e.To < len(s.tasks) {
					if c := s.tasks[e.To]; c.state == runnable && !(must && c == t) {
						return c
					}
				}
			}
		}
		if !must && t != nil && t.state == runnable {
			return t
		}
		return s.first(t, must)
	case "pct":
		if !must && t != nil {
			// a change point: the running task drops to the lowest priority
			s.nextPrio--
			t.prio = s.nextPrio
		}
		var best *Task
		for _, c := range s.tasks {
			if c.state == runnable && !(must && c == t) && (best == nil || c.prio > best.prio) {
				best = c
			}
		}
		return best
	case "rr":
		id := -1
		if t != nil {
			id = t.ID
		}
		for k := 1; k <= len(s.tasks); k++ {
			c := s.tasks[(id+k+len(s.tasks))%len(s.tasks)]
			if c.state == runnable && !(must && c == t) {
				return c
			}
		}
		return nil
	case "rand", "hot":
		k := s.rng.N(n)
		for _, c := range s.tasks {
			if c.state == runnable && !(must && c == t) {
				if k == 0 {
					return c
				}
				k--
			}
		}
		return nil
	default:
		if !must && t != nil {
			return t
		}
		return s.first(t, must)
	}
}

//go:norace
func (s *sched) first(t *Task, must bool) *Task {
	for _, c := range s.tasks {
		if c.state == runnable && !(must && c == t) {
			return c
		}
	}
	return nil
}

// handOver passes the processor from t to n and waits for it to come back.
//
//go:norace
func (s *sched) handOver(t, n *Task) {
	s.cur = n
	hideSync()
	n.wake <- struct{}{}
	<-t.wake
	unhideSync()
	if s.abort || t.killed {
		t.slice, budget = 0, 0
		die(t)
	}
	s.begin(t)
}

// die ends the running task without running any more of its code except
// deferred calls, whose effects the simulated kernel ignores.
//
//go:norace
func die(t *Task) {
	t.killed = true
	t.Exited = true
	budget = idleBudget
	runtime.Goexit()
}

// Exit ends the calling task at once.
//
//go:norace
func Exit() {
	if s == nil || s.cur == nil {
		panic("simrt.Exit outside a run")
	}
	if !s.cur.killed {
		s.account(s.cur)
	}
	die(s.cur)
}

// Kill makes the given task end at its next scheduling point.
//
//go:norace
func Kill(t *Task) {
	if t.state == done {
		return
	}
	t.killed = true
	if t.state == blocked {
		t.state = runnable
	}
}

// Current returns the running task, or nil outside a run.
//
//go:norace
func Current() *Task {
	if s == nil {
		return nil
	}
	return s.cur
}

// Dying reports whether the calling task is being unwound.
//
//go:norace
func Dying() bool {
	return s != nil && s.cur != nil && s.cur.killed
}

// Steps returns how many scheduling points the run has passed.
//
//go:norace
func Steps() int64 {
	if s == nil {
		return 0
	}
	if s.cur != nil {
		return s.steps + s.cur.slice - budget
	}
	return s.steps
}

// Block gives the processor away because the calling task cannot continue
// until another task changes something (see Wake).
//
//go:norace
func Block(why string) {
	if s == nil || s.cur == nil {
		panic("simrt: " + why + " would block forever outside a run")
	}
	t := s.cur
	if t.killed {
		runtime.Goexit()
	}
	s.account(t)
	t.state = blocked
	n := s.choose(t, true)
	if n == nil {
		s.deadlock = fmt.Sprintf("task %d (%s) waits for %s and no task can continue", t.ID, t.Name, why)
		s.abort = true
		t.state = runnable
		for _, c := range s.tasks {
			if c.state == blocked {
				c.state = runnable
			}
		}
		die(t)
	}
	s.push(Switch{From: t.ID, Step: t.steps, To: n.ID, Forced: true})
	s.handOver(t, n)
}

// Wake makes every blocked task try again.
//
//go:norace
func Wake() {
	if s == nil {
		return
	}
	for _, c := range s.tasks {
		if c.state == blocked {
			c.state = runnable
		}
	}
}

// Go starts a new task on behalf of the running one.
func Go(fn func()) *Task {
	if Current() == nil {
		panic("simrt.Go outside a run")
	}
	t := addTask("", fn)
	startTask(t)
	return t
}

//go:norace
func addTask(name string, fn func()) *Task {
	t := &Task{ID: len(s.tasks), Name: name, fn: fn, wake: make(chan struct{}, 1)}
	if s.cur != nil {
		t.Data = s.cur.Data
		if name == "" {
			t.Name = fmt.Sprintf("%s.%d", s.cur.Name, t.ID)
		}
	}
	s.nextPrio--
	t.prio = s.nextPrio
	nt := make([]*Task, len(s.tasks)+1)
	for i := range s.tasks {
		nt[i] = s.tasks[i]
	}
	nt[len(s.tasks)] = t
	s.tasks = nt
	return t
}

//go:norace
func startTask(t *Task) {
	s.wg.Add(1)
	sc := s
	go runTask(sc, t)
}

//go:norace
func runTask(sc *sched, t *Task) {
	hideSync()
	<-t.wake
	unhideSync()
	defer finishTask(sc, t)
	if sc.abort || t.killed {
		t.killed = true
		t.Exited = true
		return
	}
	sc.begin(t)
	callTask(t)
}

//go:norace
func callTask(t *Task) {
	defer func() {
		if r := recover(); r != nil {
			if !t.killed {
				s.account(t)
			}
			budget = idleBudget
			t.Panic = r
			t.Stack = string(debug.Stack())
		}
	}()
	t.fn()
}

//go:norace
func finishTask(sc *sched, t *Task) {
	if !t.killed && t.Panic == nil {
		sc.account(t)
	} else {
		t.slice = 0
		budget = 0
	}
	t.state = done
	Wake()
	n := sc.choose(t, true)
	if n == nil {
		for _, c := range sc.tasks {
			if c.state == blocked { // cannot happen after Wake, kept for safety
				n = c
			}
		}
	}
	if n != nil {
		sc.push(Switch{From: t.ID, Step: t.steps, To: n.ID, Forced: true})
		sc.cur = n
		hideSync()
		n.wake <- struct{}{}
		unhideSync()
	} else {
		sc.cur = nil
		budget = idleBudget
	}
	sc.wg.Done() // visible to the race detector: the run's end orders everything
}

// push logs a decision. append would report its own accesses to the race
// detector.
//
//go:norace
func (s *sched) push(w Switch) {
	if s.nlog == len(s.log) {
		g := make([]Switch, 2*len(s.log)+256)
		for i := range s.log { // copy would report, too
			g[i] = s.log[i]
		}
		s.log = g
	}
	s.log[s.nlog] = w
	s.nlog++
}

// Spec describes a task to start a run with.
type Spec struct {
	Name string
	Data interface{}
	Fn   func()
}

// Run executes the given tasks to completion under the policy.
func Run(pol Policy, maxSteps int64, specs []Spec) *Result {
	if s != nil {
		panic("simrt.Run: nested run")
	}
	sc := &sched{pol: pol, rng: NewRand(pol.Seed), maxSteps: maxSteps}
	setSched(sc)
	for _, sp := range specs {
		t := addTask(sp.Name, sp.Fn)
		t.Data = sp.Data
	}
	sc.prepare()
	first := sc.choose(nil, false)
	if pol.Kind == "explicit" && len(pol.Switches) > 0 && pol.Switches[0].From == -1 {
		if to := pol.Switches[0].To; to < len(sc.tasks) {
			first = sc.tasks[to]
		}
	}
	for _, t := range sc.tasks {
		startTask(t)
	}
	if first != nil {
		sc.push(Switch{From: -1, To: first.ID})
		launch(sc, first)
		sc.wg.Wait()
	}
	setSched(nil)
	endSites()
	return &Result{Tasks: sc.tasks, Steps: sc.steps, Switches: sc.log[:sc.nlog], Deadlock: sc.deadlock, Runaway: sc.runaway}
}

//go:norace
func endSites() {
	siteMode = siteOff
	if recording {
		siteMode = siteRecord
	}
}

//go:norace
func setSched(sc *sched) {
	s = sc
	budget = idleBudget
}

//go:norace
func launch(sc *sched, first *Task) {
	sc.cur = first
	hideSync()
	first.wake <- struct{}{}
	unhideSync()
}

//go:norace
func (s *sched) prepare() {
	n := len(s.tasks)
	endSites()
	switch s.pol.Kind {
	case "hot":
		hot = [MaxSites]bool{}
		hot[0] = s.pol.Sync
		ids := make([]int, 0, MaxSites)
		for i := 1; i < MaxSites; i++ {
			if seen[i] {
				ids = append(ids, i)
			}
		}
		for k := 0; k < s.pol.Depth && len(ids) > 0; k++ {
			at, w := s.rng.N(len(ids)), s.rng.Range(0, 4)
			for i := at - w; i <= at+w; i++ {
				if i >= 0 && i < len(ids) && ids[i]-ids[at] < 12 && ids[at]-ids[i] < 12 {
					hot[ids[i]] = true
				}
			}
		}
		siteMode = siteHot
	case "pct":
		perm := s.rng.Perm(n)
		for i, t := range s.tasks {
			t.prio = 1000 + perm[i]
		}
		h := s.pol.Horizon
		if h < 10 {
			h = 10
		}
		for i := 0; i < s.pol.Depth; i++ {
			s.changes = append(s.changes, 1+int64(s.rng.U64()%uint64(h)))
		}
		sort.Slice(s.changes, func(i, j int) bool { return s.changes[i] < s.changes[j] })
		s.nextPrio = 1000
	case "explicit":
		max := n + 64
		s.expl = make([][]Switch, max)
		s.forced = make([][]Switch, max)
		s.explPos = make([]int, max)
		s.forcedPo = make([]int, max)
		for _, e := range s.pol.Switches {
			if e.From < 0 || e.From >= max {
				continue
			}
			if e.Forced {
				s.forced[e.From] = append(s.forced[e.From], e)
			} else {
				s.expl[e.From] = append(s.expl[e.From], e)
			}
		}
	}
}
