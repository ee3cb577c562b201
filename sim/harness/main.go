package harness

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifsim/simk"
	"verifsim/simrt"
)

// Replay is the content of a replay file: the runs to execute in one fresh
// process, of which the last one must show the violation.
type Replay struct {
	Property  string      `json:"property"`
	Violation string      `json:"violation"`
	Key       string      `json:"key"`
	Base      uint64      `json:"verif_seed"`
	Seed      uint64      `json:"seed"`
	Hash      uint64      `json:"hash"`
	Race      string      `json:"race_report,omitempty"`
	Trace     []string    `json:"trace,omitempty"`
	Schedule  []string    `json:"schedule,omitempty"`
	Runs      []*Scenario `json:"runs"`
}

// summary is what a worker reports at its end.
type summary struct {
	Runs       int               `json:"runs"`
	Nontrivial int               `json:"nontrivial"`
	Steps      int64             `json:"steps"`
	Sigs       []string          `json:"sigs"`
	Faults     map[string]int    `json:"faults"`
	Tags       map[string]int    `json:"tags"`
	Known      map[string]int    `json:"known"`
	Samples    []json.RawMessage `json:"samples"`
	HashSum    uint64            `json:"hash_sum"`
	Violation  *found            `json:"violation,omitempty"`
	Trouble    string            `json:"trouble,omitempty"`
}

type found struct {
	Index   int      `json:"index"`
	Outcome *Outcome `json:"outcome"`
	Prefix  []int    `json:"prefix"`
	Race    string   `json:"race"`
}

const (
	exitHeld      = 0
	exitViolation = 1
	exitTrouble   = 3
)

// Main is the command.
func Main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: simcheck check|worker|one|shrink|gen|list ...")
		os.Exit(exitTrouble)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "worker":
		os.Exit(cmdWorker(os.Args[2:]))
	case "one":
		os.Exit(cmdOne(os.Args[2:]))
	case "shrink":
		os.Exit(cmdShrink(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	case "gen":
		os.Exit(cmdGen(os.Args[2:]))
	case "list":
		for _, p := range All() {
			fmt.Println(p.ID, p.Race)
		}
	default:
		os.Exit(exitTrouble)
	}
}

func setupProcess() {
	runtime.GOMAXPROCS(1)
	debug.SetMaxStack(256 << 20)
	debug.SetMemoryLimit(3 << 30)
}

// watchdog ends the process if one run takes far too long in real time.
type watchdog struct {
	mu    sync.Mutex
	start time.Time
	what  string
}

func (w *watchdog) begin(what string) {
	w.mu.Lock()
	w.start, w.what = time.Now(), what
	w.mu.Unlock()
}

func (w *watchdog) end() { w.begin("") }

func newWatchdog(limit time.Duration) *watchdog {
	w := &watchdog{}
	go func() {
		for {
			time.Sleep(time.Second)
			w.mu.Lock()
			if w.what != "" && time.Since(w.start) > limit {
				fmt.Fprintf(os.Stderr, "WATCHDOG: %s ran for more than %s\n", w.what, limit)
				os.Exit(exitTrouble)
			}
			w.mu.Unlock()
		}
	}()
	return w
}

func raceLog() string {
	for _, kv := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(kv, "log_path=") {
			b, err := os.ReadFile(fmt.Sprintf("%s.%d", kv[len("log_path="):], os.Getpid()))
			if err == nil {
				return string(b)
			}
		}
	}
	return ""
}

// raceSites extracts the two conflicting source positions of the last report.
func raceSites(log string) []string {
	if i := strings.LastIndex(log, "WARNING: DATA RACE"); i >= 0 {
		log = log[i:]
	}
	var sites []string
	lines := strings.Split(log, "\n")
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		if !(strings.Contains(l, " at 0x") && strings.Contains(l, "by ")) {
			continue
		}
		site := ""
		for j := i + 1; j+1 < len(lines) && strings.TrimSpace(lines[j]) != ""; j += 2 {
			fn := strings.TrimSpace(lines[j])
			if strings.HasPrefix(fn, "github.com/hashicorp/hcl2/") {
				site = strings.TrimPrefix(fn, "github.com/hashicorp/hcl2/")
				site = strings.TrimSuffix(site, "()")
				break
			}
		}
		sites = append(sites, site)
	}
	return sites
}

func raceKey(log string) string {
	s := raceSites(log)
	sort.Strings(s)
	return "race:" + strings.Join(s, "+")
}

func cmdWorker(args []string) int {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	id := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	base := fs.Uint64("seed", 1, "")
	from := fs.Int("from", 0, "")
	step := fs.Int("step", 1, "")
	count := fs.Int("count", 100, "")
	secs := fs.Int("secs", 60, "")
	status := fs.String("status", "", "")
	known := fs.String("known", "", "")
	stop := fs.String("stop", "", "")
	fs.Parse(args)
	p := Find(*id)
	if p == nil {
		return exitTrouble
	}
	setupProcess()
	keys := knownKeys(*known, p.ID)
	wd := newWatchdog(120 * time.Second)
	wd.begin("warm-up")
	Warm(p, *base)
	var st *os.File
	if *status != "" {
		var err error
		if st, err = os.Create(*status); err != nil {
			return exitTrouble
		}
	}
	sum := &summary{Faults: map[string]int{}, Tags: map[string]int{}, Known: map[string]int{}}
	sigs := map[uint64]bool{}
	deadline := time.Now().Add(time.Duration(*secs) * time.Second)
	var prefix []int
	for k := 0; k < *count; k++ {
		if time.Now().After(deadline) {
			break
		}
		if *stop != "" {
			if _, err := os.Stat(*stop); err == nil {
				break // another worker has found a violation
			}
		}
		idx := *from + k**step
		if st != nil {
			st.WriteAt([]byte(fmt.Sprintf("%-12d", idx)), 0)
		}
		wd.begin(fmt.Sprintf("run %d of %s", idx, p.ID))
		sc := Make(p, *base, idx, *tier)
		o := Exec(p, sc)
		wd.end()
		if o.Trouble != "" {
			sum.Trouble = fmt.Sprintf("run %d: %s", idx, o.Trouble)
			break
		}
		sum.Runs++
		sum.Steps += o.Steps
		sum.HashSum += o.Hash
		for _, f := range o.Faults {
			sum.Faults[f]++
		}
		for _, t := range o.Tags {
			sum.Tags[t]++
		}
		if o.Nontrivial {
			sum.Nontrivial++
			sigs[o.Sig] = true
			if len(sum.Samples) < 2 && k > 2 {
				sum.Samples = append(sum.Samples, sample(sc, o))
			}
		}
		if o.Violation != "" {
			race := ""
			if o.Key == "race" {
				race = raceLog()
				o.Key = raceKey(race)
				if strings.Trim(o.Key, "race:+") == "" {
					sum.Trouble = fmt.Sprintf("run %d: a race without the code under test\n%s", idx, tail(race, 3000))
					break
				}
			}
			if kk := matchKnown(keys, o.Key); kk != "" {
				sum.Known[kk]++
				continue
			}
			if *stop != "" {
				os.WriteFile(*stop, []byte("x"), 0644)
			}
			sum.Violation = &found{Index: idx, Outcome: o, Prefix: append([]int{}, prefix...), Race: race}
			break
		}
		prefix = append(prefix, idx)
	}
	for s := range sigs {
		sum.Sigs = append(sum.Sigs, strconv.FormatUint(s, 36))
	}
	b, _ := json.Marshal(sum)
	os.Stdout.Write(append(b, '\n'))
	return 0
}

func sample(sc *Scenario, o *Outcome) json.RawMessage {
	m := map[string]interface{}{
		"seed": fmt.Sprint(sc.Seed), "index": sc.Index, "kind": sc.Kind, "policy": map[string]interface{}{"kind": sc.Pol.Kind, "mean": sc.Pol.Mean, "depth": sc.Pol.Depth},
		"steps": o.Steps, "switches": len(o.Switches), "faults": o.Faults,
	}
	if len(sc.Docs) > 0 {
		t := sc.Docs[0].Text()
		if len(t) > 240 {
			t = t[:240] + "..."
		}
		m["document"] = t
	}
	var ops []string
	for i, t := range sc.Tasks {
		for _, op := range t {
			if len(ops) < 12 {
				ops = append(ops, fmt.Sprintf("%d:%s", i, op.K))
			}
		}
	}
	m["ops"] = ops
	b, _ := json.Marshal(m)
	return b
}

// Known findings: lines "known: property=P08 key=<key> <what fails>".
type knownLine struct{ key, text string }

func knownKeys(file, prop string) []knownLine {
	if file == "" {
		return nil
	}
	f, err := os.Open(file)
	if err != nil {
		return nil
	}
	defer f.Close()
	var r []knownLine
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		w := strings.Fields(sc.Text())
		if len(w) >= 3 && w[0] == "known:" && w[1] == "property="+prop && strings.HasPrefix(w[2], "key=") {
			r = append(r, knownLine{key: w[2][4:], text: strings.Join(w[3:], " ")})
		}
	}
	return r
}

func matchKnown(ks []knownLine, key string) string {
	for _, k := range ks {
		if k.key == strings.ReplaceAll(key, " ", "_") {
			return k.key
		}
	}
	return ""
}

// cmdOne executes the runs of a replay file in this process and prints the
// outcome of the last one.
func cmdOne(args []string) int {
	fs := flag.NewFlagSet("one", flag.ExitOnError)
	file := fs.String("file", "", "")
	verbose := fs.Bool("v", false, "")
	fs.Parse(args)
	setupProcess()
	Verbose = *verbose
	var rp Replay
	b, err := os.ReadFile(*file)
	if err != nil || json.Unmarshal(b, &rp) != nil || len(rp.Runs) == 0 {
		fmt.Fprintln(os.Stderr, "cannot read", *file)
		return exitTrouble
	}
	p := Find(rp.Property)
	if p == nil {
		return exitTrouble
	}
	wd := newWatchdog(120 * time.Second)
	wd.begin("replay")
	if rp.Runs[0].N["cold"] == 0 {
		Warm(p, rp.Base)
	}
	var o *Outcome
	for _, sc := range rp.Runs {
		o = Exec(p, sc)
	}
	res := struct {
		*Outcome
		Race     string         `json:"race,omitempty"`
		Trace    []string       `json:"trace"`
		Switches []simrt.Switch `json:"switches"`
	}{Outcome: o, Trace: o.Trace, Switches: o.Switches}
	if o.Key == "race" {
		res.Race = raceLog()
		o.Key = raceKey(res.Race)
	}
	out, _ := json.Marshal(res)
	os.Stdout.Write(append(out, '\n'))
	return 0
}

type oneResult struct {
	Outcome
	Race     string         `json:"race"`
	Trace    []string       `json:"trace"`
	Switches []simrt.Switch `json:"switches"`
	fatal    string
}

func childEnv(dir string) []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GORACE=") || strings.HasPrefix(e, "GOMAXPROCS=") || strings.HasPrefix(e, "GODEBUG=") || strings.HasPrefix(e, "GOGC=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOMAXPROCS=1", "GORACE=exitcode=0 halt_on_error=0 history_size=5 log_path="+filepath.Join(dir, "race"))
}

// fatalText recognises a runtime failure inside the code under test that
// cannot be recovered from.
func fatalText(stderr string) string {
	for _, f := range []string{"goroutine stack exceeds", "fatal error: stack overflow", "fatal error: concurrent map", "fatal error: sync:", "fatal error: all goroutines are asleep", "fatal error: sync"} {
		if i := strings.Index(stderr, f); i >= 0 && strings.Contains(stderr, "github.com/hashicorp/hcl2/") {
			l := stderr[i:]
			if j := strings.IndexByte(l, '\n'); j > 0 {
				l = l[:j]
			}
			return l
		}
	}
	return ""
}

// runOne executes a replay in a fresh process.
func runOne(self, dir string, rp *Replay) (*oneResult, error) {
	f, err := os.CreateTemp(dir, "one*.json")
	if err != nil {
		return nil, err
	}
	b, _ := json.Marshal(rp)
	f.Write(b)
	f.Close()
	defer os.Remove(f.Name())
	cmd := exec.Command(self, "one", "-file", f.Name())
	cmd.Env = childEnv(dir)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err = cmd.Run()
	if err != nil {
		if t := fatalText(errb.String()); t != "" {
			return &oneResult{Outcome: Outcome{Violation: "the process died: " + t, Key: "fatal:" + t}, fatal: t}, nil
		}
		return nil, fmt.Errorf("replay process: %s\n%s", err, tail(errb.String(), 2000))
	}
	var r oneResult
	if err := json.Unmarshal(out.Bytes(), &r); err != nil {
		return nil, err
	}
	if r.Trouble != "" {
		return nil, fmt.Errorf("%s", r.Trouble)
	}
	return &r, nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	id := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	base := fs.Uint64("seed", 1, "")
	workers := fs.Int("workers", 8, "")
	runs := fs.Int("runs", 0, "")
	secs := fs.Int("secs", 0, "")
	evid := fs.String("evidence", "", "")
	replayDir := fs.String("replays", "", "")
	work := fs.String("work", "", "")
	known := fs.String("known", "", "")
	buildS := fs.Float64("builds", 0, "")
	fs.Parse(args)
	p := Find(*id)
	if p == nil {
		fmt.Fprintf(os.Stderr, "no property %s\n", *id)
		return exitTrouble
	}
	n, s := p.QuickRuns, p.QuickSecs
	if *tier == "thorough" {
		n, s = p.ThoroughRuns, p.ThoroughSecs
	}
	if *runs > 0 {
		n = *runs
	}
	if *secs > 0 {
		s = *secs
	}
	self, err := os.Executable()
	if err != nil {
		return exitTrouble
	}
	fmt.Printf("%s: seed %d, tier %s, up to %d runs on %d workers\n", p.ID, *base, *tier, n, *workers)
	start := time.Now()
	type wres struct {
		sum    *summary
		err    error
		stderr string
		status string
	}
	results := make([]wres, *workers)
	var wg sync.WaitGroup
	cold := make([]*oneResult, p.Cold)
	coldErr := make([]string, p.Cold)
	for w := 0; w < *workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := w; i < p.Cold; i += *workers {
				sc := makeAt(p, *base, ColdIndex+i, *tier)
				r, err := runOne(self, *work, &Replay{Property: p.ID, Base: *base, Runs: []*Scenario{sc}})
				if err != nil {
					coldErr[i] = err.Error()
				}
				cold[i] = r
			}
		}(w)
	}
	wg.Wait()
	stopFile := filepath.Join(*work, fmt.Sprintf("stop%d", os.Getpid()))
	defer os.Remove(stopFile)
	for _, r := range cold {
		if r != nil && r.Violation != "" && matchKnown(knownKeys(*known, p.ID), r.Key) == "" {
			os.WriteFile(stopFile, []byte("x"), 0644)
		}
	}
	for w := 0; w < *workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			status := filepath.Join(*work, fmt.Sprintf("status%d", w))
			cmd := exec.Command(self, "worker", "-prop", p.ID, "-tier", *tier, "-seed", fmt.Sprint(*base),
				"-from", fmt.Sprint(w), "-step", fmt.Sprint(*workers), "-count", fmt.Sprint((n+*workers-1-w)/(*workers)),
				"-secs", fmt.Sprint(s), "-status", status, "-known", *known, "-stop", stopFile)
			cmd.Env = childEnv(*work)
			var out, errb bytes.Buffer
			cmd.Stdout, cmd.Stderr = &out, &limited{b: &errb, n: 1 << 20}
			err := cmd.Run()
			r := wres{err: err, stderr: errb.String()}
			if b, e := os.ReadFile(status); e == nil {
				r.status = strings.TrimSpace(string(b))
			}
			if err == nil {
				r.sum = &summary{}
				if e := json.Unmarshal(out.Bytes(), r.sum); e != nil {
					r.err = e
				}
			}
			results[w] = r
		}(w)
	}
	wg.Wait()
	wall := time.Since(start).Seconds()

	total := &summary{Faults: map[string]int{}, Tags: map[string]int{}, Known: map[string]int{}}
	sigs := map[string]bool{}
	var viols []*found
	trouble := ""
	keys := knownKeys(*known, p.ID)
	for i, r := range cold {
		if r == nil {
			trouble = "cold run: " + coldErr[i]
			continue
		}
		total.Runs++
		total.Steps += r.Steps
		total.Tags["fresh-process"]++
		if r.Nontrivial {
			total.Nontrivial++
			sigs["cold"+strconv.FormatUint(r.Sig, 36)] = true
		}
		if r.Violation == "" {
			continue
		}
		if kk := matchKnown(keys, r.Key); kk != "" {
			total.Known[kk]++
			continue
		}
		if strings.HasPrefix(r.Key, "race:") && strings.Trim(r.Key, "race:+") == "" {
			trouble = fmt.Sprintf("cold run %d: a race without the code under test\n%s", i, tail(r.Race, 3000))
			continue
		}
		o := r.Outcome
		viols = append(viols, &found{Index: ColdIndex + i, Outcome: &o, Race: r.Race})
	}
	for w, r := range results {
		if r.err != nil || r.sum == nil {
			// The worker died. Is it the code under test?
			if t := fatalText(r.stderr); t != "" {
				idx, e := strconv.Atoi(r.status)
				if e == nil {
					viols = append(viols, &found{Index: idx, Outcome: &Outcome{Violation: "the process died: " + t, Key: "fatal:" + t}})
					continue
				}
			}
			trouble = fmt.Sprintf("worker %d failed at run %s: %v\n%s", w, r.status, r.err, tail(r.stderr, 3000))
			continue
		}
		if r.sum.Trouble != "" {
			trouble = fmt.Sprintf("worker %d: %s", w, r.sum.Trouble)
		}
		total.Runs += r.sum.Runs
		total.Nontrivial += r.sum.Nontrivial
		total.Steps += r.sum.Steps
		total.HashSum += r.sum.HashSum
		for k, v := range r.sum.Faults {
			total.Faults[k] += v
		}
		for k, v := range r.sum.Tags {
			total.Tags[k] += v
		}
		for k, v := range r.sum.Known {
			total.Known[k] += v
		}
		for _, g := range r.sum.Sigs {
			sigs[g] = true
		}
		if len(total.Samples) < 4 {
			total.Samples = append(total.Samples, r.sum.Samples...)
		}
		if r.sum.Violation != nil {
			viols = append(viols, r.sum.Violation)
		}
	}
	sort.SliceStable(viols, func(i, j int) bool { return viols[i].Index < viols[j].Index })

	code := exitHeld
	var rep *Replay
	for i, viol := range viols {
		if i >= 4 {
			break
		}
		rep, err = confirm(self, *work, p, *base, *tier, viol)
		if err == nil {
			code = exitViolation
			break
		}
		fmt.Fprintf(os.Stderr, "a violation of %s in run %d could not be reproduced: %s\n%s\n", p.ID, viol.Index, viol.Outcome.Violation, err)
		code = exitTrouble
	}
	if len(viols) == 0 && trouble != "" {
		fmt.Fprintln(os.Stderr, trouble)
		code = exitTrouble
	}
	if code == exitHeld && total.Runs == 0 {
		fmt.Fprintln(os.Stderr, "no run was made")
		code = exitTrouble
	}

	if *evid != "" {
		violations := 0
		if code == exitViolation {
			violations = 1
		}
		perHour := func(n int) int {
			if wall <= 0 {
				return 0
			}
			return int(float64(n) / wall * 3600)
		}
		ev := map[string]interface{}{
			"property": p.ID, "tier": *tier, "seed": *base, "level": "exploration",
			"coverage": map[string]interface{}{
				"evaluations":              total.Runs,
				"distinct_nontrivial":      len(sigs),
				"rule":                     p.Rule,
				"samples":                  total.Samples,
				"nontrivial_runs":          total.Nontrivial,
				"runs_per_hour":            perHour(total.Runs),
				"seeds_per_hour":           perHour(total.Runs),
				"simulated_time":           fmt.Sprintf("%d scheduling points (the system has no clock; logical time is counted in scheduling points)", total.Steps),
				"scheduling_points":        total.Steps,
				"faults_injected":          total.Faults,
				"events":                   total.Tags,
				"known_findings_seen":      total.Known,
				"components_real":          p.Real,
				"components_stub":          p.Stub,
				"trace_hash_sum":           fmt.Sprintf("%016x", total.HashSum),
				"workers":                  *workers,
				"build_s":                  *buildS,
				"distinct_nontrivial_unit": "distinct combinations of schedule (every task switch with its position) and faults as fired",
			},
			"wall_s": wall, "violations": violations,
			"assumptions": p.Assumptions,
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Dir(*evid), 0755)
		if err := os.WriteFile(*evid, append(b, '\n'), 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			code = exitTrouble
		}
	}
	fmt.Printf("%s: %d runs, %d nontrivial, %d distinct, %d scheduling points, %.1fs\n", p.ID, total.Runs, total.Nontrivial, len(sigs), total.Steps, wall)
	if len(total.Faults) > 0 {
		fmt.Printf("%s: faults %s\n", p.ID, countLine(total.Faults))
	}
	if len(total.Tags) > 0 {
		fmt.Printf("%s: events %s\n", p.ID, countLine(total.Tags))
	}
	for _, k := range knownKeys(*known, p.ID) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.text)
	}
	if code == exitViolation {
		os.MkdirAll(*replayDir, 0755)
		path := filepath.Join(*replayDir, fmt.Sprintf("%s-%d.json", p.ID, rep.Seed))
		b, _ := json.MarshalIndent(rep, "", " ")
		if err := os.WriteFile(path, append(b, '\n'), 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return exitTrouble
		}
		fmt.Printf("%s\n", rep.Violation)
		if rep.Race != "" {
			fmt.Println(tail(rep.Race, 3000))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	}
	return code
}

var makeMu sync.Mutex

// makeAt is Make for several goroutines.
func makeAt(p *Property, base uint64, index int, tier string) *Scenario {
	makeMu.Lock()
	defer makeMu.Unlock()
	return Make(p, base, index, tier)
}

type limited struct {
	b *bytes.Buffer
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		l.b.Write(p)
	}
	return len(p), nil
}

func countLine(m map[string]int) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var parts []string
	for _, k := range ks {
		parts = append(parts, fmt.Sprintf("%s=%d", k, m[k]))
	}
	return strings.Join(parts, " ")
}

// confirm reproduces a violation in fresh processes and minimises it.
func confirm(self, work string, p *Property, base uint64, tier string, f *found) (*Replay, error) {
	sc := Make(p, base, f.Index, tier)
	rp := &Replay{Property: p.ID, Base: base, Seed: sc.Seed, Violation: f.Outcome.Violation, Key: f.Outcome.Key, Race: f.Race, Runs: []*Scenario{sc}}
	r, err := runOne(self, work, rp)
	if err != nil {
		return nil, err
	}
	same := func(a, b string) bool {
		if strings.HasPrefix(a, "race:") || strings.HasPrefix(b, "race:") {
			return strings.HasPrefix(a, "race:") && strings.HasPrefix(b, "race:")
		}
		return a == b
	}
	if r.Violation == "" || !same(r.Key, rp.Key) {
		if r.Violation == "" {
			// Perhaps earlier runs of the same process matter.
			if rp2 := withPrefix(self, work, p, base, tier, rp, f); rp2 != nil {
				return rp2, nil
			}
			return nil, fmt.Errorf("not seen again in a fresh process, with or without the runs before it")
		}
		rp.Key, rp.Violation = r.Key, r.Violation
	}
	// Fix the schedule, then minimise.
	best := sc
	if len(r.Switches) > 0 && r.fatal == "" {
		e := sc.Clone()
		e.Pol = simrt.Policy{Kind: "explicit", Switches: r.Switches}
		if er, err := runOne(self, work, &Replay{Property: p.ID, Base: base, Runs: []*Scenario{e}}); err == nil && same(er.Key, rp.Key) {
			best = e
		}
	}
	best = minimise(self, work, p, base, best, rp.Key, same)
	rp.Runs = []*Scenario{best}
	var last *oneResult
	for i := 0; i < 2; i++ {
		r, err := runOne(self, work, rp)
		if err != nil {
			return nil, err
		}
		if r.Violation == "" || !same(r.Key, rp.Key) {
			// Fall back to the run as found.
			rp.Runs = []*Scenario{sc}
			if r, err = runOne(self, work, rp); err != nil || r.Violation == "" {
				return nil, fmt.Errorf("the minimised run does not reproduce")
			}
		}
		if last != nil && last.Hash != r.Hash && r.fatal == "" {
			return nil, fmt.Errorf("two replays of the same file differ: %x %x", last.Hash, r.Hash)
		}
		last = r
	}
	rp.Violation, rp.Key, rp.Hash = last.Violation, last.Key, last.Hash
	if last.Race != "" {
		rp.Race = last.Race
	}
	rp.Trace = last.Trace
	for _, w := range last.Switches {
		rp.Schedule = append(rp.Schedule, describe(w))
	}
	if len(rp.Schedule) > 400 {
		rp.Schedule = rp.Schedule[:400]
	}
	return rp, nil
}

func describe(w simrt.Switch) string {
	if w.From < 0 {
		return fmt.Sprintf("start with task %d", w.To)
	}
	how := "is preempted"
	if w.Forced {
		how = "blocks or ends"
	}
	return fmt.Sprintf("task %d %s at its step %d, task %d runs", w.From, how, w.Step, w.To)
}

func withPrefix(self, work string, p *Property, base uint64, tier string, rp *Replay, f *found) *Replay {
	build := func(idx []int) *Replay {
		c := *rp
		c.Runs = nil
		for _, i := range idx {
			c.Runs = append(c.Runs, Make(p, base, i, tier))
		}
		c.Runs = append(c.Runs, rp.Runs[len(rp.Runs)-1])
		return &c
	}
	try := func(idx []int) *oneResult {
		r, err := runOne(self, work, build(idx))
		if err != nil || r.Violation == "" {
			return nil
		}
		return r
	}
	pre := f.Prefix
	if len(pre) > 3000 {
		pre = pre[len(pre)-3000:]
	}
	if try(pre) == nil {
		return nil
	}
	deadline := time.Now().Add(90 * time.Second)
	for n := 1; n < len(pre); n *= 2 {
		if try(pre[len(pre)-n:]) != nil {
			pre = pre[len(pre)-n:]
			break
		}
	}
	for size := (len(pre) + 1) / 2; size >= 1 && time.Now().Before(deadline); size /= 2 {
		for at := 0; at < len(pre) && time.Now().Before(deadline); {
			end := at + size
			if end > len(pre) {
				end = len(pre)
			}
			c := append(append([]int{}, pre[:at]...), pre[end:]...)
			if try(c) != nil {
				pre = c
			} else {
				at = end
			}
		}
	}
	out := build(pre)
	r := try(pre)
	if r == nil {
		return nil
	}
	out.Violation = r.Violation + " (needs the runs before it in the same process)"
	out.Key, out.Hash, out.Trace, out.Race = r.Key, r.Hash, r.Trace, r.Race
	return out
}

// minimise drops parts of a scenario while the same violation remains.
func minimise(self, work string, p *Property, base uint64, sc *Scenario, key string, same func(a, b string) bool) *Scenario {
	deadline := time.Now().Add(60 * time.Second)
	fails := func(c *Scenario) bool {
		if time.Now().After(deadline) {
			return false
		}
		r, err := runOne(self, work, &Replay{Property: p.ID, Base: base, Runs: []*Scenario{c}})
		return err == nil && r.Violation != "" && same(r.Key, key)
	}
	// Several candidates are tried at once, on all cores; the first in order
	// that still fails is taken.
	pick := func(cs []*Scenario) *Scenario {
		const par = 8
		for i := 0; i < len(cs); i += par {
			end := i + par
			if end > len(cs) {
				end = len(cs)
			}
			ok := make([]bool, end-i)
			var wg sync.WaitGroup
			for j := i; j < end; j++ {
				wg.Add(1)
				go func(j int) {
					defer wg.Done()
					ok[j-i] = fails(cs[j])
				}(j)
			}
			wg.Wait()
			for j := range ok {
				if ok[j] {
					return cs[i+j]
				}
			}
		}
		return nil
	}
	for round := 0; round < 60 && time.Now().Before(deadline); round++ {
		next := pick(candidates(p, sc))
		if next == nil {
			break
		}
		sc = next
	}
	return sc
}

// candidates lists simpler scenarios, boldest first.
func candidates(p *Property, sc *Scenario) []*Scenario {
	var out []*Scenario
	add := func(f func(c *Scenario)) {
		c := sc.Clone()
		f(c)
		out = append(out, c)
	}
	chunks := func(n int) [][2]int {
		var r [][2]int
		for size := (n + 1) / 2; size >= 1; size /= 2 {
			for at := 0; at < n; at += size {
				end := at + size
				if end > n {
					end = n
				}
				r = append(r, [2]int{at, end})
			}
			if size == 1 {
				break
			}
		}
		return r
	}
	for _, c := range chunks(len(sc.Faults)) {
		add(func(s *Scenario) { s.Faults = append(append([]simk.Fault{}, s.Faults[:c[0]]...), s.Faults[c[1]:]...) })
	}
	for i := range sc.Tasks {
		if len(sc.Tasks[i]) > 0 && len(sc.Tasks) > 1 {
			i := i
			add(func(s *Scenario) { s.Tasks[i] = nil })
		}
	}
	for i := range sc.Docs {
		for _, c := range chunks(len(sc.Docs[i].Chunks)) {
			i, c := i, c
			add(func(s *Scenario) {
				d := &s.Docs[i]
				d.Chunks = append(append([]string{}, d.Chunks[:c[0]]...), d.Chunks[c[1]:]...)
			})
		}
	}
	for i := range sc.Tasks {
		for _, c := range chunks(len(sc.Tasks[i])) {
			i, c := i, c
			add(func(s *Scenario) {
				s.Tasks[i] = append(append([]Op{}, s.Tasks[i][:c[0]]...), s.Tasks[i][c[1]:]...)
			})
		}
	}
	if p.Shrink != nil {
		out = append(out, p.Shrink(sc)...)
	}
	if sc.Pol.Kind == "explicit" {
		cs := chunks(len(sc.Pol.Switches))
		if len(cs) > 64 {
			cs = cs[:64]
		}
		for _, c := range cs {
			c := c
			add(func(s *Scenario) {
				s.Pol.Switches = append(append([]simrt.Switch{}, s.Pol.Switches[:c[0]]...), s.Pol.Switches[c[1]:]...)
			})
		}
	} else if sc.Pol.Kind != "seq" {
		add(func(s *Scenario) { s.Pol = simrt.Policy{Kind: "seq"} })
	}
	return out
}

func cmdShrink(args []string) int { return exitTrouble }

// cmdReplay runs a replay file in a fresh process and says whether it still
// shows its violation.
func cmdReplay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	file := fs.String("file", "", "")
	work := fs.String("work", os.TempDir(), "")
	fs.Parse(args)
	b, err := os.ReadFile(*file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitTrouble
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitTrouble
	}
	self, _ := os.Executable()
	r, err := runOne(self, *work, &rp)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitTrouble
	}
	for _, t := range r.Trace {
		fmt.Println("  " + t)
	}
	if r.Violation == "" {
		fmt.Println("the run does not violate the property on this tree")
		return exitHeld
	}
	fmt.Println(r.Violation)
	if r.Race != "" {
		io.WriteString(os.Stdout, r.Race)
	}
	if r.Hash == rp.Hash {
		fmt.Println("trace identical to the recorded one")
	} else {
		fmt.Printf("trace differs from the recorded one (%x, recorded %x)\n", r.Hash, rp.Hash)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, *file)
	return exitViolation
}

// cmdGen prints or runs single indices, for development.
func cmdGen(args []string) int {
	fs := flag.NewFlagSet("gen", flag.ExitOnError)
	id := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	base := fs.Uint64("seed", 1, "")
	index := fs.Int("index", 0, "")
	run := fs.Bool("run", false, "")
	docs := fs.Bool("docs", false, "")
	hashes := fs.Int("hashes", 0, "print the trace hashes of this many runs")
	fs.Parse(args)
	setupProcess()
	p := Find(*id)
	if p == nil {
		return exitTrouble
	}
	if *hashes > 0 {
		Warm(p, *base)
		for i := 0; i < *hashes; i++ {
			idx := *index + i
			o := Exec(p, Make(p, *base, idx, *tier))
			fmt.Printf("%d %016x %d %s %s\n", idx, o.Hash, o.Steps, o.Key, o.Trouble)
		}
		return 0
	}
	sc := Make(p, *base, *index, *tier)
	if *docs {
		for _, d := range sc.Docs {
			fmt.Printf("--- %s\n%s\n", d.Name, d.Text())
		}
		for i, t := range sc.Tasks {
			for _, op := range t {
				fmt.Printf("%d %s\n", i, op)
			}
		}
	} else {
		b, _ := json.MarshalIndent(sc, "", " ")
		fmt.Println(string(b))
	}
	if *run {
		Verbose = true
		Warm(p, *base)
		o := Exec(p, sc)
		for _, t := range o.Trace {
			fmt.Println("  " + t)
		}
		fmt.Printf("hash %x sig %x steps %d switches %d nontrivial %v tags %v faults %v\n", o.Hash, o.Sig, o.Steps, len(o.Switches), o.Nontrivial, o.Tags, o.Faults)
		fmt.Println(o.Violation, o.Key, o.Trouble)
	}
	return 0
}
