// driver runs many simulated executions of the worker, decides one property,
// minimises and replays violations and writes the evidence.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	sim "vsim/spec"
)

// outcome of one worker process.
type outcome struct {
	idx  int
	spec sim.Spec
	res  sim.Result
	err  string // harness error
}

var (
	verifDir  string
	buildDir  string
	workerBin = "worker"
	runLimit  = 60 * time.Second
)

func mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func hashStr(h uint64, s string) uint64 {
	for i := 0; i < len(s); i++ {
		h = mix(h ^ uint64(s[i]))
	}
	return h
}

// run executes one spec in a fresh process.
func run(spec sim.Spec) outcome {
	o := outcome{spec: spec}
	in, _ := json.Marshal(spec)
	ctx, cancel := context.WithTimeout(context.Background(), runLimit)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(buildDir, workerBin))
	env := []string{"GOMAXPROCS=1", "GOTRACEBACK=all", "GODEBUG=asyncpreemptoff=1", "HOME=/nonexistent", "PATH=/usr/bin:/bin", "TZ=UTC"}
	if workerBin == "worker-race" {
		env = append(env, "GORACE=halt_on_error=0 exitcode=0 history_size=3 atexit_sleep_ms=0")
	}
	cmd.Env = env
	cmd.Stdin = bytes.NewReader(in)
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errb
	err := cmd.Run()
	if ctx.Err() != nil {
		o.err = fmt.Sprintf("run did not end within %v of real time (scenario %s seed %d)\n%s", runLimit, spec.Scenario, spec.Seed, tail(errb.String(), 3000))
		return o
	}
	if err == nil {
		if jerr := json.Unmarshal(out.Bytes(), &o.res); jerr != nil {
			o.err = fmt.Sprintf("bad result: %v: %s", jerr, tail(out.String(), 300))
			return o
		}
		if o.res.Error != "" {
			o.err = o.res.Error
		}
		if workerBin == "worker-race" {
			// what else is wrong is for other properties to say
			o.res.Violations = raceReports(errb.String())
		}
		return o
	}
	var ee *exec.ExitError
	if !errors.As(err, &ee) {
		o.err = err.Error()
		return o
	}
	if v, ok := crash(errb.String()); ok {
		if workerBin == "worker-race" && !strings.Contains(v.Msg, "concurrent map") {
			o.res.Violations = raceReports(errb.String())
			return o
		}
		o.res.Violations = []sim.Violation{v}
		o.res.Trace = strings.Split(tail(errb.String(), 6000), "\n")
		o.res.LogHash = hashStr(1, v.Kind)
		o.res.NonTrivial = true
		return o
	}
	o.err = fmt.Sprintf("worker failed: %v (scenario %s seed %d)\n%s", err, spec.Scenario, spec.Seed, tail(errb.String(), 6000))
	return o
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

var frameRE = regexp.MustCompile(`^([a-zA-Z0-9_./%\-]+\.[^\s(]*(?:\([^)]*\))?[^\s(]*)\(`)

// blame returns the first frame that belongs to the code under test or to
// the harness.
func blame(lines []string) (frame string, mine bool) {
	for _, l := range lines {
		switch {
		case strings.HasPrefix(l, "github.com/c-kruse/vanflow"):
			f := l
			if i := strings.LastIndex(f, "("); i > 0 {
				f = f[:i]
			}
			return f, true
		case strings.HasPrefix(l, "vsim/"), strings.HasPrefix(l, "main."):
			return l, false
		case strings.HasPrefix(l, "github.com/Azure/go-amqp/simrouter"):
			return l, false
		}
	}
	return "", false
}

// crash classifies the death of a worker.
func crash(stderr string) (sim.Violation, bool) {
	lines := strings.Split(stderr, "\n")
	for i, l := range lines {
		if !(strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ") || strings.HasPrefix(l, "runtime: goroutine stack exceeds")) {
			continue
		}
		// the first goroutine that follows is the one that crashed
		j := i
		for j < len(lines) && !strings.HasPrefix(lines[j], "goroutine ") {
			j++
		}
		k := j + 1
		for k < len(lines) && lines[k] != "" {
			k++
		}
		if j >= len(lines) {
			return sim.Violation{}, false
		}
		f, mine := blame(lines[j:k])
		if !mine {
			return sim.Violation{}, false
		}
		what := "panic"
		if strings.HasPrefix(l, "runtime: goroutine stack") {
			what = "stack-overflow"
		} else if strings.HasPrefix(l, "fatal error: ") {
			what = "fatal"
		}
		return sim.Violation{Kind: "crash:" + what + ":" + f, Msg: l + " in " + f + "\n" + strings.Join(lines[j:min(k, j+24)], "\n")}, true
	}
	return sim.Violation{}, false
}

// raceReports extracts the race detector's reports whose two accesses both
// were made by the code under test.
func raceReports(stderr string) []sim.Violation {
	var out []sim.Violation
	seen := map[string]bool{}
	for _, rep := range strings.Split(stderr, "==================") {
		if !strings.Contains(rep, "WARNING: DATA RACE") {
			continue
		}
		var tops []string
		lines := strings.Split(rep, "\n")
		for i, l := range lines {
			if strings.HasPrefix(l, "Read at") || strings.HasPrefix(l, "Write at") || strings.HasPrefix(l, "Previous read at") || strings.HasPrefix(l, "Previous write at") {
				top := ""
				for _, m := range lines[i+1:] {
					m = strings.TrimSpace(m)
					if m == "" {
						break
					}
					if strings.HasPrefix(m, "/") {
						continue
					}
					if strings.Contains(m, "go-amqp/simrouter") {
						top = "harness" // its use of the codec
						break
					}
					if top != "" {
						continue
					}
					m = strings.TrimSuffix(m, "()")
					if strings.HasPrefix(m, "github.com/c-kruse/vanflow") || strings.HasPrefix(m, "vsim/") || strings.HasPrefix(m, "main.") || strings.HasPrefix(m, "github.com/Azure") {
						top = m
					}
				}
				tops = append(tops, top)
			}
		}
		if len(tops) != 2 || !ownAccess(tops[0], tops[1]) {
			continue
		}
		sort.Strings(tops)
		kind := "race:" + tops[0] + "+" + tops[1]
		if seen[kind] {
			continue
		}
		seen[kind] = true
		out = append(out, sim.Violation{Kind: kind, Msg: tail(strings.TrimSpace(rep), 4000)})
	}
	return out
}

// ownAccess: one access is in vanflow's own code, the other there too or in
// the AMQP library on its behalf, none in the harness.
func ownAccess(a, b string) bool {
	const own, lib = "github.com/c-kruse/vanflow", "github.com/Azure"
	if !strings.HasPrefix(a, own) {
		a, b = b, a
	}
	return strings.HasPrefix(a, own) && (strings.HasPrefix(b, own) || strings.HasPrefix(b, lib))
}

// finding is a genuine defect that is recorded rather than repaired.
type finding struct {
	Property string `json:"property"`
	Kind     string `json:"kind"`  // exact violation kind
	Match    string `json:"match"` // regular expression over the message
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"` // a repaired defect: suppresses nothing
	re       *regexp.Regexp
}

func loadFindings() []finding {
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.json"))
	if err != nil {
		return nil
	}
	var doc struct {
		Findings []finding `json:"findings"`
	}
	if err := json.Unmarshal(b, &doc); err != nil {
		fail("known-findings.json: %v", err)
	}
	var out []finding
	for _, f := range doc.Findings {
		if f.Fixed != "" {
			continue
		}
		f.re = regexp.MustCompile(f.Match)
		out = append(out, f)
	}
	return out
}

func known(fs []finding, prop string, v sim.Violation) *finding {
	for i := range fs {
		if fs[i].Property == prop && fs[i].Kind == v.Kind && fs[i].re.MatchString(v.Msg) {
			return &fs[i]
		}
	}
	return nil
}

func fail(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "driver: "+format+"\n", a...)
	os.Exit(2)
}

func main() {
	exe, _ := os.Executable()
	buildDir = filepath.Dir(exe)
	verifDir = os.Getenv("VSIM_VERIF")
	if verifDir == "" {
		verifDir = filepath.Dir(buildDir)
	}
	if len(os.Args) >= 3 && os.Args[1] == "replay" {
		replay(os.Args[2])
		return
	}
	if len(os.Args) >= 4 && os.Args[1] == "one" { // one SCENARIO SEED [PROP]
		s := sim.Spec{Scenario: os.Args[2], Trace: true}
		s.Seed, _ = strconv.ParseUint(os.Args[3], 10, 64)
		if len(os.Args) > 4 {
			s.Prop = os.Args[4]
		}
		if s.Prop == "R01" {
			workerBin = "worker-race"
		}
		o := run(s)
		show(o)
		return
	}
	if len(os.Args) < 3 {
		fail("usage: driver PROPERTY quick|thorough | replay FILE | one SCENARIO SEED [PROPERTY]")
	}
	check(os.Args[1], os.Args[2])
}

func show(o outcome) {
	for _, l := range o.res.Trace {
		fmt.Println(l)
	}
	o.res.Trace = nil
	if o.res.Sched != nil {
		o.res.Sched.Yields, o.res.Sched.YieldArgs, o.res.Sched.Picks, o.res.Sched.PickArgs = nil, nil, nil, nil
	}
	b, _ := json.MarshalIndent(o.res, "", " ")
	fmt.Println(string(b))
	if o.err != "" {
		fmt.Println("ERROR:", o.err)
	}
}

type agg struct {
	runs, nonTrivial int
	simNS            int64
	steps, decisions uint64
	yields, stalls   uint64
	switches         uint64
	faults, probes   map[string]int64
	hashes           map[uint64]bool
	ntHashes         map[uint64]bool
	perScenario      map[string]int
	strategies       map[string]int
}

func check(prop, tier string) {
	start := time.Now()
	jobs, ok := jobsFor[prop]
	if !ok {
		fail("no jobs for property %s", prop)
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		v, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			fail("VERIF_SEED: %v", err)
		}
		seed = uint64(v)
	}
	thorough := tier == "thorough"
	if prop == "R01" {
		workerBin = "worker-race"
	}
	limit := 240 * time.Second
	if thorough {
		limit = 40 * time.Minute
	}
	if s := os.Getenv("VSIM_LIMIT"); s != "" {
		limit, _ = time.ParseDuration(s)
	}
	var specs []sim.Spec
	maxN := 0
	for _, j := range jobs {
		n := j.quick
		if thorough {
			n = j.quick * j.factor()
		}
		if n > maxN {
			maxN = n
		}
	}
	// interleave the scenarios so that a time cap cuts all of them evenly
	type cand struct {
		pos  float64
		spec sim.Spec
	}
	var cands []cand
	for ji, j := range jobs {
		n := j.quick
		if thorough {
			n = j.quick * j.factor()
		}
		for i := 0; i < n; i++ {
			cands = append(cands, cand{(float64(i) + 0.5 + float64(ji)*1e-6) / float64(n), sim.Spec{
				Scenario: j.scenario, Prop: prop, Thorough: thorough,
				Seed: mix(hashStr(mix(seed), prop+"/"+j.scenario) + uint64(i)),
			}})
		}
	}
	sort.SliceStable(cands, func(a, b int) bool { return cands[a].pos < cands[b].pos })
	for _, c := range cands {
		specs = append(specs, c.spec)
	}

	findings := loadFindings()
	a := agg{faults: map[string]int64{}, probes: map[string]int64{}, hashes: map[uint64]bool{}, ntHashes: map[uint64]bool{}, perScenario: map[string]int{}, strategies: map[string]int{}}
	var (
		mu       sync.Mutex
		bad      []outcome
		errs     []outcome
		knownHit = map[string]int{}
		first    = map[int]outcome{}
		next     int
		stop     bool
	)
	const recheck = 12
	var wg sync.WaitGroup
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if stop || next >= len(specs) || time.Since(start) > limit {
					mu.Unlock()
					return
				}
				i := next
				next++
				mu.Unlock()
				o := run(specs[i])
				o.idx = i
				mu.Lock()
				if o.err != "" {
					errs = append(errs, o)
					if len(errs) >= 3 {
						stop = true
					}
					mu.Unlock()
					continue
				}
				r := &o.res
				a.runs++
				a.perScenario[o.spec.Scenario]++
				if r.NonTrivial {
					a.nonTrivial++
					a.ntHashes[r.SchedHash^mix(r.LogHash)] = true
				}
				a.hashes[r.SchedHash] = true
				a.simNS += r.SimNS
				a.steps += r.Steps
				a.decisions += r.Decisions
				a.yields += r.Yields
				a.stalls += r.Stalls
				a.switches += r.Switches
				for k, v := range r.Faults {
					a.faults[k] += v
				}
				for k, v := range r.Probes {
					a.probes[k] += v
				}
				if i < recheck {
					first[i] = o
				}
				var unlisted []sim.Violation
				for _, v := range r.Violations {
					if f := known(findings, prop, v); f != nil {
						knownHit[f.What]++
					} else {
						unlisted = append(unlisted, v)
					}
				}
				if len(unlisted) > 0 {
					o.res.Violations = unlisted
					bad = append(bad, o)
					stop = true
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	simWall := time.Since(start)

	// determinism: the same seeds once more, in fresh processes
	det := map[string]any{}
	{
		same, diff := 0, 0
		var ids []int
		for i := range first {
			ids = append(ids, i)
		}
		sort.Ints(ids)
		var wg sync.WaitGroup
		res := make([]bool, len(ids))
		for k, i := range ids {
			wg.Add(1)
			go func() {
				defer wg.Done()
				o := run(specs[i])
				res[k] = o.err == "" && o.res.SchedHash == first[i].res.SchedHash && o.res.LogHash == first[i].res.LogHash
			}()
		}
		wg.Wait()
		for _, ok := range res {
			if ok {
				same++
			} else {
				diff++
			}
		}
		det["reruns"] = same + diff
		det["identical"] = same
		if diff > 0 && len(bad) == 0 && len(errs) == 0 && workerBin != "worker-race" {
			errs = append(errs, outcome{err: fmt.Sprintf("%d of %d reruns were not identical", diff, same+diff)})
		}
	}

	var samples []any
	var sids []int
	for i := range first {
		sids = append(sids, i)
	}
	sort.Ints(sids)
	for _, i := range sids {
		if len(samples) >= 3 {
			break
		}
		s := specs[i]
		s.Trace = true
		o := run(s)
		if o.err != "" || o.res.Plan == nil {
			continue
		}
		ops := o.res.Plan.Ops
		tr := o.res.Trace
		if len(ops) > 12 {
			ops = ops[:12]
		}
		if len(tr) > 25 {
			tr = tr[:25]
		}
		sc := map[string]any{}
		if o.res.Sched != nil {
			sc["strategy"], sc["yield_gap"], sc["stall_gap"], sc["yields"], sc["picks"] = o.res.Sched.Strategy, o.res.Sched.YieldGap, o.res.Sched.StallGap, len(o.res.Sched.Yields), len(o.res.Sched.Picks)
		}
		samples = append(samples, map[string]any{"scenario": s.Scenario, "seed": fmt.Sprint(s.Seed), "params": o.res.Plan.Params, "first_ops": ops, "ops": len(o.res.Plan.Ops), "schedule": sc, "sim_seconds": float64(o.res.SimNS) / 1e9, "log_head": tr})
	}

	status := 0
	sort.Slice(bad, func(i, j int) bool { return bad[i].idx < bad[j].idx })
	var whats []string
	for w := range knownHit {
		whats = append(whats, w)
	}
	sort.Strings(whats)
	for _, f := range findings {
		if f.Property == prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.What)
		}
	}
	if len(bad) > 0 {
		path := report(prop, bad[0])
		for _, v := range bad[0].res.Violations {
			fmt.Printf("%s: %s\n", v.Kind, tail(v.Msg, 3000))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		status = 1
	} else if len(errs) > 0 {
		status = 2
		for _, e := range errs {
			fmt.Fprintf(os.Stderr, "driver: error in %s seed %d: %s\n", e.spec.Scenario, e.spec.Seed, e.err)
		}
	}

	wall := time.Since(start)
	hours := simWall.Hours()
	perHour := func(n int) int64 {
		if hours == 0 {
			return 0
		}
		return int64(float64(n) / hours)
	}
	var scs []string
	for _, j := range jobs {
		scs = append(scs, j.scenario)
	}
	ev := map[string]any{
		"property": prop, "tier": map[bool]string{true: "thorough", false: "quick"}[thorough], "seed": seed, "level": "exploration",
		"wall_s": wall.Seconds(), "violations": len(bad),
		"coverage": map[string]any{
			"evaluations":          a.runs,
			"distinct_nontrivial":  len(a.ntHashes),
			"rule":                 ruleOf(prop),
			"samples":              samples,
			"runs_per_hour":        perHour(a.runs),
			"seeds_per_hour":       perHour(a.runs),
			"runs_planned":         len(specs),
			"runs_per_scenario":    a.perScenario,
			"nontrivial_runs":      a.nonTrivial,
			"simulated_seconds":    float64(a.simNS) / 1e9,
			"faults_injected":      a.faults,
			"probes":               a.probes,
			"distinct_schedules":   len(a.hashes),
			"schedule_measure":     "64-bit hash of the sequence (goroutine chosen, scheduling point) of every switch of a run",
			"scheduling_points":    a.steps,
			"scheduling_decisions": a.decisions,
			"forced_switches":      a.yields,
			"injected_stalls":      a.stalls,
			"goroutine_switches":   a.switches,
			"determinism_rerun":    det,
			"real_components":      realComponents(scs),
			"stub_components":      stubComponents(scs),
			"known_findings_hit":   knownHit,
			"harness_errors":       len(errs),
		},
		"assumptions": assumptions,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		fail("%v", err)
	}
	fmt.Printf("%s %s: %d runs (%d distinct non-trivial), %.0f simulated s, %d violations, %.1f s\n", prop, tier, a.runs, len(a.ntHashes), float64(a.simNS)/1e9, len(bad), wall.Seconds())
	os.Exit(status)
}

// ---------------------------------------------------------------- report

// replayFile is a violation: the minimised schedule and faults, and what
// they lead to.
type replayFile struct {
	Property   string          `json:"property"`
	Violations []sim.Violation `json:"violations"`
	LogHash    uint64          `json:"log_hash"`
	SchedHash  uint64          `json:"sched_hash"`
	Original   map[string]any  `json:"original"`
	Minimised  map[string]any  `json:"minimised"`
	Spec       sim.Spec        `json:"spec"`
	Trace      []string        `json:"trace"`
}

func hasKind(o outcome, kind string) bool {
	for _, v := range o.res.Violations {
		if v.Kind == kind {
			return true
		}
	}
	return false
}

// firstOf runs the candidates in parallel and returns the first (in order)
// that still shows the violation.
func firstOf(cands []sim.Spec, kind string) (int, outcome) {
	res := make([]*outcome, len(cands))
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for i := range cands {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			o := run(cands[i])
			if o.err == "" && hasKind(o, kind) {
				res[i] = &o
			}
		}()
	}
	wg.Wait()
	for i, o := range res {
		if o != nil {
			return i, *o
		}
	}
	return -1, outcome{}
}

func report(prop string, o outcome) string {
	kind := o.res.Violations[0].Kind
	deadline := time.Now().Add(25 * time.Second)
	best := o
	spec := o.spec
	origOps := 0
	minimise := o.res.Plan != nil || strings.HasPrefix(kind, "crash:")
	if strings.HasPrefix(kind, "race:") {
		minimise = false
	}
	if o.res.Plan != nil {
		spec.Plan = o.res.Plan
		spec.Sched = stripSched(o.res.Sched)
		origOps = len(spec.Plan.Ops)
	} else if minimise {
		// a crash: the plan is not in the result, have it printed
		if pl, sc := planOf(spec); pl != nil {
			spec.Plan, spec.Sched = pl, sc
			origOps = len(pl.Ops)
		} else {
			minimise = false
		}
	}
	origYields, origPicks := 0, 0
	if o.res.Sched != nil {
		origYields, origPicks = len(o.res.Sched.Yields), len(o.res.Sched.Picks)
	}
	if minimise && spec.Plan != nil {
		// operations and faults
		if _, c := firstOf([]sim.Spec{spec}, kind); c.err == "" && hasKind(c, kind) {
			best = c
			n := 2
			for len(spec.Plan.Ops) > 0 && time.Now().Before(deadline.Add(-8*time.Second)) {
				ops := spec.Plan.Ops
				if n > len(ops) {
					n = len(ops)
				}
				size := (len(ops) + n - 1) / n
				var cands []sim.Spec
				for i := 0; i < len(ops); i += size {
					rest := append(append([]sim.Op{}, ops[:i]...), ops[min(len(ops), i+size):]...)
					c := spec
					c.Plan = &sim.Plan{Params: spec.Plan.Params, Ops: rest}
					cands = append(cands, c)
				}
				i, out := firstOf(cands, kind)
				if i >= 0 {
					spec = cands[i]
					best = out
					if n > 2 {
						n--
					}
					continue
				}
				if size <= 1 {
					break
				}
				n *= 2
			}
		}
		// the schedule: explicit switches
		if best.res.Sched != nil && best.res.Sched.Explicit {
			ex := spec
			ex.Sched = best.res.Sched
			if i, c := firstOf([]sim.Spec{ex}, kind); i >= 0 {
				spec, best = ex, c
				spec.Sched = reduceSched(spec, kind, deadline)
				if i, c := firstOf([]sim.Spec{spec}, kind); i >= 0 {
					best = c
				} else {
					spec.Sched = ex.Sched
				}
			}
		}
	}
	final := spec
	final.Trace = true
	fo := run(final)
	if fo.err != "" || !hasKind(fo, kind) {
		// fall back to the original run
		final = o.spec
		final.Trace = true
		fo = run(final)
		if !hasKind(fo, kind) {
			fo = o
		}
	}
	_ = best
	rf := replayFile{Property: prop, Violations: fo.res.Violations, LogHash: fo.res.LogHash, SchedHash: fo.res.SchedHash, Spec: final, Trace: fo.res.Trace,
		Original: map[string]any{"seed": fmt.Sprint(o.spec.Seed), "scenario": o.spec.Scenario, "ops": origOps, "forced_switches": origYields, "non_fifo_picks": origPicks}}
	m := map[string]any{}
	if final.Plan != nil {
		m["ops"] = len(final.Plan.Ops)
	}
	if final.Sched != nil && final.Sched.Explicit {
		m["forced_switches"], m["non_fifo_picks"] = len(final.Sched.Yields), len(final.Sched.Picks)
	}
	rf.Minimised = m
	dir := filepath.Join(verifDir, "replays")
	os.MkdirAll(dir, 0o755)
	name := regexp.MustCompile(`[^A-Za-z0-9_-]+`).ReplaceAllString(kind, "_")
	if len(name) > 60 {
		name = name[:60]
	}
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", prop, name, o.spec.Seed))
	b, _ := json.MarshalIndent(rf, "", " ")
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fail("%v", err)
	}
	return path
}

func stripSched(s *sim.Sched) *sim.Sched {
	if s == nil {
		return nil
	}
	return &sim.Sched{Strategy: s.Strategy, YieldGap: s.YieldGap, StallGap: s.StallGap, StallMax: s.StallMax}
}

// planOf asks a worker for the plan of a seed without running it.
func planOf(spec sim.Spec) (*sim.Plan, *sim.Sched) {
	spec.PlanOnly = true
	o := run(spec)
	return o.res.Plan, o.res.Sched
}

// reduceSched removes forced switches and then non-FIFO picks.
func reduceSched(spec sim.Spec, kind string, deadline time.Time) *sim.Sched {
	cur := *spec.Sched
	try := func(s sim.Sched) bool {
		c := spec
		c.Sched = &s
		i, _ := firstOf([]sim.Spec{c}, kind)
		return i >= 0
	}
	// everything at once first
	none := cur
	none.Yields, none.YieldArgs, none.Picks, none.PickArgs = []uint64{}, nil, []uint64{}, nil
	if try(none) {
		return &none
	}
	reduce := func(length func() int, cut func(lo, hi int) sim.Sched) {
		n := 2
		for length() > 0 && time.Now().Before(deadline) {
			l := length()
			if n > l {
				n = l
			}
			size := (l + n - 1) / n
			var cands []sim.Spec
			for i := 0; i < l; i += size {
				s := cut(i, min(l, i+size))
				c := spec
				c.Sched = &s
				cands = append(cands, c)
				if len(cands) >= 64 {
					break
				}
			}
			if i, _ := firstOf(cands, kind); i >= 0 {
				cur = *cands[i].Sched
				if n > 2 {
					n--
				}
				continue
			}
			if size <= 1 {
				return
			}
			n *= 2
		}
	}
	cutU := func(x []uint64, lo, hi int) []uint64 { return append(append([]uint64{}, x[:lo]...), x[hi:]...) }
	cutI := func(x []int64, lo, hi int) []int64 { return append(append([]int64{}, x[:lo]...), x[hi:]...) }
	reduce(func() int { return len(cur.Yields) }, func(lo, hi int) sim.Sched {
		s := cur
		s.Yields, s.YieldArgs = cutU(cur.Yields, lo, hi), cutI(cur.YieldArgs, lo, hi)
		return s
	})
	reduce(func() int { return len(cur.Picks) }, func(lo, hi int) sim.Sched {
		s := cur
		s.Picks, s.PickArgs = cutU(cur.Picks, lo, hi), cutU(cur.PickArgs, lo, hi)
		return s
	})
	return &cur
}

func replay(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		fail("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fail("%v", err)
	}
	if rf.Property == "R01" {
		workerBin = "worker-race"
	}
	rf.Spec.Trace = true
	o := run(rf.Spec)
	for _, l := range o.res.Trace {
		fmt.Println(l)
	}
	if o.err != "" {
		fail("%s", o.err)
	}
	if len(o.res.Violations) == 0 {
		fmt.Println("replay: no violation")
		return
	}
	for _, v := range o.res.Violations {
		fmt.Printf("%s: %s\n", v.Kind, v.Msg)
	}
	exact := o.res.LogHash == rf.LogHash && o.res.SchedHash == rf.SchedHash
	fmt.Printf("replay: reproduced, identical to the recorded execution: %v\n", exact)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
	os.Exit(1)
}
