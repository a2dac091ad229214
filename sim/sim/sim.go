// Package sim is the harness side of the simulator: plans, the run
// environment, virtual-time helpers and results.
//
// Harness code is never preempted (only the code under test has injected
// scheduling points), so none of the shared state below needs a lock.
package sim

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"log/slog"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"vsim/spec"
)

// Shared with the driver.
type (
	Op        = spec.Op
	Plan      = spec.Plan
	Sched     = spec.Sched
	Spec      = spec.Spec
	Violation = spec.Violation
	Result    = spec.Result
)

// RNG is a splitmix generator for plans.
type RNG struct{ s uint64 }

// NewRNG returns a generator.
func NewRNG(seed uint64) *RNG { return &RNG{seed*0x9e3779b97f4a7c15 + 0x1234567} }

// U64 is the next value.
func (r *RNG) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N is uniform in [0,n).
func (r *RNG) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// In is uniform in [a,b].
func (r *RNG) In(a, b int) int { return a + r.N(b-a+1) }

// P is true with probability pct/100.
func (r *RNG) P(pct int) bool { return r.N(100) < pct }

// Dur is log-uniform-ish in (0,max].
func (r *RNG) Dur(max time.Duration) time.Duration {
	d := int64(r.U64()>>1) % int64(max)
	d >>= uint(r.N(8))
	return time.Duration(d + 1)
}

// Pick returns one of the choices.
func Pick[T any](r *RNG, xs ...T) T { return xs[r.N(len(xs))] }

// Env is one run.
type Env struct {
	// Judges, when set, are the kinds of violations the run looks for.
	Judges map[string]bool

	Spec  *Spec
	Plan  *Plan
	R     *RNG // run-time fault decisions, from the seed
	Start time.Time
	res   Result
	done  bool
	// Quiesced is set once no more faults are injected.
	Quiesced bool
	trace    []string
	slogN    int
}

var theEnv *Env

// Scenario is a generator of plans and an execution of one.
type Scenario struct {
	Gen func(r *RNG, spec *Spec) *Plan
	Run func(e *Env)
	// Stalls allows virtual stalls at scheduling points.
	Stalls bool
	// MaxStall caps a single stall.
	MaxStall time.Duration
	// NoSched switches forced yields off (large end-to-end runs).
	LightSched bool
}

// Scenarios by name.
var Scenarios = map[string]*Scenario{}

// Now is the virtual time since the start.
func (e *Env) Now() time.Duration { return time.Since(e.Start) }

// Logf appends to the event log (part of the determinism hash).
func (e *Env) Logf(format string, a ...any) {
	s := fmt.Sprintf("%12.6f g%d ", e.Now().Seconds(), runtime.SimGoid()) + fmt.Sprintf(format, a...)
	h := e.res.LogHash
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	e.res.LogHash = h
	e.res.Events++
	if e.Spec.Trace {
		e.trace = append(e.trace, s)
	} else {
		if len(e.trace) >= 400 {
			e.trace = append(e.trace[:0], e.trace[200:]...)
		}
		e.trace = append(e.trace, s)
	}
}

// Fault counts an injected fault that took effect.
func (e *Env) Fault(kind string) {
	if e.res.Faults == nil {
		e.res.Faults = map[string]int64{}
	}
	e.res.Faults[kind]++
	e.Logf("fault %s", kind)
}

// Probe counts a rare condition that was reached.
func (e *Env) Probe(name string) {
	if e.res.Probes == nil {
		e.res.Probes = map[string]int64{}
	}
	e.res.Probes[name]++
}

// NonTrivial marks the run as having reached what its scenario is about.
func (e *Env) NonTrivial() { e.res.NonTrivial = true }

// Violate records a violation. kind identifies the kind of failure and must
// not depend on run-specific values.
func (e *Env) Violate(kind, format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	if e.Judges != nil && !e.Judges[kind] {
		e.Logf("not judged: %s: %s", kind, msg)
		return
	}
	e.Logf("VIOLATION %s: %s", kind, msg)
	if len(e.res.Violations) < 8 {
		e.res.Violations = append(e.res.Violations, Violation{kind, msg})
	}
}

// Violated reports whether anything was recorded.
func (e *Env) Violated() bool { return len(e.res.Violations) > 0 }

// Errorf ends the run as a harness error.
func (e *Env) Errorf(format string, a ...any) {
	e.res.Error = fmt.Sprintf(format, a...)
	e.Finish()
}

// For reports whether the run decides one of the properties (an empty
// property decides all).
func (e *Env) For(props ...string) bool {
	if e.Spec.Prop == "" {
		return true
	}
	for _, p := range props {
		if p == e.Spec.Prop {
			return true
		}
	}
	return false
}

// Within runs fn on its own goroutine and reports whether it returned within
// d of virtual time (plus the stalls injected meanwhile).
func (e *Env) Within(d time.Duration, fn func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		fn()
	}()
	return e.Await(d, done)
}

// Await waits for done for d of virtual time plus the stalls in progress and
// injected meanwhile.
func (e *Env) Await(d time.Duration, done <-chan struct{}) bool {
	base := runtime.SimStallNS()
	t := time.NewTimer(d + time.Duration(runtime.SimStallLeft()))
	defer t.Stop()
	for {
		select {
		case <-done:
			return true
		case <-t.C:
			s := runtime.SimStallNS()
			if s == base {
				select {
				case <-done:
					return true
				default:
					return false
				}
			}
			t.Reset(time.Duration(s - base))
			base = s
		}
	}
}

// Until polls cond every step until it holds or d of virtual time is over.
func (e *Env) Until(d, step time.Duration, cond func() bool) bool {
	deadline := time.Now().Add(d + time.Duration(runtime.SimStallLeft()))
	base := runtime.SimStallNS()
	for {
		if cond() {
			return true
		}
		if !time.Now().Before(deadline.Add(time.Duration(runtime.SimStallNS() - base))) {
			return false
		}
		time.Sleep(step)
	}
}

// Settle sleeps d plus the time goroutines were stalled meanwhile.
func (e *Env) Settle(d time.Duration) {
	d += time.Duration(runtime.SimStallLeft())
	for d > 0 {
		base := runtime.SimStallNS()
		time.Sleep(d)
		d = time.Duration(runtime.SimStallNS() - base)
	}
}

// Quiet ends the injection of stalls; what is stalled goes on in time.
func (e *Env) Quiet() {
	runtime.SimQuiet()
	e.Quiesced = true
}

// Group runs functions and waits for them.
type Group struct {
	n      int
	sealed bool
	closed bool
	done   chan struct{}
}

// NewGroup returns a group.
func NewGroup() *Group { return &Group{done: make(chan struct{})} }

// Go starts fn.
func (g *Group) Go(fn func()) {
	g.n++
	go func() {
		fn()
		g.n--
		g.check()
	}()
}

func (g *Group) check() {
	if g.sealed && g.n == 0 && !g.closed {
		g.closed = true
		close(g.done)
	}
}

// Done is closed when all have returned; call after the last Go.
func (g *Group) Done() <-chan struct{} {
	g.sealed = true
	g.check()
	return g.done
}

// Atomic runs harness code that calls code under test without letting the
// scheduler switch at injected points.
func Atomic(fn func()) {
	runtime.SimAtomic(1)
	fn()
	runtime.SimAtomic(-1)
}

// Over tells whether the result is being written.
func (e *Env) Over() bool { return e.done }

// Finish writes the result and ends the process.
func (e *Env) Finish() {
	if e.done {
		select {}
	}
	e.done = true
	s := runtime.SimSnapshot()
	r := &e.res
	r.SimNS = int64(e.Now())
	r.Steps, r.Decisions, r.Yields, r.Stalls, r.Switches, r.SchedHash = s.Steps, s.Decisions, s.Yields, s.Stalls, s.Switches, s.Hash
	if s.Stalls > 0 {
		if r.Faults == nil {
			r.Faults = map[string]int64{}
		}
		r.Faults["goroutine-stall"] += int64(s.Stalls)
	}
	if len(r.Violations) > 0 || e.Spec.Trace || r.Error != "" {
		r.Plan = e.Plan
		sc := *e.Spec.Sched
		if !s.RecOverflow {
			sc.Explicit = true
			sc.Yields, sc.YieldArgs, sc.Picks, sc.PickArgs = s.RecYields, s.RecYieldArgs, s.RecPicks, s.RecPickArgs
		}
		r.Sched = &sc
		r.Trace = e.trace
	}
	b, err := json.Marshal(r)
	if err != nil {
		b = []byte(fmt.Sprintf(`{"error":%q}`, err.Error()))
	}
	ResultOut.Write(b)
	ResultOut.Write([]byte("\n"))
	os.Exit(0)
}

// ResultOut is where the result goes.
var ResultOut io.Writer

type countHandler struct{ e *Env }

func (h countHandler) Enabled(context.Context, slog.Level) bool { return true }
func (h countHandler) Handle(_ context.Context, r slog.Record) error {
	h.e.slogN++
	h.e.Logf("slog %s", r.Message)
	return nil
}
func (h countHandler) WithAttrs([]slog.Attr) slog.Handler { return h }
func (h countHandler) WithGroup(string) slog.Handler      { return h }

// Main runs the spec on stdin.
func Main() {
	debug.SetGCPercent(-1)
	debug.SetMaxStack(48 << 20)
	out := os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	ResultOut = out
	in, err := io.ReadAll(os.Stdin)
	if err != nil {
		fmt.Fprintln(os.Stderr, "worker:", err)
		os.Exit(3)
	}
	var sp Spec
	if err := json.Unmarshal(in, &sp); err != nil {
		fmt.Fprintln(os.Stderr, "worker: bad spec:", err)
		os.Exit(3)
	}
	sc := Scenarios[sp.Scenario]
	if sc == nil {
		names := make([]string, 0)
		for n := range Scenarios {
			names = append(names, n)
		}
		sort.Strings(names)
		fmt.Fprintf(os.Stderr, "worker: unknown scenario %q (have %s)\n", sp.Scenario, strings.Join(names, " "))
		os.Exit(3)
	}
	r := NewRNG(sp.Seed)
	plan := sp.Plan
	gen := sc.Gen(r, &sp)
	if plan == nil {
		plan = gen
	}
	if sp.Sched == nil {
		sr := NewRNG(sp.Seed ^ 0x5c4ed)
		s := &Sched{Strategy: sr.N(3)}
		s.YieldGap = Pick(sr, uint64(0), 3, 8, 20, 60, 200)
		if sc.LightSched {
			s.YieldGap = Pick(sr, uint64(0), 50, 200, 1000)
		}
		if sc.Stalls && sr.P(40) {
			s.StallGap = Pick(sr, uint64(40), 150, 600, 3000)
			max := sc.MaxStall
			if max == 0 {
				max = 2 * time.Second
			}
			s.StallMax = int64(max)
		}
		sp.Sched = s
	}
	if sp.PlanOnly {
		b, _ := json.Marshal(Result{Plan: plan, Sched: sp.Sched})
		out.Write(append(b, '\n'))
		os.Exit(0)
	}
	e := &Env{Spec: &sp, Plan: plan, R: NewRNG(sp.Seed ^ 0xfa07)}
	theEnv = e
	slog.SetDefault(slog.New(countHandler{e}))
	cfg := &runtime.SimConfig{
		Seed: sp.Seed, Strategy: sp.Sched.Strategy,
		YieldGap: sp.Sched.YieldGap, StallGap: sp.Sched.StallGap, StallMax: sp.Sched.StallMax,
		MaxSpin:  3_000_000,
		Explicit: sp.Sched.Explicit,
		Yields:   sp.Sched.Yields, YieldArgs: sp.Sched.YieldArgs, Picks: sp.Sched.Picks, PickArgs: sp.Sched.PickArgs,
		OnSpin: func() {
			e.Violate("livelock", "code under test spins without time advancing:\n%s", firstFrames(string(debug.Stack())))
			e.Finish()
		},
	}
	runtime.SimStart(cfg)
	runtime.SimRun(func() {
		e.Start = time.Now()
		sc.Run(e)
		e.Finish()
	})
}

func firstFrames(stack string) string {
	lines := strings.Split(stack, "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}
