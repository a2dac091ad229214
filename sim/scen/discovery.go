package scen

import (
	"context"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/c-kruse/vanflow/eventsource"

	"vsim/sim"
)

// Discovery: beacons, Add, Forget, Get, List and NewWatchClient race from
// several goroutines and from callbacks, with Run started, cancelled and
// started again.

func genDiscovery(r *sim.RNG, spec *sim.Spec) *sim.Plan {
	p := &sim.Plan{Params: map[string]int64{}}
	p.Params["ids"] = int64(r.In(1, 3))
	if r.P(15) {
		p.Params["ids"] = 60
	}
	if r.P(50) {
		p.Params["acceptErr"] = int64(r.N(30))
		p.Params["dup"] = int64(r.N(30))
		if r.P(40) {
			p.Params["delay"] = int64(r.Dur(2 * time.Second))
			p.Params["reorder"] = int64(r.N(2))
		}
	}
	if r.P(40) {
		p.Params["cost"] = int64(r.Dur(time.Second))
	}
	scale := sim.Pick(r, 10*time.Microsecond, time.Millisecond, 300*time.Millisecond)
	at := func() int64 {
		if r.P(50) {
			return 0
		}
		return int64(r.Dur(scale))
	}
	ver := int64(0)
	id := func() int64 { return int64(r.N(int(p.Params["ids"]))) }
	mk := func(c int, kinds ...string) sim.Op {
		ver++
		return sim.Op{C: c, K: kinds[r.N(len(kinds))], At: at(), A: id(), B: ver}
	}
	// runs: C=0 "run" lasting B then again after At
	// runs: up to three, each B long
	p.Ops = append(p.Ops, sim.Op{C: 0, K: "run", At: at(), B: int64(r.Dur(4 * scale))})
	for i := 0; i < r.N(3); i++ {
		p.Ops = append(p.Ops, sim.Op{C: 0, K: sim.Pick(r, "run", "run", "fail"), At: at(), B: int64(r.Dur(4 * scale))})
	}
	for i := 0; i < r.N(12); i++ {
		p.Ops = append(p.Ops, mk(1, "beacon", "beacon", "beacon", "other", "pulse"))
	}
	for c := 2; c <= r.In(2, 4); c++ {
		burst := r.P(12)
		n := r.In(1, 10)
		if burst {
			n = 90
		}
		for i := 0; i < n; i++ {
			op := mk(c, "add", "add", "add", "forget", "forget", "get", "list", "watch", "trap")
			if burst {
				op.At = 0
				if op.K == "watch" || op.K == "trap" {
					op.K = "add"
				}
			}
			p.Ops = append(p.Ops, op)
		}
	}
	// what callbacks do, in order of the callbacks
	for i := 0; i < r.N(8); i++ {
		op := mk(9, "add", "forget", "get", "list", "watch", "nothing", "nothing")
		if r.P(30) {
			op.K, op.A = "burst", int64(r.In(30, 50))
		}
		p.Ops = append(p.Ops, op)
	}
	return p
}

type discEvent struct {
	kind string // D or F
	info eventsource.Info
	tick int
	run  int
}

type discCall struct {
	kind      string
	id        string
	ver       int
	call, ret int
	ok        bool
}

type discRun struct {
	e          *sim.Env
	b          *bus
	d          *eventsource.Discovery
	tick       int
	calls      []*discCall
	open       map[*discCall]bool
	events     []discEvent
	announced  map[string]eventsource.Info
	cbOps      []sim.Op
	active     int // current run, 0 when none
	inCallback int
	busy       map[string]int // callbacks in progress by source
	runs       []*discRunSpan
	clients    int
	ver        int
	watchCtx   context.Context
	cancels    []context.CancelFunc // of runs that failed
}

type discRunSpan struct {
	cancelled, returned int
}

func (r *discRun) now() int { r.tick++; return r.tick }

func discInfo(id string, ver int) eventsource.Info {
	return eventsource.Info{ID: id, Version: ver, Type: fmt.Sprint("T", ver), Address: fmt.Sprintf("mc/%s.%d", id, ver), Direct: fmt.Sprintf("%s.%d", id, ver)}
}

func infoKey(i eventsource.Info) string {
	return fmt.Sprintf("%s v%d %s %s %s", i.ID, i.Version, i.Type, i.Address, i.Direct)
}

func runDiscovery(e *sim.Env) {
	p := e.Plan
	b := newBus(e)
	b.f = busFaults{acceptErr: int(p.P("acceptErr")), dup: int(p.P("dup")), delay: time.Duration(p.P("delay")), reorder: p.P("reorder") == 1}
	r := &discRun{e: e, b: b, open: map[*discCall]bool{}, busy: map[string]int{}, announced: map[string]eventsource.Info{}, cbOps: p.Of(9), ver: 10000}
	live := runtime.SimLive()
	watchCtx, watchCancel := context.WithCancel(context.Background())
	r.watchCtx = watchCtx
	sim.Atomic(func() {
		r.d = eventsource.NewDiscovery(b.container("disc"), eventsource.DiscoveryOptions{BeaconAddress: "mc/beacons"})
	})
	callers, runner := sim.NewGroup(), sim.NewGroup()
	for c := 1; c <= 4; c++ {
		ops := p.Of(c)
		if len(ops) == 0 {
			continue
		}
		callers.Go(func() {
			for _, op := range ops {
				time.Sleep(time.Duration(op.At))
				r.do(op)
			}
		})
	}
	for _, op := range p.Of(9) {
		if op.K == "add" {
			r.announced[fmt.Sprintf("%d", op.B)] = eventsource.Info{}
		}
	}
	runner.Go(func() {
		for _, op := range p.Of(0) {
			time.Sleep(time.Duration(op.At))
			r.runFor(time.Duration(op.B), op.K == "fail")
			if e.Violated() {
				return
			}
		}
	})
	bound := 30*time.Second + 40*time.Duration(p.P("cost"))
	if !e.Await(10*time.Minute, runner.Done()) {
		e.Violate("run-hangs", "Run and its cancellation did not finish")
		return
	}
	if e.Violated() {
		return
	}
	b.quiet()
	e.Quiet()
	// the calls still going on must end with nobody running discovery
	if !e.Await(bound, callers.Done()) {
		r.hung("while discovery is not running")
		return
	}
	// run once more until nothing changes
	e.Settle(3 * time.Second)
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan struct{})
	span := &discRunSpan{}
	r.runs = append(r.runs, span)
	go func() {
		r.d.Run(ctx, r.handlers(len(r.runs)))
		close(done)
	}()
	n := -1
	early := func() bool {
		select {
		case <-done:
			if e.For("E05") {
				e.Violate("run-ends-early", "Run returned before its context was cancelled and although its receiver worked")
			}
			return true
		default:
			return false
		}
	}
	if !e.Until(time.Hour, 2*time.Second+2*time.Duration(p.P("cost")), func() bool {
		same := n == len(r.events) && r.inCallback == 0
		n = len(r.events)
		return same
	}) {
		e.Violate("callbacks-never-end", "callbacks do not come to an end")
		return
	}
	if len(r.open) > 0 {
		r.hung("after everything else came to rest")
		return
	}
	r.cbOps = nil
	// every source that announces itself now is known in the end
	for i := 0; i < int(p.P("ids")); i++ {
		r.ver++
		r.beacon(fmt.Sprint("id", i), r.ver)
	}
	e.Settle(5*time.Second + 61*time.Duration(p.P("cost")))
	if e.For("E04") {
		r.check()
	}
	if early() {
		return
	}
	cancel()
	if !e.Await(5*time.Second+time.Duration(p.P("cost")), done) {
		if e.For("E05") {
			e.Violate("run-does-not-return", "Run did not return after its context was cancelled")
		}
		return
	}
	watchCancel()
	e.Settle(20*time.Second + 2*time.Duration(p.P("cost")))
	if e.For("E05") {
		if n := runtime.SimLive(); n > live {
			e.Violate("goroutines-left", "%d goroutines are left after Run returned and all watches were cancelled", n-live)
		}
		if open := b.openBy("disc"); len(open) > 0 {
			e.Violate("link-left-open", "discovery left open %v", open)
		}
		if len(r.runs) > 1 && len(r.events) > 0 {
			e.NonTrivial()
		}
	}
}

func (r *discRun) hung(when string) {
	if !r.e.For("E05") {
		return
	}
	var s []string
	for c := range r.open {
		s = append(s, c.kind+" "+c.id)
	}
	sort.Strings(s)
	r.e.Violate("call-blocks", "calls %v are blocked %s", s, when)
}

// runFor runs discovery until it is cancelled, or until its receiver fails.
func (r *discRun) runFor(d time.Duration, fail bool) {
	e := r.e
	ctx, cancel := context.WithCancel(context.Background())
	if !fail {
		defer cancel()
	}
	span := &discRunSpan{}
	r.runs = append(r.runs, span)
	done := make(chan struct{})
	n := len(r.runs)
	e.Logf("run %d", n)
	go func() {
		r.d.Run(ctx, r.handlers(n))
		span.returned = r.now()
		e.Logf("run %d returned", n)
		close(done)
	}()
	if e.Await(d, done) {
		if e.For("E05") {
			e.Violate("run-ends-early", "Run returned before its context was cancelled and although its receiver worked")
		}
		return
	}
	span.cancelled = r.now()
	if fail {
		e.Fault("beacon-receiver-fails")
		// its receiver may only be opened later
		failAll := func(rc *busReceiver) {
			if rc.addr == "mc/beacons" && !rc.closed {
				rc.fail()
			}
		}
		for _, rc := range r.b.recvs {
			failAll(rc)
		}
		r.b.onOpen = failAll
		defer func() { r.b.onOpen = nil }()
		r.cancels = append(r.cancels, cancel)
	} else {
		e.Fault("discovery-cancelled")
		cancel()
	}
	// a callback that is in progress may have to end first
	if !e.Await(5*time.Second+time.Duration(e.Plan.P("cost")), done) {
		if e.For("E05") {
			e.Violate("run-does-not-return", "Run did not return after its context was cancelled")
		} else {
			e.Finish()
		}
	}
}

func (r *discRun) handlers(run int) eventsource.DiscoveryHandlers {
	cb := func(kind string) func(eventsource.Info) {
		return func(i eventsource.Info) {
			r.inCallback++
			if r.busy[i.ID]++; r.busy[i.ID] > 1 && r.e.For("E04") {
				r.e.Violate("callbacks-overlap", "a callback for %s was called while an earlier one for it had not returned", i.ID)
			}
			t := r.now()
			r.events = append(r.events, discEvent{kind, i, t, run})
			r.e.Logf("callback %s %s v%d", kind, i.ID, i.Version)
			if r.e.For("E05") {
				r.late(kind, i, run)
			}
			if c := time.Duration(r.e.Plan.P("cost")); c > 0 {
				time.Sleep(c)
			}
			if len(r.cbOps) > 0 {
				op := r.cbOps[0]
				r.cbOps = r.cbOps[1:]
				r.do(op)
			}
			r.inCallback--
			r.busy[i.ID]--
		}
	}
	return eventsource.DiscoveryHandlers{Discovered: cb("D"), Forgotten: cb("F")}
}

// late: a callback of a run must not be for something that happened after
// that run returned.
func (r *discRun) late(kind string, i eventsource.Info, run int) {
	s := r.runs[run-1]
	if s.returned == 0 {
		return
	}
	if kind == "D" {
		for _, c := range r.calls {
			if c.kind == "add" && c.ver == i.Version && c.call > s.returned {
				r.e.Violate("callback-after-run", "the handler of a run that had returned was called for a source added afterwards")
			}
		}
		return
	}
	n := 0
	for _, ev := range r.events {
		if ev.kind == "F" && ev.info.ID == i.ID {
			n++
		}
	}
	for _, c := range r.calls {
		if c.kind == "forget" && c.id == i.ID && (c.ok || r.open[c]) && c.call < s.returned {
			n--
		}
	}
	if n > 0 {
		r.e.Violate("callback-after-run", "the handler of a run that had returned was called for a source forgotten afterwards")
	}
}

func (r *discRun) beacon(id string, ver int) {
	i := discInfo(id, ver)
	r.announced[infoKey(i)] = i
	m := amqpBeacon(i.ID, i.Type, i.Address, i.Direct, uint32(ver))
	r.b.inject("source", "mc/beacons", m)
}

// pulse makes every watched source beat.
func (r *discRun) pulse() {
	seen := map[string]bool{}
	for _, rc := range r.b.recvs {
		if !rc.closed && strings.HasPrefix(rc.owner, "client") && !seen[rc.addr] {
			seen[rc.addr] = true
			r.b.inject("source", rc.addr, amqpHeartbeat(rc.addr, "x", 1, 1))
		}
	}
}

func (r *discRun) do(op sim.Op) {
	e := r.e
	id := fmt.Sprint("id", op.A)
	c := &discCall{kind: op.K, id: id, ver: int(op.B)}
	switch op.K {
	case "beacon":
		r.beacon(id, int(op.B))
		return
	case "other":
		e.Fault("malformed-message")
		m := amqpFlush("mc/beacons")
		r.b.inject("source", "mc/beacons", m)
		return
	case "nothing":
		return
	case "pulse":
		r.pulse()
		return
	case "trap":
		// the source is forgotten when its watch is to report activity
		r.do(sim.Op{K: "add", A: op.A, B: op.B})
		r.do(sim.Op{K: "watch", A: op.A, B: op.B})
		r.pulse()
		time.Sleep(time.Millisecond)
		r.do(sim.Op{K: "forget", A: op.A})
		return
	case "burst":
		e.Probe("callback-burst")
		for i := int64(0); i < op.A; i++ {
			r.ver++
			r.do(sim.Op{K: "add", A: 0, B: int64(r.ver)})
			r.do(sim.Op{K: "forget", A: 0})
		}
		return
	}
	r.calls = append(r.calls, c)
	r.open[c] = true
	c.call = r.now()
	e.Logf("%s %s v%d", op.K, id, op.B)
	switch op.K {
	case "add":
		i := discInfo(id, int(op.B))
		r.announced[infoKey(i)] = i
		c.ok = r.d.Add(i)
	case "forget":
		c.ok = r.d.Forget(id)
	case "get":
		i, ok := r.d.Get(id)
		if ok && e.For("E04") {
			i.LastSeen = time.Time{}
			if _, known := r.announced[infoKey(i)]; !known || i.ID != id {
				e.Violate("data-unknown", "Get(%s) returned %s, which nobody announced", id, infoKey(i))
			}
		}
	case "list":
		seen := map[string]bool{}
		for _, i := range r.d.List() {
			if seen[i.ID] && e.For("E04") {
				e.Violate("listed-twice", "List returned %s twice", i.ID)
			}
			seen[i.ID] = true
		}
	case "watch":
		r.clients++
		name := fmt.Sprint("client", r.clients)
		info := discInfo(id, int(op.B))
		cl := eventsource.NewClient(r.b.container(name), eventsource.ClientOptions{Source: info})
		ctx, cancel := context.WithTimeout(r.watchCtx, 3*time.Second)
		time.AfterFunc(time.Hour, cancel)
		r.d.NewWatchClient(ctx, eventsource.WatchConfig{Client: cl, ID: id, DiscoveryUpdateInterval: time.Millisecond})
		cl.Listen(ctx, eventsource.FromSourceAddress())
	}
	c.ret = r.now()
	delete(r.open, c)
	e.Logf("%s %s v%d: %v", op.K, id, op.B, c.ok)
}

func (r *discRun) check() {
	e := r.e
	last := map[string]*discEvent{}
	count := map[string]int{}
	var forgets = map[string]int{}
	for i := range r.events {
		ev := &r.events[i]
		id := ev.info.ID
		prev := last[id]
		switch {
		case ev.kind == "D" && prev != nil && prev.kind == "D":
			e.Violate("discovered-twice", "%s was discovered (v%d) while it was already discovered (v%d)", id, ev.info.Version, prev.info.Version)
		case ev.kind == "F" && (prev == nil || prev.kind == "F"):
			e.Violate("forgotten-undiscovered", "%s was reported forgotten while it was not discovered", id)
		case ev.kind == "F" && infoKey(prev.info) != infoKey(ev.info):
			e.Violate("forgotten-data", "%s was discovered as %q but forgotten as %q", id, infoKey(prev.info), infoKey(ev.info))
		}
		if ev.kind == "D" {
			if _, ok := r.announced[infoKey(ev.info)]; !ok {
				e.Violate("data-unknown", "%s was discovered with data nobody announced: %s", id, infoKey(ev.info))
			}
			count[fmt.Sprintf("%s v%d", id, ev.info.Version)]++
		} else {
			forgets[id]++
		}
		last[id] = ev
	}
	if e.Violated() {
		return
	}
	// Every successful Add is discovered once, in order; every forget too.
	wantF := map[string]int{}
	adds := map[string][]*discCall{}
	for _, c := range r.calls {
		switch {
		case c.kind == "add" && c.ok:
			adds[c.id] = append(adds[c.id], c)
			if n := count[fmt.Sprintf("%s v%d", c.id, c.ver)]; n != 1 {
				e.Violate("add-not-discovered", "Add of %s v%d took effect and was discovered %d times", c.id, c.ver, n)
			}
		case c.kind == "add":
			if n := count[fmt.Sprintf("%s v%d", c.id, c.ver)]; n != 0 {
				e.Violate("refused-add-discovered", "Add of %s v%d had no effect and was discovered", c.id, c.ver)
			}
		case c.kind == "forget" && c.ok:
			wantF[c.id]++
		}
	}
	for id, n := range wantF {
		if forgets[id] != n {
			e.Violate("forget-count", "%s was forgotten %d times by calls, Forgotten was called %d times", id, n, forgets[id])
		}
	}
	for id, n := range forgets {
		if wantF[id] != n {
			e.Violate("forget-count", "%s was forgotten %d times by calls, Forgotten was called %d times", id, wantF[id], n)
		}
	}
	pos := map[string]int{}
	for i, ev := range r.events {
		if ev.kind == "D" {
			pos[fmt.Sprintf("%s v%d", ev.info.ID, ev.info.Version)] = i
		}
	}
	for id, cs := range adds {
		for _, a := range cs {
			for _, b := range cs {
				if a.ret < b.call && pos[fmt.Sprintf("%s v%d", id, a.ver)] > pos[fmt.Sprintf("%s v%d", id, b.ver)] {
					e.Violate("discovered-out-of-order", "%s: Add v%d preceded Add v%d but was discovered after it", id, a.ver, b.ver)
				}
			}
		}
	}
	var listed, reported []string
	sim.Atomic(func() {
		for _, i := range r.d.List() {
			listed = append(listed, infoKey(i))
			if g, ok := r.d.Get(i.ID); !ok || infoKey(g) != infoKey(i) {
				e.Violate("get-list-differ", "List has %s, Get %v %s", infoKey(i), ok, infoKey(g))
			}
		}
	})
	for _, ev := range last {
		if ev.kind == "D" {
			reported = append(reported, infoKey(ev.info))
		}
	}
	sort.Strings(listed)
	sort.Strings(reported)
	if strings.Join(listed, ",") != strings.Join(reported, ",") {
		e.Violate("state-differs", "listed are %v, last reported discovered are %v", listed, reported)
	}
	for i := 0; i < int(e.Plan.P("ids")); i++ {
		if ev := last[fmt.Sprint("id", i)]; ev == nil || ev.kind != "D" {
			e.Violate("beacon-not-discovered", "id%d sent a beacon while discovery was running but is not discovered", i)
		}
	}
	if len(r.events) > 3 {
		e.NonTrivial()
	}
}

func init() {
	sim.Scenarios["discovery"] = &sim.Scenario{Gen: genDiscovery, Run: runDiscovery, Stalls: true, MaxStall: time.Second}
}
