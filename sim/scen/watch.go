package scen

import (
	"context"
	"fmt"
	"strings"
	"time"

	"runtime"

	"github.com/c-kruse/vanflow/eventsource"

	"vsim/sim"
)

// Watch: sources announce themselves, are watched by a client as the tool
// does it, are active for a while, fall silent and come back.

func genWatch(r *sim.RNG, spec *sim.Spec) *sim.Plan {
	p := &sim.Plan{Params: map[string]int64{}}
	n := r.In(1, 3)
	T := int64(sim.Pick(r, 300*time.Millisecond, time.Second, 2*time.Second, 30*time.Second))
	p.Params["timeout"] = T
	if r.P(10) {
		p.Params["timeout"] = 0
	}
	p.Params["grace"] = int64(sim.Pick(r, 0, 0, time.Second, 10*time.Second))
	p.Params["update"] = int64(sim.Pick(r, 0, 50*time.Millisecond, 700*time.Millisecond, 5*time.Second))
	if r.P(40) {
		p.Params["acceptErr"] = int64(r.N(20))
		p.Params["nextErr"] = int64(r.N(20))
		p.Params["dup"] = int64(r.N(20))
		if r.P(50) {
			p.Params["delay"] = int64(r.Dur(time.Second))
		}
	}
	for s := 1; s <= n; s++ {
		p.Ops = append(p.Ops, sim.Op{C: s, K: "beacon", At: int64(r.Dur(time.Second))})
		for ph := 0; ph < r.In(1, 4); ph++ {
			// a phase of activity with gaps around the timeout, then silence
			for i := 0; i < r.N(14); i++ {
				var gap int64
				switch r.N(4) {
				case 0:
					gap = int64(r.Dur(time.Duration(T)))
				case 1:
					gap = T - int64(r.Dur(time.Duration(T/4+1)))
				case 2:
					gap = T * int64(r.In(30, 95)) / 100
				default:
					gap = T/2 + int64(r.Dur(time.Duration(T)))
				}
				k := sim.Pick(r, "hb", "hb", "rec", "log", "beacon", "junk")
				p.Ops = append(p.Ops, sim.Op{C: s, K: k, At: gap})
			}
			p.Ops = append(p.Ops, sim.Op{C: s, K: sim.Pick(r, "beacon", "hb", "rec"), At: int64(r.N(4)) * T})
		}
		if r.P(25) {
			p.Ops = append(p.Ops, sim.Op{C: 10 + s, K: "cancel", At: int64(r.Dur(time.Duration(6 * T))), A: int64(s)})
		}
		if r.P(20) {
			p.Ops = append(p.Ops, sim.Op{C: 10 + s, K: "forget", At: int64(r.Dur(time.Duration(6 * T))), A: int64(s)})
		}
		if r.P(20) {
			p.Ops = append(p.Ops, sim.Op{C: 10 + s, K: "close", At: int64(r.Dur(time.Duration(6 * T))), A: int64(s)})
		}
	}
	return p
}

// life is one discovery of a source and its watch.
type life struct {
	id        string
	n         int
	name      string
	client    *eventsource.Client
	cancel    context.CancelFunc
	start     time.Duration   // before NewWatchClient was called
	listening time.Duration   // after Listen returned
	act       []time.Duration // handled activity
	maybe     []time.Duration // activity whose acceptance failed
	forgotten time.Duration
	cancelled time.Duration
	endListen context.CancelFunc
	over      bool
	lastSeen  time.Time
	found     time.Duration // LastSeen when discovered
}

type watchRun struct {
	e       *sim.Env
	b       *bus
	d       *eventsource.Discovery
	lives   []*life
	current map[string]*life
	T, G, U time.Duration
	beacons map[string][]time.Duration
	goneFor map[string]bool          // Forget has returned
	gone    map[string]time.Duration // when the user forgot the source for good
}

func runWatch(e *sim.Env) {
	p := e.Plan
	b := newBus(e)
	b.f = busFaults{acceptErr: int(p.P("acceptErr")), nextErr: int(p.P("nextErr")), dup: int(p.P("dup")), delay: time.Duration(p.P("delay"))}
	w := &watchRun{e: e, b: b, current: map[string]*life{}, beacons: map[string][]time.Duration{}, gone: map[string]time.Duration{}, goneFor: map[string]bool{},
		T: time.Duration(p.P("timeout")), G: time.Duration(p.P("grace")), U: time.Duration(p.P("update"))}
	if w.U == 0 {
		w.U = time.Second
	}
	sim.Atomic(func() {
		w.d = eventsource.NewDiscovery(b.container("disc"), eventsource.DiscoveryOptions{BeaconAddress: "mc/beacons"})
	})
	b.onTake = func(rc *busReceiver) {
		if rc.addr == "mc/beacons" {
			if id, ok := readWire(rc.seq[len(rc.seq)-1].raw).props["id"].(string); ok {
				w.beacons[id] = append(w.beacons[id], e.Now())
			}
		}
	}
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan struct{})
	go func() {
		w.d.Run(ctx, eventsource.DiscoveryHandlers{Discovered: w.discovered, Forgotten: w.forgotten})
		close(done)
	}()
	g := sim.NewGroup()
	for s := 1; s <= 13; s++ {
		ops := p.Of(s)
		if len(ops) == 0 {
			continue
		}
		id := fmt.Sprint("w", s)
		g.Go(func() {
			for i, op := range ops {
				time.Sleep(time.Duration(op.At))
				w.emit(id, op, i)
			}
		})
	}
	stop := false
	go func() {
		for !stop {
			w.sample()
			time.Sleep(time.Duration(10+e.R.N(90)) * time.Millisecond)
		}
	}()
	if !e.Await(time.Hour, g.Done()) {
		e.Violate("call-hangs", "a call did not return")
		return
	}
	b.quiet()
	e.Quiet()
	e.Settle(4*w.T + w.G + 2*w.U + 10*time.Second)
	for _, l := range w.lives {
		if open := w.receivers(l); l.forgotten > 0 && w.gone[l.id] == 0 && len(open) > 0 {
			e.Violate("client-left-open", "the client of %s has still open %v after the source was forgotten", l.id, open)
		}
	}
	w.allUnknown()
	stop = true
	cancel()
	for _, l := range w.lives {
		if l.cancelled == 0 {
			l.cancelled = e.Now()
		}
		l.cancel()
	}
	if !e.Await(10*time.Second, done) {
		e.Finish()
	}
	e.Settle(10 * time.Second)
	for _, l := range w.lives {
		if open := w.receivers(l); len(open) > 0 {
			e.Violate("client-left-open", "the client of %s has still open %v after its watch ended", l.id, open)
		}
	}
	if len(w.lives) > 0 {
		for _, l := range w.lives {
			if l.forgotten > 0 && len(l.act) > 2 {
				e.NonTrivial()
			}
		}
	}
}

// receivers lists the receivers the client of a life has still open.
func (w *watchRun) receivers(l *life) (open []string) {
	for _, o := range w.b.openBy(l.name) {
		if strings.HasPrefix(o, "receiver") {
			open = append(open, o)
		}
	}
	return
}

func (w *watchRun) allUnknown() {
	for s := 1; s <= 3; s++ {
		if id := fmt.Sprint("w", s); w.goneFor[id] {
			w.unknown(id, w.gone[id])
		}
	}
}

// unknown: a source the user forgot at t and that did not announce itself
// since is not known.
func (w *watchRun) unknown(id string, t time.Duration) {
	for _, b := range w.beacons[id] {
		if b > t-w.stalls(nil) {
			return
		}
	}
	var ok bool
	var list []eventsource.Info
	sim.Atomic(func() { _, ok = w.d.Get(id); list = w.d.List() })
	for _, i := range list {
		ok = ok || i.ID == id
	}
	if ok {
		w.e.Violate("known-again", "%s is known although it was forgotten at %v and has not announced itself since", id, t)
	}
}

func (w *watchRun) emit(id string, op sim.Op, i int) {
	addr := "mc/" + id
	switch op.K {
	case "beacon":
		if w.gone[id] > 0 {
			return
		}
		w.b.inject("source", "mc/beacons", amqpBeacon(id, "X", addr, id, 1))
	case "hb":
		w.b.inject("source", addr, amqpHeartbeat(addr, id, 1, uint64(i)))
	case "rec":
		w.b.inject("source", addr, amqpRecords(addr, attrs{0: "0", 1: "site"}))
	case "log":
		w.b.inject("source", addr+".logs", amqpRecords(addr, attrs{0: "0", 1: "site"}))
	case "junk":
		w.e.Fault("malformed-message")
		w.b.inject("source", addr, junk(int64(i), addr))
	case "forget":
		// The source goes on sending but does not announce itself any more.
		id := fmt.Sprint("w", op.A)
		w.gone[id] = w.e.Now()
		if l := w.current[id]; l != nil {
			l.cancelled = w.e.Now()
		}
		w.e.Logf("user forgets %s", id)
		w.d.Forget(id)
		w.goneFor[id] = true
	case "cancel", "close":
		l := w.current[fmt.Sprint("w", op.A)]
		if l == nil || l.listening == 0 {
			return
		}
		w.e.Logf("%s life %d", op.K, l.n)
		if l.cancelled == 0 {
			l.cancelled = w.e.Now()
		}
		if op.K == "cancel" {
			l.cancel()
		} else {
			// A closed client sees no more activity.
			l.client.Close()
		}
	}
}

func (w *watchRun) discovered(i eventsource.Info) {
	e := w.e
	ctx, cancel := context.WithCancel(context.Background())
	l := &life{id: i.ID, n: len(w.lives), name: fmt.Sprint("client", len(w.lives)), cancel: cancel, start: e.Now(), found: i.LastSeen.Sub(e.Start)}
	e.Logf("life %d of %s", l.n, l.id)
	if w.gone[l.id] > 0 {
		// the watch of the life before may go on until that source is silent
		l.cancelled = e.Now()
	}
	w.lives = append(w.lives, l)
	w.current[l.id] = l
	l.client = eventsource.NewClient(w.b.container(l.name), eventsource.ClientOptions{Source: i})
	err := w.d.NewWatchClient(ctx, eventsource.WatchConfig{Client: l.client, ID: l.id, Timeout: w.T, GracePeriod: w.G, DiscoveryUpdateInterval: w.U * time.Duration(min(1, w.e.Plan.P("update")))})
	if err != nil {
		// may have been forgotten meanwhile: not by its own watch
		if w.gone[l.id] == 0 {
			e.Violate("watch-failed", "NewWatchClient failed for a source just discovered: %v", err)
		}
		l.client.Close()
		return
	}
	lctx, lcancel := context.WithCancel(context.Background())
	l.endListen = lcancel
	l.client.Listen(lctx, eventsource.FromSourceAddress())
	l.client.Listen(lctx, eventsource.FromSourceAddressLogs())
	l.listening = e.Now()
}

func (w *watchRun) activity(l *life) {
	l.act, l.maybe = nil, nil
	for _, rc := range w.b.recvs {
		if rc.owner != l.name {
			continue
		}
		for _, y := range rc.seq {
			if k := wireKind(readWire(y.raw)); k != "hb" && k != "rec" {
				continue
			}
			if y.accepted {
				l.act = append(l.act, y.at)
			} else {
				l.maybe = append(l.maybe, y.at)
			}
		}
	}
}

func (w *watchRun) stalls(l *life) time.Duration {
	return time.Duration(runtime.SimStallNS()) + 20*time.Millisecond
}

func (w *watchRun) forgotten(i eventsource.Info) {
	e := w.e
	l := w.current[i.ID]
	if l == nil || l.forgotten > 0 {
		e.Violate("forgotten-twice", "%s was forgotten again", i.ID)
		return
	}
	l.forgotten = e.Now()
	e.Logf("forgotten life %d", l.n)
	w.activity(l)
	tol := w.stalls(l)
	f := l.forgotten
	if w.T == 0 && w.gone[l.id] == 0 {
		e.Violate("forgotten-without-timeout", "%s was forgotten although its watch has no timeout", l.id)
	}
	if l.cancelled > 0 {
		// closing the client or cancelling the watch ends the guarantee
		return
	}
	last := time.Duration(-1)
	for _, a := range l.act {
		if a > last && a < f-tol {
			last = a
		}
	}
	switch {
	case last < 0 && f < l.start+w.G+w.T-tol && len(l.maybe) == 0 && len(l.act) == 0:
		e.Violate("forgotten-in-grace", "%s was forgotten %v after its watch began, grace period %v and timeout %v", l.id, f-l.start, w.G, w.T)
	case last >= 0 && f < last+w.T-tol:
		e.Violate("forgotten-early", "%s was forgotten %v after its last activity, timeout %v", l.id, f-last, w.T)
	}
}

// sample looks at what discovery says about the watched sources.
func (w *watchRun) sample() {
	e := w.e
	w.allUnknown()
	for _, l := range w.lives {
		if l.over || l.listening == 0 || l != w.current[l.id] || w.gone[l.id] > 0 {
			continue
		}
		var info eventsource.Info
		var ok bool
		sim.Atomic(func() { info, ok = w.d.Get(l.id) })
		now := e.Now()
		w.activity(l)
		tol := w.stalls(l)
		if l.forgotten > 0 {
			l.over = true
			continue
		}
		if !ok {
			continue // the callback is on its way
		}
		seen := info.LastSeen.Sub(e.Start)
		if info.LastSeen.Before(l.lastSeen) {
			e.Violate("last-seen-back", "LastSeen of %s went back from %v to %v", l.id, l.lastSeen.Sub(e.Start), seen)
		}
		l.lastSeen = info.LastSeen
		latest, due := l.found, time.Duration(-1)
		for _, list := range [][]time.Duration{l.act, l.maybe, w.beacons[l.id]} {
			for _, a := range list {
				if a > latest {
					latest = a
				}
			}
		}
		last := l.start + w.G
		for _, a := range l.act {
			if a > due && a < now-w.U-tol {
				due = a
			}
			if a > last {
				last = a
			}
		}
		for _, a := range l.maybe {
			if a > last {
				last = a
			}
		}
		if seen > latest+tol {
			e.Violate("last-seen-ahead", "LastSeen of %s is %v, its latest activity was at %v", l.id, seen, latest)
		}
		if l.cancelled > 0 {
			continue
		}
		if due > 0 && seen < due-tol {
			e.Violate("last-seen-behind", "at %v LastSeen of %s is %v although it was active at %v, update interval %v", now, l.id, seen, due, w.U)
		}
		if w.T > 0 && now > last+2*w.T+w.U+time.Second+tol {
			e.Violate("not-forgotten", "at %v %s is still known, last activity at %v (grace period included), timeout %v", now, l.id, last, w.T)
		}
	}
}

func init() {
	sim.Scenarios["watch"] = &sim.Scenario{Gen: genWatch, Run: runWatch, Stalls: true, MaxStall: time.Second}
}
