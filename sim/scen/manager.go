package scen

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/eventsource"
	"github.com/c-kruse/vanflow/store"

	"vsim/sim"
)

// Manager: publishers publish record updates, stores change, flushes are
// requested, destinations refuse or hold messages, and the manager is
// cancelled at some point.

func genManager(r *sim.RNG, spec *sim.Spec) *sim.Plan {
	p := &sim.Plan{Params: map[string]int64{}}
	q := func(name string, v ...int64) { p.Params[name] = v[r.N(len(v))] }
	q("batch", 0, 1, 2, 3, 5)
	q("buffer", 0, int64(20*time.Millisecond), int64(400*time.Millisecond))
	q("hb", int64(300*time.Millisecond), int64(time.Second), 0)
	q("beacon", int64(500*time.Millisecond), int64(700*time.Millisecond), int64(3*time.Second), 0)
	q("alt", 0, 1)
	q("flushdelay", 0, 0, int64(50*time.Millisecond), int64(time.Second))
	q("flushbatch", 1, 2, 3, 7, 0)
	q("stores", 1, 1, 2, 3)
	scale := sim.Pick(r, 20*time.Microsecond, 5*time.Millisecond, 500*time.Millisecond)
	at := func() int64 {
		if r.P(50) {
			return 0
		}
		return int64(r.Dur(scale))
	}
	faults := r.P(60)
	if spec.Prop == "M03" || spec.Prop == "M04" || spec.Prop == "" && r.P(50) {
		p.Params["links"] = 1
	}
	if faults && p.Params["links"] == 0 {
		q("nextErr", 0, 5, 20)
		q("acceptErr", 0, 5, 30)
		q("dup", 0, 10)
		q("listErr", 0, 10, 30)
		q("listDelay", 0, int64(3*time.Millisecond), int64(30*time.Millisecond))
		q("sendErr", 0, 0, 10, 40)
		q("lateErr", 0, 0, 10, 40)
		for i := 0; i < r.N(3); i++ {
			// the source address takes nothing for a while
			p.Ops = append(p.Ops, sim.Op{C: 8, K: "pause", A: 1, At: int64(r.Dur(4 * scale)), B: int64(r.Dur(sim.Pick(r, scale, time.Second, 5*time.Second)))})
		}
	}
	big := (spec.Prop == "M01" || spec.Prop == "M02") && r.P(6)
	if big {
		// more than all queues hold, and a source address that takes nothing for long
		p.Ops = append(p.Ops, sim.Op{C: 8, K: "pause", A: 1, At: int64(r.Dur(scale)), B: int64(15*time.Second + r.Dur(4*time.Minute))})
	}
	q("odd", 0, 0, 1, 2)
	q("own", 0, 0, 1)
	pubs := spec.Prop != "M03"
	if pubs {
		for c := 1; c <= r.In(1, 3); c++ {
			n := r.In(1, 12)
			if r.P(8) {
				n = 300
			}
			if big && spec.Prop == "M01" && c == 1 {
				n = 900
			}
			for i := 0; i < n; i++ {
				op := sim.Op{C: c, K: "pub", A: int64(r.N(3)), B: int64(r.U64() >> 1)}
				if n < 300 {
					op.At = at()
				}
				if r.P(20) {
					op.K = "same"
				}
				p.Ops = append(p.Ops, op)
				if p.Params["odd"] > 0 && r.P(20) {
					p.Ops = append(p.Ops, sim.Op{C: c, K: "odd"})
				}
			}
		}
		p.Params["stable"] = int64(sim.Pick(r, 1, 2, 5, 9))
		if big && spec.Prop == "M02" {
			p.Params["stable"], p.Params["flushbatch"], p.Params["flushdelay"] = 40, 1, 0
		}
		for i := 0; i < r.N(14); i++ {
			p.Ops = append(p.Ops, sim.Op{C: 5, K: sim.Pick(r, "sadd", "sadd", "supd", "sdel"), At: at(), A: int64(r.N(5)), B: int64(r.U64() >> 1)})
		}
	}
	if spec.Prop != "M03" {
		for c := 6; c <= r.In(6, 7); c++ {
			n := r.In(1, 6)
			if r.P(10) || big {
				n = 30
			}
			for i := 0; i < n; i++ {
				op := sim.Op{C: c, K: "flush", At: at()}
				if n == 30 {
					op.At = 0
				}
				p.Ops = append(p.Ops, op)
			}
		}
	}
	if p.Params["links"] == 1 {
		// addresses: 0 beacon, 1 source, 2 heartbeats
		if spec.Prop == "M03" && r.P(8) {
			// one that is gone for long
			p.Params["long"] = 1
			a := int64(sim.Pick(r, 0, 0, 1, 2))
			p.Ops = append(p.Ops, sim.Op{C: 8, K: sim.Pick(r, "refuse", "hold"), At: int64(r.Dur(time.Second)), A: a},
				sim.Op{C: 8, K: "free", At: int64(time.Minute + r.Dur(4*time.Minute)), A: a})
		}
		for i := 0; i < r.In(1, 8); i++ {
			p.Ops = append(p.Ops, sim.Op{C: 8, K: sim.Pick(r, "refuse", "hold", "hold", "free"), At: sim.Pick(r, 0, int64(r.Dur(8*time.Second))), A: int64(r.N(3))})
		}
		q("sendErr", 0, 0, 20)
		q("lateErr", 0, 0, 20)
	}
	if spec.Prop == "M04" {
		p.Ops = append(p.Ops, sim.Op{C: 9, K: "cancel", At: int64(r.Dur(sim.Pick(r, time.Millisecond, 50*time.Millisecond, time.Second, 8*time.Second)))})
	}
	return p
}

type pubUpdate struct {
	id        string
	prev      attrs
	curr      attrs
	change    bool
	call, ret int
	at        time.Duration
	pub       int
}

// version of a stored record.
type storedVal struct {
	val      attrs
	call     int // the change began
	from, to int // it was in effect at least from, at most to
}

type mgrRun struct {
	e        *sim.Env
	b        *bus
	m        *eventsource.Manager
	src      eventsource.Info
	hbAddr   string
	stores   []store.Interface
	tick     int
	pubs     [4][]*pubUpdate
	blocked  int
	hist     map[string][]*storedVal
	flushT   []int
	flushAt  []time.Duration
	cancelT  int
	cancelAt time.Duration
	retAt    time.Duration
	returned bool
	stall0   int64
	quietAt  time.Duration
	faultIv  map[string][][2]time.Duration
	listOff  bool
	paused   time.Duration
}

// unknownRecord is a record no encoding is known for.
type unknownRecord struct{ id string }

func (r unknownRecord) Identity() string { return r.id }
func (r unknownRecord) GetTypeMeta() vanflow.TypeMeta {
	return vanflow.TypeMeta{Type: "Odd", APIVersion: "verif/v1"}
}

func (r *mgrRun) now() int { r.tick++; return r.tick }

// listStore lets List of the manager's stores be slow or fail.
type listStore struct {
	store.Interface
	r *mgrRun
}

func (s listStore) List(ctx context.Context, sel *store.Selector) (store.Set, error) {
	p := s.r.e.Plan
	if !s.r.listOff && p.P("listErr") > 0 && s.r.e.R.P(int(p.P("listErr"))) {
		s.r.e.Fault("store-list-error")
		return store.Set{}, errors.New("injected list error")
	}
	if d := p.P("listDelay"); d > 0 && !s.r.listOff && s.r.e.R.P(50) {
		s.r.e.Fault("store-list-slow")
		time.Sleep(time.Duration(s.r.e.R.U64() % uint64(d)))
	}
	res, err := s.Interface.List(ctx, sel)
	if d := p.P("listDelay"); d > 0 && !s.r.listOff && s.r.e.R.P(50) {
		time.Sleep(time.Duration(s.r.e.R.U64() % uint64(d)))
	}
	return res, err
}

func orDef(v int64, d time.Duration) time.Duration {
	if v <= 0 {
		return d
	}
	return time.Duration(v)
}

func runManager(e *sim.Env) {
	p := e.Plan
	b := newBus(e)
	b.f = busFaults{acceptErr: int(p.P("acceptErr")), nextErr: int(p.P("nextErr")), dup: int(p.P("dup")), sendErr: int(p.P("sendErr")), lateErr: int(p.P("lateErr"))}
	r := &mgrRun{e: e, b: b, src: eventsource.Info{ID: "mgr1", Version: 3, Type: "CONTROLLER", Address: "mc/sfe.mgr1", Direct: "sfe.mgr1"},
		hist: map[string][]*storedVal{}, faultIv: map[string][][2]time.Duration{}}
	b.clock = r.now
	r.hbAddr = r.src.Address
	if p.P("alt") == 1 {
		r.hbAddr += ".heartbeats"
	}
	for _, a := range []string{"mc/sfe.all", r.src.Address, r.src.Address + ".heartbeats"} {
		b.container("collector").NewReceiver(a, noOpts)
	}
	live := runtime.SimLive()
	ctx, cancel := context.WithCancel(context.Background())
	ns := int(max(1, p.P("stores")))
	sim.Atomic(func() {
		var sts []store.Interface
		for i := 0; i < ns; i++ {
			st := store.NewDefaultCachingStore(store.CacheConfig{})
			r.stores = append(r.stores, st)
			sts = append(sts, listStore{st, r})
		}
		for i := 0; i < int(p.P("stable")); i++ {
			a := attrs{0: "0", 1: fmt.Sprintf("s%02d.stable", i*3), 12: fmt.Sprint("ns", i)}
			r.storeAdd(i%ns, a)
		}
		for i := 0; i < int(p.P("odd")); i++ {
			r.stores[i%ns].Add(context.Background(), store.Entry{Record: unknownRecord{fmt.Sprintf("s%02d.odd", i*5+1)}})
		}
		r.m = eventsource.NewManager(b.container("mgr"), eventsource.ManagerConfig{
			Source: r.src, Stores: sts,
			HeartbeatInterval: time.Duration(p.P("hb")), BeaconInterval: time.Duration(p.P("beacon")),
			UseAlternateHeartbeatAddress: p.P("alt") == 1,
			FlushDelay:                   time.Duration(p.P("flushdelay")), FlushBatchSize: int(p.P("flushbatch")),
			UpdateBufferTime: time.Duration(p.P("buffer")), UpdateBatchSize: int(p.P("batch")),
		})
	})
	b.onTake = func(rc *busReceiver) {
		if rc.owner == "mgr" && rc.addr == r.src.Direct {
			r.flushT = append(r.flushT, r.now())
			r.flushAt = append(r.flushAt, e.Now())
		}
	}
	done := make(chan struct{})
	start := e.Now()
	go func() {
		r.m.Run(ctx)
		r.returned, r.retAt = true, e.Now()
		e.Logf("run returned")
		close(done)
	}()
	doCancel := func() {
		if r.cancelT == 0 {
			r.cancelT, r.cancelAt, r.stall0 = r.now(), e.Now(), runtime.SimStallNS()-runtime.SimStallLeft()
			e.Logf("cancel")
			cancel()
		}
	}
	g := sim.NewGroup()
	for c := 1; c <= 9; c++ {
		ops := p.Of(c)
		if len(ops) == 0 {
			continue
		}
		run := func() {
			for _, op := range ops {
				time.Sleep(time.Duration(op.At))
				r.do(c, op, doCancel)
			}
		}
		if c <= 3 && e.For("M04") {
			go run() // may stay blocked once the manager is cancelled
			continue
		}
		if e.Spec.Prop == "M04" && c != 9 {
			go run()
			continue
		}
		g.Go(run)
	}
	if !e.Await(10*time.Minute, g.Done()) {
		if e.For("M01") {
			e.Violate("publish-blocks", "an update could not be published to a running manager")
		}
		e.Finish()
	}
	if e.Spec.Prop != "M04" {
		r.faultsEnd()
		b.quiet()
		r.listOff = true
		e.Quiet()
		r.quietAt = e.Now()
		hb, bc := orDef(p.P("hb"), 2*time.Second), orDef(p.P("beacon"), 10*time.Second)
		e.Settle(10*time.Second + 3*bc + 3*hb + 40*time.Duration(p.P("flushdelay")) + time.Duration(p.P("long"))*2*time.Minute)
	}
	if e.For("M04") {
		r.pubsBlocked(false)
	}
	doCancel()
	ok := e.Await(5*time.Second, done)
	if e.For("M04") {
		if !ok {
			e.Violate("run-does-not-return", "the manager did not return within 5 s of being cancelled")
			return
		}
		e.Quiet()
		e.Settle(5 * time.Second)
		if open := b.openBy("mgr"); len(open) > 0 {
			e.Violate("link-left-open", "the manager left open %v", open)
		}
		// publishers and other harness goroutines may be left: let them run out
		r.pubsBlocked(true)
		b.quiet()
		e.Settle(90 * time.Second)
		if n := runtime.SimLive() - live - r.blocked; n > 0 {
			e.Violate("goroutines-left", "%d goroutines are left after the manager was cancelled", n)
		}
		limit := r.cancelAt + 5*time.Second + time.Duration(runtime.SimStallNS()-r.stall0)
		for _, m := range b.sent {
			if m.from == "mgr" && m.at > limit {
				e.Violate("sent-after-cancel", "sent to %s %v after the manager was cancelled", m.addr, m.at-r.cancelAt)
			}
		}
		if len(b.sent) > 0 {
			e.NonTrivial()
		}
	} else if !ok {
		e.Finish()
	}
	if e.For("M01") && e.Plan.P("links") == 0 {
		r.checkUpdates()
	}
	if e.For("M02") && e.Plan.P("links") == 0 {
		r.checkDumps()
	}
	if e.For("M03") {
		r.checkKeepalives(start)
	}
}

// pubsBlocked tells publishers to stop publishing.
func (r *mgrRun) pubsBlocked(stop bool) { r.listOff = r.listOff || stop }

func (r *mgrRun) addr(n int64) string {
	switch n {
	case 0:
		return "mc/sfe.all"
	case 1:
		return r.src.Address
	}
	return r.src.Address + ".heartbeats"
}

func (r *mgrRun) faultsEnd() {
	for a, iv := range r.faultIv {
		if n := len(iv); n > 0 && iv[n-1][1] < 0 {
			r.faultIv[a][n-1][1] = r.e.Now()
		}
	}
}

func (r *mgrRun) do(c int, op sim.Op, cancel func()) {
	e := r.e
	switch op.K {
	case "pub", "same":
		if r.cancelT > 0 && r.e.Spec.Prop == "M04" && e.R.P(50) {
			return
		}
		id := fmt.Sprintf("u%d.%d", c, op.A)
		var prev attrs
		for _, u := range r.pubs[c] {
			if u.id == id {
				prev = u.curr
			}
		}
		rng := sim.NewRNG(uint64(op.B))
		code := []int{0, 6, 7}[op.A]
		if op.A == 2 && e.Plan.P("own") == 1 {
			code = labelCode
		}
		part := genAttrs(rng, code, id, int(rng.N(10000))+1, 25)
		u := &pubUpdate{id: id, prev: prev, curr: mergeAttrs(prev, clean(part)), pub: c}
		if prev == nil && op.B%4 == 0 {
			u.prev = attrs{0: part[0], 1: id}
		}
		if op.K == "same" && prev != nil {
			u.curr = prev
		}
		u.change = u.prev == nil || u.curr.String() != u.prev.String()
		up := eventsource.RecordUpdate{Curr: pubRecord(u.curr, op.B)}
		if u.prev != nil {
			up.Prev = pubRecord(u.prev, op.B)
		}
		r.pubs[c] = append(r.pubs[c], u)
		u.call = r.now()
		r.blocked++
		e.Logf("publish %s change=%v", id, u.change)
		r.m.PublishUpdate(up)
		r.blocked--
		u.ret, u.at = r.now(), e.Now()
	case "odd":
		e.Fault("record-without-encoding")
		r.blocked++
		r.m.PublishUpdate(eventsource.RecordUpdate{Curr: unknownRecord{"odd"}})
		r.blocked--
	case "pause":
		a := r.addr(op.A)
		r.paused += time.Duration(op.B)
		e.Fault("destination-hold")
		r.b.set(r.b.hold, a, true)
		time.Sleep(time.Duration(op.B))
		r.b.set(r.b.hold, a, false)
	case "flush":
		r.b.inject("collector", r.src.Direct, amqpFlush(r.src.Direct))
	case "sadd", "supd", "sdel":
		id := fmt.Sprintf("s%02d.x", op.A*3+1)
		rng := sim.NewRNG(uint64(op.B))
		code := 0
		if op.A == 4 && e.Plan.P("own") == 1 {
			code = labelCode
		}
		a := genAttrs(rng, code, id, int(rng.N(10000))+1, 40)
		a = clean(a)
		n := int(op.A) % len(r.stores)
		switch op.K {
		case "sadd":
			r.storeAdd(n, a)
		case "supd":
			r.storeUpdate(n, a)
		case "sdel":
			r.storeDelete(n, id)
		}
	case "refuse", "hold", "free":
		a := r.addr(op.A)
		r.b.refuse[a] = op.K == "refuse"
		r.b.hold[a] = op.K == "hold"
		r.b.kick()
		iv := r.faultIv[a]
		if n := len(iv); n > 0 && iv[n-1][1] < 0 {
			if op.K == "free" {
				iv[n-1][1] = e.Now()
			}
		} else if op.K != "free" {
			r.faultIv[a] = append(iv, [2]time.Duration{e.Now(), -1})
		}
		if op.K == "free" {
			e.Logf("%s works again", a)
		} else {
			e.Fault("destination-" + op.K)
		}
	case "cancel":
		e.Fault("manager-cancelled")
		cancel()
	}
}

// clean drops what a record cannot transmit: attributes without a pointer
// that have the zero value of their type.
func clean(a attrs) attrs {
	rt, _ := typeByCode(atoi(a[0]))
	drop := map[int]bool{}
	if rt.t != nil {
		for _, f := range fieldsOf(rt.t) {
			drop[f.code] = !f.ptr
		}
	}
	out := attrs{}
	for k, v := range a {
		if k > 1 && drop[k] && (v == "" || v == "0") {
			continue
		}
		out[k] = v
	}
	return out
}

func pubRecord(a attrs, seed int64) vanflow.Record {
	rec := recordOf(a)
	return rec
}

func (r *mgrRun) storeAdd(n int, a attrs) {
	t := r.now()
	if h := r.hist[a[1]]; len(h) > 0 && h[len(h)-1].to < 0 {
		return
	}
	err := r.stores[n].Add(context.Background(), store.Entry{Record: recordOf(a)})
	if err != nil {
		r.e.Violate("store-add", "Add failed: %v", err)
	}
	r.hist[a[1]] = append(r.hist[a[1]], &storedVal{val: clean(a), call: t, from: r.now(), to: -1})
	r.e.Logf("store has %s", a)
}

func (r *mgrRun) storeUpdate(n int, a attrs) {
	h := r.hist[a[1]]
	if len(h) == 0 || h[len(h)-1].to >= 0 {
		return
	}
	v := &storedVal{val: clean(a), call: r.now(), to: -1}
	v.from = v.call
	r.hist[a[1]] = append(h, v)
	r.stores[n].Update(context.Background(), store.Entry{Record: recordOf(a)})
	h[len(h)-1].to = r.now()
	v.from = h[len(h)-1].to
	r.e.Logf("store has %s", a)
}

func (r *mgrRun) storeDelete(n int, id string) {
	h := r.hist[id]
	if len(h) == 0 || h[len(h)-1].to >= 0 {
		return
	}
	h[len(h)-1].to = r.now()
	r.stores[n].Delete(context.Background(), store.Entry{Record: recordOf(attrs{0: "0", 1: id})})
	r.e.Logf("store lost %s", id)
}

func has(a attrs, k int, v string) bool { x, ok := a[k]; return ok && x == v }

type wireRec struct {
	a    attrs
	m    *busMsg
	used bool
}

func (r *mgrRun) wire(prefix string) (out []*wireRec) {
	p := r.e.Plan
	msgs := append(append([]*busMsg{}, r.b.sent...), r.b.failed...)
	sort.SliceStable(msgs, func(i, j int) bool { return msgs[i].tick < msgs[j].tick })
	var own []*busMsg
	for _, m := range msgs {
		if m.from == "mgr" && m.addr == r.src.Address && readWire(m.raw).subject != "HEARTBEAT" {
			own = append(own, m)
		}
	}
	for i, m := range own {
		// A message that could not be sent counts all the same, unless it is
		// tried again at once.
		if m.n < 0 && i+1 < len(own) && bytes.Equal(own[i+1].raw, m.raw) {
			continue
		}
		w := readWire(m.raw)
		if w.subject != "RECORD" {
			continue
		}
		if w.bad != "" {
			r.e.Violate("record-malformed", "sent a malformed record message: %s", w.bad)
			continue
		}
		u, s := 0, 0
		for _, a := range w.recs {
			if a[0] == "" || a[1] == "" {
				r.e.Violate("record-unidentified", "sent a record without type or identity: %s", a)
			}
			if strings.HasPrefix(a[1], "u") {
				u++
			} else {
				s++
			}
			if strings.HasPrefix(a[1], prefix) {
				out = append(out, &wireRec{a: a, m: m})
			}
		}
		if prefix == "u" && u > 0 && u > int(max(1, p.P("batch"))) {
			r.e.Violate("batch-too-large", "sent %d updates in one message, batch size %d", u, p.P("batch"))
		}
		if prefix == "s" && s > 0 && p.P("flushbatch") > 0 && s > int(p.P("flushbatch")) {
			r.e.Violate("flush-batch-too-large", "sent %d records in one message, flush batch size %d", s, p.P("flushbatch"))
		}
	}
	return
}

func (r *mgrRun) checkUpdates() {
	e := r.e
	wires := r.wire("u")
	pos := map[*pubUpdate]int{}
	at := map[*pubUpdate]time.Duration{}
	byID := map[string][]*wireRec{}
	idx := map[*wireRec]int{}
	for i, w := range wires {
		idx[w] = i
		byID[w.a[1]] = append(byID[w.a[1]], w)
	}
	slack := time.Duration(runtime.SimStallNS()) + 50*time.Millisecond +
		time.Duration(len(r.flushT))*(time.Duration(e.Plan.P("flushdelay"))+time.Duration(20*2*e.Plan.P("listDelay")))
	if e.Plan.P("listErr") > 0 {
		slack += time.Minute // a store that fails keeps a dump, and what comes after it, waiting
	}
	limit := time.Duration(e.Plan.P("buffer")) + slack + r.paused
	n := 0
	for c := 1; c <= 3; c++ {
		for _, u := range r.pubs[c] {
			if !u.change {
				continue
			}
			n++
			q := byID[u.id]
			if len(q) == 0 {
				e.Violate("update-not-sent", "update of %s to %q was never sent", u.id, u.curr)
				return
			}
			w := q[0]
			byID[u.id] = q[1:]
			pos[u], at[u] = idx[w], w.m.at
			for k, v := range w.a {
				if !has(u.curr, k, v) {
					e.Violate("update-wrong", "update of %s sent attribute %d as %q, published %q", u.id, k, v, u.curr[k])
				}
			}
			for k, v := range u.curr {
				if (u.prev == nil || !has(u.prev, k, v)) && !has(w.a, k, v) {
					e.Violate("update-incomplete", "update of %s did not send attribute %d = %q (sent %s)", u.id, k, v, w.a)
				}
			}
			if d := w.m.at - u.at; d > limit {
				e.Violate("update-late", "update of %s was sent %v after it was published, limit %v", u.id, d, limit)
			}
		}
	}
	for id, q := range byID {
		if len(q) > 0 {
			e.Violate("update-extra", "%d more updates of %s were sent than published, e.g. %s", len(q), id, q[0].a)
		}
	}
	if e.Violated() {
		return
	}
	var all []*pubUpdate
	for c := 1; c <= 3; c++ {
		all = append(all, r.pubs[c]...)
	}
	sort.SliceStable(all, func(i, j int) bool { return all[i].ret < all[j].ret })
	for i, a := range all {
		if !a.change || len(all) > 200 && i%17 > 0 {
			continue
		}
		for _, b := range all[i+1:] {
			if b.change && a.ret < b.call && pos[a] > pos[b] {
				e.Violate("updates-out-of-order", "update of %s was published before one of %s but sent after it", a.id, b.id)
				return
			}
		}
	}
	if n > 2 {
		e.NonTrivial()
	}
}

func (r *mgrRun) checkDumps() {
	e := r.e
	p := e.Plan
	wires := r.wire("s")
	byID := map[string][]*wireRec{}
	for _, w := range wires {
		id := w.a[1]
		byID[id] = append(byID[id], w)
		h := r.hist[id]
		known := false
		for _, v := range h {
			if v.val.String() == clean(w.a).String() && v.call < w.m.tick {
				known = true
			}
		}
		if !known && len(h) > 0 {
			// An update may have been applied before the harness noted it.
			e.Violate("dump-wrong", "a dump sent %s, which was never stored", w.a)
		}
		if len(h) == 0 {
			e.Violate("dump-wrong", "a dump sent %s, which was never stored", w.a)
		}
	}
	total := -1
	for i := 0; i < int(p.P("stable")); i++ {
		id := fmt.Sprintf("s%02d.stable", i*3)
		n := len(byID[id])
		if total >= 0 && n != total {
			e.Violate("dump-incomplete", "%s was sent %d times while another record present throughout was sent %d times", id, n, total)
			return
		}
		total = n
	}
	stalls := time.Duration(runtime.SimStallNS())
	fd := time.Duration(p.P("flushdelay"))
	// at most one dump per window of requests
	windows := 0
	end := time.Duration(-1)
	for _, t := range r.flushAt {
		if windows == 0 || t > end {
			windows++
			end = t + fd - stalls - time.Millisecond
		}
	}
	if total > windows {
		e.Violate("dump-unrequested", "%d dumps were sent for %d flush requests that are more than the flush delay apart (%d in all)", total, windows, len(r.flushAt))
	}
	// and one after each request
	bound := 5*time.Second + 3*fd + stalls + r.paused + time.Duration(60*p.P("listDelay"))
	for i, t := range r.flushT {
		for id, h := range r.hist {
			// present from t until bound after it
			lastT := r.tick
			for _, m := range r.b.sent {
				if m.at > r.flushAt[i]+bound {
					lastT = m.tick
					break
				}
			}
			present := false
			cur := -1
			for j, v := range h {
				if v.from < t && (v.to < 0 || v.to > t) {
					cur = j
				}
			}
			if cur >= 0 {
				present = true
				for j := cur; j < len(h); j++ {
					if h[j].to >= 0 && h[j].to < lastT && (j+1 >= len(h) || h[j+1].call > h[j].to) {
						present = false
						break
					}
				}
			}
			if !present {
				continue
			}
			ok := false
			for _, w := range byID[id] {
				if w.m.tick <= t || w.m.at > r.flushAt[i]+bound {
					continue
				}
				for _, v := range h {
					if (v.to < 0 || v.to > t) && v.call < w.m.tick && v.val.String() == clean(w.a).String() {
						ok = true
					}
				}
			}
			if !ok {
				e.Violate("flush-unanswered", "flush request %d at %v was not followed by the current %s within %v", i, r.flushAt[i], id, bound)
				return
			}
		}
	}
	if total > 0 && p.P("stable") > 1 {
		e.NonTrivial()
	}
}

func (r *mgrRun) checkKeepalives(start time.Duration) {
	e := r.e
	p := e.Plan
	hbI, bcI := orDef(p.P("hb"), 2*time.Second), orDef(p.P("beacon"), 10*time.Second)
	timeout := min(hbI, bcI)
	tol := time.Duration(runtime.SimStallNS()) + 20*time.Millisecond
	// a stall as long as the delivery timeout loses a message
	stalled := time.Duration(runtime.SimStallNS()) / timeout
	var beacons, hbs []time.Duration
	for _, m := range r.b.sent {
		if m.from != "mgr" {
			continue
		}
		w := readWire(m.raw)
		switch w.subject {
		case "BEACON":
			want := map[string]any{"v": uint32(3), "sourceType": "CONTROLLER", "address": r.src.Address, "direct": r.src.Direct, "id": r.src.ID}
			if m.addr != "mc/sfe.all" || fmt.Sprint(w.props) != fmt.Sprint(want) {
				e.Violate("beacon-wrong", "sent beacon %v to %s", w.props, m.addr)
			}
			beacons = append(beacons, m.at)
		case "HEARTBEAT":
			now, _ := w.props["now"].(uint64)
			at := time.UnixMicro(int64(now)).Sub(e.Start)
			if m.addr != r.hbAddr || w.props["v"] != uint32(3) || w.props["id"] != r.src.ID {
				e.Violate("heartbeat-wrong", "sent heartbeat %v to %s, want it on %s", w.props, m.addr, r.hbAddr)
			}
			if at > m.at+time.Millisecond || at < m.at-tol-timeout {
				e.Violate("heartbeat-time", "heartbeat sent at %v says %v", m.at, at)
			}
			if len(beacons) == 0 {
				e.Violate("heartbeat-before-beacon", "a heartbeat was sent before the first beacon")
			}
			hbs = append(hbs, m.at)
		}
	}
	// Faulty stretches of either address delay both; judge gaps outside of
	// them strictly, and resumption after them.
	end := r.cancelAt
	bad := r.faultIv["mc/sfe.all"]
	bad = append(append([][2]time.Duration{}, bad...), r.faultIv[r.hbAddr]...)
	lossy := p.P("sendErr") > 0 || p.P("lateErr") > 0
	judge := func(kind, addr string, times []time.Duration, iv time.Duration, from time.Duration) {
		own := r.faultIv[addr]
		prev := from
		for i := 0; i <= len(times); i++ {
			t := end
			if i < len(times) {
				t = times[i]
			}
			if r.quietAt > 0 && lossy && prev < r.quietAt {
				prev = max(prev, min(t, r.quietAt))
			}
			gap := t - prev
			ownOverlap, overlap := time.Duration(0), false
			for _, f := range own {
				lo, hi := max(f[0], prev), min(f[1], t)
				if hi > lo {
					ownOverlap += hi - lo
				}
			}
			for _, f := range bad {
				if f[1] >= prev-2*timeout && f[0] <= t+timeout {
					overlap = true
				}
			}
			limit := iv + tol + ownOverlap + stalled*iv
			if overlap || lossy {
				limit += 40 * timeout
				if iv == bcI {
					limit += bcI
				}
			}
			if gap > limit {
				e.Violate(kind+"-gap", "no %s from %v to %v, interval %v, allowed %v", kind, prev, t, iv, limit)
				return
			}
			if i > 0 && i < len(times) && !overlap && !lossy && gap < iv-tol {
				e.Violate(kind+"-early", "two %ss %v apart, interval %v", kind, gap, iv)
				return
			}
			prev = t
		}
	}
	judge("beacon", "mc/sfe.all", beacons, bcI, start)
	if len(beacons) > 0 {
		judge("heartbeat", r.hbAddr, hbs, hbI, beacons[0])
	}
	if len(beacons) > 2 && len(hbs) > 2 {
		e.NonTrivial()
	}
}

func init() {
	sim.Scenarios["manager"] = &sim.Scenario{Gen: genManager, Run: runManager, Stalls: true, MaxStall: time.Second}
}
