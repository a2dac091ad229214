package scen

import (
	"context"
	"errors"
	"fmt"
	"time"

	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/eventsource"
	"github.com/c-kruse/vanflow/session"
	"github.com/c-kruse/vanflow/store"

	"vsim/sim"
)

// Mesh: sources and a collector, each with real containers, managers,
// discovery, clients and stores, connected by the simulated network and
// router; connections fail, sources and the collector crash and restart.

var faultKinds = []string{"refuse", "refuse", "hang", "cut", "cut", "cutbytes", "cutbytesdown", "hold", "holdup", "holddown", "restart", "detach", "detach", "end", "close", "noattach", "handshake", "handshake", "nocredit"}

// genFault draws a fault that happens before F.
func genFault(r *sim.RNG, F time.Duration, hosts int, addrs []string, maxDur time.Duration) sim.Op {
	o := sim.Op{C: 90, K: sim.Pick(r, faultKinds...), At: int64(r.Dur(F)), A: int64(r.N(hosts)), B: int64(r.Dur(maxDur)), T: addrs[r.N(len(addrs))]}
	switch o.K {
	case "cutbytes", "cutbytesdown":
		o.B = int64(r.N(sim.Pick(r, 60, 500, 3000)))
	case "handshake":
		o.S = sim.Pick(r, "header", "garbage", "sasl", "open", "close", "begin", "end")
		o.B = int64(r.In(1, 3))
	}
	return o
}

func genMesh(r *sim.RNG, spec *sim.Spec) *sim.Plan {
	p := &sim.Plan{Params: map[string]int64{}}
	P := p.Params
	q := func(name string, v ...time.Duration) { P[name] = int64(v[r.N(len(v))]) }
	ns := r.In(1, 3)
	P["sources"] = int64(ns)
	P["shared"] = int64(r.N(2))
	P["backoff"] = int64(r.N(3))
	P["maxFrame"] = int64(sim.Pick(r, 512, 16384, 16384))
	P["cap"] = int64(sim.Pick(r, 4096, 65536))
	P["chunk"] = int64(sim.Pick(r, 0, 0, 50))
	P["window"] = int64(sim.Pick(r, 1<<16, 1<<16, 10))
	P["credit"] = int64(sim.Pick(r, 1, 10, 250))
	P["holdEnd"] = int64(r.N(3))
	q("lat", 100*time.Microsecond, time.Millisecond, 20*time.Millisecond)
	q("settle", 0, 0, 5*time.Millisecond)
	q("beacon", time.Second, 3*time.Second, 0)
	q("hb", 300*time.Millisecond, time.Second, 0)
	q("buffer", 0, 50*time.Millisecond, 500*time.Millisecond)
	P["batch"] = int64(sim.Pick(r, 0, 1, 3, 10))
	q("flushDelay", 0, 100*time.Millisecond, time.Second)
	P["flushBatch"] = int64(sim.Pick(r, 0, 1, 3, 10))
	q("timeout", 5*time.Second, 8*time.Second, 30*time.Second)
	P["pre"] = int64(r.N(8))
	F := time.Duration(sim.Pick(r, 3, 8, 20)) * time.Second
	P["faultsFor"] = int64(F)
	addrs := []string{"mc/sfe.all"}
	for i := 1; i <= ns; i++ {
		P[fmt.Sprint("alt", i)] = int64(r.N(2))
		a := fmt.Sprintf("sfe.s%d", i)
		addrs = append(addrs, a, "mc/"+a)
		if r.P(40) {
			p.Ops = append(p.Ops, sim.Op{C: 20 + i, K: "start", At: int64(r.Dur(3 * time.Second))})
		} else {
			p.Ops = append(p.Ops, sim.Op{C: 20 + i, K: "start"})
		}
		for k := 0; k < r.N(2); k++ {
			p.Ops = append(p.Ops, sim.Op{C: 20 + i, K: "crash", At: int64(r.Dur(F)), B: int64(r.Dur(5 * time.Second))})
		}
		n := r.In(2, 25)
		gap := sim.Pick(r, 10*time.Microsecond, 20*time.Millisecond, F/time.Duration(n))
		for k := 0; k < n; k++ {
			op := sim.Op{C: i, K: "pub", A: int64(r.N(5)), B: int64(r.U64() >> 1)}
			if r.P(60) {
				op.At = int64(r.Dur(gap))
			}
			p.Ops = append(p.Ops, op)
		}
	}
	st := int64(0)
	if r.P(40) {
		st = int64(r.Dur(3 * time.Second))
	}
	p.Ops = append(p.Ops, sim.Op{C: 30, K: "collect", At: st})
	if r.P(25) {
		p.Ops = append(p.Ops, sim.Op{C: 30, K: "crash", At: int64(r.Dur(F)), B: int64(r.Dur(3 * time.Second))})
	}
	if r.P(85) {
		for i := 0; i < r.In(1, 6); i++ {
			p.Ops = append(p.Ops, genFault(r, F, ns+2, addrs, 4*time.Second))
		}
	}
	return p
}

type meshSource struct {
	no      int
	name    string
	info    eventsource.Info
	st      store.Interface
	model   map[string]attrs
	ever    map[string]map[int]map[string]bool // id, attribute, values published
	mgr     *eventsource.Manager
	cancel  context.CancelFunc
	started int
}

type meshClient struct {
	src     string
	client  *eventsource.Client
	cancel  context.CancelFunc
	heardAt time.Duration
}

type meshRun struct {
	e        *sim.Env
	n        *netw
	r        *router
	srcs     []*meshSource
	colStore store.Interface
	colStop  func()
	clients  map[string]*meshClient
	quietT   time.Duration
	hosts    []string
	nStore   int
}

func newMeshNet(e *sim.Env) (*netw, *router) {
	p := e.Plan
	n := newNet(e)
	n.lat, n.chunk, n.cap = time.Duration(p.P("lat")), int(p.P("chunk")), int(p.P("cap"))
	r := newRouter(e, n)
	r.maxFrame, r.credit, r.window, r.settle = uint32(p.P("maxFrame")), uint32(p.P("credit")), uint32(p.P("window")), time.Duration(p.P("settle"))
	r.holdEnd = p.P("holdEnd")
	return n, r
}

func runMesh(e *sim.Env) {
	p := e.Plan
	m := &meshRun{e: e, clients: map[string]*meshClient{}}
	m.n, m.r = newMeshNet(e)
	for i := 1; i <= int(p.P("sources")); i++ {
		s := &meshSource{no: i, name: fmt.Sprint("s", i), model: map[string]attrs{}, ever: map[string]map[int]map[string]bool{}}
		s.info = eventsource.Info{ID: s.name, Version: 1 + i, Type: "CONTROLLER", Address: "mc/sfe." + s.name, Direct: "sfe." + s.name}
		m.srcs = append(m.srcs, s)
		m.hosts = append(m.hosts, s.name)
		sim.Atomic(func() {
			s.st = store.NewDefaultCachingStore(store.CacheConfig{})
			for k := 0; k < int(p.P("pre")); k++ {
				a := attrs{0: "0", 1: fmt.Sprintf("%s.pre%d", s.name, k), 12: fmt.Sprint("ns", k)}
				m.change(s, a)
				m.storeAdd(s, a)
			}
		})
	}
	m.hosts = append(m.hosts, "col")
	if p.P("shared") == 0 {
		m.hosts = append(m.hosts, m.srcs[0].name+"-client")
	} else {
		m.hosts = append(m.hosts, "clients")
	}
	g := sim.NewGroup()
	for _, s := range m.srcs {
		g.Go(func() {
			for _, op := range p.Of(s.no) {
				time.Sleep(time.Duration(op.At))
				m.publish(s, op)
			}
		})
		g.Go(func() {
			for _, op := range p.Of(20 + s.no) {
				time.Sleep(time.Duration(op.At))
				if op.K == "crash" {
					e.Fault("source-crash")
					s.cancel()
					s.mgr = nil
					time.Sleep(time.Duration(op.B))
				}
				m.startSource(s)
			}
		})
	}
	g.Go(func() {
		for _, op := range p.Of(30) {
			time.Sleep(time.Duration(op.At))
			if op.K == "crash" {
				e.Fault("collector-crash")
				m.colStop()
				time.Sleep(time.Duration(op.B))
			}
			m.collect()
		}
	})
	for _, op := range p.Of(90) {
		g.Go(func() {
			time.Sleep(time.Duration(op.At))
			m.r.fault(m.hosts[op.A], op)
		})
	}
	ended := false
	go func() {
		for !ended {
			time.Sleep(time.Duration(200+e.R.N(400)) * time.Millisecond)
			m.invariant()
		}
	}()
	time.Sleep(time.Duration(p.P("faultsFor")))
	if !e.Await(3*time.Minute, g.Done()) {
		e.Violate("publish-blocks", "publishers are still blocked after 3 minutes")
		return
	}
	e.Quiet()
	m.quietT = e.Now()
	e.Logf("faults end")
	var addrs []string
	for a := range m.r.noCredit {
		addrs = append(addrs, a)
	}
	for i := range addrs {
		for j := i; j > 0 && addrs[j] < addrs[j-1]; j-- {
			addrs[j], addrs[j-1] = addrs[j-1], addrs[j]
		}
	}
	m.r.heal(addrs)
	// every source is heard again
	limit := 150*time.Second + time.Duration(p.P("timeout"))
	if !e.Until(limit, 200*time.Millisecond, func() bool { return len(m.unheard()) == 0 }) {
		e.Violate("not-reconnected", "%v after the faults ended the collector still does not hear %v", limit, m.unheard())
		return
	}
	// a flush is answered
	var diff string
	same := e.Until(2*time.Minute, time.Second, func() bool {
		if diff = m.diff(); diff == "" {
			return true
		}
		m.flush()
		return e.Until(20*time.Second, 250*time.Millisecond, func() bool { diff = m.diff(); return diff == "" })
	})
	if !same {
		e.Violate("not-converged", "the collector's store differs long after flushes were answered: %s", diff)
		return
	}
	r := sim.NewRNG(e.Spec.Seed ^ 0x77)
	// connections that died are found out by their idle timeout, and no
	// flush is answered over one before
	if p.P("holdEnd") == 2 && m.deadConns() > 0 {
		if !e.Until(4*time.Minute, 200*time.Millisecond, func() bool { return m.deadConns() == 0 }) {
			e.Violate("dead-connection-kept", "%d connections that went silent are still open after 4 minutes", m.deadConns())
			return
		}
		m.quietT = e.Now()
		if !e.Until(limit, 200*time.Millisecond, func() bool { return len(m.unheard()) == 0 }) {
			e.Violate("not-reconnected", "%v after dead connections were given up the collector still does not hear %v", limit, m.unheard())
			return
		}
	}
	// links that failed before are found out now
	m.flush()
	e.Settle(2*time.Second + 2*time.Duration(p.P("flushDelay")))
	if r.P(50) {
		go m.flush() // answered amid the updates
	}
	// further updates arrive without another flush
	for i := 0; i < 12; i++ {
		m.publish(m.srcs[r.N(len(m.srcs))], sim.Op{A: int64(r.N(7)), B: int64(r.U64() >> 1)})
		if r.P(50) {
			time.Sleep(r.Dur(300 * time.Millisecond))
		}
	}
	if !e.Until(15*time.Second, 200*time.Millisecond, func() bool { diff = m.diff(); return diff == "" }) {
		e.Violate("diverged", "the collector's store did not follow updates published without faults: %s", diff)
		return
	}
	e.Settle(3 * time.Second)
	if diff = m.diff(); diff != "" {
		e.Violate("diverged", "the collector's store changed again without updates: %s", diff)
	}
	ended = true
	m.invariant()
	if len(m.n.conns) > len(m.srcs) {
		e.NonTrivial()
	}
}

func (s *meshSource) ref() store.SourceRef {
	return store.SourceRef{APIVersion: fmt.Sprint(s.info.Version), Type: s.info.Type, Name: s.info.ID}
}

func (m *meshRun) container(ctx context.Context, host string) session.Container {
	cfg := session.ContainerConfig{ContainerID: host}
	if k := int(m.e.Plan.P("backoff")); k != 1 {
		cfg.BackOff = &seqBackOff{kind: k}
	}
	c := session.NewContainer("amqp://"+host+":5672", cfg)
	c.OnSessionError(func(err error) {
		var re session.RetryableError
		if !errors.As(err, &re) {
			m.e.Violate("gave-up", "the container of %s gave up: %v", host, err)
		}
	})
	c.Start(ctx)
	return c
}

func (m *meshRun) startSource(s *meshSource) {
	p := m.e.Plan
	ctx, cancel := context.WithCancel(context.Background())
	s.cancel = cancel
	s.started++
	m.e.Logf("source %s starts", s.name)
	mgr := eventsource.NewManager(m.container(ctx, s.name), eventsource.ManagerConfig{
		Source: s.info, Stores: []store.Interface{s.st},
		HeartbeatInterval: time.Duration(p.P("hb")), BeaconInterval: time.Duration(p.P("beacon")),
		UseAlternateHeartbeatAddress: p.P(fmt.Sprint("alt", s.no)) == 1,
		FlushDelay:                   time.Duration(p.P("flushDelay")), FlushBatchSize: int(p.P("flushBatch")),
		UpdateBufferTime: time.Duration(p.P("buffer")), UpdateBatchSize: int(p.P("batch")),
	})
	sim.Release(s)
	s.mgr = mgr
	go mgr.Run(ctx)
}

// change notes what a source is about to publish.
func (m *meshRun) change(s *meshSource, a attrs) {
	id := a[1]
	if s.ever[id] == nil {
		s.ever[id] = map[int]map[string]bool{}
	}
	for k, v := range a {
		if s.ever[id][k] == nil {
			s.ever[id][k] = map[string]bool{}
		}
		s.ever[id][k][v] = true
	}
	s.model[id] = a
}

func (s *meshSource) entry(a attrs) store.Entry {
	rec := recordOf(a)
	return store.Entry{Meta: store.Metadata{Source: s.ref()}, TypeMeta: rec.GetTypeMeta(), Record: rec}
}

func (m *meshRun) storeAdd(s *meshSource, a attrs) { s.st.Add(context.Background(), s.entry(a)) }

func (m *meshRun) publish(s *meshSource, op sim.Op) {
	rng := sim.NewRNG(uint64(op.B))
	id := fmt.Sprintf("%s.r%d", s.name, op.A)
	code := []int{0, 1, 4, 6, 7, 2, 13}[op.A]
	prev := s.model[id]
	part := clean(genAttrs(rng, code, id, int(rng.N(10000))+1, 30))
	curr := mergeAttrs(prev, part)
	m.change(s, curr)
	up := eventsource.RecordUpdate{Curr: recordOf(curr)}
	if prev == nil {
		m.storeAdd(s, curr)
	} else {
		up.Prev = recordOf(prev)
		s.st.Update(context.Background(), s.entry(curr))
	}
	m.e.Logf("publish %s", id)
	if s.mgr != nil {
		sim.Acquire(s)
		s.mgr.PublishUpdate(up)
	}
}

// collect starts a collector that works like the tool's serve command.
func (m *meshRun) collect() {
	e := m.e
	p := e.Plan
	ctx, cancel := context.WithCancel(context.Background())
	m.clients = map[string]*meshClient{}
	st := store.NewDefaultCachingStore(store.CacheConfig{Key: func(en store.Entry) (string, error) {
		return en.TypeMeta.String() + "/" + en.Record.Identity(), nil
	}})
	sim.Release(m)
	m.colStore, m.colStop = st, cancel
	clients := m.clients
	reg := &store.DispatchRegistry{}
	for _, t := range recTypes {
		reg.RegisterStore(recordOf(attrs{0: fmt.Sprint(t.code), 1: "x"}), st)
	}
	col := m.container(ctx, "col")
	var shared session.Container
	if p.P("shared") == 1 {
		shared = m.container(ctx, "clients")
	}
	disc := eventsource.NewDiscovery(col, eventsource.DiscoveryOptions{})
	e.Logf("collector starts")
	go disc.Run(ctx, eventsource.DiscoveryHandlers{
		Discovered: func(src eventsource.Info) {
			e.Logf("discovered %s", src.ID)
			if src.ID == "" {
				return
			}
			cctx, ccancel := context.WithCancel(ctx)
			ctr := shared
			if ctr == nil {
				ctr = m.container(cctx, src.ID+"-client")
			}
			mc := &meshClient{src: src.ID, cancel: ccancel}
			mc.client = eventsource.NewClient(ctr, eventsource.ClientOptions{Source: src})
			sim.Release(mc)
			if err := disc.NewWatchClient(ctx, eventsource.WatchConfig{Client: mc.client, ID: src.ID, Timeout: time.Duration(p.P("timeout"))}); err != nil {
				e.Violate("watch-failed", "a source just discovered could not be watched: %v", err)
				return
			}
			d := reg.NewDispatcher(store.SourceRef{APIVersion: fmt.Sprint(src.Version), Type: src.Type, Name: src.ID})
			mc.client.OnRecord(d.Dispatch)
			mc.client.OnHeartbeat(func(vanflow.HeartbeatMessage) { mc.heardAt = e.Now() })
			clients[src.ID] = mc
			mc.client.Listen(ctx, eventsource.FromSourceAddress())
			mc.client.Listen(ctx, eventsource.FromSourceAddressHeartbeats())
			go func() {
				fctx, fc := context.WithTimeout(ctx, 5*time.Second)
				defer fc()
				err := eventsource.FlushOnFirstMessage(fctx, mc.client)
				if err != nil && errors.Is(err, fctx.Err()) {
					err = mc.client.SendFlush(cctx)
				}
				e.Logf("flush %s: %v", src.ID, err)
			}()
		},
		Forgotten: func(src eventsource.Info) {
			e.Logf("forgotten %s", src.ID)
			if mc := clients[src.ID]; mc != nil {
				mc.cancel()
				delete(clients, src.ID)
			}
		},
	})
}

func (m *meshRun) unheard() (out []string) {
	for _, s := range m.srcs {
		if mc := m.clients[s.name]; mc == nil || mc.heardAt <= m.quietT {
			out = append(out, s.name)
		}
	}
	return out
}

// deadConns counts the connections held back for good that are still open.
func (m *meshRun) deadConns() (n int) {
	for _, c := range m.n.conns {
		if c.heldUntil > m.e.Now() && !c.isClosed && !c.isReset {
			n++
		}
	}
	return n
}

func (m *meshRun) flush() {
	e := m.e
	for _, s := range m.srcs {
		mc := m.clients[s.name]
		if mc == nil {
			continue
		}
		sim.Acquire(mc)
		for i := 0; i < 5; i++ {
			ctx, cn := context.WithTimeout(context.Background(), 5*time.Second)
			err := mc.client.SendFlush(ctx)
			cn()
			e.Logf("flush sent to %s: %v", s.name, err)
			if err == nil {
				break
			}
		}
	}
}

// collected reads the collector's store: id to attributes.
func (m *meshRun) collected() (map[string]attrs, map[string]store.Entry) {
	if m.colStore == nil {
		return nil, nil
	}
	var set store.Set
	var err error
	sim.Acquire(m)
	sim.Atomic(func() { set, err = m.colStore.List(context.Background(), nil) })
	if err != nil {
		m.e.Errorf("list: %v", err)
	}
	out, ents := map[string]attrs{}, map[string]store.Entry{}
	for _, en := range set.Entries {
		a, ok := attrsOf(en.Record)
		if !ok {
			continue
		}
		if _, dup := out[a[1]]; dup {
			m.e.Violate("stored-twice", "the collector holds two records %s", a[1])
		}
		out[a[1]] = a
		ents[a[1]] = en
	}
	return out, ents
}

// invariant: the collector holds only what was published.
func (m *meshRun) invariant() {
	got, ents := m.collected()
	for id, a := range got {
		var s *meshSource
		for _, x := range m.srcs {
			if x.ever[id] != nil {
				s = x
			}
		}
		if s == nil {
			m.e.Violate("fabricated-record", "the collector holds %s, which no source published", id)
			return
		}
		for k, v := range a {
			if !s.ever[id][k][v] {
				m.e.Violate("fabricated-value", "the collector holds attribute %d of %s as %q, which was never published", k, id, v)
				return
			}
		}
		if en := ents[id]; en.Meta.Source != s.ref() || en.TypeMeta != en.Record.GetTypeMeta() {
			m.e.Violate("wrong-source", "the collector attributes %s of %s to %v", id, s.name, en.Meta.Source)
			return
		}
	}
}

// diff describes how the collector's store differs from the sources'.
func (m *meshRun) diff() string {
	got, _ := m.collected()
	for _, s := range m.srcs {
		for k := int64(0); k < 20; k++ {
			for _, id := range []string{fmt.Sprintf("%s.r%d", s.name, k), fmt.Sprintf("%s.pre%d", s.name, k)} {
				want := s.model[id]
				if want == nil {
					continue
				}
				if got[id] == nil {
					return id + " is missing"
				}
				if g, w := got[id].String(), want.String(); g != w {
					return fmt.Sprintf("%s is %s instead of %s", id, g, w)
				}
			}
		}
	}
	return ""
}

func init() {
	sim.Scenarios["mesh"] = &sim.Scenario{Gen: genMesh, Run: runMesh, Stalls: true, MaxStall: 200 * time.Millisecond}
}
