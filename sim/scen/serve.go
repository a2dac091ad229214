package scen

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"time"

	simtoola "github.com/c-kruse/vanflow/zz_simtoola"

	"vsim/sim"
)

// Serve: the tool's serve command against the simulated router, with scripted
// event sources that come and go and a network that fails for less than the
// retry limit.

const faultWindow = 15 * time.Second

func genServe(r *sim.RNG, spec *sim.Spec) *sim.Plan {
	p := &sim.Plan{Params: map[string]int64{}}
	P := p.Params
	genRouterParams(r, P)
	P["flows"], P["logs"] = int64(r.N(2)), int64(r.N(2))
	ns := r.In(1, 4)
	P["sources"] = int64(ns)
	for i := 1; i <= ns; i++ {
		P[fmt.Sprint("beacon", i)] = int64(sim.Pick(r, 2*time.Second, 10*time.Second))
		P[fmt.Sprint("type", i)] = int64(r.N(3))
		if r.P(25) {
			P[fmt.Sprint("mute", i)] = 1 // no heartbeats until later than a flush waits for them
		}
		if r.P(20) {
			P[fmt.Sprint("deaf", i)] = 1 // takes no flush
		}
	}
	P["sameID"] = int64(r.N(2)) // records of different types share identities
	rounds := r.In(0, 3)
	P["rounds"] = int64(rounds)
	P["early"] = 0
	if r.P(15) {
		P["early"] = int64(r.Dur(time.Minute)) // interrupted then
	}
	P["far"] = int64(r.N(2) * r.N(2)) // times past the year 9999
	addrs := []string{"mc/sfe.all"}
	for i := 1; i <= ns; i++ {
		addrs = append(addrs, fmt.Sprintf("mc/sfe.s%d", i), fmt.Sprintf("sfe.s%d", i))
	}
	for k := 0; k < rounds; k++ {
		W := sim.Pick(r, 16*time.Second, 20*time.Second, 50*time.Second)
		P[fmt.Sprint("window", k)] = int64(W)
		P[fmt.Sprint("rest", k)] = int64(time.Minute + r.Dur(50*time.Second))
		base := 10 * (k + 1)
		for i := 1; i <= ns; i++ {
			if r.P(60) {
				for j := 0; j < r.In(1, 3); j++ {
					p.Ops = append(p.Ops, sim.Op{C: base, K: "toggle", A: int64(i), At: int64(r.Dur(W))})
				}
			}
			for j := 0; j < r.N(8); j++ {
				p.Ops = append(p.Ops, sim.Op{C: base, K: "rec", A: int64(i), B: int64(r.U64() >> 1), At: int64(r.U64()>>1) % int64(W)})
			}
		}
		if r.P(80) {
			for j := 0; j < r.In(1, 5); j++ {
				op := genFault(r, faultWindow-5*time.Second, 1, addrs, 5*time.Second)
				op.C = base + 1
				p.Ops = append(p.Ops, op)
			}
		}
		if r.P(40) {
			p.Ops = append(p.Ops, sim.Op{C: base + 1, K: "restart", At: int64(r.Dur(time.Second)), B: int64(13*time.Second - r.Dur(10*time.Second))})
		}
		for j := 0; j < r.N(6); j++ {
			p.Ops = append(p.Ops, sim.Op{C: base + 2, K: sim.Pick(r, "get", "get", "get", "idle"), A: int64(r.N(12)), B: int64(r.Dur(20 * time.Second)), At: int64(r.U64()>>1) % int64(W)})
		}
	}
	genConn(r, spec, p, 11, faultWindow-5*time.Second)
	return p
}

// genRouterParams draws the router's and the network's configuration.
func genRouterParams(r *sim.RNG, P map[string]int64) {
	q := func(name string, v ...time.Duration) { P[name] = int64(v[r.N(len(v))]) }
	P["maxFrame"] = int64(sim.Pick(r, 512, 16384, 16384))
	P["cap"] = int64(sim.Pick(r, 4096, 65536))
	P["chunk"] = int64(sim.Pick(r, 0, 0, 50))
	P["window"] = int64(sim.Pick(r, 1<<16, 1<<16, 10))
	P["credit"] = int64(sim.Pick(r, 1, 10, 250))
	P["holdEnd"] = int64(r.N(2)) // a dead connection is found out too late for the retry limit
	q("lat", 100*time.Microsecond, time.Millisecond, 20*time.Millisecond)
	q("settle", 0, 0, 5*time.Millisecond)
}

type scriptSource struct {
	no      int
	id, typ string
	addr    string
	direct  string
	version uint32
	beacon  time.Duration
	on      bool
	onAt    time.Duration
	offAt   time.Duration
	epoch   int
	recs    map[string]attrs
	ids     []string
	ever    map[string]map[int]map[string]bool
	flushes []time.Duration
	nrec    int
	mute    bool
	deaf    bool
}

type serveRun struct {
	*toolRun
	srcs []*scriptSource
}

func newScriptSource(no int, id, typ string, beacon time.Duration) *scriptSource {
	return &scriptSource{no: no, id: id, typ: typ, addr: "mc/sfe." + id, direct: "sfe." + id, version: uint32(no), beacon: beacon,
		recs: map[string]attrs{}, ever: map[string]map[int]map[string]bool{}}
}

// turn a source on or off.
func (s *serveRun) turn(src *scriptSource, on bool) {
	if src.on == on {
		return
	}
	src.on = on
	src.epoch++
	s.e.Logf("source %s on=%v", src.id, on)
	if !on {
		src.offAt = s.e.Now()
		s.e.Fault("source-silent")
		return
	}
	src.onAt = s.e.Now()
	epoch := src.epoch
	hb := src.addr
	if src.typ == "CONTROLLER" {
		hb += ".heartbeats"
	}
	go func() {
		for src.epoch == epoch {
			s.send("mc/sfe.all", amqpBeacon(src.id, src.typ, src.addr, src.direct, src.version))
			time.Sleep(src.beacon)
		}
	}()
	go func() {
		if src.mute {
			time.Sleep(8 * time.Second)
		}
		for src.epoch == epoch {
			time.Sleep(2 * time.Second)
			if src.epoch == epoch {
				s.send(hb, amqpHeartbeat(src.addr, src.id, src.version, uint64(time.Now().UnixMicro())))
			}
		}
	}()
}

// publish sends a partial record of the source.
func (s *serveRun) publish(src *scriptSource, seed uint64) string {
	r := sim.NewRNG(seed)
	code := sim.Pick(r, 0, 1, 2, 4, 5, 7, 6, 14, 3, 13)
	id := fmt.Sprintf("%s.%d.%d", src.id, code, r.N(3))
	if s.e.Plan.P("sameID") == 1 {
		id = fmt.Sprintf("%s.%d", src.id, r.N(2))
	}
	key := recKey(code, id)
	src.nrec++
	a := clean(genAttrs(r, code, id, src.nrec+100*src.no, 40))
	if s.e.Plan.P("far") == 1 && r.P(30) {
		a[3] = fmt.Sprint(uint64(253402300800000000) + uint64(r.N(1000))) // the year 10000
	}
	if src.recs[key] == nil {
		src.ids = append(src.ids, key)
		sort.Strings(src.ids)
		src.ever[key] = map[int]map[string]bool{}
	}
	for k, v := range a {
		if src.ever[key][k] == nil {
			src.ever[key][k] = map[string]bool{}
		}
		src.ever[key][k][v] = true
	}
	src.recs[key] = mergeAttrs(src.recs[key], a)
	s.e.Logf("source %s sends %s", src.id, a)
	s.send(src.recAddr(code), amqpRecords(src.addr, a))
	return key
}

// recKey identifies a record among those of its source.
func recKey(code int, id string) string { return fmt.Sprint(code, "/", id) }

func (src *scriptSource) recAddr(code int) string {
	switch code {
	case 6:
		return src.addr + ".flows"
	case 14:
		return src.addr + ".logs"
	}
	return src.addr
}

// dump sends all records, as a source does when it gets a flush.
func (s *serveRun) dump(src *scriptSource) {
	if !src.on {
		return
	}
	s.e.Logf("source %s dumps %d records", src.id, len(src.ids))
	for _, id := range src.ids {
		s.send(src.recAddr(atoi(src.recs[id][0])), amqpRecords(src.addr, src.recs[id]))
	}
}

// served reports whether the command keeps records of a type.
func (s *serveRun) served(code int) bool {
	switch code {
	case 0, 1, 2, 4, 5, 7:
		return true
	case 6:
		return s.e.Plan.P("flows") == 1
	case 14:
		return s.e.Plan.P("logs") == 1
	}
	return false
}

var servePaths = []string{"/", "/sources/", "/flow/v1/SiteRecord/", "/flow/v1/RouterRecord/", "/flow/v1/LinkRecord/", "/flow/v1/ListenerRecord/", "/flow/v1/ConnectorRecord/", "/flow/v1/ProcessRecord/", "/flow/v1/FlowRecord/", "/flow/v1/LogRecord/", "/nowhere", "/flow/v1/SiteRecord/x"}

// get reads a path and checks what any answer must satisfy.
func (s *serveRun) get(path string) ([]toolEntry, bool) {
	base := s.stallBase()
	limit := 5 * time.Second
	res := s.do("GET", path, nil, limit+s.stallSince(base))
	if s.stopped {
		return nil, false
	}
	if res.err != nil {
		if s.stallSince(base) == 0 {
			s.e.Violate("http-failed", "GET %s: %v", path, res.err)
		}
		return nil, false
	}
	if path == "/nowhere" {
		if res.code != 404 {
			s.e.Violate("http-failed", "GET %s: status %d", path, res.code)
		}
		return nil, true
	}
	if path == "/flow/v1/FlowRecord/" && s.e.Plan.P("flows") == 0 || path == "/flow/v1/LogRecord/" && s.e.Plan.P("logs") == 0 {
		return nil, true
	}
	if res.code != 200 {
		s.e.Violate("http-failed", "GET %s: status %d", path, res.code)
		return nil, false
	}
	ents, err := parseEntries(res.body)
	if err != nil {
		s.e.Violate("http-bad-response", "GET %s: %v", path, err)
		return nil, false
	}
	seen := map[string]bool{}
	for _, en := range ents {
		key := en.typ + "/" + en.attrs[1] + "/" + en.src.Name
		if seen[key] {
			s.e.Violate("listed-twice", "GET %s lists %s twice", path, key)
		}
		seen[key] = true
		s.checkEntry(path, en)
	}
	return ents, true
}

func (s *serveRun) source(id string) *scriptSource {
	for _, x := range s.srcs {
		if x.id == id {
			return x
		}
	}
	return nil
}

func (s *serveRun) checkEntry(path string, en toolEntry) {
	src := s.source(en.src.Name)
	if src == nil || en.src.Type != src.typ || en.src.APIVersion != fmt.Sprint(src.version) {
		s.e.Violate("fabricated-source", "GET %s lists a source %+v", path, en.src)
		return
	}
	if path == "/sources/" {
		if en.typ != "" {
			s.e.Violate("fabricated-source", "the source list contains a %s", en.typ)
		}
		if src.onAt == 0 && !src.on {
			s.e.Violate("fabricated-source", "the source %s is listed before its first beacon", src.id)
		}
		return
	}
	if want, ok := strings.CutPrefix(path, "/flow/v1/"); ok && !strings.HasPrefix(want, en.typ+"/") {
		s.e.Violate("wrong-type", "GET %s lists a %s", path, en.typ)
		return
	}
	rt, _ := typeByCode(atoi(en.attrs[0]))
	if rt.name != en.typ {
		s.e.Violate("wrong-type", "GET %s lists a %s as %s", path, rt.name, en.typ)
		return
	}
	ever := src.ever[recKey(atoi(en.attrs[0]), en.attrs[1])]
	if ever == nil {
		s.e.Violate("fabricated-record", "GET %s lists a record %q of %s that was never sent", path, en.attrs[1], src.id)
		return
	}
	for k, v := range en.attrs {
		if !ever[k][v] {
			s.e.Violate("fabricated-value", "GET %s lists attribute %d of %s as %q", path, k, en.attrs[1], v)
			return
		}
	}
}

// listed is the sorted list of sources the command reports.
func (s *serveRun) listed() string {
	ents, ok := s.get("/sources/")
	if !ok {
		return "?"
	}
	var ids []string
	for _, en := range ents {
		ids = append(ids, en.src.Name)
	}
	sort.Strings(ids)
	return strings.Join(ids, ",")
}

func (s *serveRun) alive() string {
	var ids []string
	for _, src := range s.srcs {
		if src.on {
			ids = append(ids, src.id)
		}
	}
	sort.Strings(ids)
	return strings.Join(ids, ",")
}

func (s *serveRun) nAlive() int {
	n := 0
	for _, src := range s.srcs {
		if src.on {
			n++
		}
	}
	return n
}

// missing describes the first difference between what alive sources hold and
// what is listed.
func (s *serveRun) missing() string {
	all, ok := s.get("/")
	if !ok {
		return "no answer"
	}
	got := map[string]attrs{}
	for _, en := range all {
		got[recKey(atoi(en.attrs[0]), en.attrs[1])] = en.attrs
	}
	for _, src := range s.srcs {
		if !src.on {
			continue
		}
		for _, id := range src.ids {
			want := src.recs[id]
			if !s.served(atoi(want[0])) {
				continue
			}
			if got[id] == nil {
				return id + " is missing"
			}
			if g, w := got[id].String(), want.String(); g != w {
				return fmt.Sprintf("%s is %s instead of %s", id, g, w)
			}
		}
	}
	return ""
}

func runServe(e *sim.Env) {
	p := e.Plan
	s := &serveRun{toolRun: newToolRun(e)}
	for i := 1; i <= int(p.P("sources")); i++ {
		src := newScriptSource(i, fmt.Sprint("s", i), []string{"ROUTER", "CONTROLLER", "ROUTER"}[p.P(fmt.Sprint("type", i))], time.Duration(p.P(fmt.Sprint("beacon", i))))
		s.srcs = append(s.srcs, src)
		src.mute, src.deaf = p.P(fmt.Sprint("mute", i)) == 1, p.P(fmt.Sprint("deaf", i)) == 1
		if src.deaf {
			continue
		}
		s.r.vrecv[src.direct] = append(s.r.vrecv[src.direct], &vreceiver{addr: src.direct, got: func(m *rmsg) {
			w := readWire(m.raw)
			if w.subject != "FLUSH" {
				e.Violate("bad-flush", "%s got a message with subject %q", src.direct, w.subject)
				return
			}
			e.Logf("source %s gets a flush", src.id)
			src.flushes = append(src.flushes, e.Now())
			go func() {
				time.Sleep(100 * time.Millisecond)
				s.dump(src)
			}()
		}})
	}
	s.options("a", "include-flow-records", p.P("flows"), "include-log-records", p.P("logs"))
	s.start(simtoola.Main)
	if d := p.P("early"); d != 0 {
		go func() {
			time.Sleep(time.Duration(d))
			if !s.interrupt() {
				return
			}
			s.awaitExit()
			e.NonTrivial()
			e.Finish()
		}()
	}
	host := "router"
	for k := 0; k < int(p.P("rounds")); k++ {
		base := 10 * (k + 1)
		W := time.Duration(p.P(fmt.Sprint("window", k)))
		for _, c := range []int{base, base + 1, base + 2} {
			for _, op := range p.Of(c) {
				go func() {
					time.Sleep(time.Duration(op.At))
					if s.hasExit {
						return
					}
					switch {
					case op.K == "toggle":
						s.turn(s.srcs[op.A-1], !s.srcs[op.A-1].on)
					case op.K == "rec":
						if src := s.srcs[op.A-1]; src.on {
							s.publish(src, uint64(op.B))
						}
					case op.K == "get" && c == base+2:
						if s.lis != nil {
							s.get(servePaths[op.A])
						}
					case op.K == "idle":
						s.idleRequest(time.Duration(op.B))
					default:
						s.faultAny(host, op)
					}
				}()
			}
		}
		time.Sleep(faultWindow)
		s.r.heal(nil)
		time.Sleep(W - faultWindow + time.Millisecond)
		var got string
		if !e.Until(150*time.Second, time.Second, func() bool { got = s.listed(); return got == s.alive() }) {
			e.Violate("wrong-sources", "150s after all connections can be made again the source list is %q, alive are %q", got, s.alive())
			return
		}
		time.Sleep(time.Duration(p.P(fmt.Sprint("rest", k))))
		if e.Violated() {
			return
		}
	}
	// no more faults
	e.Quiet()
	s.r.heal(nil)
	e.Logf("faults end")
	if p.P("rounds") > 0 {
		e.Settle(150 * time.Second)
		e.NonTrivial()
	} else {
		e.Settle(5 * time.Second)
	}
	if s.lis == nil {
		e.Violate("no-server", "nobody listens for HTTP requests")
		return
	}
	if got := s.listed(); got != s.alive() {
		e.Violate("wrong-sources", "long after faults ended the source list is %q, alive are %q", got, s.alive())
		return
	}
	if n := s.conns(); n != 1+s.nAlive() {
		e.Violate("connections", "%d connections are open with %d sources alive", n, s.nAlive())
		return
	}
	// what alive sources send arrives
	for _, src := range s.srcs {
		if src.on {
			s.dump(src)
			for i := 0; i < 3; i++ {
				s.publish(src, e.Spec.Seed*31+uint64(i*7+src.no))
			}
		}
	}
	e.Settle(5 * time.Second)
	if d := s.missing(); d != "" {
		e.Violate("record-not-listed", "5s after its sources sent their records: %s", d)
		return
	}
	for _, path := range servePaths[2:10] {
		s.get(path)
	}
	// one source falls silent and returns, or comes for the first time
	src := s.srcs[int(e.Spec.Seed%uint64(len(s.srcs)))]
	if src.on {
		s.turn(src, false)
		e.Settle(25 * time.Second)
		if got := s.listed(); !strings.Contains(","+got+",", ","+src.id+",") {
			e.Violate("forgotten-early", "%s is not listed any more 25s after its last sign of life", src.id)
		}
		e.Settle(40 * time.Second)
		if got := s.listed(); got != s.alive() {
			e.Violate("wrong-sources", "65s after %s fell silent the source list is %q, alive are %q", src.id, got, s.alive())
			return
		}
		e.Settle(5 * time.Second)
		if n := s.conns(); n != 1+s.nAlive() {
			e.Violate("connections", "%d connections are open with %d sources alive", n, s.nAlive())
			return
		}
		e.Settle(time.Duration(1+e.Spec.Seed%40) * time.Second)
	}
	nf := len(src.flushes)
	s.turn(src, true)
	e.Settle(5 * time.Second)
	if got := s.listed(); got != s.alive() {
		e.Violate("wrong-sources", "5s after %s sent a beacon the source list is %q, alive are %q", src.id, got, s.alive())
		return
	}
	e.Settle(6 * time.Second)
	if len(src.flushes) <= nf && !src.deaf {
		e.Violate("not-flushed", "%s has got no flush 11s after it was discovered", src.id)
		return
	}
	if src.deaf {
		s.dump(src)
	}
	for i := 0; i < 3; i++ {
		s.publish(src, e.Spec.Seed*37+uint64(i))
	}
	e.Settle(5 * time.Second)
	if d := s.missing(); d != "" {
		e.Violate("record-not-listed", "after %s came back: %s", src.id, d)
		return
	}
	if e.Spec.Seed%3 == 1 && !s.churn(src) {
		return
	}
	if e.Spec.Seed%3 == 0 {
		go s.idleRequest(time.Minute)
		time.Sleep(10 * time.Millisecond)
	}
	s.interrupt()
	s.awaitExit()
}

// churn has a source fall silent and return: what the command runs for it
// does not add up.
func (s *serveRun) churn(src *scriptSource) bool {
	live := runtime.SimLive()
	s.turn(src, false)
	s.e.Settle(70 * time.Second)
	s.turn(src, true)
	s.e.Settle(16 * time.Second)
	if n := runtime.SimLive(); n > live {
		s.e.Violate("goroutines-left", "%d goroutines run with %d sources alive, %d after %s fell silent and came back", live, s.nAlive(), n, src.id)
		return false
	}
	return true
}

func (s *toolRun) faultAny(host string, op sim.Op) {
	// the fault hits one of the command's connections
	var live []*simConn
	for _, c := range s.n.conns {
		if !c.isClosed && !c.isReset {
			live = append(live, c)
		}
	}
	if len(live) > 0 {
		s.r.faultConn(live[s.e.R.N(len(live))], host, op)
	} else {
		s.r.faultConn(nil, host, op)
	}
}

func (t *toolRun) awaitExit() {
	if !t.e.Await(5*time.Second, t.exited) {
		t.e.Violate("no-exit", "5s after the interrupt the command still runs")
	}
}

func init() {
	sim.Scenarios["serve"] = &sim.Scenario{Gen: genServe, Run: runServe, Stalls: true, MaxStall: 200 * time.Millisecond, LightSched: true}
}
