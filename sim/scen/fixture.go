package scen

import (
	"encoding/json"
	"fmt"
	"net"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/store"
	simtoolb "github.com/c-kruse/vanflow/zz_simtoolb"

	"vsim/sim"
)

// Fixture: the tool's fixture command against the simulated router, with the
// harness as the collector that listens to it and as its HTTP clients.

func genFixture(r *sim.RNG, spec *sim.Spec) *sim.Plan {
	p := &sim.Plan{Params: map[string]int64{}}
	P := p.Params
	genRouterParams(r, P)
	W := sim.Pick(r, 5*time.Second, 16*time.Second, 40*time.Second)
	P["soup"] = int64(W)
	P["early"] = 0
	if r.P(10) {
		P["early"] = int64(r.Dur(time.Minute))
	}
	kinds := []string{"post", "post", "post", "bad", "partial", "flows", "flows", "getflows", "status", "flush", "badflows", "slowread", "stuckbody", "stuckpost", "method"}
	for i := 0; i < r.In(0, 14); i++ {
		p.Ops = append(p.Ops, sim.Op{C: 1 + r.N(3), K: sim.Pick(r, kinds...), A: int64(r.N(6)), B: int64(r.U64() >> 1), At: int64(r.Dur(W))})
	}
	if r.P(70) {
		addrs := []string{"mc/sfe.all", "mc/sfe.f1", "sfe.f1", "mc/sfe.f2"}
		for j := 0; j < r.In(1, 5); j++ {
			op := genFault(r, faultWindow-5*time.Second, 1, addrs, 5*time.Second)
			op.C = 90
			p.Ops = append(p.Ops, op)
		}
		if r.P(30) {
			p.Ops = append(p.Ops, sim.Op{C: 90, K: "restart", At: int64(r.Dur(time.Second)), B: int64(13*time.Second - r.Dur(10*time.Second))})
		}
	}
	genConn(r, spec, p, 90, faultWindow-5*time.Second)
	return p
}

// fxSource is a source as a fixture describes it.
type fxSource struct {
	id, typ string
	recs    map[string]attrs
}

// fxData is a fixture.
type fxData struct {
	srcs  map[string]*fxSource
	pairs []fxPair
	body  []byte
}

// fxPair is a flow and its counterflow, by source and record.
type fxPair struct{ srvSrc, srv, cliSrc, cli string }

type fixtureRun struct {
	*toolRun
	ever   map[string]map[string]bool // source id, records posted
	ids    []string
	last   map[string]map[string]time.Duration // source id, kind of message, when seen last
	dumped map[string]map[string]attrs         // source id, records received since
	newFl  map[string]attrs                    // flows made up by replays
	newSrc map[string]map[string]bool          // and the sources they come from
	posts  int                                 // in flight
	soupTo time.Duration
	odd    bool
}

// genFixtureData draws a fixture; dirt adds entries that are to be ignored.
func (f *fixtureRun) genData(r *sim.RNG, dirt bool) *fxData {
	d := &fxData{srcs: map[string]*fxSource{}}
	type entry struct {
		Meta     store.Metadata
		TypeMeta vanflow.TypeMeta
		Record   any
	}
	var entries []any
	ns := r.In(1, 4)
	var ids []string
	versions := map[string]string{}
	for _, k := range perm(r, 5)[:ns] {
		id := f.ids[k]
		ids = append(ids, id)
		s := &fxSource{id: id, typ: sim.Pick(r, "ROUTER", "CONTROLLER"), recs: map[string]attrs{}}
		n := sim.Pick(r, 1, 3, 12, 25)
		version := fmt.Sprint(r.In(1, 3))
		for i := 0; i < n; i++ {
			code := sim.Pick(r, 0, 1, 2, 4, 5, 7, 6, 14)
			rid := fmt.Sprintf("%s.%d.%d", id, code, i)
			a := clean(genAttrs(r, code, rid, r.N(100000), 40))
			if code == 6 {
				delete(a, 5)
			}
			s.recs[rid] = a
		}
		if r.P(15) {
			// a flow whose other side is not part of the fixture
			rid := id + ".dangling"
			s.recs[rid] = attrs{0: "6", 1: rid, 5: "nobody"}
		}
		d.srcs[id] = s
		versions[id] = version
	}
	for k, id := range ids {
		for i := 0; i < sim.Pick(r, 0, 0, 1, 5, 30/len(ids)); i++ {
			cid := id
			if r.P(40) {
				cid = ids[(k+r.N(len(ids)))%len(ids)]
			}
			pair := fxPair{id, fmt.Sprintf("%s.p%d", id, i), cid, fmt.Sprintf("%s.q%d.%s", cid, i, id)}
			a := genAttrs(r, 6, pair.srv, r.N(100000), 40)
			a[5] = pair.cli
			d.srcs[id].recs[pair.srv] = clean(a)
			c := genAttrs(r, 6, pair.cli, r.N(100000), 40)
			delete(c, 5)
			d.srcs[cid].recs[pair.cli] = clean(c)
			d.pairs = append(d.pairs, pair)
		}
	}
	for _, id := range ids {
		s, version := d.srcs[id], versions[id]
		var rids []string
		for rid := range s.recs {
			rids = append(rids, rid)
		}
		sort.Strings(rids)
		for i, rid := range rids {
			a := s.recs[rid]
			v := version
			if i%5 == 4 && r.P(30) {
				v = "9" // recorded before the source was upgraded
			}
			rec := recordOf(a)
			entries = append(entries, entry{Meta: store.Metadata{Source: store.SourceRef{APIVersion: v, Type: s.typ, Name: id}}, TypeMeta: rec.GetTypeMeta(), Record: rec})
			if dirt && r.P(25) {
				m := store.Metadata{Source: store.SourceRef{APIVersion: version, Type: s.typ, Name: id}}
				tm := rec.GetTypeMeta()
				switch r.N(7) {
				case 0:
					entries = append(entries, entry{Meta: m, TypeMeta: vanflow.TypeMeta{APIVersion: "flow/v1", Type: "Nonsense"}, Record: rec})
				case 1:
					entries = append(entries, entry{Meta: m, TypeMeta: tm, Record: "text"})
				case 2:
					entries = append(entries, entry{Meta: m, TypeMeta: tm, Record: nil})
				case 3:
					entries = append(entries, entry{Meta: m, TypeMeta: tm, Record: map[string]any{}})
				case 4:
					entries = append(entries, entry{Meta: m, TypeMeta: tm, Record: map[string]any{"ID": rid + ".old", "StartTime": "1812-06-24T00:00:00Z"}})
				case 5:
					entries = append(entries, map[string]any{"Meta": m, "TypeMeta": tm})
				case 6:
					entries = append(entries, entry{Meta: m, TypeMeta: tm, Record: map[string]any{"ID": 7, "Name": []int{1}}})
				}
			}
		}
		for rid, a := range s.recs {
			f.everAdd(id, rid, a)
		}
	}
	body, err := json.Marshal(map[string]any{"data": entries})
	if err != nil {
		f.e.Errorf("cannot encode a fixture: %v", err)
	}
	d.body = body
	return d
}

func (f *fixtureRun) everAdd(id, rid string, a attrs) {
	if f.ever[id] == nil {
		f.ever[id] = map[string]bool{}
	}
	f.ever[id][a.String()] = true
}

func perm(r *sim.RNG, n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.N(i + 1)
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (f *fixtureRun) listen() {
	e := f.e
	see := func(id, kind string) {
		if f.last[id] == nil {
			f.last[id] = map[string]time.Duration{}
		}
		f.last[id][kind] = e.Now()
	}
	on := func(addr string, got func(w wireRead)) {
		f.r.vrecv[addr] = append(f.r.vrecv[addr], &vreceiver{addr: addr, got: func(m *rmsg) {
			w := readWire(m.raw)
			if w.bad != "" {
				e.Violate("bad-message", "on %s: %s", addr, w.bad)
				return
			}
			got(w)
		}})
	}
	on("mc/sfe.all", func(w wireRead) {
		id := fmt.Sprint(w.props["id"])
		if w.subject != "BEACON" || w.props["address"] != "mc/sfe."+id || w.props["direct"] != "sfe."+id {
			e.Violate("bad-beacon", "beacon %v", w.props)
			return
		}
		see(id, "beacon")
		see(id, "type "+fmt.Sprint(w.props["sourceType"]))
	})
	for _, id := range f.ids {
		for _, suf := range []string{"", ".heartbeats", ".flows", ".logs"} {
			on("mc/sfe."+id+suf, func(w wireRead) {
				switch w.subject {
				case "HEARTBEAT":
					see(id, "heartbeat"+suf)
					if w.props["id"] != id {
						e.Violate("bad-heartbeat", "heartbeat of %v on the address of %s", w.props["id"], id)
					}
				case "RECORD":
					see(id, "record")
					for _, a := range w.recs {
						a = clean(a)
						if a[0] == "6" && strings.Contains(a[1], ":") {
							f.newFl[a[1]] = mergeAttrs(f.newFl[a[1]], a)
							if f.newSrc[a[1]] == nil {
								f.newSrc[a[1]] = map[string]bool{}
							}
							f.newSrc[a[1]][id] = true
							continue
						}
						if !f.ever[id][a.String()] && !f.odd {
							e.Violate("fabricated-record", "%s sends %s, which was never posted", id, a)
						}
						if f.dumped[id] == nil {
							f.dumped[id] = map[string]attrs{}
						}
						f.dumped[id][a[1]] = a
					}
				default:
					e.Violate("bad-message", "%s sends a %q", id, w.subject)
				}
			})
		}
	}
}

// request makes a request that has to be answered in time, however other
// clients behave.
func (f *fixtureRun) request(method, path string, body []byte) (res httpResult, ok bool) {
	if f.lis == nil {
		return
	}
	base := f.stallBase()
	limit := 5 * time.Second
	if method == "POST" && path == "/" {
		f.posts++
		limit += time.Duration(f.posts+2) * 3 * time.Second
		defer func() { f.posts-- }()
	}
	res = f.do(method, path, body, limit+f.stallSince(base))
	if f.stopped {
		return res, false
	}
	if res.err != nil {
		if f.stallSince(base) == 0 {
			f.e.Violate("http-failed", "%s %s is not answered: %v", method, path, res.err)
		}
		return res, false
	}
	f.e.Logf("%s %s: %d", method, path, res.code)
	return res, true
}

func (f *fixtureRun) post(d *fxData) bool {
	f.e.Logf("posting %d sources", len(d.srcs))
	res, ok := f.request("POST", "/", d.body)
	if !ok {
		return false
	}
	if res.code != 200 {
		f.e.Violate("post-refused", "a valid fixture was answered with status %d: %.200s", res.code, res.body)
		return false
	}
	return true
}

func (f *fixtureRun) op(op sim.Op) {
	e := f.e
	r := sim.NewRNG(uint64(op.B))
	switch op.K {
	case "post":
		f.post(f.genData(r, false))
	case "partial":
		f.post(f.genData(r, true))
	case "bad":
		e.Fault("malformed-post")
		body := sim.Pick(r, "", "{", "null", "[]", `{"data":null}`, `{"data":[{}]}`, `{"data":[null]}`, `{"data":5}`, `{"data":[{"Meta":5}]}`, `{"data":[{"TypeMeta":{"APIVersion":"flow/v1","Type":"SiteRecord"},"Record":{"ID":"x"}}]}`, strings.Repeat("[", 20000), "\x00\xff")
		f.odd = true
		f.request("POST", "/", []byte(body))
	case "method":
		f.request(sim.Pick(r, "PUT", "DELETE", "HEAD"), sim.Pick(r, "/", "/flows", "/x"), nil)
	case "flows":
		f.request("POST", "/flows", []byte(fmt.Sprintf(`{"flows":%d,"duration":%d}`, r.In(0, 30), r.In(0, 5))))
	case "badflows":
		e.Fault("malformed-flow-request")
		f.request("POST", "/flows", []byte(sim.Pick(r, "", "{", "null", "[]", `{"flows":-1}`, `{"flows":-100000,"duration":-4}`, `{"flows":"x"}`, `{"flows":3,"duration":-2}`, `{"duration":1e30}`, "\x00")))
	case "getflows":
		f.request("GET", "/flows", nil)
	case "status":
		f.request("GET", "/", nil)
	case "flush":
		f.flush(f.ids[int(op.A)%5])
	case "slowread":
		f.hang("GET /flows HTTP/1.1\r\nHost: x\r\n\r\n", time.Duration(20+r.N(40))*time.Second)
	case "stuckbody":
		f.hang("POST /flows HTTP/1.1\r\nHost: x\r\nContent-Length: 100\r\n\r\n{", time.Duration(20+r.N(40))*time.Second)
	case "stuckpost":
		f.hang("POST / HTTP/1.1\r\nHost: x\r\nContent-Length: 100\r\n\r\n{\"da", time.Duration(20+r.N(40))*time.Second)
	}
}

// hang sends a request (or a part of one) and then neither sends nor reads.
func (f *fixtureRun) hang(req string, d time.Duration) {
	var c net.Conn
	c, err := f.connect(time.Second)
	if err != nil {
		return
	}
	f.e.Fault("http-client-stalls")
	c.SetDeadline(time.Now().Add(d))
	c.Write([]byte(req))
	time.Sleep(d)
	c.Close()
}

func (f *fixtureRun) flush(id string) { f.send("sfe."+id, amqpFlush("sfe."+id)) }

// expect checks that the tool impersonates exactly the sources of d, which
// was the only fixture posted lately.
func (f *fixtureRun) expect(d *fxData, label string) bool {
	e := f.e
	var ids []string
	for id := range d.srcs {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	e.Settle(time.Duration(len(ids))*500*time.Millisecond + 3*time.Second)
	from := e.Now()
	f.last = map[string]map[string]time.Duration{}
	f.dumped = map[string]map[string]attrs{}
	e.Settle(5 * time.Second)
	for _, id := range ids {
		hb := "heartbeat"
		if d.srcs[id].typ == "CONTROLLER" {
			hb = "heartbeat.heartbeats"
		}
		if f.last[id][hb] < from || f.last[id] == nil {
			e.Violate("source-silent", "%s: no heartbeat of %s in 5s", label, id)
			return false
		}
	}
	for _, id := range ids {
		f.dumped[id] = map[string]attrs{}
		f.flush(id)
	}
	e.Settle(6 * time.Second)
	for _, id := range ids {
		for rid, a := range d.srcs[id].recs {
			if got := f.dumped[id][rid]; got == nil || clean(got).String() != clean(a).String() {
				e.Violate("record-missing", "%s: %s answers a flush with %v instead of %v", label, id, got, a)
				return false
			}
		}
		if len(f.dumped[id]) != len(d.srcs[id].recs) {
			for rid := range f.dumped[id] {
				if d.srcs[id].recs[rid] == nil {
					e.Violate("record-extra", "%s: %s answers a flush with %s, which is not part of the fixture", label, id, rid)
					return false
				}
			}
		}
	}
	e.Settle(6 * time.Second)
	for _, id := range ids {
		if f.last[id]["beacon"] < from {
			e.Violate("no-beacon", "%s: no beacon of %s for %v", label, id, e.Now()-from)
			return false
		}
		if _, ok := f.last[id]["type "+d.srcs[id].typ]; !ok {
			e.Violate("wrong-type", "%s: %s is not announced as %s", label, id, d.srcs[id].typ)
			return false
		}
	}
	var seen []string
	for id := range f.last {
		seen = append(seen, id)
	}
	sort.Strings(seen)
	for _, id := range seen {
		if d.srcs[id] == nil {
			e.Violate("source-not-silent", "%s: %s, which the last fixture does not contain, still sends %v", label, id, f.last[id])
			return false
		}
	}
	// the command's own container has no links, and so does not notice that
	// its connection is lost
	linked := 0
	for _, c := range f.n.conns {
		if !c.isClosed && !c.isReset && !c.rc.closed && len(c.rc.all) > 0 {
			linked++
		}
	}
	if n := f.conns(); n > 1+len(ids) || linked != len(ids) {
		e.Violate("connections", "%s: %d connections are open, %d with links, for %d sources", label, n, linked, len(ids))
		return false
	}
	return true
}

// replay has the flows of a fixture replayed.
func (f *fixtureRun) replay(d *fxData, n, seconds int) bool {
	e, p := f.e, f.e.Plan
	f.newFl = map[string]attrs{}
	f.newSrc = map[string]map[string]bool{}
	f.request("POST", "/flows", []byte(fmt.Sprintf(`{"flows":%d,"duration":%d}`, n, seconds)))
	// every update is a message of its own, sent when the last one was settled
	per := 4*time.Duration(p.P("lat")+p.P("settle")) + 5*time.Millisecond
	e.Settle(time.Duration(4+seconds)*time.Second + time.Duration(2*n*len(d.pairs)*5)*per)
	// what a side says of its flow, and where
	side := func(src string, a attrs, codes ...int) string {
		out := attrs{}
		for _, c := range codes {
			if v, ok := a[c]; ok {
				out[c] = v
			}
		}
		return src + " " + out.String()
	}
	pair := func(srvSrc string, srv attrs, cliSrc string, cli attrs) string {
		return side(srvSrc, srv, 2, 14, 17, 31) + " <- " + side(cliSrc, cli, 2, 14, 17)
	}
	want, got := map[string]int{}, map[string]int{}
	for _, pr := range d.pairs {
		want[pair(pr.srvSrc, d.srcs[pr.srvSrc].recs[pr.srv], pr.cliSrc, d.srcs[pr.cliSrc].recs[pr.cli])] += n
	}
	var done, srv int
	var ids []string
	for id := range f.newFl {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	from := func(id string) string {
		var srcs []string
		for s := range f.newSrc[id] {
			srcs = append(srcs, s)
		}
		sort.Strings(srcs)
		return strings.Join(srcs, "+")
	}
	for _, id := range ids {
		a := f.newFl[id]
		if a[4] != "" {
			done++
		}
		if c := a[5]; c != "" {
			srv++
			if f.newFl[c] == nil {
				e.Violate("flow-replay", "the replayed flow %s has no other side %s", a[1], c)
				return false
			}
			got[pair(from(id), a, from(c), f.newFl[c])]++
		}
	}
	if len(f.newFl) != 2*n*len(d.pairs) || done != len(f.newFl) || srv != n*len(d.pairs) {
		e.Violate("flow-replay", "a replay of %d flows for %d pairs made %d flows, %d finished, %d with a counterflow", n, len(d.pairs), len(f.newFl), done, srv)
		return false
	}
	var keys []string
	for k := range want {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if got[k] != want[k] {
			e.Violate("flow-replay", "a replay of %d flows made %d instead of %d flows like %s", n, got[k], want[k], k)
			return false
		}
	}
	return true
}

func (f *fixtureRun) status() string {
	res, ok := f.request("GET", "/", nil)
	if !ok {
		return "?"
	}
	var st struct{ Status string }
	if err := json.Unmarshal(res.body, &st); err != nil {
		f.e.Violate("http-bad-response", "GET /: %v in %.100q", err, res.body)
	}
	return st.Status
}

func runFixture(e *sim.Env) {
	p := e.Plan
	f := &fixtureRun{toolRun: newToolRun(e), ever: map[string]map[string]bool{}, ids: []string{"f1", "f2", "f3", "f4", "f5"},
		last: map[string]map[string]time.Duration{}, dumped: map[string]map[string]attrs{}, newFl: map[string]attrs{}, newSrc: map[string]map[string]bool{}}
	f.listen()
	f.options("b")
	f.start(simtoolb.Main)
	if d := p.P("early"); d != 0 {
		go func() {
			time.Sleep(time.Duration(d))
			if !f.interrupt() {
				return
			}
			f.awaitExit()
			e.NonTrivial()
			e.Finish()
		}()
	}
	time.Sleep(time.Second)
	g := sim.NewGroup()
	for c := 1; c <= 3; c++ {
		ops := p.Of(c)
		if len(ops) > 0 {
			e.NonTrivial()
		}
		g.Go(func() {
			for _, op := range ops {
				time.Sleep(time.Duration(op.At))
				if f.stopped {
					return
				}
				if op.K == "slowread" || op.K == "stuckbody" || op.K == "stuckpost" {
					go f.op(op)
					continue
				}
				f.op(op)
			}
		})
	}
	for _, op := range p.Of(90) {
		go func() {
			time.Sleep(time.Duration(op.At))
			f.faultAny("router", op)
		}()
	}
	time.Sleep(faultWindow)
	f.r.heal(nil)
	if !e.Await(5*time.Minute, g.Done()) {
		e.Violate("http-failed", "the HTTP clients are still blocked")
		return
	}
	e.Quiet()
	e.Logf("faults end")
	e.Settle(65 * time.Second)
	if e.Violated() {
		return
	}
	r := sim.NewRNG(e.Spec.Seed ^ 0xf1f1)
	d1 := f.genData(r, r.P(50))
	if !f.post(d1) || !f.expect(d1, "first fixture") {
		return
	}
	if st := f.status(); st != "running" {
		e.Violate("status", "the status is %q while the fixture is running", st)
	}
	// malformed requests change nothing
	for _, b := range []string{"{", "5", `{"data":7}`} {
		if res, ok := f.request("POST", "/", []byte(b)); ok && res.code != 400 {
			e.Violate("bad-post-accepted", "POST %s: status %d", b, res.code)
		}
	}
	f.request("POST", "/flows", []byte(`{"flows":-3}`))
	if !f.replay(d1, r.In(1, 5), sim.Pick(r, 0, 1, 2, 3)) {
		return
	}
	if !f.expect(d1, "after bad requests") {
		return
	}
	// replaced
	d2 := f.genData(r, r.P(50))
	if r.P(50) {
		d0 := f.genData(r, false)
		if !f.post(d0) {
			return
		}
	}
	if !f.post(d2) || !f.expect(d2, "second fixture") {
		return
	}
	if r.P(30) {
		// once more: what was started for it before has ended
		live := runtime.SimLive()
		if !f.post(d2) || !f.expect(d2, "second fixture again") {
			return
		}
		if n := runtime.SimLive(); n > live {
			e.Violate("goroutines-left", "%d goroutines run for a fixture of %d sources, %d after it is posted again", live, len(d2.srcs), n)
			return
		}
	}
	if r.P(30) {
		f.post(&fxData{body: []byte(`{"data":[]}`)})
		if !f.expect(&fxData{}, "empty fixture") {
			return
		}
	}
	if e.Spec.Seed%3 == 0 {
		go f.hang("POST /flows HTTP/1.1\r\nHost: x\r\nContent-Length: 100\r\n\r\n{", time.Minute)
		time.Sleep(10 * time.Millisecond)
	}
	f.interrupt()
	f.awaitExit()
}

func init() {
	sim.Scenarios["fixture"] = &sim.Scenario{Gen: genFixture, Run: runFixture, Stalls: true, MaxStall: 200 * time.Millisecond, LightSched: true}
}
