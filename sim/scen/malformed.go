package scen

import (
	"context"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/eventsource"
	"github.com/c-kruse/vanflow/store"

	"vsim/sim"
)

// Malformed: arbitrary messages arrive on every address a component listens
// to, mixed with valid ones; afterwards everything still works.

var malformedAddrs = []string{"mc/beacons", "mc/sfe.src1", "mc/sfe.src1.flows", "mc/sfe.src1.logs", "mc/sfe.src1.heartbeats", "mgr.direct"}

func genMalformed(r *sim.RNG, spec *sim.Spec) *sim.Plan {
	p := &sim.Plan{Params: map[string]int64{"acceptErr": int64(r.N(2) * r.N(20)), "dup": int64(r.N(2) * r.N(20))}}
	for i := 0; i < r.In(1, 25); i++ {
		p.Ops = append(p.Ops, sim.Op{C: 1, K: "msg", At: int64(r.Dur(50 * time.Millisecond)), A: int64(r.N(len(malformedAddrs))), B: int64(r.U64() >> 1)})
	}
	return p
}

// oddValue draws any value AMQP can carry.
func oddValue(r *sim.RNG, depth int) any {
	n := 22
	if depth <= 0 {
		n = 18
	}
	switch r.N(n) {
	case 0, 1:
		return nil
	case 2:
		return r.P(50)
	case 3:
		return uint8(r.U64())
	case 4:
		return uint16(r.U64())
	case 5, 6:
		return sim.Pick(r, uint32(0), uint32(1), uint32(14), uint32(r.U64()), uint32(4294967295))
	case 7, 8:
		return sim.Pick(r, uint64(0), uint64(1), uint64(1)<<63, r.U64(), ^uint64(0))
	case 9:
		return int8(r.U64())
	case 10:
		return int16(r.U64())
	case 11:
		return int32(r.U64())
	case 12:
		return int64(r.U64())
	case 13:
		return float64(r.N(100)) / 7
	case 14:
		return sim.Pick(r, "", "x", "src1", "RECORD", strings.Repeat("y", 70000))
	case 15:
		return []byte("bytes")
	case 16:
		return time.UnixMilli(int64(r.N(1 << 40)))
	case 17:
		return float32(1)
	case 18:
		return []string{"a", "b"}
	case 19:
		return amqp.UUID{1, 2, 3}
	case 20:
		l := []any{}
		for i := 0; i < r.N(4); i++ {
			l = append(l, oddValue(r, depth-1))
		}
		return l
	}
	m := map[any]any{}
	for i := 0; i < r.N(4); i++ {
		m[oddKey(r)] = oddValue(r, depth-1)
	}
	return m
}

func oddKey(r *sim.RNG) any {
	switch r.N(6) {
	case 0:
		return fmt.Sprint("k", r.N(3))
	case 1:
		return uint64(r.N(5))
	case 2:
		return int32(r.N(5))
	default:
		return uint32(r.N(60))
	}
}

// oddRecord is a record with something wrong, or nothing.
func oddRecord(r *sim.RNG) any {
	if r.P(10) {
		return oddValue(r, 2)
	}
	rec := wireAttrs(genAttrs(r, randType(r), fmt.Sprint("odd", r.N(3)), r.N(1000), 40))
	for i := 0; i < r.N(4); i++ {
		switch r.N(5) {
		case 0:
			delete(rec, uint32(r.N(2)))
		case 1:
			// wrong or null value for an attribute of the type
			rt, _ := typeByCode(int(r.N(15)))
			if c, ok := rec[uint32(0)].(uint32); ok {
				rt, _ = typeByCode(int(c))
			}
			if rt.t != nil {
				fs := fieldsOf(rt.t)
				if len(fs) > 0 {
					rec[uint32(fs[r.N(len(fs))].code)] = oddValue(r, 1)
				}
			}
		case 2:
			rec[oddKey(r)] = oddValue(r, 1)
		case 3:
			rec[uint32(r.N(2))] = oddValue(r, 1)
		case 4:
			rec[uint32(3+r.N(2))] = sim.Pick(r, uint64(1)<<62, uint64(1)<<63, ^uint64(0), uint64(0), uint64(253402300800000000))
		}
	}
	return rec
}

func oddMessage(r *sim.RNG, to string) *amqp.Message {
	m := &amqp.Message{}
	if r.P(90) {
		m.Properties = &amqp.MessageProperties{}
		if r.P(80) {
			m.Properties.To = sim.Pick(r, &to, ptr(""), ptr("elsewhere"))
		}
		if r.P(90) {
			m.Properties.Subject = ptr(sim.Pick(r, "RECORD", "RECORD", "RECORD", "RECORD", "HEARTBEAT", "BEACON", "BEACON", "FLUSH", "", "record", "WHAT"))
		}
		if r.P(20) {
			m.Properties.ReplyTo = ptr("reply")
		}
	}
	if r.P(70) {
		m.ApplicationProperties = map[string]any{}
		for _, k := range []string{"v", "sourceType", "address", "direct", "id", "now"} {
			switch {
			case r.P(40):
				m.ApplicationProperties[k] = scalar(r)
			case r.P(40):
				m.ApplicationProperties[k] = map[string]any{"v": uint32(1), "sourceType": "T", "address": "mc/x", "direct": "x", "id": fmt.Sprint("odd", r.N(3)), "now": uint64(5)}[k]
			}
		}
	}
	switch r.N(12) {
	case 0:
	case 1:
		m.Value = oddValue(r, 3)
	case 2:
		m.Data = [][]byte{[]byte("data"), nil}
	default:
		l := []any{}
		for i := 0; i < sim.Pick(r, 0, 1, 2, 3, 200); i++ {
			l = append(l, oddRecord(r))
		}
		m.Value = l
	}
	return m
}

// readRecords is what a record message says, if it can be decoded.
func readRecords(m *amqp.Message) (string, bool) {
	list, ok := m.Value.([]any)
	if !ok {
		return "", false
	}
	var out []string
	for _, x := range list {
		rec, ok := x.(map[any]any)
		if !ok {
			return "", false
		}
		code, ok := rec[uint32(0)].(uint32)
		if !ok {
			return "", false
		}
		rt, ok := typeByCode(int(code))
		if !ok {
			return "", false
		}
		id, ok := rec[uint32(1)].(string)
		if !ok {
			return "", false
		}
		a := attrs{0: fmt.Sprint(code), 1: id}
		for _, f := range fieldsOf(rt.t) {
			v, ok := rec[uint32(f.code)]
			if !ok {
				continue
			}
			switch f.kind {
			case "s":
				_, ok = v.(string)
			case "u":
				_, ok = v.(uint64)
			case "U":
				_, ok = v.(uint32)
			case "i":
				_, ok = v.(int64)
			case "I":
				_, ok = v.(int32)
			case "t":
				var n uint64
				n, ok = v.(uint64)
				ok = ok && n <= math.MaxInt64
			}
			if !ok {
				return "", false
			}
			a[f.code] = fmt.Sprint(v)
		}
		out = append(out, a.String())
	}
	return strings.Join(out, " | "), true
}

// scalar is a value application properties may carry.
func scalar(r *sim.RNG) any {
	for {
		v := oddValue(r, 0)
		return v
	}
}

func runMalformed(e *sim.Env) {
	p := e.Plan
	b := newBus(e)
	b.f = busFaults{acceptErr: int(p.P("acceptErr")), dup: int(p.P("dup"))}
	ctx, cancel := context.WithCancel(context.Background())
	var (
		d    *eventsource.Discovery
		c    *eventsource.Client
		m    *eventsource.Manager
		recs = map[string]int{}
		hbs  = map[string]int{}
		hbn  int
		msgs = map[string]int{}
		disc = map[string]int{}
		st   store.Interface
	)
	ends := map[string]bool{}
	sim.Atomic(func() {
		d = eventsource.NewDiscovery(b.container("disc"), eventsource.DiscoveryOptions{BeaconAddress: "mc/beacons"})
		c = eventsource.NewClient(b.container("client"), eventsource.ClientOptions{Source: srcInfo})
		st = store.NewDefaultCachingStore(store.CacheConfig{})
		mst := store.NewDefaultCachingStore(store.CacheConfig{})
		mst.Add(ctx, store.Entry{Record: vanflow.SiteRecord{BaseRecord: vanflow.NewBase("mgr-site")}})
		m = eventsource.NewManager(b.container("mgr"), eventsource.ManagerConfig{
			Source: eventsource.Info{ID: "mgr", Version: 1, Type: "M", Address: "mc/mgr", Direct: "mgr.direct"}, Stores: []store.Interface{mst}})
		var reg store.DispatchRegistry
		for _, rt := range recTypes {
			reg.RegisterStore(reflect.New(rt.t).Elem().Interface().(vanflow.Record), st)
		}
		disp := reg.NewDispatcher(srcRef(1))
		c.OnRecord(func(msg vanflow.RecordMessage) {
			disp.Dispatch(msg)
			var all []string
			for _, x := range msg.Records {
				recs[idOf(x)]++
				a, _ := attrsOf(x)
				all = append(all, a.String())
			}
			msgs[strings.Join(all, " | ")]++
		})
		c.OnHeartbeat(func(msg vanflow.HeartbeatMessage) {
			hbs[fmt.Sprint(msg.Now)]++
			hbn++
		})
	})
	for _, a := range []string{"mc/sfe.all", "mc/mgr"} {
		b.container("other").NewReceiver(a, noOpts)
	}
	go func() {
		d.Run(ctx, eventsource.DiscoveryHandlers{Discovered: func(i eventsource.Info) { disc[i.ID]++ }})
		ends["discovery"] = true
	}()
	go func() {
		m.Run(ctx)
		ends["manager"] = true
	}()
	for i := int64(0); i < 4; i++ {
		c.Listen(ctx, listenTo(i))
	}
	for _, op := range p.Ops {
		time.Sleep(time.Duration(op.At))
		addr := malformedAddrs[op.A]
		r := sim.NewRNG(uint64(op.B))
		msg := oddMessage(r, addr)
		raw, err := msg.MarshalBinary()
		if err != nil {
			e.Probe("not-encodable")
			continue
		}
		if err := new(amqp.Message).UnmarshalBinary(raw); err != nil {
			e.Probe("not-decodable-by-amqp")
			continue
		}
		e.Fault("malformed-message")
		b.inject("source", addr, msg)
	}
	e.Settle(time.Second)
	b.quiet()
	e.Quiet()
	e.Settle(time.Second)
	for k := range ends {
		e.Violate("component-ended", "%s ended after malformed messages", k)
	}
	// the client has handled what can be decoded of what it took, as it was
	var took, accepted, hbTook, hbAccepted = map[string]int{}, map[string]int{}, 0, 0
	for _, rc := range b.recvs {
		if rc.owner != "client" {
			continue
		}
		for _, y := range rc.seq {
			pr := y.msg.Properties
			if pr == nil || pr.Subject == nil {
				continue
			}
			switch *pr.Subject {
			case "HEARTBEAT":
				hbTook++
				if y.accepted {
					hbAccepted++
				}
			case "RECORD":
				if text, ok := readRecords(y.msg); ok {
					took[text]++
					if y.accepted {
						accepted[text]++
						e.Probe("odd-but-decodable")
					}
				}
			}
		}
	}
	var texts []string
	for t := range took {
		texts = append(texts, t)
	}
	for t := range msgs {
		if took[t] == 0 {
			texts = append(texts, t)
		}
	}
	sort.Strings(texts)
	for _, t := range texts {
		if msgs[t] > took[t] {
			e.Violate("undecodable-handled", "the record handler got %d messages with %.300q, %d such messages arrived", msgs[t], t, took[t])
		}
		if msgs[t] < accepted[t] {
			e.Violate("decodable-not-handled", "the record handler got %d messages with %.300q of %d", msgs[t], t, accepted[t])
		}
	}
	if hbn > hbTook || hbn < hbAccepted {
		e.Violate("heartbeats-handled", "the heartbeat handler got %d messages, %d arrived", hbn, hbTook)
	}
	n0 := len(b.sent)
	for i := int64(0); i < 4; i++ {
		addr := srcInfo.Address + suffixes[i]
		b.inject("source", addr, amqpRecords(addr, attrs{0: "0", 1: fmt.Sprint("valid", i)}))
		b.inject("source", addr, amqpHeartbeat(addr, srcInfo.ID, 1, uint64(1000000+i)))
	}
	b.inject("source", "mc/beacons", amqpBeacon("valid-source", "T", "mc/v", "v", 1))
	b.inject("source", "mgr.direct", amqpFlush("mgr.direct"))
	e.Settle(10 * time.Second)
	for i := 0; i < 4; i++ {
		id := fmt.Sprint("valid", i)
		if recs[id] != 1 {
			e.Violate("valid-record-lost", "a valid record after malformed messages on %q was handled %d times", suffixes[i], recs[id])
		}
		var got store.Single
		sim.Atomic(func() {
			got, _ = st.Get(ctx, store.Entry{Record: vanflow.SiteRecord{BaseRecord: vanflow.NewBase(id)}})
		})
		if !got.Found {
			e.Violate("valid-record-not-stored", "a valid record after malformed messages on %q was not stored", suffixes[i])
		}
		if n := hbs[fmt.Sprint(1000000+i)]; n != 1 {
			e.Violate("valid-heartbeat-lost", "a valid heartbeat after malformed messages on %q was handled %d times", suffixes[i], n)
		}
	}
	if disc["valid-source"] != 1 {
		e.Violate("valid-beacon-lost", "a valid beacon after malformed messages was discovered %d times", disc["valid-source"])
	}
	dumps := 0
	for _, s := range b.sent[n0:] {
		if w := readWire(s.raw); s.addr == "mc/mgr" && w.subject == "RECORD" {
			dumps++
		}
	}
	if dumps == 0 {
		e.Violate("valid-flush-lost", "a valid flush after malformed messages was not answered")
	}
	cancel()
	e.Settle(5 * time.Second)
	if len(p.Ops) > 0 {
		e.NonTrivial()
	}
}

func init() {
	sim.Scenarios["malformed"] = &sim.Scenario{Gen: genMalformed, Run: runMalformed}
}
