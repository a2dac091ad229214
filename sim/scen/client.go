package scen

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"strings"
	"time"

	"github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/eventsource"

	"vsim/sim"
)

// Client: one source emits messages on its addresses, several goroutines
// listen, register handlers, flush and close on clients of it.

var srcInfo = eventsource.Info{ID: "src1", Version: 1, Type: "CONTROLLER", Address: "mc/sfe.src1", Direct: "sfe.src1"}

var suffixes = []string{"", ".flows", ".logs", ".heartbeats"}

// slowProvider takes a while to say what to listen to.
type slowProvider struct {
	eventsource.ListenerConfigProvider
	d time.Duration
}

func (p slowProvider) Get(i eventsource.Info) eventsource.ListenerConfig {
	time.Sleep(p.d)
	return p.ListenerConfigProvider.Get(i)
}

// creditProvider asks for credit of its own.
type creditProvider struct {
	eventsource.ListenerConfigProvider
	credit int
}

func (p creditProvider) Get(i eventsource.Info) eventsource.ListenerConfig {
	cfg := p.ListenerConfigProvider.Get(i)
	cfg.Credit = p.credit
	return cfg
}

func listenTo(n int64) eventsource.ListenerConfigProvider {
	switch n {
	case 1:
		return eventsource.FromSourceAddressFlows()
	case 2:
		return eventsource.FromSourceAddressLogs()
	case 3:
		return eventsource.FromSourceAddressHeartbeats()
	}
	return eventsource.FromSourceAddress()
}

func genClient(r *sim.RNG, spec *sim.Spec) *sim.Plan {
	p := &sim.Plan{Params: map[string]int64{}}
	faults := r.P(60)
	pct := func(max int) int64 {
		if !faults || !r.P(50) {
			return 0
		}
		return int64(r.In(1, max))
	}
	p.Params["nextErr"] = pct(30)
	p.Params["acceptErr"] = pct(30)
	p.Params["acceptBlock"] = pct(20)
	p.Params["dup"] = pct(20)
	p.Params["lose"] = pct(10)
	if faults && r.P(40) {
		p.Params["delay"] = int64(r.Dur(2 * time.Second))
		p.Params["reorder"] = int64(r.N(2))
	}
	flushProp := spec.Prop == "E03"
	if flushProp {
		p.Params["directListener"] = sim.Pick(r, int64(1), 1, 1, 0)
		p.Params["sendErr"] = pct(30)
		p.Params["lateErr"] = pct(50)
	} else {
		p.Params["directListener"] = 1
	}
	scale := sim.Pick(r, 10*time.Microsecond, time.Millisecond, 300*time.Millisecond)
	at := func() int64 {
		if r.P(35) {
			return 0
		}
		return int64(r.Dur(scale))
	}
	// source
	n := r.In(2, 25)
	for i := 1; i <= n; i++ {
		k := sim.Pick(r, "rec", "rec", "hb", "hb", "beacon", "flush", "junk")
		if flushProp && i <= n/2 && p.Params["x"] == 0 {
			k = sim.Pick(r, "beacon", "junk", "flush", "rec", "hb")
		}
		p.Ops = append(p.Ops, sim.Op{C: 1, K: k, At: at(), A: int64(r.N(4)), B: int64(i)})
		if flushProp && r.P(30) {
			p.Ops = append(p.Ops, sim.Op{C: 1, K: "rec", A: 0, B: int64(100 + i)}, sim.Op{C: 1, K: "hb", A: 0, B: int64(200 + i)})
		}
	}
	closes := r.P(60) || spec.Prop == "E02"
	for c := 2; c <= r.In(2, 4); c++ {
		if c == 2 {
			if r.P(80) {
				p.Ops = append(p.Ops, sim.Op{C: c, K: sim.Pick(r, "onrec", "onhb"), A: int64(r.N(3)), B: handlerCost(r)})
			}
			op := sim.Op{C: c, K: "listen", A: 0}
			if spec.Prop == "C08" {
				op.B = sim.Pick(r, int64(1), 1, 2, 3, 10, 256, 5000, 0)
			}
			p.Ops = append(p.Ops, op)
		}
		for i := 0; i < r.In(1, 7); i++ {
			op := sim.Op{C: c, At: at(), K: sim.Pick(r, "listen", "listen", "onrec", "onhb", "close", "cancel", "flush", "sendflush")}
			switch op.K {
			case "listen":
				op.A = int64(r.N(4))
				if spec.Prop == "E02" && r.P(25) {
					op.B = int64(r.Dur(scale))
				}
				if spec.Prop == "C08" {
					op.B = sim.Pick(r, int64(1), 1, 2, 3, 10, 256, 5000, 0)
				}
			case "onrec", "onhb":
				op.B = handlerCost(r)
			case "close":
				if !closes {
					continue
				}
			case "cancel":
				op.A = int64(r.N(4))
			case "flush", "sendflush":
				if !flushProp && op.K == "flush" || spec.Prop == "E02" {
					continue
				}
				if op.K == "sendflush" && flushProp {
					op.K = "flush"
				}
				op.B = int64(r.Dur(sim.Pick(r, time.Millisecond, time.Second, time.Hour)))
			}
			p.Ops = append(p.Ops, op)
		}
		if flushProp && c == 2 {
			p.Ops = append(p.Ops, sim.Op{C: c, K: "flush", At: at(), B: int64(r.Dur(sim.Pick(r, time.Millisecond, time.Second, time.Hour)))})
		}
	}
	return p
}

func handlerCost(r *sim.RNG) int64 {
	if r.P(70) {
		return 0
	}
	return int64(r.Dur(time.Second))
}

type emitted struct {
	op   sim.Op
	recs []attrs
	now  uint64
}

type handlerCall struct {
	h    *clientHandler
	goid uint64
	tag  string
	text string
	tick int
	end  int
}

type clientHandler struct {
	n       int
	kind    string
	cost    time.Duration
	started int // registration
	ready   int
}

type clientRun struct {
	e        *sim.Env
	b        *bus
	c        *eventsource.Client
	tick     int
	handlers []*clientHandler
	calls    []*handlerCall
	inside   int
	closing  int // tick of first close or cancel
	closed   int // tick a Close returned
	texts    map[string]string
	cost     time.Duration
	cancels  []context.CancelFunc
	listens  []context.Context // of listeners
	ending   bool              // Close was called
	yieldT   map[*busReceiver][]int
	seenMsg  int // tick at which a record or heartbeat was first yielded
	flushes  []*flushCall
	flushG   *sim.Group
	asked    map[string]int // listeners by address and credit
}

type flushCall struct {
	start, ret int
	ctx        context.Context
	returned   bool
	ctxOver    bool
	err        error
	ctxEnd     int
	ctxEndT    time.Duration
	retT       time.Duration
}

func (r *clientRun) now() int { r.tick++; return r.tick }

func normRecs(recs []attrs) string {
	var out []string
	for _, a := range recs {
		b := attrs{}
		for k, v := range a {
			if v == "" || v == "0" && k > 1 {
				continue
			}
			b[k] = v
		}
		out = append(out, b.String())
	}
	return strings.Join(out, " | ")
}

// junk is a message that cannot be decoded.
func junk(n int64, to string) *amqp.Message {
	switch n % 6 {
	case 0:
		return &amqp.Message{Value: "x"}
	case 1:
		return &amqp.Message{Properties: &amqp.MessageProperties{To: &to}, Value: "y"}
	case 2:
		return &amqp.Message{Properties: &amqp.MessageProperties{To: &to, Subject: ptr("OTHER")}}
	case 3:
		return &amqp.Message{Properties: &amqp.MessageProperties{To: &to, Subject: ptr("RECORD")}, Value: "nope"}
	case 4:
		return &amqp.Message{Properties: &amqp.MessageProperties{To: &to, Subject: ptr("RECORD")}, Value: []any{map[any]any{uint32(0): uint32(9999), uint32(1): "a"}}}
	}
	return &amqp.Message{Properties: &amqp.MessageProperties{To: &to, Subject: ptr("RECORD")}, Value: []any{"z"}}
}

func runClient(e *sim.Env) {
	p := e.Plan
	b := newBus(e)
	b.f = busFaults{nextErr: int(p.P("nextErr")), acceptErr: int(p.P("acceptErr")), acceptBlock: int(p.P("acceptBlock")),
		dup: int(p.P("dup")), lose: int(p.P("lose")), sendErr: int(p.P("sendErr")), lateErr: int(p.P("lateErr")), delay: time.Duration(p.P("delay")), reorder: p.P("reorder") == 1}
	r := &clientRun{e: e, b: b, texts: map[string]string{}, asked: map[string]int{}, yieldT: map[*busReceiver][]int{}}
	var direct *busReceiver
	if p.P("directListener") == 1 {
		direct = b.container("source").NewReceiver(srcInfo.Direct, noOpts).(*busReceiver)
	}
	sim.Atomic(func() {
		r.c = eventsource.NewClient(b.container("client"), eventsource.ClientOptions{Source: srcInfo})
	})
	b.clock = r.now
	b.flow = e.Spec.Prop == "C08"
	b.onOpen = func(rc *busReceiver) {
		if rc.owner == "client" && r.closed > 0 && e.For("E02") {
			e.Violate("receiver-after-close", "the client opened a receiver of %s after Close had returned", rc.addr)
		}
		if rc.owner == "client" && b.flow {
			r.checkCredit(rc)
		}
	}
	b.onTake = func(rc *busReceiver) {
		if rc.owner != "client" {
			return
		}
		t := r.now()
		r.yieldT[rc] = append(r.yieldT[rc], t)
		w := readWire(rc.seq[len(rc.seq)-1].raw)
		if k := wireKind(w); (k == "rec" || k == "hb") && r.seenMsg == 0 {
			r.seenMsg = t
		}
	}
	g := sim.NewGroup()
	r.flushG = sim.NewGroup()
	g.Go(func() {
		for _, op := range p.Of(1) {
			time.Sleep(time.Duration(op.At))
			r.emit(op)
		}
	})
	for c := 2; c <= 4; c++ {
		ops := p.Of(c)
		if len(ops) == 0 {
			continue
		}
		g.Go(func() {
			for _, op := range ops {
				time.Sleep(time.Duration(op.At))
				r.do(op)
			}
		})
	}
	if !e.Await(10*time.Minute, g.Done()) {
		e.Violate("call-hangs", "a call of the client did not return: %s", r.where())
		return
	}
	b.quiet()
	e.Quiet()
	if e.Spec.Prop == "C08" {
		r.checkFlow()
		return
	}
	// everything delivered gets processed
	idle := func() bool {
		for _, rc := range b.recvs {
			if rc.owner == "client" && !rc.closed && len(rc.q) > 0 {
				return false
			}
		}
		return r.inside == 0
	}
	if r.closing == 0 {
		if !e.Until(5*time.Minute, 100*time.Millisecond, idle) {
			if e.For("E01") {
				e.Violate("listener-stopped", "messages delivered to a listening client were not processed: %s", r.where())
			}
			return
		}
		e.Settle(5 * time.Second)
	}
	if e.For("E01") && !r.ending {
		e.Settle(5 * time.Second)
		live, open := 0, 0
		for _, ctx := range r.listens {
			if ctx.Err() == nil {
				live++
			}
		}
		for _, rc := range r.b.recvs {
			if rc.owner == "client" && !rc.closed {
				open++
			}
		}
		if open < live {
			e.Violate("listener-stopped", "%d listeners were started and not ended, %d are left", live, open)
		}
	}
	for _, cancel := range r.cancels {
		cancel()
	}
	if e.For("E01", "E02") {
		if r.closing == 0 {
			r.closing = r.now()
		}
		r.close()
	}
	e.Settle(5 * time.Second)
	if e.For("E02") {
		if got := b.openBy("client"); len(got) > 0 {
			var open []string
			for _, l := range got {
				if strings.HasPrefix(l, "receiver") {
					open = append(open, l)
				}
			}
			if len(open) > 0 {
				e.Violate("receiver-left-open", "after Close the client still has %v", open)
			}
		}
		if r.closing < r.tick && len(r.calls) > 0 {
			e.NonTrivial()
		}
	}
	if e.For("E01") {
		r.checkCalls()
	}
	if e.For("E03") {
		r.checkFlush(direct)
	}
}

// checkCredit compares a receiver with the listeners asked for.
func (r *clientRun) checkCredit(rc *busReceiver) {
	for _, k := range []string{fmt.Sprint(rc.addr, " ", rc.credit), rc.addr} {
		if r.asked[k] > 0 {
			return
		}
	}
	r.e.Violate("wrong-credit", "a receiver of %s was opened with a credit of %d, asked for were %v", rc.addr, rc.credit, r.asked)
}

// checkFlow: whatever credit the listeners have, they take all there is.
func (r *clientRun) checkFlow() {
	e := r.e
	waiting := func() string {
		for _, rc := range r.b.recvs {
			if rc.owner == "client" && !rc.closed && len(rc.q) > 0 {
				return fmt.Sprintf("%d messages wait for the receiver of %s with credit %d, of which %d is used up", len(rc.q), rc.addr, rc.credit, rc.spent)
			}
		}
		return ""
	}
	if !e.Until(5*time.Minute+4*r.cost*time.Duration(1+len(r.b.sent)), 100*time.Millisecond, func() bool { return waiting() == "" }) {
		e.Violate("starved", "%s", waiting())
	}
	for _, rc := range r.b.recvs {
		if rc.owner == "client" && rc.taken > 1 {
			e.NonTrivial()
		}
	}
	for _, cancel := range r.cancels {
		cancel()
	}
}

func (r *clientRun) where() string {
	return fmt.Sprintf("closing=%d closed=%d inside=%d", r.closing, r.closed, r.inside)
}

func (r *clientRun) emit(op sim.Op) {
	addr := srcInfo.Address + suffixes[op.A]
	switch op.K {
	case "rec":
		rng := sim.NewRNG(uint64(op.B) * 77)
		var recs []attrs
		for i := 0; i < 1+int(op.B)%3; i++ {
			recs = append(recs, genAttrs(rng, randAnyType(rng), fmt.Sprintf("m%d.%d", op.B, i), int(op.B), 40))
		}
		r.texts[fmt.Sprint("m", op.B)] = normRecs(recs)
		r.b.inject("source", addr, amqpRecords(addr, recs...))
	case "hb":
		r.texts[fmt.Sprint("h", op.B)] = fmt.Sprintf("%s %d %d", srcInfo.ID, op.B%7, op.B)
		r.b.inject("source", addr, amqpHeartbeat(addr, srcInfo.ID, uint32(op.B%7), uint64(op.B)))
	case "beacon":
		m := amqpBeacon(srcInfo.ID, "X", "a", "d", 1)
		r.b.inject("source", addr, m)
	case "flush":
		r.b.inject("source", addr, amqpFlush(addr))
	case "junk":
		r.b.e.Fault("malformed-message")
		r.b.inject("source", addr, junk(op.B, addr))
	}
}

func wireKind(w wireRead) string {
	switch {
	case w.bad != "":
		return "junk"
	case w.subject == "HEARTBEAT":
		return "hb"
	case w.subject == "RECORD":
		for _, a := range w.recs {
			if a[0] == "9999" {
				return "junk"
			}
		}
		return "rec"
	}
	return "other"
}

func wireTag(w wireRead) string {
	switch wireKind(w) {
	case "hb":
		return fmt.Sprint("h", w.props["now"])
	case "rec":
		id := w.recs[0][1]
		id, _, _ = strings.Cut(id, ".")
		return id
	}
	return ""
}

func (r *clientRun) handle(h *clientHandler, tag, text string) {
	call := &handlerCall{h: h, goid: runtime.SimGoid(), tag: tag, text: text, tick: r.now()}
	r.calls = append(r.calls, call)
	r.inside++
	r.e.Logf("handler %d gets %s", h.n, tag)
	if r.closed > 0 && r.e.For("E02") {
		r.e.Violate("handler-after-close", "handler %d was called with %s after Close had returned", h.n, tag)
	}
	if h.cost > 0 {
		time.Sleep(h.cost)
	}
	r.inside--
	call.end = r.now()
}

func (r *clientRun) do(op sim.Op) {
	e := r.e
	switch op.K {
	case "listen":
		ctx, cancel := context.WithCancel(context.Background())
		r.cancels = append(r.cancels, cancel)
		e.Logf("listen %s", suffixes[op.A])
		to := listenTo(op.A)
		switch {
		case r.e.For("C08") && r.e.Spec.Prop != "":
			if op.B > 0 {
				to = creditProvider{to, int(op.B)}
				r.asked[fmt.Sprint(srcInfo.Address+suffixes[op.A], " ", op.B)]++
			} else {
				r.asked[srcInfo.Address+suffixes[op.A]]++
			}
		case op.B > 0:
			to = slowProvider{to, time.Duration(op.B)}
		}
		err := r.c.Listen(ctx, to)
		if err == nil {
			r.listens = append(r.listens, ctx)
		}
		e.Logf("listen returns %v", err)
		if err != nil && r.closing == 0 {
			e.Violate("listen-failed", "Listen failed on an open client: %v", err)
		}
	case "cancel":
		if r.closing == 0 {
			r.closing = r.now()
		}
		if int(op.A) < len(r.cancels) {
			e.Logf("cancel listener %d", op.A)
			r.cancels[op.A]()
		}
	case "onrec", "onhb":
		h := &clientHandler{n: len(r.handlers), kind: op.K[2:], cost: time.Duration(op.B), started: r.now()}
		r.cost += h.cost
		r.handlers = append(r.handlers, h)
		if h.kind == "rec" {
			r.c.OnRecord(func(m vanflow.RecordMessage) {
				var recs []attrs
				for _, x := range m.Records {
					a, _ := attrsOf(x)
					recs = append(recs, a)
				}
				tag := ""
				if len(recs) > 0 {
					tag, _, _ = strings.Cut(recs[0][1], ".")
				}
				r.handle(h, tag, normRecs(recs))
			})
		} else {
			r.c.OnHeartbeat(func(m vanflow.HeartbeatMessage) {
				r.handle(h, fmt.Sprint("h", m.Now), fmt.Sprintf("%s %d %d", m.Identity, m.Version, m.Now))
			})
		}
		h.ready = r.now()
	case "close":
		if r.closing == 0 {
			r.closing = r.now()
		}
		r.close()
	case "flush", "sendflush":
		ctx, cancel := context.WithTimeout(context.Background(), time.Duration(op.B))
		r.cancels = append(r.cancels, cancel)
		if op.K == "sendflush" {
			r.c.SendFlush(ctx)
			cancel()
			return
		}
		if len(r.flushes) > 0 {
			return
		}
		f := &flushCall{start: r.now(), ctx: ctx}
		r.flushes = append(r.flushes, f)
		context.AfterFunc(ctx, func() { f.ctxEnd, f.ctxEndT = r.now(), e.Now() })
		r.flushG.Go(func() {
			f.err = eventsource.FlushOnFirstMessage(ctx, r.c)
			f.returned, f.ret, f.retT, f.ctxOver = true, r.now(), e.Now(), ctx.Err() != nil
			e.Logf("flush returns %v", f.err)
		})
	}
}

func (r *clientRun) close() {
	e := r.e
	e.Logf("close")
	r.ending = true
	ok := e.Within(5*time.Second+4*r.cost, func() { r.c.Close() })
	if !ok {
		if e.For("E02") {
			e.Violate("close-hangs", "Close did not return within %v", 5*time.Second+4*r.cost)
		}
		e.Finish()
	}
	e.Logf("close returns")
	if r.inside > 0 && e.For("E02") {
		e.Violate("handler-running-after-close", "Close returned while %d handler calls are in progress", r.inside)
	}
	if e.For("E02") {
		for _, rc := range r.b.recvs {
			if rc.owner == "client" && !rc.closed {
				e.Violate("receiver-left-open", "Close returned while the receiver of %s is open", rc.addr)
			}
		}
	}
	if r.closed == 0 {
		r.closed = r.now()
	}
}

func (r *clientRun) checkCalls() {
	e := r.e
	byG := map[uint64][]*handlerCall{}
	for _, c := range r.calls {
		byG[c.goid] = append(byG[c.goid], c)
		if c.text != r.texts[c.tag] {
			e.Violate("message-altered", "handler got %s as %q, sent was %q", c.tag, c.text, r.texts[c.tag])
		}
	}
	own := map[uint64]bool{}
	var recvs []*busReceiver
	byAddr := map[string][]*busReceiver{}
	for _, rc := range r.b.recvs {
		if rc.owner == "client" {
			own[rc.goid] = true
			recvs = append(recvs, rc)
			byAddr[rc.addr] = append(byAddr[rc.addr], rc)
		}
	}
	perListener := true
	for gid := range byG {
		if !own[gid] {
			perListener = false
		}
	}
	for _, h := range r.handlers {
		if perListener {
			// handlers run on the goroutine that receives
			for _, rc := range recvs {
				var got []string
				for _, c := range byG[rc.goid] {
					if c.h == h {
						got = append(got, c.tag)
					}
				}
				want, opt := r.wants(rc, h)
				r.matchSeq(rc.addr, h, want, opt, got)
			}
			continue
		}
		// handlers run elsewhere: calls are attributed by message
		for addr, rcs := range byAddr {
			min, max := map[string]int{}, map[string]int{}
			var want []string
			var opt []bool
			for _, rc := range rcs {
				want, opt = r.wants(rc, h)
				for i, t := range want {
					max[t]++
					if !opt[i] {
						min[t]++
					}
				}
			}
			var got []string
			n := map[string]int{}
			for _, c := range r.calls {
				if c.h == h && max[c.tag] > 0 {
					got = append(got, c.tag)
					n[c.tag]++
				}
			}
			if len(rcs) == 1 {
				r.matchSeq(addr, h, want, opt, got)
				continue
			}
			for t, k := range max {
				if n[t] > k {
					e.Violate("handler-sequence", "listeners of %q yielded %s %d times, handler %d was called %d times", addr, t, k, h.n, n[t])
				} else if n[t] < min[t] {
					e.Violate("message-not-handled", "listeners of %q yielded %s %d times, handler %d was called %d times", addr, t, k, h.n, n[t])
				}
			}
		}
	}
}

// wants is what a handler is to be called with for the messages of a
// receiver, and which of those calls may be left out.
func (r *clientRun) wants(rc *busReceiver, h *clientHandler) (want []string, opt []bool) {
	last := -1
	for i := range rc.seq {
		if r.closing == 0 || r.yieldT[rc][i] < r.closing {
			last = i
		}
	}
	for i, y := range rc.seq {
		w := readWire(y.raw)
		if wireKind(w) != h.kind {
			continue
		}
		want = append(want, wireTag(w))
		opt = append(opt, !y.accepted || h.ready > r.yieldT[rc][i] || r.closing > 0 && i >= last)
	}
	return
}

// matchSeq: got must be want with some optional ones left out.
func (r *clientRun) matchSeq(addr string, h *clientHandler, want []string, opt []bool, got []string) {
	e := r.e
	if len(got) > 1 {
		e.NonTrivial()
	}
	// at[j]: the first j calls can account for the messages so far
	at := map[int]bool{0: true}
	for i, tag := range want {
		next := map[int]bool{}
		for j := range at {
			if opt[i] {
				next[j] = true
			}
			if j < len(got) && got[j] == tag {
				next[j+1] = true
			}
		}
		at = next
	}
	if at[len(got)] {
		return
	}
	kind := "handler-sequence"
	min, n := map[string]int{}, map[string]int{}
	for i, t := range want {
		if !opt[i] {
			min[t]++
		}
	}
	for _, t := range got {
		n[t]++
	}
	for t := range min {
		if n[t] < min[t] {
			kind = "message-not-handled"
		}
	}
	e.Violate(kind, "a listener of %q yielded %v, handler %d was called with %v", addr, want, h.n, got)
}

func (r *clientRun) checkFlush(direct *busReceiver) {
	e := r.e
	var flushes []*busMsg
	for _, m := range r.b.sent {
		if m.from == "client" {
			flushes = append(flushes, m)
		}
	}
	if len(r.flushes) == 0 {
		return
	}
	f := r.flushes[0]
	for _, l := range r.b.openBy("client") {
		if f.returned && strings.HasPrefix(l, "sender") {
			e.Violate("flush-link-left-open", "the client still has a %s after FlushOnFirstMessage has returned", l)
		}
	}
	for _, m := range flushes {
		w := readWire(m.raw)
		if m.addr != srcInfo.Direct || w.subject != "FLUSH" || w.to != srcInfo.Direct {
			e.Violate("flush-wrong", "sent %s to %s (to=%s), want FLUSH to %s", w.subject, m.addr, w.to, srcInfo.Direct)
		}
	}
	if len(flushes) > 1 {
		e.Violate("flush-repeated", "%d flushes were sent", len(flushes))
	}
	if len(flushes) == 1 && (r.seenMsg == 0 || r.tickOf(flushes[0]) < r.seenMsg) {
		e.Violate("flush-unprompted", "a flush was sent before any record or heartbeat was received")
	}
	if !f.returned {
		e.Violate("flush-hangs", "FlushOnFirstMessage did not return")
		return
	}
	if f.ctxEnd > 0 && f.ctxEnd < f.ret && f.retT-f.ctxEndT > time.Second+time.Duration(runtime.SimStallNS()) {
		e.Violate("flush-late", "FlushOnFirstMessage returned %v after its context ended", f.retT-f.ctxEndT)
	}
	if f.err != nil {
		ctxErr := f.ctx.Err()
		if f.ctxOver && errors.Is(f.err, ctxErr) {
			if len(flushes) > 0 && r.seenMsg == 0 {
				e.Violate("flush-after-cancel", "context ended first but a flush was sent")
			}
			if r.handledBefore(f) && direct != nil && e.Plan.P("sendErr") == 0 {
				e.Violate("flush-missing", "a message was handled long before the context ended but no flush was sent")
			}
		} else if errors.Is(f.err, errBusFault) {
			e.Probe("flush-send-error")
		} else {
			e.Violate("flush-error", "FlushOnFirstMessage returned %v", f.err)
		}
		if f.ctxEnd > 0 {
			e.NonTrivial()
		}
		return
	}
	if len(flushes) != 1 {
		e.Violate("flush-missing", "FlushOnFirstMessage returned nil but %d flushes were sent", len(flushes))
	}
	e.NonTrivial()
}

func (r *clientRun) tickOf(m *busMsg) int { return m.tick }

// handledBefore reports whether a listener had fully processed a record or
// heartbeat well before the context of the flush ended.
func (r *clientRun) handledBefore(f *flushCall) bool {
	if runtime.SimStallNS() > 0 {
		return false
	}
	for _, rc := range r.b.recvs {
		if rc.owner != "client" {
			continue
		}
		for i, y := range rc.seq {
			k := wireKind(readWire(y.raw))
			if (k == "rec" || k == "hb") && y.accepted && r.yieldT[rc][i] > f.start+50 && f.ctxEndT-y.at > 10*time.Second+4*r.cost {
				return r.closing == 0
			}
		}
	}
	return false
}

func init() {
	sim.Scenarios["client"] = &sim.Scenario{Gen: genClient, Run: runClient, Stalls: true, MaxStall: time.Second}
}
