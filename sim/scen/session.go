package scen

import (
	"bytes"
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/Azure/go-amqp"
	"github.com/Azure/go-amqp/simrouter"
	"github.com/c-kruse/vanflow/session"
	"github.com/cenkalti/backoff/v4"

	"vsim/sim"
)

// Session: containers with several links on a simulated network and router.

var sessAddrs = []string{"mc/a", "mc/b", "uni/c", "uni/d"}

func genSession(r *sim.RNG, spec *sim.Spec) *sim.Plan {
	p := &sim.Plan{Params: map[string]int64{}}
	P := p.Params
	nc := sim.Pick(r, 1, 1, 1, 2)
	P["containers"] = int64(nc)
	P["backoff"] = int64(r.N(4))
	P["byDeadline"] = int64(r.N(4))
	P["retries"] = int64(r.In(0, 6))
	P["sasl"] = int64(r.N(4) / 3)
	P["maxFrame"] = int64(sim.Pick(r, 512, 1024, 16384, 16384))
	P["clientFrame"] = int64(sim.Pick(r, 0, 0, 600, 16384))
	P["cap"] = int64(sim.Pick(r, 300, 4096, 65536, 65536))
	P["lat"] = int64(sim.Pick(r, 100*time.Microsecond, time.Millisecond, 20*time.Millisecond))
	P["chunk"] = int64(sim.Pick(r, 0, 0, 7, 100))
	P["settle"] = int64(sim.Pick(r, 0, 0, 5*time.Millisecond, 300*time.Millisecond))
	P["window"] = int64(sim.Pick(r, 1<<16, 1<<16, 3, 10))
	P["credit"] = int64(sim.Pick(r, 1, 2, 250, 250))
	P["stopFirst"] = int64(r.N(2))
	P["handlers"] = int64(r.In(1, 2))
	P["busyHandler"] = int64(r.N(4) / 3)
	P["holdEnd"] = int64(r.N(3)) // how held connections end: 0 go on, 1 reset, 2 dead
	tight := (spec.Prop == "C02" || spec.Prop == "C03") && r.P(20)
	if tight {
		// messages take many frames, which wait for the router to take them
		P["maxFrame"], P["cap"], P["window"] = 512, int64(sim.Pick(r, 300, 65536)), int64(sim.Pick(r, 1, 2, 3))
		P["lat"] = int64(20 * time.Millisecond)
	}
	faults := r.P(80)
	F := time.Duration(sim.Pick(r, 2, 5, 20)) * time.Second
	P["faultsFor"] = int64(F)
	ms := func(n int) int64 { return int64(r.Dur(time.Duration(n) * time.Millisecond)) }
	for c := 1; c <= nc; c++ {
		st := int64(0)
		if r.P(40) {
			st = ms(1500)
		}
		p.Ops = append(p.Ops, sim.Op{C: c, K: "start", At: st})
		if faults && r.P(8) {
			p.Ops = append(p.Ops, sim.Op{C: c, K: "stop", At: int64(r.Dur(F))})
		}
	}
	nl := r.In(1, 5)
	for i := 0; i < nl; i++ {
		id := 10 + i
		addr := sessAddrs[r.N(len(sessAddrs))]
		kind := sim.Pick(r, "snd", "rcv")
		op := sim.Op{C: id, K: "new", A: int64(r.In(1, nc)), S: kind, T: addr}
		if r.P(40) {
			op.At = ms(3000)
		}
		if kind == "rcv" {
			op.B = int64(sim.Pick(r, 0, 1, 2, 3, 5, 20, 256))
			if spec.Prop == "C08" && r.P(5) {
				op.B = int64(sim.Pick(r, 1000, 40000, 70000))
			}
		}
		p.Ops = append(p.Ops, op)
		for k := 0; k < r.N(12); k++ {
			var to int64
			switch r.N(5) {
			case 0:
				to = ms(5)
			case 1:
				to = ms(200)
			case 2, 3:
				to = int64(time.Second) + ms(3000)
			}
			o := sim.Op{C: id, B: to, S: sim.Pick(r, "timeout", "cancel")}
			if kind == "snd" {
				o.K = "send"
				o.A = int64(sim.Pick(r, 10, 10, 100, 900, 5000))
				if tight && r.P(70) {
					o.A = int64(sim.Pick(r, 440, 460, 900, 1500, 3000))
					o.B = ms(120)
				}
			} else {
				o.K = "next"
				o.A = int64(r.N(4)) // messages to hold back unaccepted
				if r.P(20) {
					o.T = "ms"
				}
			}
			if r.P(40) {
				o.At = ms(1500)
			}
			p.Ops = append(p.Ops, o)
		}
		if r.P(25) {
			p.Ops = append(p.Ops, sim.Op{C: 40 + i, K: "close", A: int64(id), At: ms(6000), B: ms(500) * int64(r.N(2))})
			if r.P(40) {
				p.Ops = append(p.Ops, sim.Op{C: 40 + i, K: "close", A: int64(id), At: ms(50)})
			}
		} else if r.P(15) {
			// a link closed at the moment others begin to use it, most often
			// before anyone else did
			at := op.At + ms(4000)
			if r.P(70) {
				for k := range p.Ops {
					if o := &p.Ops[k]; o.C == id && o.K != "new" {
						o.At += at + ms(1000)
						break
					}
				}
				if p.Ops[len(p.Ops)-1].K == "new" {
					K := "send"
					if kind == "rcv" {
						K = "next"
					}
					p.Ops = append(p.Ops, sim.Op{C: id, K: K, A: 0, B: ms(1000) + 1, S: "timeout", At: at + ms(1000)})
				}
			}
			p.Ops = append(p.Ops, sim.Op{C: 40 + i, K: "close", T: "storm", A: int64(id), At: at, B: ms(500) * int64(r.N(2)), S: strings.Repeat("x", r.In(1, 3))})
		}
		second := 20
		if spec.Prop == "R01" {
			second = 60
		}
		if r.P(second) {
			// a second user of the link
			for k := 0; k < r.In(1, 5); k++ {
				o := sim.Op{C: 70 + i, K: "send", A: 10, B: int64(time.Second), S: "timeout", At: ms(800)}
				if kind == "rcv" {
					o.K, o.A = "next", 0
				}
				p.Ops = append(p.Ops, o)
			}
		}
	}
	if faults {
		kinds := []string{"refuse", "refuse", "hang", "cut", "cut", "cutbytes", "cutbytesdown", "hold", "holdup", "holddown", "restart", "detach", "detach", "end", "close", "noattach", "handshake", "handshake", "nocredit", "reject", "rejectlink"}
		nf := r.In(1, 7)
		burst := r.P(30)
		base := int64(r.Dur(F))
		for i := 0; i < nf; i++ {
			at := int64(r.Dur(F))
			if burst {
				at = min(base+ms(200), int64(F))
			}
			o := sim.Op{C: 90, K: sim.Pick(r, kinds...), At: at, A: int64(r.In(1, nc)), B: ms(4000), T: sessAddrs[r.N(len(sessAddrs))]}
			switch o.K {
			case "cutbytes", "cutbytesdown":
				o.B = int64(r.N(sim.Pick(r, 60, 500, 3000)))
			case "handshake":
				o.S = sim.Pick(r, "header", "garbage", "sasl", "open", "close", "begin", "end")
				o.B = int64(r.In(1, 3))
			case "reject":
				o.B = int64(r.In(1, 3))
			}
			p.Ops = append(p.Ops, o)
		}
		if r.P(50) {
			// faults of the first connection attempt
			p.Ops = append(p.Ops, sim.Op{C: 90, K: "handshake", S: sim.Pick(r, "header", "garbage", "sasl", "open", "close", "begin", "end"), A: int64(r.In(1, nc)), B: int64(r.In(1, 4))})
		}
		if r.P(20) {
			// an attempt whose handshake stalls
			c := r.In(1, nc)
			at := ms(3000)
			p.Ops = append(p.Ops, sim.Op{C: 90, K: "handshake", S: sim.Pick(r, "stallheader", "stallopen", "stallbegin"), A: int64(c), B: 1, At: at})
			if r.P(50) {
				p.Ops = append(p.Ops, sim.Op{C: 90, K: "cut", A: int64(c), At: at + 1})
			}
			if r.P(50) {
				p.Ops = append(p.Ops, sim.Op{C: c, K: "stop", At: at + ms(3000)})
			}
		}
		if r.P(3) {
			// an outage longer than any patience
			F = sim.Pick(r, 100*time.Second, 20*time.Minute)
			P["faultsFor"], P["long"] = int64(F), 1
			P["backoff"] = int64(sim.Pick(r, 1, 1, 1, 0, 2))
			c := r.In(1, nc)
			p.Ops = append(p.Ops, sim.Op{C: 90, K: sim.Pick(r, "refuse", "refuse", "refuse", "hang"), A: int64(c), At: ms(4000), B: int64(F)}, sim.Op{C: 90, K: "cut", A: int64(c), At: int64(4 * time.Second)})
		}
	}
	secure := 10
	if spec.Prop == "C09" {
		secure = 60
		P["sasl"] = int64(r.N(2))
	}
	if r.P(secure) {
		// encrypted connections: 1 clients verify the router, 2 they do not
		P["tls"] = int64(sim.Pick(r, 1, 1, 1, 2))
		P["cert"] = int64(r.N(2))
		P["shape"] = int64(r.N(16) & r.N(16))
		P["shared"] = int64(r.N(2))
		for i := r.N(4); faults && i > 0; i-- {
			at := ms(3000) * int64(r.N(2))
			c := int64(r.In(1, nc))
			p.Ops = append(p.Ops, sim.Op{C: 90, K: "handshake", S: sim.Pick(r, "tls", "impostor", "impostor", "wrongname", "expired", "stalltls", "oldtls"), A: c, B: int64(r.In(1, 3)), At: at})
			if at > 0 {
				p.Ops = append(p.Ops, sim.Op{C: 90, K: "cut", A: c, At: at + 1})
			}
		}
	}
	if faults && P["sasl"] == 1 && r.P(30) {
		p.Ops = append(p.Ops, sim.Op{C: 90, K: "handshake", S: "mechanism", A: int64(r.In(1, nc)), B: int64(r.In(1, 3)), At: ms(3000) * int64(r.N(2))})
	}
	return p
}

type sessCont struct {
	no          int
	host        string
	c           session.Container
	ctx         context.Context
	cancel      context.CancelFunc
	startCalled bool
	running     bool
	stopped     time.Duration
	reports     [][]sessReport // per handler
	gaveUp      bool
	busySender  session.Sender
	nextN       int // expected position in the backoff sequence
	lastUsed    time.Duration
	accepting   int                 // Accept calls in progress
	sending     map[string]struct{} // Send calls in progress
	seenDials   int
}

type sessReport struct {
	at    time.Duration
	retry bool
	d     time.Duration
	err   error
}

type appSend struct {
	id        string
	l         *sessLink
	call, ret int
	callT     time.Duration
	retT      time.Duration
	done      bool
	err       error
	data      []byte
}

type appGot struct {
	id     string
	tick   int
	at     time.Duration
	acc    bool // Accept begun
	accOK  bool
	accAt  time.Duration
	msg    *amqp.Message
	queued bool
}

type sessLink struct {
	no        int
	ct        *sessCont
	addr      string
	snd       session.Sender
	rcv       session.Receiver
	credit    int
	made      bool
	madeT     time.Duration
	closeCall int
	closeT    time.Duration // Close called
	closed    int
	closedT   time.Duration // first Close returned
	sends     []*appSend
	got       []*appGot
	gotBy     map[string]*appGot
	pending   int
	lastOK    time.Duration // call of the last successful Send / injection time of the last message got
	users     int
	held      []*appGot
	nsend     int
	pendCall  map[int]int // operations in progress: call ticks
}

type sessRun struct {
	sharedTLS *tls.Config // of all containers, if they share it
	e         *sim.Env
	n         *netw
	r         *router
	conts     map[int]*sessCont
	links     map[int]*sessLink
	order     []*sessLink
	quietT    time.Duration
	quiet     bool
	ending    bool
	stop      chan struct{}
	inj       map[string]*rmsg
	injN      int
	turn      map[string]int
	opN       int
	byID      map[string]*appSend
	ctx       context.Context
	cancel    context.CancelFunc
	g         *sim.Group
}

const (
	sessPrompt = 250 * time.Millisecond
)

type seqBackOff struct {
	kind, n, retries int
}

func (b *seqBackOff) Reset() { b.n = 0 }
func (b *seqBackOff) NextBackOff() time.Duration {
	if b.kind == 3 && b.n >= b.retries {
		return backoff.Stop
	}
	d := b.delay(b.n)
	b.n++
	return d
}

func (b *seqBackOff) delay(n int) time.Duration {
	if b.kind == 0 {
		return 100 * time.Millisecond
	}
	d := 100 * time.Millisecond << n
	if d > 3*time.Second || n > 10 {
		d = 3 * time.Second
	}
	return d
}

func runSession(e *sim.Env) {
	p := e.Plan
	s := &sessRun{e: e, conts: map[int]*sessCont{}, links: map[int]*sessLink{}, stop: make(chan struct{}), inj: map[string]*rmsg{}, turn: map[string]int{}, byID: map[string]*appSend{}}
	s.n = newNet(e)
	s.n.lat, s.n.chunk, s.n.cap = time.Duration(p.P("lat")), int(p.P("chunk")), int(p.P("cap"))
	s.r = newRouter(e, s.n)
	s.r.maxFrame, s.r.credit, s.r.window, s.r.settle = uint32(p.P("maxFrame")), uint32(p.P("credit")), uint32(p.P("window")), time.Duration(p.P("settle"))
	s.r.holdEnd = p.P("holdEnd")
	s.r.onFrame = s.frame
	s.r.onTorn = s.torn
	if e.For("C09") {
		s.r.onBad = func(kind, text string) { e.Violate(kind, "%s", text) }
	}
	s.n.onDial = s.dialed
	s.ctx, s.cancel = context.WithCancel(context.Background())
	for _, a := range sessAddrs {
		s.r.vrecv[a] = append(s.r.vrecv[a], &vreceiver{addr: a, got: func(*rmsg) {}})
	}
	// unicast messages of senders go to links when there are any
	g := sim.NewGroup()
	s.g = g
	for c := 1; c <= int(p.P("containers")); c++ {
		s.newContainer(c)
		for _, op := range p.Of(c) {
			g.Go(func() { s.contOp(s.conts[c], op) })
		}
	}
	for id := 10; id < 40; id++ {
		if ops := p.Of(id); len(ops) > 0 {
			l := &sessLink{no: id, gotBy: map[string]*appGot{}, pendCall: map[int]int{}}
			s.links[id] = l
			s.order = append(s.order, l)
			g.Go(func() { s.actor(l, ops, true) })
			if more := p.Of(60 + id); len(more) > 0 {
				g.Go(func() { s.actor(l, more, false) })
			}
			if cl := p.Of(30 + id); len(cl) > 0 {
				g.Go(func() {
					for _, op := range cl {
						time.Sleep(time.Duration(op.At))
						s.close(l, op)
					}
				})
			}
		}
	}
	for _, op := range p.Of(90) {
		g.Go(func() {
			time.Sleep(time.Duration(op.At))
			s.fault(op)
		})
	}
	gi := sim.NewGroup()
	gi.Go(s.injector)
	gi.Go(s.sampler)
	time.Sleep(time.Duration(p.P("faultsFor")))
	s.heal()
	s.recover()
	if e.Violated() {
		return
	}
	// a while of undisturbed use
	e.Settle(5 * time.Second)
	s.ending = true
	close(s.stop)
	s.finish(g, gi)
}

func (s *sessRun) newContainer(c int) {
	p := s.e.Plan
	ct := &sessCont{no: c, host: fmt.Sprint("c", c)}
	ec := &endCtx{Context: context.Background(), done: make(chan struct{}), why: context.Canceled}
	if p.P("byDeadline") == 1 {
		ec.why = context.DeadlineExceeded
	}
	ct.ctx, ct.cancel = ec, ec.end
	cfg := session.ContainerConfig{ContainerID: ct.host, MaxFrameSize: uint32(p.P("clientFrame"))}
	if p.P("sasl") == 1 {
		cfg.SASLType = session.SASLTypeExternal
	}
	if k := int(p.P("backoff")); k != 1 {
		cfg.BackOff = &seqBackOff{kind: k, retries: int(p.P("retries"))}
	}
	url := "amqp://" + ct.host + ":5672"
	if k := p.P("tls"); k > 0 {
		sec := &security{verify: k == 1, cert: p.P("cert") == 1, shape: p.P("shape")}
		s.r.secure[ct.host] = sec
		if cfg.TLSConfig = s.sharedTLS; cfg.TLSConfig == nil {
			cfg.TLSConfig = sec.clientTLS()
		}
		if p.P("shared") == 1 {
			s.sharedTLS = cfg.TLSConfig
		}
		url = "amqps://" + ct.host + ":5671"
	}
	sim.Atomic(func() { ct.c = session.NewContainer(url, cfg) })
	for h := 0; h < int(p.P("handlers")); h++ {
		ct.reports = append(ct.reports, nil)
		sim.Atomic(func() { ct.c.OnSessionError(func(err error) { s.report(ct, h, err) }) })
	}
	s.conts[c] = ct
}

// endCtx is a context that ends when told to, as by its cancellation or as by
// its deadline.
type endCtx struct {
	context.Context
	mu    sync.Mutex
	done  chan struct{}
	why   error
	err   error
	after []*func()
}

func (c *endCtx) Done() <-chan struct{} { return c.done }

func (c *endCtx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}

// AfterFunc has the contexts derived from this one end with it.
func (c *endCtx) AfterFunc(f func()) func() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.err != nil {
		go f()
		return func() bool { return false }
	}
	h := &f
	c.after = append(c.after, h)
	return func() bool {
		c.mu.Lock()
		defer c.mu.Unlock()
		for i, x := range c.after {
			if x == h {
				c.after = append(c.after[:i], c.after[i+1:]...)
				return true
			}
		}
		return false
	}
}

func (c *endCtx) end() {
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		return
	}
	c.err = c.why
	after := c.after
	c.after = nil
	close(c.done)
	c.mu.Unlock()
	for _, f := range after {
		(*f)()
	}
}

func (s *sessRun) contOp(ct *sessCont, op sim.Op) {
	time.Sleep(time.Duration(op.At))
	switch op.K {
	case "start":
		if ct.stopped > 0 {
			return
		}
		ct.startCalled, ct.running = true, true
		if !s.e.Within(sessPrompt, func() { ct.c.Start(ct.ctx) }) {
			s.e.Violate("start-blocks", "Start did not return")
			s.e.Finish()
		}
	case "stop":
		s.e.Fault("container-stopped")
		s.stopContainer(ct)
	}
}

func (s *sessRun) stopContainer(ct *sessCont) {
	if ct.stopped == 0 {
		ct.stopped = s.e.Now()
		ct.cancel()
	}
	ct.running = false
}

// report is a session error handler.
func (s *sessRun) report(ct *sessCont, h int, err error) {
	e := s.e
	var re session.RetryableError
	rep := sessReport{at: e.Now(), err: err}
	if errors.As(err, &re) {
		rep.retry, rep.d = true, re.Retry()
	}
	e.Logf("%s handler %d: retry %v %v: %v", ct.host, h, rep.retry, rep.d, err)
	ct.reports[h] = append(ct.reports[h], rep)
	if !e.For("C06", "C01") {
		if ct.stopped == 0 && !rep.retry {
			ct.running = false
		}
		if h == 0 && e.Plan.P("busyHandler") == 1 {
			s.useInHandler(ct)
		}
		return
	}
	if ct.stopped > 0 {
		// a failure may have been on its way, but the end of the context is none
		if !rep.retry && (e.Plan.P("backoff") != 3 || errors.Is(err, context.Canceled)) {
			e.Violate("stop-reported", "the end of the container's context was reported as a final error: %v", err)
		}
		if e.Now()-ct.stopped > time.Duration(runtime.SimStallNS())+sessPrompt {
			e.Violate("report-after-stop", "a session error was reported %v after the container's context ended: %v", e.Now()-ct.stopped, err)
		}
		return
	}
	if ct.gaveUp && h == 0 {
		e.Violate("report-after-final", "a session error was reported after the final one: %v", err)
	}
	if !rep.retry && h == 0 {
		ct.gaveUp = true
		ct.running = false
	}
	if !rep.retry && s.e.Plan.P("backoff") != 3 {
		e.Violate("final-error", "the container gave up although its backoff does not end: %v", err)
	}
	if h == 0 {
		s.judgeReport(ct, rep)
	}
	if h == 0 && e.Plan.P("busyHandler") == 1 {
		// a handler may use the container
		s.useInHandler(ct)
	}
}

// useInHandler uses the container in an error handler: there is no session, so
// nothing can be sent.
func (s *sessRun) useInHandler(ct *sessCont) {
	if !s.e.For("C01", "C03", "C06") {
		return
	}
	if ct.busySender == nil {
		ct.busySender = ct.c.NewSender("mc/busy", session.SenderOptions{})
	}
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Millisecond)
	defer cancel()
	if !s.e.Within(sessPrompt, func() { ct.busySender.Send(ctx, amqp.NewMessage([]byte("busy"))) }) {
		s.e.Violate("handler-hangs", "a Send an error handler made with a timeout of 20ms did not return")
		s.e.Finish()
	}
}

func (s *sessRun) byHost(host string) *sessCont {
	for _, ct := range s.conts {
		if ct.host == host {
			return ct
		}
	}
	return nil
}

// current is the newest connection of a container.
func (s *sessRun) current(ct *sessCont) *simConn {
	for i := len(s.n.conns) - 1; i >= 0; i-- {
		if s.n.conns[i].host == ct.host {
			return s.n.conns[i]
		}
	}
	return nil
}

// judgeReport compares a report with what happened to the connection.
func (s *sessRun) judgeReport(ct *sessCont, rep sessReport) {
	e := s.e
	var d *dial
	n := 0
	for _, x := range s.n.dials {
		if x.host == ct.host {
			d = x
			n++
		}
	}
	if d == nil || (d.done == 0 && d.err == nil && d.conn == nil) {
		e.Violate("report-without-loss", "a session error was reported while no attempt had failed: %v", rep.err)
		return
	}
	if n == ct.seenDials {
		e.Violate("reported-twice", "a second session error was reported for the same attempt: %v", rep.err)
	}
	ct.seenDials = n
	if d.err == nil && d.conn.cause == "" {
		e.Violate("healthy-session-lost", "the session on conn %d was given up although nothing happened to it: %v", d.conn.id, rep.err)
	}
	if e.Plan.P("backoff") == 1 || !e.For("C06") {
		return
	}
	b := &seqBackOff{kind: int(e.Plan.P("backoff"))}
	// was the session used?
	used, maybe := false, false
	if d.conn != nil && d.conn.rc.begun {
		// a session that has been there for a while need not count as a failure
		maybe = ct.lastUsed > d.done || rep.at-d.done >= 5*time.Second || s.usedUnnoted(ct, d.conn)
		used = d.conn.usedAt > 0 && rep.at-d.conn.usedAt > time.Duration(runtime.SimStallNS())
	}
	if !rep.retry {
		r := int(e.Plan.P("retries"))
		if used && r > 0 {
			e.Violate("gave-up-early", "the container gave up although its session had been used successfully, %d retries are allowed", r)
		}
		if !maybe && ct.nextN < r {
			e.Violate("gave-up-early", "the container gave up after %d retries, %d are allowed", ct.nextN, r)
		}
		return
	}
	start, next := b.delay(0), b.delay(ct.nextN)
	switch {
	case used && rep.d != start:
		e.Violate("backoff-not-reset", "the delay is %v after a session that was used successfully, the first delay is %v", rep.d, start)
	case !maybe && rep.d != next:
		e.Violate("backoff-wrong", "the delay is %v, expected %v as delay number %d", rep.d, next, ct.nextN)
	}
	if maybe && (used || rep.d == start) {
		ct.nextN = 1
	} else {
		ct.nextN++
	}
}

// dialed is called for each connection attempt.
func (s *sessRun) dialed(d *dial) {
	e := s.e
	var ct *sessCont
	for _, c := range s.conts {
		if c.host == d.host {
			ct = c
		}
	}
	if ct == nil || !e.For("C06", "C05") {
		return
	}
	if ct.stopped > 0 && e.Now()-ct.stopped > time.Duration(runtime.SimStallNS())+sessPrompt {
		e.Violate("dial-after-stop", "a connection is attempted %v after the container's context ended", e.Now()-ct.stopped)
	}
	n := 0
	for _, x := range s.n.dials {
		if x.host == d.host {
			n++
		}
	}
	if n == 1 {
		if !ct.startCalled {
			e.Violate("dial-before-start", "a connection is attempted before Start")
		}
		return
	}
	for h, reps := range ct.reports {
		if len(reps) != n-1 {
			e.Violate("reports-and-attempts", "attempt %d follows after %d reports to handler %d", n, len(reps), h)
			return
		}
	}
	last := ct.reports[0][n-2]
	if !last.retry {
		e.Violate("dial-after-final", "a connection is attempted after the final error")
		return
	}
	if dt := e.Now() - last.at; dt < last.d {
		e.Violate("retry-early", "the next attempt came %v after the report of a delay of %v", dt, last.d)
	} else if dt > last.d+sessPrompt+time.Duration(runtime.SimStallNS()) {
		e.Violate("retry-late", "the next attempt came %v after the report of a delay of %v", dt, last.d)
	}
}

// usedUnnoted tells whether an operation in progress may have succeeded on the
// connection already: it has yet to return to its caller.
func (s *sessRun) usedUnnoted(ct *sessCont, c *simConn) bool {
	if ct.accepting > 0 {
		return true
	}
	for _, m := range s.r.arrived {
		if m.link == nil || m.link.rc.c != c {
			continue
		}
		if _, ok := ct.sending[m.id()]; ok {
			return true
		}
	}
	return false
}

// used notes a successful operation, with the connection its message took if
// that is known.
func (s *sessRun) used(ct *sessCont, rc *rconn) {
	ct.lastUsed = s.e.Now()
	if rc != nil && rc.c.usedAt == 0 {
		rc.c.usedAt = s.e.Now()
	}
}

// opctx is the context of an operation and the time it ends, 0 for never.
func (s *sessRun) opctx(op sim.Op) (context.Context, func(), time.Duration) {
	if op.B <= 0 {
		c, cn := context.WithCancel(s.ctx)
		return c, cn, 0
	}
	d := time.Duration(op.B)
	if op.S == "cancel" {
		c, cn := context.WithCancel(s.ctx)
		t := time.AfterFunc(d, cn)
		return c, func() { t.Stop(); cn() }, s.e.Now() + d
	}
	c, cn := context.WithTimeout(s.ctx, d)
	return c, cn, s.e.Now() + d
}

// do runs an operation of a link and checks how it ends.
func (s *sessRun) do(l *sessLink, what string, op sim.Op, fn func(ctx context.Context) error) (error, bool) {
	e := s.e
	ctx, cn, end := s.opctx(op)
	defer cn()
	stalls := runtime.SimStallNS()
	closed := l.closed > 0
	s.opN++
	key := s.opN
	l.pendCall[key] = s.r.t()
	defer delete(l.pendCall, key)
	var err error
	run := func() {
		sim.Acquire(l)
		err = fn(ctx)
	}
	switch {
	case closed && e.For("C04"):
		if !e.Within(time.Second, run) {
			e.Violate("op-after-close-hangs", "%s did not return within a second on a closed link", what)
			e.Finish()
		}
	case end > 0 && e.For("C03"):
		if !e.Within(time.Duration(op.B)+sessPrompt, run) {
			e.Violate("ignores-context", "%s did not return within %v of its context's end", what, sessPrompt)
			e.Finish()
		}
	default:
		done := make(chan struct{})
		go func() { run(); close(done) }()
		select {
		case <-done:
		case <-s.ctx.Done():
			if !e.Await(sessPrompt, done) && e.For("C03") {
				e.Violate("ignores-context", "%s did not return within %v of its context's end", what, sessPrompt)
				e.Finish()
			}
		}
	}
	if err != nil {
		e.Logf("l%d %s: %v", l.no, what, err)
	}
	if err != nil && ctx.Err() != nil && l.closeCall == 0 && e.For("C03") && !errors.Is(err, ctx.Err()) {
		// A failure of its own just before the context ended is possible.
		if end > 0 && what != "Accept" && e.Now() > end+time.Duration(runtime.SimStallNS()-stalls) {
			e.Violate("wrong-error", "%s returned %q after its context ended with %v", what, err, ctx.Err())
		}
	}
	return err, closed
}

func payload(id string, size int) []byte {
	b := make([]byte, 0, size+len(id))
	b = append(b, id...)
	for i := 0; len(b) < size; i++ {
		b = append(b, byte(i*7+len(id)))
	}
	return b
}

func (s *sessRun) actor(l *sessLink, ops []sim.Op, first bool) {
	e := s.e
	if !first {
		if !e.Until(time.Minute, 20*time.Millisecond, func() bool { return l.made || s.ending }) || s.ending {
			return
		}
	}
	for _, op := range ops {
		t := time.NewTimer(time.Duration(op.At))
		select {
		case <-t.C:
		case <-s.stop:
			t.Stop()
			s.settle(l)
			return
		}
		switch op.K {
		case "new":
			l.ct, l.addr, l.credit = s.conts[int(op.A)], op.T, int(op.B)
			ok := e.Within(sessPrompt, func() {
				if op.S == "snd" {
					l.snd = l.ct.c.NewSender(l.addr, session.SenderOptions{})
				} else {
					l.rcv = l.ct.c.NewReceiver(l.addr, session.ReceiverOptions{Credit: l.credit})
				}
				sim.Release(l)
			})
			if !ok {
				e.Violate("new-link-hangs", "creating a link did not return")
				e.Finish()
			}
			l.made, l.madeT = true, e.Now()
		case "send":
			s.send(l, op)
		case "next":
			s.next(l, op, int(op.A))
		}
	}
	// steady use until the end
	for !s.ending && l.closed == 0 {
		if l.snd != nil {
			s.send(l, sim.Op{A: 20, B: int64(2 * time.Second), S: "timeout"})
			t := time.NewTimer(time.Second)
			select {
			case <-t.C:
			case <-s.stop:
				t.Stop()
			}
		} else {
			s.next(l, sim.Op{B: int64(3 * time.Second), S: "timeout"}, 0)
			if l.closeCall > 0 {
				time.Sleep(20 * time.Millisecond)
			}
		}
	}
	s.settle(l)
}

// settle accepts what is held back.
func (s *sessRun) settle(l *sessLink) {
	for len(l.held) > 0 {
		g := l.held[0]
		l.held = l.held[1:]
		s.accept(l, g)
	}
}

func (s *sessRun) send(l *sessLink, op sim.Op) {
	e := s.e
	l.nsend++
	x := &appSend{id: fmt.Sprintf("l%d-%d.", l.no, l.nsend), l: l, callT: e.Now()}
	x.data = payload(x.id, int(op.A))
	l.sends = append(l.sends, x)
	s.byID[x.id] = x
	msg := amqp.NewMessage(x.data)
	msg.Properties = &amqp.MessageProperties{To: &l.addr, Subject: &x.id}
	x.call = s.r.t()
	if l.closed > 0 {
		e.Probe("send-after-close")
	}
	err, closed := s.do(l, "Send", op, func(ctx context.Context) error {
		if l.ct.sending == nil {
			l.ct.sending = map[string]struct{}{}
		}
		l.ct.sending[x.id] = struct{}{}
		err := l.snd.Send(ctx, msg)
		delete(l.ct.sending, x.id)
		x.ret, x.retT, x.err, x.done = s.r.t(), e.Now(), err, true
		if err == nil {
			var rc *rconn
			for _, m := range s.r.arrived {
				if m.id() == x.id && m.link != nil {
					rc = m.link.rc
				}
			}
			s.used(l.ct, rc)
		}
		return err
	})
	if err == nil && closed && e.For("C04") {
		e.Violate("send-after-close", "Send succeeded after Close had returned")
	}
	if err == nil && x.done && x.callT > l.lastOK {
		l.lastOK = x.callT
	}
}

func (s *sessRun) next(l *sessLink, op sim.Op, hold int) {
	e := s.e
	var msg *amqp.Message
	err, closed := s.do(l, "Next", op, func(ctx context.Context) error {
		m, err := l.rcv.Next(ctx)
		if err == nil {
			msg = m
			s.gotMsg(l, m)
		}
		return err
	})
	if err == nil && msg != nil && closed && e.For("C04") {
		e.Violate("next-after-close", "Next returned a message after Close had returned")
	}
	if err != nil || msg == nil {
		return
	}
	g := l.got[len(l.got)-1]
	for _, x := range l.got {
		if x.msg == msg {
			g = x
		}
	}
	l.held = append(l.held, g)
	if l.credit > 0 && hold >= l.credit {
		hold = l.credit - 1
	}
	if l.credit == 0 {
		hold = 0
	}
	for len(l.held) > hold {
		i := 0
		if hold > 0 {
			i = e.R.N(len(l.held))
		}
		g := l.held[i]
		l.held = append(l.held[:i:i], l.held[i+1:]...)
		if e.Spec.Prop == "R01" && e.R.P(50) {
			// from another goroutine than the one receiving, at some other time
			d := e.R.Dur(sim.Pick(e.R, time.Millisecond, 100*time.Millisecond, 3*time.Second))
			go func() { time.Sleep(d); s.accept(l, g) }()
			continue
		}
		s.accept(l, g)
	}
}

func (s *sessRun) gotMsg(l *sessLink, m *amqp.Message) {
	e := s.e
	if m == nil {
		e.Violate("next-nil", "Next returned neither message nor error")
		return
	}
	id := ""
	if m.Properties != nil && m.Properties.Subject != nil {
		id = *m.Properties.Subject
	}
	g := &appGot{id: id, tick: s.r.t(), at: e.Now(), msg: m}
	if !e.For("C02") {
		l.got = append(l.got, g)
		l.gotBy[id] = g
	} else {
		var d *rdeliv
		var dl *rlink
		for _, rl := range s.linksOf(l) {
			for _, x := range rl.sent {
				if x.m.id() == id {
					d, dl = x, rl
				}
			}
		}
		switch {
		case d == nil:
			e.Violate("fabricated", "Next returned %q, which the router never delivered to this link", id)
		case l.gotBy[id] != nil:
			e.Violate("duplicate", "Next returned %q twice", id)
		default:
			raw, err := m.MarshalBinary()
			if err != nil || !bytes.Equal(raw, d.m.raw) {
				e.Violate("altered", "Next returned %q with other content than the router delivered", id)
			}
			_ = dl
		}
		l.got = append(l.got, g)
		l.gotBy[id] = g
	}
	if m := s.inj[id]; m != nil && m.at > l.lastOK {
		l.lastOK = m.at
	}
	e.Logf("l%d got %s", l.no, id)
}

func (m *rmsg) id() string {
	if !m.known {
		m.known = true
		var x amqp.Message
		if err := x.UnmarshalBinary(m.raw); err == nil && x.Properties != nil && x.Properties.Subject != nil {
			m.subject = *x.Properties.Subject
		}
	}
	return m.subject
}

// linksOf are the router's links that can belong to l.
func (s *sessRun) linksOf(l *sessLink) (out []*rlink) {
	for _, rc := range s.r.conns {
		if rc.host != l.ct.host {
			continue
		}
		for _, rl := range rc.all {
			if rl.addr == l.addr && rl.sender == (l.snd != nil) {
				out = append(out, rl)
			}
		}
	}
	return out
}

func (s *sessRun) accept(l *sessLink, g *appGot) {
	g.acc = true
	op := sim.Op{B: int64(2 * time.Second), S: "timeout"}
	if s.e.R.P(10) {
		op.B = int64(s.e.R.Dur(20 * time.Millisecond))
	}
	for {
		err, closed := s.do(l, "Accept", op, func(ctx context.Context) error {
			l.ct.accepting++
			err := l.rcv.Accept(ctx, g.msg)
			l.ct.accepting--
			if err == nil {
				var rc *rconn
				n := 0
				for _, rl := range s.linksOf(l) {
					for _, d := range rl.sent {
						if d.m.id() == g.id {
							rc = rl.rc
							n++
						}
					}
				}
				if n > 1 {
					rc = nil
				}
				s.used(l.ct, rc)
			}
			return err
		})
		if err == nil && !closed {
			g.accOK, g.accAt = true, s.e.Now()
		}
		if !errors.Is(err, context.DeadlineExceeded) && !errors.Is(err, context.Canceled) {
			return
		}
		// The credit is the application's until it has accepted. What it began
		// on a stalled connection goes on.
		op.B = int64(2 * time.Second)
		for {
			if s.ending || l.closeCall > 0 {
				return
			}
			time.Sleep(time.Second)
			if c := s.current(l.ct); c == nil || c.isClosed || c.heldUntil <= s.e.Now() {
				break
			}
		}
	}
}

func (s *sessRun) close(l *sessLink, op sim.Op) {
	e := s.e
	if !e.Until(time.Minute, 20*time.Millisecond, func() bool { return l.made || s.ending }) || !l.made {
		return
	}
	ctx, cn := context.WithCancel(s.ctx)
	if op.B > 0 {
		cn()
		ctx, cn = context.WithTimeout(s.ctx, time.Duration(op.B))
	}
	defer cn()
	if l.closeCall == 0 {
		l.closeCall, l.closeT = s.r.t(), e.Now()
	}
	if op.T == "storm" {
		e.Probe("close-in-a-storm")
		for k := 0; k < len(op.S); k++ {
			s.g.Go(func() {
				if k > 0 {
					time.Sleep(e.R.Dur(time.Millisecond))
				}
				o := sim.Op{A: 10, B: int64(time.Second), S: "timeout"}
				if l.snd != nil {
					s.send(l, o)
				} else {
					o.A = 0
					s.next(l, o, 0)
				}
			})
		}
	}
	pend := len(l.pendCall)
	c0 := s.current(l.ct)
	fn := func() {
		var err error
		sim.Acquire(l)
		if l.snd != nil {
			err = l.snd.Close(ctx)
		} else {
			err = l.rcv.Close(ctx)
		}
		e.Logf("l%d closed: %v", l.no, err)
	}
	// Without a limit of its own Close may wait for a connection in trouble.
	limit := time.Second + 10*s.n.lat
	if op.B > 0 {
		limit = min(limit, time.Duration(op.B)+sessPrompt)
	}
	done := make(chan struct{})
	go func() { fn(); close(done) }()
	if !e.Await(limit, done) {
		trouble := false
		for _, c := range []*simConn{c0, s.current(l.ct)} {
			trouble = trouble || c != nil && (c.cause != "" || c.isClosed)
		}
		switch {
		case op.B > 0 || !trouble:
			if e.For("C04", "C03") {
				e.Violate("close-hangs", "Close did not return within %v", limit)
			}
			e.Finish()
		default:
			<-s.ctx.Done()
			if !e.Await(sessPrompt, done) {
				if e.For("C04", "C03") {
					e.Violate("close-hangs", "Close did not return within %v of its context's end", sessPrompt)
				}
				e.Finish()
			}
			return
		}
	}
	if l.closed == 0 {
		l.closed, l.closedT = s.r.t(), e.Now()
	}
	if pend > 0 {
		e.Probe("close-during-operation")
	}
	if e.For("C04") {
		e.Settle(time.Second)
		for _, t := range l.pendCall {
			if t < l.closed {
				e.Violate("pending-after-close", "an operation was still pending a second after its link was closed")
			}
		}
	}
}

func (s *sessRun) fault(op sim.Op) {
	ct := s.conts[int(op.A)]
	if ct == nil || s.quiet {
		return
	}
	s.r.fault(ct.host, op)
}

// heal ends all faults.
func (s *sessRun) heal() {
	e := s.e
	e.Quiet()
	s.quiet, s.quietT = true, e.Now()
	e.Logf("faults end")
	s.r.heal(sessAddrs)
}

// recovered lists the links that do not work.
func (s *sessRun) broken() (out []string) {
	for _, l := range s.order {
		if !l.made || l.closeCall > 0 || !l.ct.running {
			continue
		}
		if l.lastOK < s.quietT+time.Nanosecond {
			k := "sender"
			if l.rcv != nil {
				k = "receiver"
			}
			out = append(out, fmt.Sprintf("%s l%d of %s (%s)", k, l.no, l.ct.host, l.addr))
		}
	}
	return out
}

func (s *sessRun) recover() {
	e := s.e
	limit := 150 * time.Second
	ok := e.Until(limit, 250*time.Millisecond, func() bool { return len(s.broken()) == 0 })
	if !ok && e.For("C01", "C09") {
		e.Violate("not-recovered", "%v after the faults ended these links still do not work: %v", limit, s.broken())
	}
}

// injector delivers messages of other senders.
func (s *sessRun) injector() {
	for !s.ending {
		d := sim.Pick(s.e.R, 50*time.Millisecond, 200*time.Millisecond, 500*time.Millisecond)
		if s.quiet {
			d = 500 * time.Millisecond
		} else if s.e.Plan.P("long") == 1 && s.e.Now() > 30*time.Second {
			d *= 20
		}
		t := time.NewTimer(d)
		select {
		case <-t.C:
		case <-s.stop:
			t.Stop()
			return
		}
		for _, a := range sessAddrs {
			if !s.quiet && s.e.R.P(50) {
				continue
			}
			n := 1
			if !s.quiet && s.e.R.P(10) {
				n = s.e.R.In(2, 40) // a burst
			}
			if strings.HasPrefix(a, "uni/") {
				n = 2
			}
			for i := 0; i < n; i++ {
				s.injN++
				id := fmt.Sprintf("h%d.", s.injN)
				size := sim.Pick(s.e.R, 10, 100, 1500)
				msg := amqp.NewMessage(payload(id, size))
				msg.Properties = &amqp.MessageProperties{Subject: &id}
				raw, err := msg.MarshalBinary()
				if err != nil {
					s.e.Errorf("marshal: %v", err)
				}
				s.inj[id] = &rmsg{at: s.e.Now()}
				if strings.HasPrefix(a, "uni/") {
					s.injectUni(a, raw)
				} else {
					s.r.inject(a, raw)
				}
			}
		}
	}
}

// injectUni hands a unicast message to each receiver in turn.
func (s *sessRun) injectUni(a string, raw []byte) {
	var ls []*rlink
	for _, rc := range s.r.conns {
		for _, l := range rc.all {
			if !l.sender && l.addr == a && l.live() && !l.detSent {
				ls = append(ls, l)
			}
		}
	}
	if len(ls) > 0 {
		s.turn[a]++
		l := ls[s.turn[a]%len(ls)]
		l.queue = append(l.queue, &rmsg{raw: raw, addr: a, at: s.e.Now(), tick: s.r.t(), n: -1})
		l.pump()
	}
}

// torn: a sender began a delivery and went on with another, which ends the
// connection. With several callers of the sender the AMQP library can do so on
// its own.
func (s *sessRun) torn(rl *rlink) {
	if !s.e.For("C03") {
		return
	}
	for _, l := range s.order {
		if l.made && l.snd != nil && l.ct.host == rl.rc.host && l.addr == rl.addr && len(s.e.Plan.Of(60+l.no)) > 0 {
			return
		}
	}
	s.e.Violate("torn-delivery", "%s was sent part of a message and then another one, after a Send was cancelled", rl)
}

// frame sees every frame the router gets.
func (s *sessRun) frame(rc *rconn, body simrouter.Body) {
	if b, ok := body.(*simrouter.Open); ok {
		p := s.e.Plan
		if b.ContainerID != rc.host {
			s.r.bad("wrong-name", "conn %d names its container %q, configured is %q", rc.c.id, b.ContainerID, rc.host)
		}
		if f := uint32(p.P("clientFrame")); f > 0 && b.MaxFrameSize != f {
			s.r.bad("wrong-frame-size", "conn %d takes frames of %d bytes, configured are %d", rc.c.id, b.MaxFrameSize, f)
		}
		if rc.sasl != (p.P("sasl") == 1) {
			s.r.bad("authentication", "conn %d authenticates: %v, configured: %v", rc.c.id, rc.sasl, p.P("sasl") == 1)
		}
	}
	if b, ok := body.(*simrouter.Attach); ok && s.e.For("C04") {
		addr := ""
		snd := b.Role == simrouter.RoleSender
		if snd && b.Target != nil {
			addr = b.Target.Address
		} else if !snd && b.Source != nil {
			addr = b.Source.Address
		}
		open, late := 0, false
		for _, l := range s.order {
			if l.made && l.ct.host == rc.host && l.addr == addr && snd == (l.snd != nil) {
				if l.closed == 0 {
					open++
				} else if s.e.Now()-l.closedT > 2*time.Second+10*s.n.lat+time.Duration(runtime.SimStallNS()) {
					late = true
				} else {
					open++ // it may be this one's, which was being made
				}
			}
		}
		if open == 0 && late && rc.c.heldUntil == 0 {
			s.e.Violate("attached-after-close", "the router got an attach for %s of %s, whose link was closed long ago", addr, rc.host)
		}
	}
}

// sampler checks invariants now and then.
func (s *sessRun) sampler() {
	for !s.ending {
		d := time.Duration(100+s.e.R.N(200)) * time.Millisecond
		if !s.quiet && s.e.Plan.P("long") == 1 && s.e.Now() > 30*time.Second {
			d *= 10
		}
		time.Sleep(d)
		s.sample()
	}
}

func (s *sessRun) sample() {
	e := s.e
	stalls := time.Duration(runtime.SimStallNS())
	if e.For("C05") {
		for _, ct := range s.conts {
			var newer *dial
			for i := len(s.n.dials) - 1; i >= 0; i-- {
				d := s.n.dials[i]
				if d.host != ct.host {
					continue
				}
				if c := d.conn; c != nil && !c.isClosed && newer != nil {
					// given up: a later attempt is under way
					age := e.Now() - newer.at
					limit := 3*time.Second + stalls
					if c.cause == "stalled" || c.heldUntil > 0 {
						limit = 65*time.Second + stalls
					}
					established := c.rc.begun
					if established {
						// replaced only once the newer one is established
						if newer.conn == nil || !newer.conn.rc.begun || (newer.conn.cause != "" && len(newer.conn.rc.all) == 0) {
							continue
						}
						age = e.Now() - newer.conn.rc.begunAt
					}
					if age > limit {
						e.Violate("connection-left-open", "conn %d of %s is still open %v after it was given up", c.id, ct.host, age)
						return
					}
				}
				if newer == nil || (d.conn != nil && d.conn.rc.begun && (newer.conn == nil || !newer.conn.rc.begun)) {
					newer = d
				}
			}
		}
		for _, c := range s.n.conns {
			ct := s.byHost(c.host)
			if c.isClosed || ct == nil || ct.stopped == 0 {
				continue
			}
			limit := 2*time.Second + stalls
			if c.cause == "stalled" || c.heldUntil > 0 {
				limit = 70*time.Second + stalls
			}
			if age := e.Now() - ct.stopped; age > limit {
				e.Violate("connection-leaked", "conn %d of %s (%s) is open %v after the container's context ended", c.id, c.host, c.cause, age)
				return
			}
		}
		for _, rc := range s.r.conns {
			if rc.sessCount > 1 {
				e.Violate("second-session", "conn %d of %s has begun %d sessions", rc.c.id, rc.host, rc.sessCount)
			}
		}
	}
	if e.For("C08") {
		for _, l := range s.order {
			if l.rcv == nil || !l.made || s.twins(l) {
				continue
			}
			for _, rl := range s.linksOf(l) {
				s.credit(l, rl, stalls)
			}
		}
	}
}

// twins: the router cannot tell two links of the same role and address of one
// container apart.
func (s *sessRun) twins(l *sessLink) bool {
	for _, o := range s.order {
		if o != l && o.made && o.ct == l.ct && o.addr == l.addr && (o.snd != nil) == (l.snd != nil) {
			return true
		}
	}
	return false
}

func (s *sessRun) credit(l *sessLink, rl *rlink, stalls time.Duration) {
	e := s.e
	if l.credit > 0 {
		if rl.flows > 0 && rl.firstFlow != int64(l.credit) {
			e.Violate("credit-wrong", "a receiver with credit %d first asked for %d", l.credit, rl.firstFlow)
			return
		}
		n := int(rl.rcredit)
		for _, d := range rl.sent {
			if g := l.gotBy[d.m.id()]; g == nil || !g.acc {
				n++
			}
		}
		if n > l.credit {
			e.Violate("credit-exceeded", "the router may have %d messages outstanding on a receiver with credit %d", n, l.credit)
			return
		}
	}
	if rl.live() && rl.rc.c.cause == "" && len(rl.queue) > 0 && rl.rcredit == 0 && e.Now()-rl.attached > 3*time.Second {
		var last time.Duration
		for _, d := range rl.sent {
			g := l.gotBy[d.m.id()]
			if g == nil || !g.accOK {
				return
			}
			last = max(last, g.accAt)
		}
		if e.Now()-last > time.Second+10*s.n.lat+stalls {
			e.Violate("credit-starved", "messages wait at the router for a receiver without credit although it has accepted all %d delivered", len(rl.sent))
		}
	}
}

// finish ends everything and checks the history.
func (s *sessRun) finish(g, gi *sim.Group) {
	e := s.e
	if s.e.Plan.P("stopFirst") == 1 {
		for _, ct := range s.conts {
			s.stopContainer(ct)
		}
		e.Settle(time.Second)
	}
	s.cancel()
	if !e.Await(4*time.Minute, g.Done()) {
		if e.For("C03", "C04") {
			e.Violate("call-hangs", "an operation did not end after its context had ended")
		}
		e.Finish()
	}
	e.Await(time.Second, gi.Done())
	for _, ct := range s.conts {
		s.stopContainer(ct)
	}
	e.Settle(2 * time.Second)
	if e.For("C05") {
		held := false
		check := func(final bool) {
			for _, c := range s.n.conns {
				if !c.isClosed {
					if (c.cause == "stalled" || c.heldUntil > 0) && !final {
						held = true
						continue
					}
					e.Violate("connection-leaked", "conn %d of %s (%s) is open after the container's context ended", c.id, c.host, c.cause)
					return
				}
			}
		}
		check(false)
		if held || s.anyHeld() {
			e.Settle(70 * time.Second)
			check(true)
		}
		if !e.Violated() {
			n, where := sessGoroutines("")
			if n > 0 && n == stuckSends() {
				// the AMQP library leaves a sender whose last write failed
				// waiting until the link is closed
				e.Probe("amqp-sender-stuck")
				for _, l := range s.order {
					if l.snd != nil {
						go func() {
							sim.Acquire(l)
							l.snd.Close(s.ctx)
						}()
					}
				}
				e.Settle(time.Second)
				n, where = sessGoroutines("")
			}
			if n > 0 {
				e.Violate("goroutines-leaked", "%d goroutines of the session layer are left after the container's context ended:\n%s", n, where)
			}
		}
	}
	s.history()
	ok := 0
	for _, l := range s.order {
		if l.made && l.lastOK > 0 {
			ok++
		}
	}
	if ok > 0 && (len(s.n.conns) > 1 || len(s.order) > 1) {
		e.NonTrivial()
	}
}

func (s *sessRun) anyHeld() bool {
	for _, c := range s.n.conns {
		if c.heldUntil > 0 {
			return true
		}
	}
	return false
}

func stuckSends() int {
	n, _ := sessGoroutines("go-amqp.(*Sender).send(")
	return n
}

// sessGoroutines counts the goroutines of the session layer that have a
// certain function on their stack.
func sessGoroutines(with string) (int, string) {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	n, where := 0, ""
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "go-amqp.(") || strings.Contains(g, "vanflow/session.") {
			if strings.Contains(g, "scen.") && !strings.Contains(g, "created by github.com") {
				continue
			}
			if !strings.Contains(g, with) {
				continue
			}
			n++
			if where == "" {
				where = firstLines(g, 12)
			}
		}
	}
	return n, where
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func (s *sessRun) history() {
	e := s.e
	if e.For("C02") {
		seen := map[string]int{}
		for _, m := range s.r.arrived {
			id := m.id()
			x := s.byID[id]
			if x == nil {
				if m.addr != "mc/busy" {
					e.Violate("fabricated-send", "the router got %q, which nobody sent", id)
				}
				continue
			}
			seen[id]++
			var am amqp.Message
			if am.UnmarshalBinary(m.raw) != nil || !bytes.Equal(am.GetData(), x.data) || m.addr != x.l.addr {
				e.Violate("altered-send", "the router got %q altered or at another address", id)
			}
			if seen[id] > 1 {
				e.Violate("sent-twice", "the router got %q twice", id)
			}
			if m.tick < x.call {
				e.Violate("fabricated-send", "the router got %q before it was sent", id)
			}
		}
		tick := map[string]int{}
		for _, m := range s.r.arrived {
			id := m.id()
			tick[id] = m.tick
			if x := s.byID[id]; x != nil && x.done && x.err == nil && m.rejected {
				e.Violate("rejected-send-succeeded", "Send of %q succeeded although the router rejected the message", id)
			}
		}
		for _, l := range s.order {
			last := 0
			for _, x := range l.sends {
				if !x.done || x.err != nil {
					continue
				}
				t := tick[x.id]
				if t == 0 {
					e.Violate("send-lost", "Send of %q succeeded but the router never got the message", x.id)
					continue
				}
				if t > x.ret {
					e.Violate("send-lost", "Send of %q returned success before the router had the message", x.id)
				}
				if t < last && len(e.Plan.Of(60+l.no)) == 0 {
					e.Violate("send-reordered", "the router got %q after a later message of the same sender", x.id)
				}
				last = t
			}
			// never connected while it was called: nothing can be transmitted
			for _, x := range l.sends {
				if x.done && x.err != nil && tick[x.id] > 0 && !s.connected(l.ct, x.callT, x.retT) {
					e.Violate("failed-send-transmitted", "Send of %q failed without a connection but the router got the message", x.id)
				}
			}
		}
		for _, l := range s.order {
			if l.rcv == nil || !l.made || s.twins(l) {
				continue
			}
			two := len(e.Plan.Of(60+l.no)) > 0
			for _, rl := range s.linksOf(l) {
				gap, lastTick := "", 0
				for _, d := range rl.sent {
					if s.deliveredElsewhere(l, rl, d.m.id()) {
						continue
					}
					g := l.gotBy[d.m.id()]
					if g == nil {
						gap = d.m.id()
						continue
					}
					if gap != "" {
						e.Violate("message-lost", "the link delivered %q and then %q, only the latter was returned by Next", gap, d.m.id())
						gap = ""
					}
					if g.tick < lastTick && !two {
						e.Violate("reordered", "Next returned %q before a message delivered earlier", d.m.id())
					}
					lastTick = g.tick
				}
			}
		}
	}
	if e.For("C08") {
		for _, l := range s.order {
			if l.rcv == nil || !l.made || s.twins(l) {
				continue
			}
			for _, rl := range s.linksOf(l) {
				if rl.rc.c.cause != "" {
					continue
				}
				for _, d := range rl.sent {
					g := l.gotBy[d.m.id()]
					if g != nil && g.accOK && (!d.settled || d.state != "Accepted") && rl.byPeerOrOpen() && l.closeCall == 0 && l.ct.stopped > g.accAt+time.Second {
						e.Violate("accept-not-sent", "Accept of %q succeeded but the router has it %v %s", d.m.id(), d.settled, d.state)
						return
					}
					if d.settled && (g == nil || !g.acc) {
						e.Violate("settled-unaccepted", "the router was told that %q was accepted, which the application never did", d.m.id())
						return
					}
				}
			}
		}
	}
	if e.For("C04") {
		for _, l := range s.order {
			if l.closed == 0 || s.twins(l) {
				continue
			}
			for _, rl := range s.linksOf(l) {
				end := rl.detached
				if !rl.gone || rl.rc.closed && rl.detached >= rl.rc.goneAt {
					end = rl.rc.goneAt
				}
				if rl.rc.c.cause != "" || rl.byPeer {
					if rl.byPeer && rl.rc.c.cause == "" && rl.detached > l.closedT+3*time.Second+10*s.n.lat+time.Duration(runtime.SimStallNS()) {
						e.Violate("detached-late", "the router's link was detached %v after Close returned", rl.detached-l.closedT)
					}
					continue
				}
				if end-l.closedT > 3*time.Second+10*s.n.lat+time.Duration(runtime.SimStallNS()) {
					e.Violate("link-not-detached", "the router's link of %s was still attached %v after Close returned", l.addr, end-l.closedT)
				}
			}
		}
	}
	if e.For("C06") {
		for _, ct := range s.conts {
			for h, reps := range ct.reports {
				if len(reps) != len(ct.reports[0]) {
					e.Violate("handlers-differ", "handler %d got %d reports, handler 0 got %d", h, len(reps), len(ct.reports[0]))
				}
			}
			if ct.gaveUp {
				e.Probe("gave-up")
			}
		}
	}
}

// deliveredElsewhere: the message was also delivered on another of the link's
// attachments.
func (s *sessRun) deliveredElsewhere(l *sessLink, not *rlink, id string) bool {
	for _, rl := range s.linksOf(l) {
		if rl == not {
			continue
		}
		for _, d := range rl.sent {
			if d.m.id() == id {
				return true
			}
		}
	}
	return false
}

func (rl *rlink) byPeerOrOpen() bool { return true }

// connected reports whether any connection of the container had a session
// between two times.
func (s *sessRun) connected(ct *sessCont, from, to time.Duration) bool {
	for _, rc := range s.r.conns {
		if rc.host != ct.host || !rc.begun || rc.begunAt > to {
			continue
		}
		if !rc.c.isClosed || rc.c.closed >= from {
			return true
		}
	}
	return false
}

func init() {
	sim.Scenarios["session"] = &sim.Scenario{Gen: genSession, Run: runSession, Stalls: true, MaxStall: 500 * time.Millisecond}
}
