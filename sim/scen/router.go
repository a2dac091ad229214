package scen

import (
	"crypto/tls"
	"fmt"
	"strings"
	"time"

	"github.com/Azure/go-amqp/simrouter"

	"vsim/sim"
)

// router is a small AMQP 1.0 router: multicast addresses (mc/...), and
// unicast ones delivered to one of the receivers.
type router struct {
	e     *sim.Env
	n     *netw
	conns []*rconn
	vrecv map[string][]*vreceiver // receivers of the harness
	tick  int

	// configuration
	maxFrame uint32
	idle     time.Duration
	credit   uint32
	window   uint32
	settle   time.Duration // maximal delay of a disposition
	// faults
	refuseAttach map[string]time.Duration
	rejectNext   map[string]int
	noCredit     map[string]time.Duration
	handshake    map[string][]string // next handshake failures per host

	holdEnd int64
	stalled []func() // answers kept back until the faults end
	arrived []*rmsg
	onTorn  func(l *rlink)
	onBad   func(kind, text string) // the client did not connect as it was told to
	secure  map[string]*security    // per host
	onFrame func(rc *rconn, body simrouter.Body)
}

// rmsg is a message the router accepted from a sender or the harness.
type rmsg struct {
	raw  []byte
	addr string
	from string // host of the sender, "" for the harness
	link *rlink
	at   time.Duration
	tick int
	n    int // transfers the router got of the same payload are numbered by it
	// settled towards the sender
	accepted bool
	rejected bool
	known    bool
	subject  string
}

// rdeliv is a delivery to a receiver link.
type rdeliv struct {
	m       *rmsg
	id      uint32
	at      time.Duration
	tick    int
	settled bool
	state   string
	settAt  time.Duration
}

type vreceiver struct {
	addr string
	got  func(m *rmsg)
}

type rlink struct {
	presettled bool // the client asked for settled deliveries
	rc         *rconn
	name       string
	handle     uint32 // the client's
	mine       uint32
	sender     bool // the client sends
	addr       string
	attached   time.Duration
	tick       int
	detached   time.Duration
	dtick      int
	gone       bool // detached by either side or with its connection
	byPeer     bool // the client asked to detach
	detSent    bool
	// client sends
	credit   uint32
	count    uint32
	partial  []byte
	inPart   bool
	partID   uint32
	granted  bool
	pendDisp []pendDisp
	// client receives
	rcredit   uint32
	rcount    uint32 // delivery-count
	queue     []*rmsg
	sent      []*rdeliv
	maxGrant  int64 // largest number of messages outstanding the client allowed
	firstFlow int64 // first credit asked for
	flows     int
}

type pendDisp struct {
	id uint32
	m  *rmsg
}

// rconn is the router's end of a connection.
type rconn struct {
	r         *router
	c         *simConn
	host      string
	buf       []byte
	state     string // "", sasl, open, ...
	closed    bool
	goneAt    time.Duration
	lastRx    time.Duration
	why       string
	cid       string
	channel   uint16
	begun     bool
	refused   bool // told to go away before any session
	begunAt   time.Duration
	ended     bool
	endSent   bool
	frame     uint32 // client's max frame size
	links     map[uint32]*rlink
	all       []*rlink
	nextID    uint32 // our next outgoing transfer id
	nextIn    uint32
	nextH     uint32
	winIn     uint32
	sessCount int
	sec       *security // of a connection that is encrypted
	tls       *tls.Conn // once its handshake is done
	proof     string    // what the router proves its identity with
	sasl      bool      // the client asked for authentication
	offered   string    // another mechanism than EXTERNAL
}

func newRouter(e *sim.Env, n *netw) *router {
	r := &router{e: e, n: n, vrecv: map[string][]*vreceiver{}, maxFrame: 16384, idle: 16 * time.Second, credit: 250, window: 1 << 16,
		refuseAttach: map[string]time.Duration{}, rejectNext: map[string]int{}, noCredit: map[string]time.Duration{}, handshake: map[string][]string{}}
	n.accept = r.accept
	r.secure = map[string]*security{}
	return r
}

func (r *router) bad(kind, format string, args ...any) {
	if r.onBad != nil {
		r.onBad(kind, fmt.Sprintf(format, args...))
	}
}

func (r *router) t() int { r.tick++; return r.tick }

func (r *router) accept(c *simConn) {
	rc := &rconn{r: r, c: c, host: c.host, links: map[uint32]*rlink{}, frame: 512}
	c.rc = rc
	r.conns = append(r.conns, rc)
	if rc.sec = r.secure[rc.host]; rc.sec != nil {
		go rc.readTLS()
	} else {
		go rc.read()
	}
	go rc.keepalive()
}

func (rc *rconn) read() {
	p := rc.c.up
	for !rc.closed {
		at, ok := p.ready()
		switch {
		case ok && at <= rc.r.e.Now():
			rc.buf = append(rc.buf, p.take(1<<20)...)
			rc.lastRx = rc.r.e.Now()
			rc.feed()
		case !ok && p.fin:
			if p.hold > rc.r.e.Now() {
				p.wait(p.hold, nil)
				continue
			}
			rc.gone("eof")
		case !ok:
			p.wait(0, nil)
		default:
			p.wait(at, nil)
		}
	}
}

func (rc *rconn) keepalive() {
	for !rc.closed {
		time.Sleep(10 * time.Second)
		if !rc.closed && rc.state == "open" {
			if rc.r.e.Now()-rc.lastRx > 2*rc.r.idle {
				// a client that is silent for so long is gone
				rc.gone("idle")
				return
			}
			rc.put([]byte{0, 0, 0, 8, 2, 0, 0, 0})
		}
	}
}

// gone ends the router's side.
func (rc *rconn) gone(why string) {
	if rc.closed {
		return
	}
	rc.closed, rc.goneAt, rc.why = true, rc.r.e.Now(), why
	rc.r.e.Logf("router: conn %d gone: %s", rc.c.id, why)
	for _, l := range rc.all {
		l.leave()
	}
	rc.c.peerGone = true
	rc.c.downw.fin = true
	rc.c.downw.kick()
	rc.c.up.kick()
}

func (rc *rconn) put(b []byte) {
	if rc.closed {
		return
	}
	if rc.sec != nil {
		if rc.tls != nil {
			rc.tls.Write(b)
		}
		return
	}
	rc.c.downw.put(b)
}

func (rc *rconn) send(body simrouter.Body) {
	rc.put(simrouter.Encode(false, rc.channel, body))
}

// failHandshake takes the next handshake failure at the given step.
func (rc *rconn) failHandshake(step string) bool {
	h := rc.r.handshake[rc.host]
	if len(h) == 0 || h[0] != step {
		return false
	}
	rc.r.handshake[rc.host] = h[1:]
	rc.c.blame("handshake " + step)
	rc.r.e.Fault("handshake-fails-" + step)
	return true
}

// stall keeps the answer to a step of the handshake back if a failure of that
// kind is next.
func (rc *rconn) stall(step string, answer func()) {
	if rc.failHandshake("stall" + step) {
		rc.r.stalled = append(rc.r.stalled, answer)
		return
	}
	answer()
}

func (rc *rconn) shut() {
	// close the TCP connection from the router's side
	rc.gone("closed by router")
}

func (rc *rconn) feed() {
	for !rc.closed {
		if rc.state == "" || rc.state == "sasl-done" {
			if len(rc.buf) < 8 {
				return
			}
			h := rc.buf[:8]
			rc.buf = rc.buf[8:]
			if string(h[:4]) != "AMQP" {
				rc.shut()
				return
			}
			if rc.failHandshake("header") {
				rc.shut()
				return
			}
			if rc.failHandshake("garbage") {
				rc.put([]byte("HTTP/1.1"))
				return
			}
			rc.state = "header"
			if h[4] == 3 {
				rc.state = "sasl"
			}
			if h[4] == 3 {
				rc.sasl = true
			}
			rc.stall("header", func() {
				rc.put(h)
				if h[4] == 3 {
					offer := simrouter.External
					if rc.failHandshake("mechanism") {
						offer = simrouter.Plain
						rc.offered = "PLAIN"
					}
					rc.put(simrouter.Encode(true, 0, &simrouter.Mechanisms{Mechanisms: offer}))
				}
			})
			continue
		}
		frame, rest, err := simrouter.Split(rc.buf)
		if err != nil {
			rc.r.e.Violate("protocol", "router got a malformed frame: %v", err)
			rc.shut()
			return
		}
		if frame == nil {
			return
		}
		rc.buf = rest
		if len(frame) > int(rc.r.maxFrame) {
			rc.r.bad("frame-too-large", "the router got a frame of %d bytes, it takes %d at most", len(frame), rc.r.maxFrame)
		}
		if rc.state == "sasl" {
			if !simrouter.IsSASLInit(frame) || !strings.Contains(string(frame), "EXTERNAL") || rc.offered != "" {
				rc.r.bad("wrong-mechanism", "conn %d authenticates with %q, it was to use EXTERNAL and offered was %q", rc.c.id, frame, rc.offered)
			}
			ok := !rc.failHandshake("sasl")
			rc.put(simrouter.Encode(true, 0, simrouter.SASLOutcome(ok)))
			rc.state = "sasl-done"
			if !ok {
				rc.shut()
			}
			continue
		}
		ch, body, err := simrouter.Decode(frame)
		if err != nil {
			rc.r.e.Violate("protocol", "router cannot decode a frame: %v", err)
			rc.shut()
			return
		}
		if body == nil {
			continue
		}
		rc.handle(ch, body)
	}
}

func (rc *rconn) handle(ch uint16, body simrouter.Body) {
	r := rc.r
	if r.onFrame != nil {
		r.onFrame(rc, body)
	}
	switch b := body.(type) {
	case *simrouter.Open:
		rc.cid, rc.frame = b.ContainerID, b.MaxFrameSize
		if rc.failHandshake("open") {
			rc.shut()
			return
		}
		rc.stall("open", func() {
			rc.put(simrouter.Encode(false, 0, &simrouter.Open{ContainerID: "router", MaxFrameSize: r.maxFrame, ChannelMax: 100, IdleTimeout: r.idle}))
			rc.state = "open"
			r.e.Logf("router: conn %d open", rc.c.id)
			if rc.failHandshake("close") {
				rc.refused = true
				rc.put(simrouter.Encode(false, 0, &simrouter.Close{Error: simrouter.Err("amqp:connection:forced", "go away")}))
			}
		})
	case *simrouter.Begin:
		rc.sessCount++
		rc.channel = ch
		if rc.failHandshake("begin") {
			rc.shut()
			return
		}
		rc.stall("begin", func() {
			rc.nextIn = b.NextOutgoingID
			rc.winIn = r.window
			rc.begun, rc.begunAt = !rc.refused, r.e.Now()
			rc.ended, rc.endSent = false, false
			rc.send(&simrouter.Begin{RemoteChannel: &ch, NextOutgoingID: rc.nextID, IncomingWindow: r.window, OutgoingWindow: 1 << 16, HandleMax: 1 << 16})
			if rc.failHandshake("end") {
				rc.endSession()
			}
		})
	case *simrouter.Attach:
		rc.attach(b)
	case *simrouter.Flow:
		rc.nextIn = rc.nextIn + 0
		if b.Handle == nil {
			return
		}
		l := rc.links[*b.Handle]
		if l == nil || l.sender {
			return
		}
		dc := uint32(0)
		if b.DeliveryCount != nil {
			dc = *b.DeliveryCount
		}
		if b.LinkCredit != nil {
			l.rcredit = dc + *b.LinkCredit - l.rcount
			l.flows++
			if l.flows == 1 {
				l.firstFlow = int64(*b.LinkCredit)
			}
		}
		l.pump()
	case *simrouter.Transfer:
		rc.transfer(b)
	case *simrouter.Disposition:
		last := b.First
		if b.Last != nil {
			last = *b.Last
		}
		for _, l := range rc.all {
			if l.sender {
				continue
			}
			for _, d := range l.sent {
				if d.id >= b.First && d.id <= last && !d.settled {
					d.settled, d.settAt = true, r.e.Now()
					d.state = strings.TrimPrefix(fmt.Sprintf("%T", b.State), "*encoding.State")
				}
			}
		}
	case *simrouter.Detach:
		l := rc.links[b.Handle]
		if l == nil {
			return
		}
		l.byPeer = true
		l.flushDisp()
		if !l.detSent {
			l.detSent = true
			rc.send(&simrouter.Detach{Handle: l.mine, Closed: true})
		}
		delete(rc.links, b.Handle)
		l.leave()
		r.e.Logf("router: %s detached by client", l)
	case *simrouter.End:
		if !rc.endSent {
			rc.send(&simrouter.End{})
		}
		rc.endLinks()
	case *simrouter.Close:
		rc.put(simrouter.Encode(false, 0, &simrouter.Close{}))
		rc.gone("closed by client")
	}
}

func (rc *rconn) endLinks() {
	rc.ended = true
	for h, l := range rc.links {
		delete(rc.links, h)
		l.leave()
	}
}

func (l *rlink) String() string {
	k := "receiver"
	if l.sender {
		k = "sender"
	}
	return fmt.Sprintf("%s %s of %s on conn %d", k, l.addr, l.rc.host, l.rc.c.id)
}

func (l *rlink) leave() {
	if l.gone {
		return
	}
	l.gone, l.detached, l.dtick = true, l.rc.r.e.Now(), l.rc.r.t()
}

// live is a link whose connection is intact at the router.
func (l *rlink) live() bool { return !l.gone && !l.rc.closed && !l.rc.ended }

func (rc *rconn) attach(b *simrouter.Attach) {
	r := rc.r
	l := &rlink{rc: rc, name: b.Name, handle: b.Handle, mine: rc.nextH, sender: b.Role == simrouter.RoleSender, attached: r.e.Now(), tick: r.t()}
	rc.nextH++
	if l.sender && b.Target != nil {
		l.addr = b.Target.Address
	}
	if !l.sender && b.Source != nil {
		l.addr = b.Source.Address
	}
	resp := &simrouter.Attach{Name: b.Name, Handle: l.mine, Role: !b.Role, Source: b.Source, Target: b.Target,
		SenderSettleMode: b.SenderSettleMode, ReceiverSettleMode: b.ReceiverSettleMode}
	if b.SenderSettleMode != nil && *b.SenderSettleMode == 1 {
		l.presettled = true
	}
	if rc.links[b.Handle] != nil {
		// go-amqp frees the handle of a link the peer detached before it has
		// answered the detach
		r.e.Logf("router: handle %d attached twice", b.Handle)
		r.e.Probe("handle-reused-early")
		rc.c.blame("handle in use")
		rc.send(&simrouter.Close{Error: simrouter.Err("amqp:session:handle-in-use", "handle in use")})
		rc.gone("handle in use")
		return
	}
	rc.links[b.Handle] = l
	rc.all = append(rc.all, l)
	r.e.Logf("router: %s attached", l)
	if r.e.Now() < r.refuseAttach[l.addr] {
		rc.c.blame("attach refused")
		r.e.Fault("attach-refused")
		resp.Source, resp.Target = nil, nil
		rc.send(resp)
		l.detSent = true
		rc.send(&simrouter.Detach{Handle: l.mine, Closed: true, Error: simrouter.Err("amqp:not-found", "no such node")})
		l.leave()
		return
	}
	rc.send(resp)
	if l.sender {
		l.grant()
	} else {
		r.wake(l.addr)
	}
}

// hasReceiver reports whether somebody receives from addr.
func (r *router) hasReceiver(addr string) bool {
	if len(r.vrecv[addr]) > 0 {
		return true
	}
	for _, rc := range r.conns {
		for _, l := range rc.all {
			if !l.sender && l.addr == addr && l.live() {
				return true
			}
		}
	}
	return false
}

// wake grants credit to the senders of an address.
func (r *router) wake(addr string) {
	for _, rc := range r.conns {
		for _, l := range rc.all {
			if l.sender && l.addr == addr {
				l.grant()
			}
		}
	}
}

func (l *rlink) grant() {
	r := l.rc.r
	if !l.live() || !r.hasReceiver(l.addr) || r.e.Now() < r.noCredit[l.addr] {
		return
	}
	if l.granted && l.credit > r.credit/2 {
		return
	}
	l.granted = true
	l.credit = r.credit
	l.flow()
}

func (l *rlink) flow() {
	rc := l.rc
	h, dc, cr, ni := l.mine, l.count, l.credit, rc.nextIn
	rc.winIn = rc.r.window
	rc.send(&simrouter.Flow{NextIncomingID: &ni, IncomingWindow: rc.r.window, NextOutgoingID: rc.nextID, OutgoingWindow: 1 << 16, Handle: &h, DeliveryCount: &dc, LinkCredit: &cr})
}

func (rc *rconn) transfer(b *simrouter.Transfer) {
	r := rc.r
	l := rc.links[b.Handle]
	if l == nil || !l.sender {
		return
	}
	rc.nextIn++
	if rc.winIn == 0 {
		r.e.Violate("protocol", "client exceeded the session window")
	} else {
		rc.winIn--
	}
	if !l.inPart {
		l.partial, l.inPart = nil, true
		if b.DeliveryID != nil {
			l.partID = *b.DeliveryID
		}
	} else if b.DeliveryID != nil && *b.DeliveryID != l.partID {
		// a delivery begun was never finished
		r.e.Logf("router: torn delivery on %s", l)
		r.e.Probe("torn-delivery")
		if r.onTorn != nil {
			r.onTorn(l)
		}
		rc.c.blame("torn delivery")
		rc.put(simrouter.Encode(false, 0, &simrouter.Close{Error: simrouter.Err("amqp:session:invalid-field", "sequencing error")}))
		rc.gone("torn delivery")
		return
	}
	l.partial = append(l.partial, b.Payload...)
	if b.More {
		if rc.winIn == 0 {
			l.flow()
		}
		return
	}
	l.inPart = false
	if l.credit == 0 {
		r.e.Violate("protocol", "client sent without credit")
	} else {
		l.credit--
	}
	l.count++
	m := &rmsg{raw: l.partial, addr: l.addr, from: rc.host, link: l, at: r.e.Now(), tick: r.t(), n: len(r.arrived)}
	r.arrived = append(r.arrived, m)
	l.partial = nil
	if k := r.rejectNext[l.addr]; k > 0 {
		r.rejectNext[l.addr]--
		m.rejected = true
		rc.c.blame("message rejected")
		r.e.Fault("message-rejected")
	} else {
		r.route(m)
	}
	if !b.Settled {
		l.pendDisp = append(l.pendDisp, pendDisp{l.partID, m})
		if r.settle > 0 {
			d := time.Duration(1 + int64(r.e.R.U64()>>1)%int64(r.settle))
			go func() {
				time.Sleep(d)
				l.flushDisp()
			}()
		} else {
			l.flushDisp()
		}
	}
	if l.credit <= r.credit/2 || rc.winIn == 0 {
		l.grant()
		if rc.winIn == 0 {
			l.flow()
		}
	}
}

func (l *rlink) flushDisp() {
	if l.detSent || !l.live() {
		return
	}
	for _, p := range l.pendDisp {
		id := p.id
		d := &simrouter.Disposition{Role: simrouter.RoleReceiver, First: id, Settled: true, State: &simrouter.Accepted{}}
		if p.m.rejected {
			d.State = &simrouter.Rejected{Error: simrouter.Err("amqp:not-allowed", "rejected")}
		} else {
			p.m.accepted = true
		}
		l.rc.send(d)
	}
	l.pendDisp = nil
}

// route hands a message to the receivers.
func (r *router) route(m *rmsg) {
	for _, v := range r.vrecv[m.addr] {
		v.got(m)
	}
	for _, rc := range r.conns {
		for _, l := range rc.all {
			if !l.sender && l.addr == m.addr && l.live() && !l.detSent {
				l.queue = append(l.queue, m)
				l.pump()
				if !strings.HasPrefix(m.addr, "mc/") {
					return
				}
			}
		}
	}
}

// inject is a message from a sender of the harness.
func (r *router) inject(addr string, raw []byte) *rmsg {
	m := &rmsg{raw: raw, addr: addr, at: r.e.Now(), tick: r.t(), n: -1}
	r.route(m)
	return m
}

// pump sends what credit allows.
func (l *rlink) pump() {
	rc := l.rc
	r := rc.r
	for l.live() && !l.detSent && len(l.queue) > 0 && l.rcredit > 0 {
		m := l.queue[0]
		l.queue = l.queue[1:]
		l.rcredit--
		l.rcount++
		id := rc.nextID
		rc.nextID++
		d := &rdeliv{m: m, id: id, at: r.e.Now(), tick: r.t()}
		l.sent = append(l.sent, d)
		var format uint32
		payload := m.raw
		lim := int(rc.frame) - 80
		first := true
		for first || len(payload) > 0 {
			k := min(lim, len(payload))
			t := &simrouter.Transfer{Handle: l.mine, Payload: payload[:k], More: k < len(payload)}
			if first {
				t.DeliveryID, t.DeliveryTag, t.MessageFormat = &id, []byte{byte(id >> 24), byte(id >> 16), byte(id >> 8), byte(id)}, &format
			}
			first = false
			payload = payload[k:]
			if l.presettled && !t.More {
				t.Settled, d.settled, d.settAt = true, true, r.e.Now()
			}
			rc.send(t)
		}
	}
}

// outstanding is the number of deliveries the client may still get or has
// not settled.
func (l *rlink) unsettled() int {
	n := 0
	for _, d := range l.sent {
		if !d.settled {
			n++
		}
	}
	return n
}

// Faults.

func (rc *rconn) endSession() {
	if rc.closed || !rc.begun || rc.ended {
		return
	}
	rc.c.blame("session ended")
	rc.r.e.Fault("session-ended")
	rc.endSent = true
	rc.send(&simrouter.End{Error: simrouter.Err("amqp:internal-error", "session ended")})
	rc.endLinks()
}

func (rc *rconn) closeConn() {
	if rc.closed || rc.state != "open" {
		return
	}
	rc.c.blame("connection closed by router")
	rc.r.e.Fault("connection-closed")
	rc.put(simrouter.Encode(false, 0, &simrouter.Close{Error: simrouter.Err("amqp:connection:forced", "closed")}))
	rc.gone("closed by router")
}

func (l *rlink) detach() {
	if !l.live() || l.detSent {
		return
	}
	l.rc.c.blame("link detached")
	l.rc.r.e.Fault("link-detached")
	l.flushDisp()
	l.detSent = true
	l.rc.send(&simrouter.Detach{Handle: l.mine, Closed: true, Error: simrouter.Err("amqp:link:detach-forced", "detached")})
	l.leave()
}
