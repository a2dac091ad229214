package scen

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"strings"
	"time"

	"github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow/session"

	"vsim/sim"
)

// bus is a simulated network of session containers: addresses that begin
// with "mc/" are multicast, others go to one receiver; a message to an
// address without receivers waits, as on the skupper router. Faults are drawn
// per message until the run is quiet.
type bus struct {
	e     *sim.Env
	addrs map[string]*busAddr
	sent  []*busMsg
	// failed has the messages whose sending failed before transmission
	failed []*busMsg
	recvs  []*busReceiver
	sends  []*busSender
	f      busFaults
	// refuse and hold say what happens to messages sent to an address
	refuse map[string]bool
	hold   map[string]bool
	// holdAddr keeps matching messages back
	change chan struct{}
	onSend func(*busMsg)
	// onTake is called when a receiver yields a message
	onTake func(*busReceiver)
	// onOpen is called when a receiver is opened
	onOpen func(*busReceiver)
	// flow makes receivers hand out no more than their credit
	flow bool
	// clock, when set, stamps transmissions
	clock func() int
}

// busFaults are probabilities in percent, and a delay.
type busFaults struct {
	lose, dup, sendErr, lateErr, nextErr, acceptErr, acceptBlock int
	delay                                                        time.Duration
	reorder                                                      bool
}

type busAddr struct {
	recvs []*busReceiver
	rr    int
}

// busMsg is one transmission.
type busMsg struct {
	at   time.Duration
	addr string
	raw  []byte
	from string
	n    int
	tick int
}

func newBus(e *sim.Env) *bus {
	return &bus{e: e, addrs: map[string]*busAddr{}, refuse: map[string]bool{}, hold: map[string]bool{}, change: make(chan struct{})}
}

func (b *bus) kick() {
	close(b.change)
	b.change = make(chan struct{})
}

// set changes what an address does with messages.
func (b *bus) set(m map[string]bool, addr string, on bool) {
	m[addr] = on
	b.kick()
}

func (b *bus) quiet() {
	b.f = busFaults{}
	b.refuse = map[string]bool{}
	b.hold = map[string]bool{}
	b.kick()
}

func (b *bus) hit(pct int, kind string) bool {
	if pct > 0 && b.e.R.P(pct) {
		b.e.Fault(kind)
		return true
	}
	return false
}

// container returns a container on the bus.
func (b *bus) container(name string) *busContainer { return &busContainer{b: b, name: name} }

type busContainer struct {
	b    *bus
	name string
	errs []func(error)
}

func (c *busContainer) Start(context.Context)         {}
func (c *busContainer) OnSessionError(fn func(error)) { c.errs = append(c.errs, fn) }

func (c *busContainer) NewReceiver(address string, opts session.ReceiverOptions) session.Receiver {
	r := &busReceiver{b: c.b, owner: c.name, addr: address, credit: opts.Credit, done: make(chan struct{}), wake: make(chan struct{}, 1)}
	c.b.recvs = append(c.b.recvs, r)
	a := c.b.addr(address)
	a.recvs = append(a.recvs, r)
	c.b.e.Logf("bus %s receives from %s", c.name, address)
	if c.b.onOpen != nil {
		c.b.onOpen(r)
	}
	c.b.kick()
	return r
}

func (c *busContainer) NewSender(address string, opts session.SenderOptions) session.Sender {
	s := &busSender{b: c.b, owner: c.name, addr: address, done: make(chan struct{})}
	c.b.sends = append(c.b.sends, s)
	return s
}

func (b *bus) addr(a string) *busAddr {
	x := b.addrs[a]
	if x == nil {
		x = &busAddr{}
		b.addrs[a] = x
	}
	return x
}

func (b *bus) open(addr string) []*busReceiver {
	var out []*busReceiver
	for _, r := range b.addr(addr).recvs {
		if !r.closed {
			out = append(out, r)
		}
	}
	return out
}

// openBy lists the links an owner has not closed.
func (b *bus) openBy(owner string) (out []string) {
	for _, r := range b.recvs {
		if r.owner == owner && !r.closed {
			out = append(out, "receiver "+r.addr)
		}
	}
	for _, s := range b.sends {
		if s.owner == owner && !s.closed {
			out = append(out, "sender "+s.addr)
		}
	}
	return
}

type busSender struct {
	b      *bus
	owner  string
	addr   string
	closed bool
	done   chan struct{}
}

var noOpts session.ReceiverOptions

var errBusClosed = errors.New("bus: link closed")
var errBusFault = errors.New("bus: injected error")

// fault returns one of the errors a transport reports. Some of them wrap the
// error of a context that has nothing to do with the operation.
func (b *bus) fault() error {
	switch b.e.R.N(6) {
	case 0:
		return fmt.Errorf("%w: write: %w", errBusFault, context.DeadlineExceeded)
	case 1:
		return fmt.Errorf("%w: session: %w", errBusFault, context.Canceled)
	case 2:
		return fmt.Errorf("%w: %w", errBusFault, &amqp.LinkError{RemoteErr: &amqp.Error{Condition: "amqp:internal-error"}})
	case 3:
		return fmt.Errorf("%w: %w", errBusFault, &amqp.ConnError{})
	}
	return errBusFault
}

func (s *busSender) Send(ctx context.Context, msg *amqp.Message) error {
	b := s.b
	raw, err := msg.MarshalBinary()
	if err != nil {
		return err
	}
	for {
		if s.closed {
			return errBusClosed
		}
		if err := ctx.Err(); err != nil {
			return err
		}
		if b.refuse[s.addr] {
			b.e.Fault("send-refused")
			return b.fault()
		}
		if !b.hold[s.addr] && len(b.open(s.addr)) > 0 {
			break
		}
		ch := b.change
		select {
		case <-ctx.Done():
		case <-s.done:
		case <-ch:
		}
	}
	if b.hit(b.f.sendErr, "send-error") {
		m := &busMsg{at: b.e.Now(), addr: s.addr, raw: raw, from: s.owner, n: -1}
		if b.clock != nil {
			m.tick = b.clock()
		}
		b.failed = append(b.failed, m)
		return b.fault()
	}
	b.transmit(s.owner, s.addr, raw)
	if b.hit(b.f.lateErr, "send-error-after-transmission") {
		return b.fault()
	}
	return nil
}

// transmit routes one message.
func (b *bus) transmit(from, addr string, raw []byte) {
	m := &busMsg{at: b.e.Now(), addr: addr, raw: raw, from: from, n: len(b.sent)}
	if b.clock != nil {
		m.tick = b.clock()
	}
	b.sent = append(b.sent, m)
	b.e.Logf("bus #%d %s -> %s %d bytes", m.n, from, addr, len(raw))
	if b.onSend != nil {
		b.onSend(m)
	}
	to := b.open(addr)
	if len(to) == 0 {
		return
	}
	if !strings.HasPrefix(addr, "mc/") {
		a := b.addr(addr)
		a.rr++
		to = to[a.rr%len(to) : a.rr%len(to)+1]
	}
	for _, r := range to {
		if b.hit(b.f.lose, "message-lost") {
			continue
		}
		n := 1
		if b.hit(b.f.dup, "message-duplicated") {
			n = 2
		}
		for i := 0; i < n; i++ {
			r.push(m)
		}
	}
}

func (s *busSender) Close(context.Context) error {
	if !s.closed {
		s.closed = true
		close(s.done)
	}
	return nil
}

type busItem struct {
	due time.Time
	m   *busMsg
}

type busReceiver struct {
	b      *bus
	owner  string
	addr   string
	q      []busItem
	closed bool
	done   chan struct{}
	wake   chan struct{}
	taken  int
	credit int
	spent  int    // taken and neither accepted nor lost
	goid   uint64 // the goroutine that last called Next
	seq    []yielded
	failed bool // the next Next fails
}

// starved tells whether the credit is used up. Without any asked for it is one.
func (r *busReceiver) starved() bool { return r.b.flow && r.spent >= max(1, r.credit) }

func (r *busReceiver) settle() {
	r.spent--
	select {
	case r.wake <- struct{}{}:
	default:
	}
}

// fail makes the receiver's pending or next call of Next fail.
func (r *busReceiver) fail() {
	r.failed = true
	select {
	case r.wake <- struct{}{}:
	default:
	}
}

// yielded is a message Next returned.
type yielded struct {
	raw      []byte
	accepted bool
	at       time.Duration
	msg      *amqp.Message
}

func (r *busReceiver) push(m *busMsg) {
	due := time.Now()
	if d := r.b.f.delay; d > 0 && r.b.e.R.P(50) {
		due = due.Add(time.Duration(r.b.e.R.U64() % uint64(d)))
		r.b.e.Fault("message-delayed")
	}
	if n := len(r.q); n > 0 && !r.b.f.reorder && r.q[n-1].due.After(due) {
		due = r.q[n-1].due
	}
	i := len(r.q)
	for i > 0 && r.q[i-1].due.After(due) {
		i--
	}
	if i < len(r.q) {
		r.b.e.Fault("message-reordered")
	}
	r.q = append(r.q, busItem{})
	copy(r.q[i+1:], r.q[i:])
	r.q[i] = busItem{due, m}
	select {
	case r.wake <- struct{}{}:
	default:
	}
}

func (r *busReceiver) Next(ctx context.Context) (*amqp.Message, error) {
	for {
		if r.closed {
			return nil, errBusClosed
		}
		if err := ctx.Err(); err != nil {
			return nil, err
		}
		if r.failed {
			r.failed = false
			return nil, r.b.fault()
		}
		var tc <-chan time.Time
		var t *time.Timer
		if len(r.q) > 0 && !r.starved() {
			d := time.Until(r.q[0].due)
			if d <= 0 {
				if r.addr != "mc/beacons" && r.b.hit(r.b.f.nextErr, "receive-error") {
					return nil, r.b.fault()
				}
				it := r.q[0]
				r.q = r.q[1:]
				r.taken++
				r.spent++
				msg := new(amqp.Message)
				if err := msg.UnmarshalBinary(it.m.raw); err != nil {
					r.b.e.Errorf("bus: cannot decode own message: %v", err)
				}
				r.b.e.Logf("bus %s takes #%d from %s", r.owner, it.m.n, r.addr)
				r.seq = append(r.seq, yielded{raw: it.m.raw, at: r.b.e.Now(), msg: msg})
				r.goid = runtime.SimGoid()
				if r.b.onTake != nil {
					r.b.onTake(r)
				}
				return msg, nil
			}
			t = time.NewTimer(d)
			tc = t.C
		}
		select {
		case <-ctx.Done():
		case <-r.done:
		case <-r.wake:
		case <-tc:
		}
		if t != nil {
			t.Stop()
		}
	}
}

func (r *busReceiver) Accept(ctx context.Context, msg *amqp.Message) error {
	if msg == nil {
		if !r.b.e.For("M02", "E07") {
			return errBusFault
		}
		r.b.e.Violate("accept-nil", "Accept called without a message on %s", r.addr)
		return errBusFault
	}
	if err := ctx.Err(); err != nil {
		return err
	}
	if r.b.hit(r.b.f.acceptErr, "accept-error") {
		r.settle() // a link that failed starts over
		return r.b.fault()
	}
	if r.b.hit(r.b.f.acceptBlock, "accept-blocks") {
		select {
		case <-ctx.Done():
			return ctx.Err()
		case <-time.After(2 * time.Second):
		}
	}
	for i := range r.seq {
		if r.seq[i].msg == msg && !r.seq[i].accepted {
			r.seq[i].accepted = true
			r.settle()
		}
	}
	return nil
}

func (r *busReceiver) Close(context.Context) error {
	if !r.closed {
		r.closed = true
		close(r.done)
		r.b.e.Logf("bus %s closes receiver of %s", r.owner, r.addr)
		r.b.kick()
	}
	return nil
}

// inject puts a message on an address as if a peer had sent it. It does not
// wait for receivers.
func (b *bus) inject(from, addr string, msg *amqp.Message) {
	raw, err := msg.MarshalBinary()
	if err != nil {
		b.e.Errorf("bus: cannot encode injected message: %v", err)
	}
	b.transmit(from, addr, raw)
}

func ptr[T any](v T) *T { return &v }

// amqpRecords builds a record message with the harness's own encoding.
func amqpRecords(to string, recs ...attrs) *amqp.Message {
	var list []any
	for _, a := range recs {
		list = append(list, wireAttrs(a))
	}
	return &amqp.Message{Properties: &amqp.MessageProperties{To: &to, Subject: ptr("RECORD")}, Value: list}
}

func amqpHeartbeat(to, id string, version uint32, now uint64) *amqp.Message {
	return &amqp.Message{Properties: &amqp.MessageProperties{To: &to, Subject: ptr("HEARTBEAT")},
		ApplicationProperties: map[string]any{"v": version, "now": now, "id": id}}
}

func amqpBeacon(id, typ, addr, direct string, version uint32) *amqp.Message {
	return &amqp.Message{Properties: &amqp.MessageProperties{To: ptr("mc/sfe.all"), Subject: ptr("BEACON")},
		ApplicationProperties: map[string]any{"v": version, "sourceType": typ, "address": addr, "direct": direct, "id": id}}
}

func amqpFlush(to string) *amqp.Message {
	return &amqp.Message{Properties: &amqp.MessageProperties{To: &to, Subject: ptr("FLUSH")}}
}

// wireAttrs is the protocol's form of a record.
func wireAttrs(a attrs) map[any]any {
	code := atoi(a[0])
	out := map[any]any{uint32(0): uint32(code), uint32(1): a[1]}
	rt, _ := typeByCode(code)
	for _, f := range fieldsOf(rt.t) {
		s, ok := a[f.code]
		if !ok {
			continue
		}
		var v any = s
		switch f.kind {
		case "l":
			var list []any
			for _, x := range strings.Fields(strings.Trim(s, "[]")) {
				list = append(list, x)
			}
			v = list
		case "t", "u":
			var n uint64
			fmt.Sscan(s, &n)
			v = n
		case "i":
			var n int64
			fmt.Sscan(s, &n)
			v = n
		case "U":
			var n uint32
			fmt.Sscan(s, &n)
			v = n
		case "I":
			var n int32
			fmt.Sscan(s, &n)
			v = n
		}
		out[uint32(f.code)] = v
	}
	return out
}

// wireRead is the harness's own reading of a transmitted message.
type wireRead struct {
	subject, to string
	recs        []attrs
	props       map[string]any
	bad         string
}

func readWire(raw []byte) (w wireRead) {
	var m amqp.Message
	if err := m.UnmarshalBinary(raw); err != nil {
		w.bad = err.Error()
		return
	}
	w.props = m.ApplicationProperties
	if m.Properties != nil {
		if m.Properties.Subject != nil {
			w.subject = *m.Properties.Subject
		}
		if m.Properties.To != nil {
			w.to = *m.Properties.To
		}
	}
	if w.subject == "RECORD" {
		list, ok := m.Value.([]any)
		if !ok {
			w.bad = fmt.Sprintf("record message carries %T", m.Value)
			return
		}
		for _, x := range list {
			mm, ok := x.(map[any]any)
			if !ok {
				w.bad = fmt.Sprintf("record message contains %T", x)
				return
			}
			a := attrs{}
			for k, v := range mm {
				n, ok := k.(uint32)
				if !ok {
					w.bad = fmt.Sprintf("attribute key %T", k)
					return
				}
				a[int(n)] = fmt.Sprint(v)
			}
			w.recs = append(w.recs, a)
		}
	}
	return
}
