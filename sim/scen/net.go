package scen

import (
	"context"
	"errors"
	"fmt"
	"net"
	"os"
	"time"

	"vsim/sim"
)

// netw is the simulated network between containers and the router: one
// simConn per connection, bytes delayed, split, held back, cut and lost.
type netw struct {
	e     *sim.Env
	lat   time.Duration // maximal latency of a chunk
	chunk int           // maximal bytes of one read, 0: no limit
	cap   int           // send buffer
	conns []*simConn
	dials []*dial
	down  map[string]*outage // per host, "" for all
	// onDial is called for every attempt.
	onDial func(d *dial)
	accept func(c *simConn)
	n      int
}

type outage struct {
	until time.Duration
	hang  bool
}

type dial struct {
	host string
	port string
	at   time.Duration
	done time.Duration
	err  error
	conn *simConn
	n    int
}

func newNet(e *sim.Env) *netw {
	n := &netw{e: e, lat: time.Millisecond, cap: 64 << 10, down: map[string]*outage{}}
	net.SimDial = n.dial
	return n
}

var errRefused = errors.New("connection refused")

func (n *netw) dial(ctx context.Context, network, address string) (net.Conn, error) {
	host, port, err := net.SplitHostPort(address)
	if err != nil {
		return nil, err
	}
	d := &dial{host: host, port: port, at: n.e.Now(), n: len(n.dials)}
	n.dials = append(n.dials, d)
	n.e.Logf("dial %s", host)
	if n.onDial != nil {
		n.onDial(d)
	}
	c, err := n.dial1(ctx, host)
	d.done, d.err, d.conn = n.e.Now(), err, c
	if err != nil {
		n.e.Logf("dial %s: %v", host, err)
		return nil, &net.OpError{Op: "dial", Net: network, Err: err}
	}
	return c, nil
}

func (n *netw) outage(host string) *outage {
	for _, h := range []string{host, ""} {
		if o := n.down[h]; o != nil && n.e.Now() < o.until {
			return o
		}
	}
	return nil
}

func (n *netw) dial1(ctx context.Context, host string) (*simConn, error) {
	wait := func(d time.Duration) error {
		t := time.NewTimer(d)
		defer t.Stop()
		select {
		case <-t.C:
			return nil
		case <-ctx.Done():
			return ctx.Err()
		}
	}
	if err := wait(n.delay()); err != nil {
		return nil, err
	}
	for {
		o := n.outage(host)
		if o == nil {
			break
		}
		if !o.hang {
			n.e.Fault("dial-refused")
			return nil, errRefused
		}
		n.e.Fault("dial-hangs")
		if err := wait(o.until - n.e.Now()); err != nil {
			return nil, err
		}
	}
	if ctx.Err() != nil {
		return nil, ctx.Err()
	}
	n.n++
	c := &simConn{n: n, id: n.n, host: host, opened: n.e.Now()}
	c.up = &pipe{c: c, cutAt: -1}
	c.downw = &pipe{c: c, cutAt: -1}
	n.conns = append(n.conns, c)
	n.e.Logf("conn %d open to %s", c.id, host)
	n.accept(c)
	return c, nil
}

func (n *netw) delay() time.Duration {
	return time.Duration(1 + int64(n.e.R.U64()>>1)%int64(n.lat))
}

// pipe is one direction.
type pipe struct {
	c       *simConn
	q       []chunk
	size    int
	written int
	cutAt   int // bytes after which the connection is reset, -1: never
	last    time.Duration
	hold    time.Duration // nothing is delivered before
	fin     bool          // no more bytes follow
	kicks   []chan struct{}
}

type chunk struct {
	at time.Duration
	b  []byte
}

func (p *pipe) kick() {
	for _, k := range p.kicks {
		close(k)
	}
	p.kicks = nil
}

// wait blocks until something changes, the time t (0: none) or the deadline.
func (p *pipe) wait(t time.Duration, deadline *time.Time) error {
	k := make(chan struct{})
	p.kicks = append(p.kicks, k)
	var tc, dc <-chan time.Time
	if t > 0 {
		tm := time.NewTimer(t - p.c.n.e.Now())
		defer tm.Stop()
		tc = tm.C
	}
	if deadline != nil && !deadline.IsZero() {
		if !time.Now().Before(*deadline) {
			return os.ErrDeadlineExceeded
		}
		tm := time.NewTimer(time.Until(*deadline))
		defer tm.Stop()
		dc = tm.C
	}
	select {
	case <-k:
	case <-tc:
	case <-dc:
		return os.ErrDeadlineExceeded
	}
	return nil
}

// put appends bytes that will arrive after a delay.
func (p *pipe) put(b []byte) {
	if p.cutAt >= 0 && p.written+len(b) > p.cutAt {
		b = b[:max(0, p.cutAt-p.written)]
		defer func() {
			p.c.n.e.Fault("connection-cut-midframe")
			p.c.reset()
		}()
	}
	p.written += len(b)
	if len(b) == 0 {
		return
	}
	at := p.c.n.e.Now() + p.c.n.delay()
	if at < p.last {
		at = p.last
	}
	p.last = at
	p.q = append(p.q, chunk{at, append([]byte(nil), b...)})
	p.size += len(b)
	p.kick()
}

// ready is when the head can be read; ok is false without one.
func (p *pipe) ready() (time.Duration, bool) {
	if len(p.q) == 0 {
		return 0, false
	}
	return max(p.q[0].at, p.hold), true
}

func (p *pipe) take(max int) []byte {
	h := &p.q[0]
	n := len(h.b)
	if n > max {
		n = max
	}
	if c := p.c.n.chunk; c > 0 && n > c {
		n = 1 + p.c.n.e.R.N(c)
	}
	b := h.b[:n]
	h.b = h.b[n:]
	if len(h.b) == 0 {
		p.q = p.q[1:]
	}
	p.size -= n
	p.kick()
	return b
}

// simConn is the client's end of a connection; the router uses the pipes.
type simConn struct {
	n         *netw
	id        int
	host      string
	up, downw *pipe // to the router, to the client
	opened    time.Duration
	closed    time.Duration // client called Close
	isClosed  bool
	isReset   bool
	resetAt   time.Duration
	rdl, wdl  time.Time
	cause     string // why a client may give the connection up
	causeAt   time.Duration
	rc        *rconn
	heldUntil time.Duration
	peerGone  bool          // the router closed the connection
	usedAt    time.Duration // first operation known to have used it
}

var errReset = errors.New("connection reset by peer")

// blame notes that a fault hit the connection.
func (c *simConn) blame(why string) {
	if c.cause == "" {
		c.cause, c.causeAt = why, c.n.e.Now()
		c.n.e.Logf("conn %d: %s", c.id, why)
	}
}

// reset breaks the connection for both ends.
func (c *simConn) reset() {
	if c.isReset || c.isClosed {
		return
	}
	c.blame("reset")
	c.isReset, c.resetAt = true, c.n.e.Now()
	c.up.kick()
	c.downw.kick()
	c.rc.gone("reset")
}

// hold stops delivery in both or one direction until t.
func (c *simConn) holdUntil(up, down bool, t time.Duration) {
	c.blame("stalled")
	if up && t > c.up.hold {
		c.up.hold = t
	}
	if down && t > c.downw.hold {
		c.downw.hold = t
	}
	c.heldUntil = max(c.heldUntil, t)
	c.up.kick()
	c.downw.kick()
}

func (c *simConn) Read(b []byte) (int, error) {
	p := c.downw
	for {
		switch {
		case c.isClosed:
			return 0, net.ErrClosed
		case c.isReset:
			return 0, &net.OpError{Op: "read", Net: "tcp", Err: errReset}
		case !c.rdl.IsZero() && !time.Now().Before(c.rdl):
			return 0, os.ErrDeadlineExceeded
		}
		at, ok := p.ready()
		if ok && at <= c.n.e.Now() {
			return copy(b, p.take(len(b))), nil
		}
		if !ok && p.fin && p.hold <= c.n.e.Now() {
			return 0, fmt.Errorf("EOF")
		}
		if !ok {
			at = 0
			if p.fin {
				at = p.hold
			}
		}
		if err := p.wait(at, &c.rdl); err != nil {
			return 0, err
		}
	}
}

func (c *simConn) Write(b []byte) (int, error) {
	p := c.up
	var n int
	for {
		switch {
		case c.isClosed:
			return n, net.ErrClosed
		case c.isReset:
			return n, &net.OpError{Op: "write", Net: "tcp", Err: errReset}
		case !c.wdl.IsZero() && !time.Now().Before(c.wdl):
			return n, os.ErrDeadlineExceeded
		case c.peerGone && c.downw.hold <= c.n.e.Now():
			return n, &net.OpError{Op: "write", Net: "tcp", Err: errReset}
		}
		if room := c.n.cap - p.size; room > 0 {
			k := min(room, len(b))
			p.put(b[:k])
			b = b[k:]
			n += k
			if len(b) == 0 {
				return n, nil
			}
			continue
		}
		c.n.e.Probe("write-blocked")
		var at time.Duration
		if c.peerGone {
			at = c.downw.hold
		}
		if err := p.wait(at, &c.wdl); err != nil {
			return n, err
		}
	}
}

func (c *simConn) Close() error {
	if c.isClosed {
		return net.ErrClosed
	}
	c.isClosed, c.closed = true, c.n.e.Now()
	c.n.e.Logf("conn %d closed by client", c.id)
	c.up.fin = true
	c.up.kick()
	c.downw.kick()
	return nil
}

type simAddr string

func (simAddr) Network() string  { return "tcp" }
func (a simAddr) String() string { return string(a) }

func (c *simConn) LocalAddr() net.Addr  { return simAddr("client") }
func (c *simConn) RemoteAddr() net.Addr { return simAddr(c.host) }

func (c *simConn) SetDeadline(t time.Time) error {
	c.rdl, c.wdl = t, t
	c.up.kick()
	c.downw.kick()
	return nil
}

func (c *simConn) SetReadDeadline(t time.Time) error {
	c.rdl = t
	c.downw.kick()
	return nil
}

func (c *simConn) SetWriteDeadline(t time.Time) error {
	c.wdl = t
	c.up.kick()
	return nil
}
