package scen

import (
	"bufio"
	"bytes"
	"context"
	crand "crypto/rand"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/signal"
	"runtime"
	"time"

	"github.com/Azure/go-amqp/simrouter"
	"github.com/c-kruse/vanflow/store"

	"vsim/sim"
	"vsim/simargs"
)

// toolRun is the command line tool in the simulation: its main function, its
// HTTP server, the signals it gets and its connections to the router.
type toolRun struct {
	e       *sim.Env
	n       *netw
	r       *router
	lis     *simListener
	sigs    []chan<- os.Signal
	exited  chan struct{}
	hasExit bool
	stopped bool // interrupted
	onSend  func(addr string, m *rmsg)
}

type simListener struct {
	c      chan net.Conn
	done   chan struct{}
	closed bool
}

func (l *simListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.c:
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}

func (l *simListener) Close() error {
	if !l.closed {
		l.closed = true
		close(l.done)
	}
	return nil
}

func (l *simListener) Addr() net.Addr { return simAddr("http") }

// pipeConn is a net.Pipe with the addresses a TCP connection has.
type pipeConn struct{ net.Conn }

func (pipeConn) LocalAddr() net.Addr  { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 9090} }
func (pipeConn) RemoteAddr() net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 40000} }

type detRand struct{ r *sim.RNG }

func (d detRand) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(d.r.U64())
	}
	return len(b), nil
}

func newToolRun(e *sim.Env) *toolRun {
	t := &toolRun{e: e, exited: make(chan struct{})}
	t.n, t.r = newMeshNet(e)
	crand.Reader = detRand{sim.NewRNG(e.Spec.Seed ^ 0xc0de)}
	net.SimListen = func(ctx context.Context, network, address string) (net.Listener, error) {
		e.Logf("listen %s", address)
		t.lis = &simListener{c: make(chan net.Conn), done: make(chan struct{})}
		return t.lis, nil
	}
	signal.SimNotify = func(c chan<- os.Signal, sig ...os.Signal) { t.sigs = append(t.sigs, c) }
	os.SimExit = func(code int) {
		if !e.Over() {
			e.Logf("exit %d", code)
			t.ended()
			select {}
		}
	}
	return t
}

// options gives the tool its command line: flags that are on or off and how
// it is to connect, as the plan says.
func (t *toolRun) options(id string, flags ...any) {
	var args []string
	for i := 0; i < len(flags); i += 2 {
		args = append(args, fmt.Sprintf("-%s=%v", flags[i], flags[i+1].(int64) == 1))
	}
	dir := identityDir()
	ca, cert, key := dir+"/ca.crt", dir+"/tls.crt", dir+"/tls.key"
	conn := t.e.Plan.P("conn")
	verify := conn == connTLS || conn == connConfigTLS
	switch conn {
	case connPlain:
		args = append(args, "-server", "amqp://router:5672")
	case connConfig:
		args = append(args, "-messaging-config", dir+"/plain.json")
	case connTLS, connTLSBlind:
		args = append(args, "-server", "amqps://router:5671", "-ca", ca, "-cert", cert, "-key", key)
		if !verify {
			args = append(args, "-tls-verify=false")
		}
	case connTLSDefault:
		// the router is verified with the system's authorities
		args = append(args, "-server", "amqps://router:5671")
		if t.e.Plan.P("ca") == 1 {
			args = append(args, "-ca", ca)
		}
	case connTLSNoCA:
		// with what is it to verify the router?
		args = append(args, "-server", "amqps://router:5671", "-cert", cert, "-key", key)
		if t.e.Plan.P("ca") == 1 {
			args = append(args, "-ca", dir+"/missing.crt")
		}
	case connConfigTLS:
		args = append(args, "-messaging-config", dir+"/verify.json")
	case connConfigTLSBlind:
		args = append(args, "-messaging-config", dir+"/blind.json")
	}
	port := "5672"
	secure := conn >= connTLS
	if secure {
		port = "5671"
		t.r.secure["router"] = &security{verify: verify, cert: true, old: t.e.Plan.P("oldRouter") == 1}
	}
	if conn >= connTLSDefault {
		t.r.secure["router"] = &security{verify: true, always: "impostor"}
	}
	if t.e.Spec.Prop == "T05" {
		t.e.Judges = map[string]bool{"clear-text": true, "impostor-trusted": true, "no-certificate": true, "wrong-mechanism": true, "authentication": true,
			"frame-too-large": true, "wrong-router": true, "wrong-links": true, "command-ended": true}
		if conn >= connTLSDefault {
			// it never finds a router it trusts
			delete(t.e.Judges, "command-ended")
			delete(t.e.Judges, "wrong-links")
			secure = false
		}
		t.r.onBad = func(kind, text string) { t.e.Violate(kind, "%s", text) }
		t.n.onDial = func(d *dial) {
			if d.host != "router" || d.port != port {
				t.e.Violate("wrong-router", "the command connects to %s:%s, it was told router:%s", d.host, d.port, port)
			}
		}
		frame := t.r.onFrame
		t.r.onFrame = func(rc *rconn, body simrouter.Body) {
			if _, ok := body.(*simrouter.Open); ok && rc.sasl != secure {
				t.r.bad("authentication", "conn %d authenticates: %v, it was to: %v", rc.c.id, rc.sasl, secure)
			}
			if frame != nil {
				frame(rc, body)
			}
		}
	}
	simargs.Set(id, args...)
}

// How the tool is to connect.
const (
	connPlain = iota
	connConfig
	connTLS
	connTLSBlind // does not verify the router
	connConfigTLS
	connConfigTLSBlind
	connTLSDefault
	connTLSNoCA
)

// genConn draws how the tool is to connect, and faults of the handshake.
func genConn(r *sim.RNG, spec *sim.Spec, p *sim.Plan, faults int, window time.Duration) {
	secure := 15
	if spec.Prop == "T05" {
		secure = 80
	}
	if !r.P(secure) {
		return
	}
	conn := r.In(connConfig, connConfigTLSBlind)
	if spec.Prop == "T05" && r.P(10) {
		conn = r.In(connTLSDefault, connTLSNoCA)
		p.Params["ca"] = int64(r.N(2))
	}
	p.Params["conn"] = int64(conn)
	if conn < connTLS {
		return
	}
	if r.P(15) {
		p.Params["oldRouter"] = 1
	}
	for i := r.N(3); i > 0; i-- {
		at := int64(r.Dur(window))
		p.Ops = append(p.Ops, sim.Op{C: faults, K: "handshake", S: sim.Pick(r, "tls", "impostor", "impostor", "wrongname", "expired", "oldtls", "mechanism", "sasl"), B: int64(r.In(1, 3)), At: at})
		if r.P(70) {
			p.Ops = append(p.Ops, sim.Op{C: faults, K: "cut", At: at + 1})
		}
	}
}

// start runs the tool.
func (t *toolRun) start(main func()) {
	go func() {
		main()
		t.ended()
	}()
}

func (t *toolRun) ended() {
	if t.hasExit {
		return
	}
	t.hasExit = true
	t.e.Logf("tool exits")
	close(t.exited)
	if !t.stopped {
		t.e.Violate("command-ended", "the command ended by itself")
		t.e.Finish()
	}
}

// interrupt sends the signal.
func (t *toolRun) interrupt() bool {
	if len(t.sigs) == 0 {
		return false
	}
	t.e.Logf("interrupt")
	t.stopped = true
	for _, c := range t.sigs {
		select {
		case c <- os.Interrupt:
		default:
		}
	}
	return true
}

type httpResult struct {
	code int
	body []byte
	err  error
}

var errNoServer = errors.New("nobody listens")

// connect opens a connection to the tool's server.
func (t *toolRun) connect(d time.Duration) (net.Conn, error) {
	if t.lis == nil || t.lis.closed {
		return nil, errNoServer
	}
	c, s := net.Pipe()
	tm := time.NewTimer(d)
	defer tm.Stop()
	select {
	case t.lis.c <- pipeConn{s}:
		return c, nil
	case <-t.lis.done:
		return nil, errNoServer
	case <-tm.C:
		return nil, os.ErrDeadlineExceeded
	}
}

// do makes an HTTP request. It is given up after d.
func (t *toolRun) do(method, path string, body []byte, d time.Duration) (res httpResult) {
	c, err := t.connect(d)
	if err != nil {
		res.err = err
		return
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(d))
	go func() {
		var b bytes.Buffer
		fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: tool\r\nConnection: close\r\nContent-Length: %d\r\n\r\n", method, path, len(body))
		b.Write(body)
		c.Write(b.Bytes())
	}()
	resp, err := http.ReadResponse(bufio.NewReader(c), &http.Request{Method: method})
	if err != nil {
		res.err = err
		return
	}
	res.code = resp.StatusCode
	res.body, res.err = io.ReadAll(resp.Body)
	return
}

// idleRequest sends half a request and leaves the connection open for d.
func (t *toolRun) idleRequest(d time.Duration) {
	c, err := t.connect(time.Second)
	if err != nil {
		return
	}
	t.e.Fault("http-client-stalls")
	c.SetDeadline(time.Now().Add(d))
	c.Write([]byte("GET / HTTP/1.1\r\nHo"))
	time.Sleep(d)
	c.Close()
}

// entries decodes what the tool lists.
type toolEntry struct {
	src   store.SourceRef
	typ   string
	attrs attrs
}

func parseEntries(body []byte) (out []toolEntry, err error) {
	var resp struct {
		Data []struct {
			Meta     store.Metadata
			TypeMeta struct{ APIVersion, Type string }
			Record   json.RawMessage
		} `json:"data"`
		Error string `json:"error"`
	}
	if err := json.Unmarshal(body, &resp); err != nil {
		return nil, fmt.Errorf("%v in %.200q", err, body)
	}
	if resp.Error != "" {
		return nil, errors.New(resp.Error)
	}
	for _, d := range resp.Data {
		te := toolEntry{src: d.Meta.Source, typ: d.TypeMeta.Type}
		if te.typ != "" {
			var ok bool
			te.attrs, ok = attrsOfJSON(te.typ, d.Record)
			if !ok {
				return nil, fmt.Errorf("record %.200q of type %q", d.Record, te.typ)
			}
		}
		out = append(out, te)
	}
	return out, nil
}

// conns is the number of the tool's open connections.
func (t *toolRun) conns() int {
	n := 0
	for _, c := range t.n.conns {
		if !c.isClosed && !c.isReset && !c.rc.closed {
			n++
		}
	}
	return n
}

// listening reports whether a receiver of the tool is attached to addr.
func (t *toolRun) listening(addr string) bool {
	for _, rc := range t.r.conns {
		for _, l := range rc.all {
			if !l.sender && l.addr == addr && l.live() && !l.detSent && l.rcredit > 0 {
				return true
			}
		}
	}
	return false
}

func (t *toolRun) send(addr string, msg interface{ MarshalBinary() ([]byte, error) }) {
	raw, err := msg.MarshalBinary()
	if err != nil {
		t.e.Errorf("cannot encode: %v", err)
	}
	m := t.r.inject(addr, raw)
	if t.onSend != nil {
		t.onSend(addr, m)
	}
}

// stallBase and stallSince measure the time goroutines were stalled.
func (t *toolRun) stallBase() int64 { return int64(runtime.SimStallNS()) }

func (t *toolRun) stallSince(base int64) time.Duration {
	return time.Duration(int64(runtime.SimStallNS()) - base + int64(runtime.SimStallLeft()))
}
