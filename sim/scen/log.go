package scen

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"sort"
	"strings"
	"syscall"
	"time"

	simtoolc "github.com/c-kruse/vanflow/zz_simtoolc"

	"vsim/sim"
)

// Log: the tool's log command against the simulated router, with scripted
// event sources that come and go, a network that fails for less than the
// retry limit and a standard output that stalls or takes no data for a while.

func genLog(r *sim.RNG, spec *sim.Spec) *sim.Plan {
	p := &sim.Plan{Params: map[string]int64{}}
	P := p.Params
	genRouterParams(r, P)
	P["flows"], P["logs"], P["records"], P["heartbeats"], P["flush"] = int64(r.N(2)), int64(r.N(2)), int64(min(1, r.N(5))), int64(r.N(2)), int64(r.N(2))
	ns := r.In(1, 4)
	P["sources"] = int64(ns)
	for i := 1; i <= ns; i++ {
		P[fmt.Sprint("beacon", i)] = int64(sim.Pick(r, 2*time.Second, 10*time.Second))
		P[fmt.Sprint("type", i)] = int64(r.N(3))
		if r.P(25) {
			P[fmt.Sprint("mute", i)] = 1
		}
		if r.P(20) {
			P[fmt.Sprint("deaf", i)] = 1
		}
	}
	rounds := r.In(0, 2)
	P["rounds"] = int64(rounds)
	if r.P(15) {
		P["early"] = int64(r.Dur(time.Minute))
	}
	if r.P(10) {
		P["outage"] = 1 // ends with an outage beyond the retry limit
	}
	P["burst"] = int64(sim.Pick(r, 3, 20, 100, 400)) // messages of the last phase
	if r.P(40) {
		P["stallOut"] = int64(r.Dur(12 * time.Second))
	}
	P["odd"] = int64(r.N(2) * r.N(30))
	P["far"] = int64(r.N(2) * r.N(2))
	addrs := []string{"mc/sfe.all"}
	for i := 1; i <= ns; i++ {
		addrs = append(addrs, fmt.Sprintf("mc/sfe.s%d", i), fmt.Sprintf("sfe.s%d", i))
	}
	for k := 0; k < rounds; k++ {
		W := sim.Pick(r, 16*time.Second, 20*time.Second, 50*time.Second)
		P[fmt.Sprint("window", k)] = int64(W)
		P[fmt.Sprint("rest", k)] = int64(time.Minute + r.Dur(20*time.Second))
		base := 10 * (k + 1)
		for i := 1; i <= ns; i++ {
			if r.P(60) {
				for j := 0; j < r.In(1, 3); j++ {
					p.Ops = append(p.Ops, sim.Op{C: base, K: "toggle", A: int64(i), At: int64(r.Dur(W))})
				}
			}
			for j := 0; j < r.N(20); j++ {
				p.Ops = append(p.Ops, sim.Op{C: base, K: "rec", A: int64(i), B: int64(r.U64() >> 1), At: int64(r.U64()>>1) % int64(W)})
			}
		}
		if r.P(70) {
			for j := 0; j < r.In(1, 5); j++ {
				op := genFault(r, faultWindow-5*time.Second, 1, addrs, 5*time.Second)
				op.C = base + 1
				p.Ops = append(p.Ops, op)
			}
		}
		if r.P(30) {
			p.Ops = append(p.Ops, sim.Op{C: base + 1, K: "restart", At: int64(r.Dur(time.Second)), B: int64(13*time.Second - r.Dur(10*time.Second))})
		}
		for j := 0; j < r.N(3); j++ {
			p.Ops = append(p.Ops, sim.Op{C: base + 2, K: sim.Pick(r, "outstall", "outfull", "outshort"), At: int64(r.U64()>>1) % int64(W/2), B: int64(r.Dur(6 * time.Second))})
		}
	}
	genConn(r, spec, p, 11, faultWindow-5*time.Second)
	return p
}

// logMsg is a message sent to the command.
type logMsg struct {
	addr    string
	src     *scriptSource
	line    string // what is to be printed for it
	n       int    // position among the messages of the address
	m       *rmsg
	printed int
	want    bool // of a kind the flags ask for
	sure    bool // sent while everything was intact
}

type logRun struct {
	*serveRun
	msgs    []*logMsg
	byLine  map[string][]*logMsg
	last    map[string]int // position of the last message printed per address
	perAddr map[string]int
	seq     int
	exact   bool
	// standard output
	buf       []byte
	fullUntil time.Duration
	short     int
	stallTill time.Duration
	torn      bool // the last line could not be written to its end
	lines     int
}

// write is the command's standard output.
func (l *logRun) write(b []byte) (int, error) {
	for l.stallTill > l.e.Now() {
		l.e.Fault("stdout-stalls")
		time.Sleep(l.stallTill - l.e.Now())
	}
	if l.fullUntil > l.e.Now() {
		l.e.Fault("stdout-full")
		return 0, &os.PathError{Op: "write", Path: "/dev/stdout", Err: syscall.ENOSPC}
	}
	n := len(b)
	var err error
	if l.short > 0 {
		l.short--
		n = l.e.R.N(n)
		err = &os.PathError{Op: "write", Path: "/dev/stdout", Err: syscall.ENOSPC}
		l.e.Fault("stdout-torn")
	}
	l.buf = append(l.buf, b[:n]...)
	for {
		line, rest, ok := bytes.Cut(l.buf, []byte("\n"))
		if !ok {
			break
		}
		torn := l.torn
		l.torn = false
		l.buf = rest
		l.line(line, torn)
	}
	if err != nil && n > 0 {
		l.torn = true
	}
	return n, err
}

// readLine is a line's canonical form.
func readLine(b []byte) (string, error) {
	var x struct {
		To, Subject string
		V, Now, ID  string
		Data        *[]struct {
			Type string
			Data json.RawMessage
		}
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.DisallowUnknownFields()
	if err := dec.Decode(&x); err != nil {
		return "", err
	}
	if _, err := dec.Token(); err != io.EOF {
		return "", fmt.Errorf("more after the message")
	}
	if x.Data == nil {
		return strings.Join([]string{x.Subject, x.To, x.V, x.Now, x.ID}, "|"), nil
	}
	if x.V != "" || x.Now != "" || x.ID != "" {
		return "", fmt.Errorf("a record message with attributes of a heartbeat")
	}
	out := []string{x.Subject, x.To}
	for _, d := range *x.Data {
		typ := d.Type[strings.LastIndex(d.Type, ".")+1:]
		a, ok := attrsOfJSON(typ, d.Data)
		if !ok {
			return "", fmt.Errorf("record of type %q: %.200q", d.Type, d.Data)
		}
		out = append(out, a.String())
	}
	return strings.Join(out, "|"), nil
}

// line is a complete line of output.
func (l *logRun) line(b []byte, torn bool) {
	l.lines++
	if torn {
		return // begins with what was left of a line that could not be written
	}
	c, err := readLine(b)
	if err != nil {
		l.e.Violate("bad-output", "%v in %.300q", err, b)
		return
	}
	var x *logMsg
	for _, y := range l.byLine[c] {
		if y.printed < delivered(l.r, y.m) {
			x = y
			break
		}
	}
	if x == nil {
		if ys := l.byLine[c]; len(ys) > 0 {
			l.e.Violate("printed-twice", "a message delivered %d times is printed once more: %.300s", delivered(l.r, ys[0].m), c)
		} else {
			l.e.Violate("fabricated-output", "nobody sent what is printed: %.300s", b)
		}
		return
	}
	if !x.want {
		l.e.Violate("unwanted-output", "printed although disabled: %.300s", c)
		return
	}
	x.printed++
	if x.n < l.last[x.addr] {
		l.e.Violate("out-of-order", "message %d of %s is printed after message %d", x.n, x.addr, l.last[x.addr])
		return
	}
	l.last[x.addr] = x.n
}

// delivered counts how often the router handed a message to the command.
func delivered(r *router, m *rmsg) int {
	n := 0
	for _, rc := range r.conns {
		for _, l := range rc.all {
			if l.sender || l.addr != m.addr {
				continue
			}
			for _, d := range l.sent {
				if d.m == m {
					n++
				}
			}
		}
	}
	return n
}

// addrs are the addresses to listen to for a source.
func (l *logRun) addrs(src *scriptSource) []string {
	out := []string{src.addr}
	if l.e.Plan.P("flows") == 1 {
		out = append(out, src.addr+".flows")
	}
	if l.e.Plan.P("logs") == 1 {
		out = append(out, src.addr+".logs")
	}
	if src.typ == "CONTROLLER" {
		out = append(out, src.addr+".heartbeats")
	}
	return out
}

// sent notes a message.
func (l *logRun) sent(addr string, m *rmsg) {
	w := readWire(m.raw)
	x := &logMsg{addr: addr, m: m, sure: l.exact}
	switch w.subject {
	case "HEARTBEAT":
		x.line = strings.Join([]string{w.subject, w.to, fmt.Sprint(w.props["v"]), fmt.Sprint(w.props["now"]), fmt.Sprint(w.props["id"])}, "|")
		x.want = l.e.Plan.P("heartbeats") == 1
	case "RECORD":
		parts := []string{w.subject, w.to}
		for _, a := range w.recs {
			parts = append(parts, a.String())
		}
		x.line = strings.Join(parts, "|")
		x.want = l.e.Plan.P("records") == 1
	default:
		return
	}
	for _, src := range l.srcs {
		for _, a := range l.addrs(src) {
			if a == addr {
				x.src = src
			}
		}
	}
	if x.src == nil {
		x.want = false // nobody listens there
	}
	l.perAddr[addr]++
	x.n = l.perAddr[addr]
	l.msgs = append(l.msgs, x)
	l.byLine[x.line] = append(l.byLine[x.line], x)
}

// publish sends a message with a few new records.
func (l *logRun) publish(src *scriptSource, seed uint64) {
	r := sim.NewRNG(seed)
	addr, code := src.addr, 0
	switch r.N(5) {
	case 0:
		addr, code = src.addr+".flows", 6
	case 1:
		addr, code = src.addr+".logs", 14
	}
	var recs []attrs
	for i := 0; i < sim.Pick(r, 1, 1, 1, 2, 5, 40); i++ {
		l.seq++
		c := code
		if c == 0 {
			c = randType(r)
		}
		a := clean(genAttrs(r, c, fmt.Sprintf("%s.%d", src.id, l.seq), l.seq, 30))
		if l.e.Plan.P("far") == 1 && r.P(20) {
			a[3] = fmt.Sprint(uint64(253402300800000000) + uint64(r.N(1000)))
		}
		recs = append(recs, a)
	}
	if r.P(int(l.e.Plan.P("odd"))) {
		// of this the command can print nothing, or what is in it
		l.odd(src, r)
	}
	l.send(addr, amqpRecords(src.addr, recs...))
}

// odd sends something that is no message of the protocol.
func (l *logRun) odd(src *scriptSource, r *sim.RNG) {
	m := amqpRecords(src.addr, clean(genAttrs(r, randType(r), "odd", 1, 30)))
	switch r.N(6) {
	case 0:
		m.Properties.Subject = ptr(sim.Pick(r, "record", "WHAT", ""))
	case 1:
		m.Properties.Subject = nil
	case 2:
		m.Value = oddValue(r, 1)
		if _, ok := m.Value.([]any); ok {
			m.Value = "x"
		}
	case 3:
		m.Value = []any{map[any]any{uint32(0): uint32(4711), uint32(1): "odd"}}
	case 4:
		m = amqpFlush(src.addr)
	case 5:
		m = amqpBeacon(src.id, src.typ, src.addr, src.direct, src.version)
	}
	l.e.Fault("odd-message")
	raw, err := m.MarshalBinary()
	if err != nil {
		return
	}
	l.r.inject(src.addr, raw)
}

// attached is the sorted list of addresses the command receives from.
func (l *logRun) attached() string {
	var out []string
	for _, rc := range l.r.conns {
		for _, k := range rc.all {
			if !k.sender && k.live() && !k.detSent {
				out = append(out, k.addr)
			}
		}
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}

func (l *logRun) expected() string {
	out := []string{"mc/sfe.all"}
	for _, src := range l.srcs {
		if src.on {
			out = append(out, l.addrs(src)...)
		}
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}

// checkSure finds a message that had to be printed and was not.
func (l *logRun) checkSure(when string) bool {
	for _, x := range l.msgs {
		if x.sure && x.want && x.printed != 1 {
			l.e.Violate("not-printed", "%s, message %d of %s, sent at %v while all was well, is printed %d times: %.300s", when, x.n, x.addr, x.m.at, x.printed, x.line)
			return false
		}
	}
	return true
}

func runLog(e *sim.Env) {
	p := e.Plan
	l := &logRun{serveRun: &serveRun{toolRun: newToolRun(e)}, byLine: map[string][]*logMsg{}, last: map[string]int{}, perAddr: map[string]int{}}
	l.onSend = l.sent
	os.SimStdout = new(os.File)
	os.Stdout = os.SimStdout
	os.SimWrite = l.write
	for i := 1; i <= int(p.P("sources")); i++ {
		src := newScriptSource(i, fmt.Sprint("s", i), []string{"ROUTER", "CONTROLLER", "ROUTER"}[p.P(fmt.Sprint("type", i))], time.Duration(p.P(fmt.Sprint("beacon", i))))
		l.srcs = append(l.srcs, src)
		src.mute, src.deaf = p.P(fmt.Sprint("mute", i)) == 1, p.P(fmt.Sprint("deaf", i)) == 1
		if src.deaf {
			continue
		}
		l.r.vrecv[src.direct] = append(l.r.vrecv[src.direct], &vreceiver{addr: src.direct, got: func(m *rmsg) {
			w := readWire(m.raw)
			if w.subject != "FLUSH" {
				e.Violate("bad-flush", "%s got a message with subject %q", src.direct, w.subject)
				return
			}
			if p.P("flush") == 0 {
				e.Violate("bad-flush", "%s got a flush that was not asked for", src.direct)
				return
			}
			e.Logf("source %s gets a flush", src.id)
			src.flushes = append(src.flushes, e.Now())
		}})
	}
	l.options("c", "include-flow-records", p.P("flows"), "include-log-records", p.P("logs"), "enable-records", p.P("records"), "enable-heartbeats", p.P("heartbeats"), "flush-on-discover", p.P("flush"))
	l.start(simtoolc.Main)
	if d := p.P("early"); d != 0 {
		go func() {
			time.Sleep(time.Duration(d))
			if l.stallTill > e.Now() {
				time.Sleep(l.stallTill - e.Now())
			}
			l.stallTill = 0
			if !l.interrupt() {
				return
			}
			l.awaitExit()
			e.NonTrivial()
			e.Finish()
		}()
	}
	for k := 0; k < int(p.P("rounds")); k++ {
		base := 10 * (k + 1)
		W := time.Duration(p.P(fmt.Sprint("window", k)))
		for _, c := range []int{base, base + 1, base + 2} {
			for _, op := range p.Of(c) {
				go func() {
					time.Sleep(time.Duration(op.At))
					if l.hasExit || l.stopped {
						return
					}
					switch op.K {
					case "toggle":
						l.turn(l.srcs[op.A-1], !l.srcs[op.A-1].on)
					case "rec":
						if src := l.srcs[op.A-1]; src.on {
							l.publish(src, uint64(op.B))
						}
					case "outstall":
						l.stallTill = e.Now() + time.Duration(op.B)
					case "outfull":
						l.fullUntil = e.Now() + time.Duration(op.B)
					case "outshort":
						l.short++
					default:
						l.faultAny("router", op)
					}
				}()
			}
		}
		time.Sleep(faultWindow)
		l.r.heal(nil)
		time.Sleep(W - faultWindow + time.Millisecond)
		var got string
		if !e.Until(150*time.Second, time.Second, func() bool { got = l.attached(); return got == l.expected() }) {
			e.Violate("wrong-links", "150s after all connections can be made again the command receives from %q instead of %q", got, l.expected())
			return
		}
		// connections lost again at once would add up to more than the limit
		time.Sleep(time.Duration(p.P(fmt.Sprint("rest", k))))
		if e.Violated() {
			return
		}
	}
	// no more faults
	e.Quiet()
	l.r.heal(nil)
	l.fullUntil, l.short, l.stallTill = 0, 0, 0
	l.buf, l.torn = nil, false
	e.Logf("faults end")
	if p.P("rounds") > 0 {
		e.Settle(150 * time.Second)
		e.NonTrivial()
	} else {
		e.Settle(5 * time.Second)
	}
	if !l.checkLinks("long after faults ended") {
		return
	}
	if p.P("outage") == 1 {
		l.stopped = true // the command ends by itself
		l.r.n.down["router"] = &outage{until: e.Now() + time.Hour}
		for _, c := range l.r.n.conns {
			c.reset()
		}
		e.Fault("long-outage")
		if !e.Await(3*time.Minute, l.exited) {
			e.Violate("no-exit", "3 minutes after the router went away for good the command still runs")
		}
		return
	}
	// what alive sources send is printed
	l.exact = true
	r := sim.NewRNG(e.Spec.Seed * 31)
	if d := p.P("stallOut"); d != 0 {
		l.stallTill = e.Now() + time.Duration(d)
	}
	for i := 0; i < int(p.P("burst")); i++ {
		if src := l.srcs[r.N(len(l.srcs))]; src.on {
			l.publish(src, r.U64())
		}
		if r.P(20) {
			time.Sleep(r.Dur(10 * time.Millisecond))
		}
	}
	l.exact = false
	e.Settle(time.Duration(p.P("stallOut")) + 20*time.Second)
	if !l.checkSure("20s later") {
		return
	}
	// one source falls silent and returns, or comes for the first time
	src := l.srcs[int(e.Spec.Seed%uint64(len(l.srcs)))]
	if src.on {
		l.turn(src, false)
		e.Settle(25 * time.Second)
		if !strings.Contains(","+l.attached()+",", ","+src.addr+",") {
			e.Violate("forgotten-early", "the command does not listen to %s any more 25s after its last sign of life", src.id)
			return
		}
		e.Settle(45 * time.Second)
		if !l.checkLinks(fmt.Sprintf("70s after %s fell silent", src.id)) {
			return
		}
		e.Settle(time.Duration(1+e.Spec.Seed%40) * time.Second)
	}
	nf := len(src.flushes)
	l.turn(src, true)
	e.Settle(5 * time.Second)
	if !l.checkLinks(fmt.Sprintf("5s after %s sent a beacon", src.id)) {
		return
	}
	l.exact = true
	for i := 0; i < 5; i++ {
		l.publish(src, r.U64())
	}
	e.Settle(6 * time.Second)
	l.exact = false
	// a flush under way when the 5s for it are over is sent once more
	if k := len(src.flushes) - nf; p.P("flush") == 1 && !src.deaf && (k < 1 || k > 2) {
		e.Violate("not-flushed", "%s has got %d flushes 11s after it was discovered", src.id, len(src.flushes)-nf)
		return
	}
	e.Settle(3 * time.Second)
	if !l.checkSure(fmt.Sprintf("after %s came back", src.id)) {
		return
	}
	if e.Spec.Seed%3 == 1 && !l.churn(src) {
		return
	}
	l.interrupt()
	l.awaitExit()
}

// checkLinks compares what the command listens to with the sources alive.
func (l *logRun) checkLinks(when string) bool {
	if got := l.attached(); got != l.expected() {
		l.e.Violate("wrong-links", "%s the command receives from %q instead of %q", when, got, l.expected())
		return false
	}
	if n := l.conns(); n != 1+l.nAlive() {
		l.e.Violate("connections", "%s %d connections are open with %d sources alive", when, n, l.nAlive())
		return false
	}
	return true
}

func init() {
	sim.Scenarios["log"] = &sim.Scenario{Gen: genLog, Run: runLog, Stalls: true, MaxStall: 200 * time.Millisecond, LightSched: true}
}
