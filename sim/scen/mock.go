package scen

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"time"

	"github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow/session"

	"vsim/sim"
)

// Mock: senders and receivers come and go on the in-memory router.

func genMock(r *sim.RNG, spec *sim.Spec) *sim.Plan {
	p := &sim.Plan{Params: map[string]int64{}}
	naddr := r.In(1, 3)
	p.Params["addrs"] = int64(naddr)
	ms := func(n int) int64 { return int64(r.Dur(time.Duration(n) * time.Millisecond)) }
	ns := r.In(1, 4)
	for s := 1; s <= ns; s++ {
		cur := r.N(naddr)
		p.Ops = append(p.Ops, sim.Op{C: s, K: "new", A: int64(cur), At: ms(50)})
		for i := 0; i < r.In(1, 14); i++ {
			to := int64(0) // no timeout
			switch r.N(4) {
			case 0:
				to = ms(40)
			case 1:
				to = ms(2000)
			case 2:
				if r.P(20) {
					to = -1 // already cancelled
				}
			}
			op := sim.Op{C: s, K: "send", B: to}
			if r.P(30) {
				op.At = ms(100)
			}
			p.Ops = append(p.Ops, op)
		}
		if r.P(25) {
			cl := sim.Op{C: 20 + s, K: "close", A: int64(s), At: ms(300)}
			p.Ops = append(p.Ops, cl)
			for r.P(40) {
				p.Ops = append(p.Ops, cl) // from another goroutine at the same time
			}
			p.Ops = append(p.Ops, sim.Op{C: s, K: "send"}, sim.Op{C: s, K: "send", B: ms(40)})
		}
	}
	nr := r.In(1, 4)
	for c := 1; c <= nr; c++ {
		rc := 40 + c
		credit := int64(sim.Pick(r, 0, 1, 1, 2, 3, 8))
		if r.P(50) {
			p.Ops = append(p.Ops, sim.Op{C: rc, K: "new", A: int64(r.N(naddr)), B: credit})
		} else {
			p.Ops = append(p.Ops, sim.Op{C: rc, K: "new", A: int64(r.N(naddr)), B: credit, At: ms(400)})
		}
		for i := 0; i < r.In(0, 20); i++ {
			to := int64(0)
			if r.P(30) {
				to = ms(60)
			} else if r.P(15) {
				to = -1 // already cancelled
			}
			op := sim.Op{C: rc, K: "next", B: to}
			if r.P(30) {
				op.At = ms(60)
			}
			p.Ops = append(p.Ops, op)
		}
		if r.P(40) {
			p.Ops = append(p.Ops, sim.Op{C: rc, K: "idle", At: ms(3000)})
		}
		if r.P(40) {
			cl := sim.Op{C: 60 + c, K: "close", A: int64(rc), At: ms(500)}
			p.Ops = append(p.Ops, cl)
			for r.P(40) {
				if r.P(40) {
					cl.At = ms(50)
				}
				p.Ops = append(p.Ops, cl)
			}
			p.Ops = append(p.Ops, sim.Op{C: rc, K: "next"}, sim.Op{C: rc, K: "next", B: ms(60)})
		}
	}
	return p
}

type mockSend struct {
	id        string
	sender    int
	addr      int
	call, ret int
	err       error
	done      bool
}

type mockRcv struct {
	no                int
	addr              int
	r                 session.Receiver
	call, open        int
	closeCall, closed int
	got               []string
	gotAt             []int
	stop              bool
	pending           int
}

type mockRun struct {
	e     *sim.Env
	tick  int
	sends []*mockSend
	rcvs  []*mockRcv
	byID  map[string]*mockSend
}

func (m *mockRun) t() int { m.tick++; return m.tick }

// mockJudges has the kinds of violations of properties other than C07 that
// speak about any container, this one too.
var mockJudges = map[string]map[string]bool{
	"C02": {"fabricated": true, "wrong-address": true, "duplicate": true, "reordered": true, "late-subscriber": true, "lost": true},
	"C03": {"next-ignores-context": true, "next-error": true, "send-ignores-context": true, "send-error": true, "lost": true},
	"C04": {"next-after-close-hangs": true, "next-after-close": true, "send-after-close-hangs": true, "send-after-close": true, "close-hangs": true, "pending-send-after-close": true, "pending-next-after-close": true},
}

const mockSlack = 20 * time.Millisecond

func runMock(e *sim.Env) {
	p := e.Plan
	m := &mockRun{e: e, byID: map[string]*mockSend{}}
	e.Judges = mockJudges[e.Spec.Prop]
	var fac session.ContainerFactory
	sim.Atomic(func() { fac = session.NewMockContainerFactory() })
	ctx, cancel := context.WithCancel(context.Background())
	rctx, rcancel := context.WithCancel(ctx)
	drain := make(chan struct{})
	drained := false
	type snd struct {
		s         session.Sender
		addr      int
		closeCall int
		closedAt  int
	}
	snds := map[int]*snd{}
	rcvs := map[int]*mockRcv{}
	gs, gr := sim.NewGroup(), sim.NewGroup()
	// bounded runs fn and reports when it takes longer than its context and
	// slack allow.
	bounded := func(kind, what string, timeout int64, fn func()) {
		t := time.Duration(timeout)
		if timeout <= 0 {
			t = 0
		}
		if !e.Within(t+mockSlack, fn) {
			e.Violate(kind, "%s did not return within %v of its time", what, mockSlack)
			e.Finish()
		}
	}
	opctx := func(op sim.Op) (context.Context, context.CancelFunc) {
		switch {
		case op.B > 0:
			return context.WithTimeout(ctx, time.Duration(op.B))
		case op.B < 0:
			c, cn := context.WithCancel(ctx)
			cn()
			return c, cn
		}
		return context.WithCancel(ctx)
	}
	next := func(rc *mockRcv, op sim.Op) bool {
		c, cn := opctx(op)
		defer cn()
		if op.B == 0 {
			c = rctx
		}
		closedBefore := rc.closed > 0
		rc.pending++
		defer func() { rc.pending-- }()
		var msg *amqp.Message
		var err error
		fn := func() {
			msg, err = rc.r.Next(c)
			if err == nil && msg != nil {
				// accepting a message of the in-memory router cannot fail
				if aerr := rc.r.Accept(context.Background(), msg); aerr != nil {
					e.Violate("accept-failed", "accept: %v", aerr)
				}
			}
		}
		switch {
		case closedBefore:
			bounded("next-after-close-hangs", "Next of a closed receiver", 0, fn)
		case op.B != 0:
			bounded("next-ignores-context", "Next", op.B, fn)
		default:
			fn()
		}
		e.Logf("r%d next %v", rc.no, err)
		if err != nil {
			if closedBefore || rc.closeCall > 0 {
				return false
			}
			if c.Err() == nil {
				e.Violate("next-fails", "Next of an open receiver failed before its context ended: %v", err)
			} else if !errors.Is(err, c.Err()) {
				e.Violate("next-error", "Next failed with %v after its context ended with %v", err, c.Err())
			}
			return false
		}
		if msg == nil {
			e.Violate("next-nil", "Next returned neither message nor error")
			return false
		}
		if closedBefore {
			e.Violate("next-after-close", "Next returned a message after Close had returned")
		}
		id := string(msg.GetData())
		rc.got = append(rc.got, id)
		rc.gotAt = append(rc.gotAt, m.t())
		return true
	}
	for s := 1; s <= 4; s++ {
		ops := p.Of(s)
		if len(ops) == 0 {
			continue
		}
		gs.Go(func() {
			sn := &snd{}
			for i, op := range ops {
				time.Sleep(time.Duration(op.At))
				if op.K == "new" {
					sn.addr = int(op.A)
					bounded("new-sender-hangs", "NewSender", 0, func() {
						sn.s = fac.Create().NewSender(fmt.Sprint("mc/a", sn.addr), session.SenderOptions{})
					})
					sim.Release(sn)
					snds[s] = sn
					continue
				}
				x := &mockSend{id: fmt.Sprintf("s%d-%d", s, i), sender: s, addr: sn.addr}
				m.sends = append(m.sends, x)
				m.byID[x.id] = x
				c, cn := opctx(op)
				closedBefore := sn.closedAt > 0
				x.call = m.t()
				fn := func() {
					x.err = sn.s.Send(c, amqp.NewMessage([]byte(x.id)))
					x.ret = m.t()
				}
				switch {
				case closedBefore:
					bounded("send-after-close-hangs", "Send of a closed sender", 0, fn)
				case op.B != 0:
					bounded("send-ignores-context", "Send", op.B, fn)
				default:
					fn()
				}
				x.done = true
				e.Logf("s%d send %s %v", s, x.id, x.err)
				switch {
				case x.err == nil && closedBefore:
					e.Violate("send-after-close", "Send succeeded after Close had returned")
				case x.err != nil && sn.closeCall > 0:
				case x.err != nil && c.Err() == nil:
					e.Violate("send-fails", "Send of an open sender failed before its context ended: %v", x.err)
				case x.err != nil && !errors.Is(x.err, c.Err()):
					e.Violate("send-error", "Send failed with %v after its context ended with %v", x.err, c.Err())
				}
				cn()
			}
		})
		for _, op := range p.Of(20 + s) {
			gs.Go(func() {
				time.Sleep(time.Duration(op.At))
				sn := snds[s]
				if sn == nil {
					return
				}
				if sn.closeCall == 0 {
					sn.closeCall = m.t()
				}
				pend := 0
				for _, x := range m.sends {
					if x.sender == s && !x.done {
						pend++
					}
				}
				bounded("close-hangs", "Close of a sender", 0, func() {
					sim.Acquire(sn)
					sn.s.Close(ctx)
				})
				if sn.closedAt == 0 {
					sn.closedAt = m.t()
				}
				e.Logf("s%d closed", s)
				if pend > 0 {
					e.Probe("close-during-send")
				}
				// A pending send ends promptly.
				e.Settle(mockSlack)
				for _, x := range m.sends {
					if x.sender == s && x.call < sn.closeCall && !x.done && e.For("C04", "C07") {
						e.Violate("pending-send-after-close", "Send was still waiting %v after its sender was closed", mockSlack)
					}
				}
			})
		}
	}
	for c := 1; c <= 4; c++ {
		rid := 40 + c
		ops := p.Of(rid)
		if len(ops) == 0 {
			continue
		}
		gr.Go(func() {
			rc := &mockRcv{no: c}
			for _, op := range ops {
				if op.K != "new" && drained {
					break
				}
				t := time.NewTimer(time.Duration(op.At))
				select {
				case <-t.C:
				case <-drain:
				}
				switch op.K {
				case "new":
					rc.addr = int(op.A)
					rc.call = m.t()
					bounded("new-receiver-hangs", "NewReceiver", 0, func() {
						rc.r = fac.Create().NewReceiver(fmt.Sprint("mc/a", rc.addr), session.ReceiverOptions{Credit: int(op.B)})
					})
					rc.open = m.t()
					sim.Release(rc)
					m.rcvs = append(m.rcvs, rc)
					rcvs[rid] = rc
				case "next":
					next(rc, op)
				}
			}
			if len(ops) > 0 && ops[len(ops)-1].K == "idle" {
				e.Probe("idle-receiver")
			}
			<-drain
			for !rc.stop && rc.closed == 0 {
				next(rc, sim.Op{B: int64(50 * time.Millisecond)})
			}
		})
		for i, op := range p.Of(60 + c) {
			gs.Go(func() {
				time.Sleep(time.Duration(op.At))
				rc := rcvs[rid]
				if rc == nil || rc.r == nil {
					return
				}
				if rc.closeCall == 0 {
					rc.closeCall = m.t()
				}
				bounded("close-hangs", "Close of a receiver", 0, func() {
					sim.Acquire(rc)
					rc.r.Close(ctx)
				})
				if rc.closed == 0 {
					rc.closed = m.t()
				}
				e.Logf("r%d closed", rc.no)
				e.Settle(mockSlack)
				if rc.pending > 0 && i == 0 {
					e.Violate("pending-next-after-close", "Next was still waiting %v after its receiver was closed", mockSlack)
				}
			})
		}
	}
	// Everything of limited duration ends while receivers idle; then they
	// read on, every address gets a receiver and the rest ends too.
	e.Settle(4 * time.Second)
	e.Quiet()
	e.Settle(3 * time.Second)
	drained = true
	close(drain)
	rcancel()
	for a := 0; a < int(p.P("addrs")); a++ {
		gr.Go(func() {
			rc := &mockRcv{no: 100 + a, addr: a, call: m.t()}
			bounded("new-receiver-hangs", "NewReceiver", 0, func() {
				rc.r = fac.Create().NewReceiver(fmt.Sprint("mc/a", a), session.ReceiverOptions{Credit: 1})
			})
			rc.open = m.t()
			m.rcvs = append(m.rcvs, rc)
			for !rc.stop {
				next(rc, sim.Op{B: int64(50 * time.Millisecond)})
			}
		})
	}
	if !e.Await(2*time.Second, gs.Done()) {
		e.Violate("send-hangs", "operations did not end although every address has a receiver that reads")
		e.Finish()
	}
	e.Settle(200 * time.Millisecond)
	for _, rc := range m.rcvs {
		rc.stop = true
	}
	if !e.Await(time.Second, gr.Done()) {
		e.Violate("next-ignores-context", "a receiver did not end")
		e.Finish()
	}
	cancel()
	m.check()
}

func (m *mockRun) check() {
	e := m.e
	if !e.For("C07", "C02", "C03") {
		m.reached()
		return
	}
	for _, rc := range m.rcvs {
		seen := map[string]bool{}
		last := map[int]int{}
		for i, id := range rc.got {
			x := m.byID[id]
			if x == nil {
				e.Violate("fabricated", "receiver got %q, which nobody sent", id)
				continue
			}
			if x.addr != rc.addr {
				e.Violate("wrong-address", "receiver of address %d got %s sent to address %d", rc.addr, id, x.addr)
			}
			if seen[id] {
				e.Violate("duplicate", "receiver got %s twice", id)
			}
			seen[id] = true
			if x.call > rc.gotAt[i] {
				e.Violate("fabricated", "receiver got %s before it was sent", id)
			}
			if x.done && x.ret < rc.call {
				e.Violate("late-subscriber", "a receiver got %s although it subscribed after Send had returned", id)
			}
			if x.call < last[x.sender] {
				e.Violate("reordered", "receiver got %s after a later message of the same sender", id)
			}
			last[x.sender] = x.call
		}
		if rc.closeCall > 0 {
			continue
		}
		for _, x := range m.sends {
			if x.done && x.err == nil && x.addr == rc.addr && rc.open < x.call && !seen[x.id] {
				e.Violate("lost", "Send of %s succeeded but a receiver subscribed before it never got it", x.id)
			}
		}
	}
	for _, x := range m.sends {
		if !x.done || x.err != nil {
			continue
		}
		any := false
		for _, rc := range m.rcvs {
			if rc.addr == x.addr && rc.call < x.ret {
				any = true
			}
		}
		if !any {
			e.Violate("sent-to-nobody", "Send of %s succeeded before anyone had subscribed to its address", x.id)
		}
	}
	m.reached()
}

func (m *mockRun) reached() {
	var n int
	for _, x := range m.sends {
		if x.done && x.err == nil {
			n++
		}
	}
	var calls []int
	for _, x := range m.sends {
		calls = append(calls, x.call)
	}
	sort.Ints(calls)
	if n > 1 && len(m.rcvs) > 1 {
		m.e.NonTrivial()
	}
}

func init() {
	sim.Scenarios["mock"] = &sim.Scenario{Gen: genMock, Run: runMock, Stalls: true, MaxStall: 300 * time.Millisecond}
}
