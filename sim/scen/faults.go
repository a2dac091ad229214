package scen

import (
	"time"

	"vsim/sim"
)

// fault injects a fault into the newest connection of a host, the router or
// the network. Its fields: K the kind, B how long it lasts (or a number of
// bytes or failures), T an address, S a step of the handshake.
func (r *router) fault(host string, op sim.Op) {
	var c *simConn
	for _, x := range r.n.conns {
		if x.host == host {
			c = x
		}
	}
	r.faultConn(c, host, op)
}

// faultConn injects a fault that hits a given connection if it is one of
// connections.
func (r *router) faultConn(c *simConn, host string, op sim.Op) {
	e := r.e
	until := e.Now() + time.Duration(op.B)
	live := c != nil && !c.isClosed && !c.isReset
	var links []*rlink
	if live {
		for _, l := range c.rc.all {
			if l.live() {
				links = append(links, l)
			}
		}
	}
	switch op.K {
	case "refuse", "hang":
		r.n.down[host] = &outage{until: until, hang: op.K == "hang"}
	case "cut":
		if live {
			e.Fault("connection-reset")
			c.reset()
		}
	case "cutbytes", "cutbytesdown":
		if live {
			p := c.up
			if op.K == "cutbytesdown" {
				p = c.downw
			}
			p.cutAt = p.written + int(op.B)
		}
	case "hold", "holdup", "holddown":
		if live {
			e.Fault("connection-stalls")
			if r.holdEnd == 2 {
				until += time.Hour
			}
			c.holdUntil(op.K != "holddown", op.K != "holdup", until)
		}
	case "restart":
		e.Fault("router-restart")
		r.n.down[""] = &outage{until: until}
		for _, c := range r.n.conns {
			c.reset()
		}
	case "detach":
		if len(links) > 0 {
			links[e.R.N(len(links))].detach()
		}
	case "end":
		if live {
			c.rc.endSession()
		}
	case "close":
		if live {
			c.rc.closeConn()
		}
	case "noattach":
		r.refuseAttach[op.T] = until
	case "handshake":
		for i := 0; i < int(op.B); i++ {
			r.handshake[host] = append(r.handshake[host], op.S)
		}
	case "nocredit":
		r.noCredit[op.T] = until
		e.Fault("credit-withheld")
	case "reject":
		r.rejectNext[op.T] += int(op.B)
	}
}

// heal ends all faults. What holds connections back goes on, resets them or
// leaves them dead for good, as holdEnd says.
func (r *router) heal(addrs []string) {
	e := r.e
	r.n.down = map[string]*outage{}
	r.refuseAttach = map[string]time.Duration{}
	r.handshake = map[string][]string{}
	r.noCredit = map[string]time.Duration{}
	r.rejectNext = map[string]int{}
	for _, answer := range r.stalled {
		answer()
	}
	r.stalled = nil
	for _, c := range r.n.conns {
		c.up.cutAt, c.downw.cutAt = -1, -1
		if c.heldUntil > e.Now() {
			switch r.holdEnd {
			case 0:
				c.up.hold, c.downw.hold = 0, 0
			case 1:
				c.reset()
			case 2:
				// dead in both directions
				c.holdUntil(true, true, c.heldUntil)
			}
			if !c.rc.begun {
				// nothing but the peer's keepalive ends a handshake
				c.reset()
			}
			c.up.kick()
			c.downw.kick()
		}
	}
	for _, a := range addrs {
		r.wake(a)
	}
}
