// Package spec holds what driver and worker exchange.
package spec

import "encoding/json"

// Op is one step of a plan: an operation of a client or a fault.
type Op struct {
	C  int    `json:"c,omitempty"`  // client / actor
	K  string `json:"k"`            // kind
	At int64  `json:"at,omitempty"` // virtual delay or time, ns
	A  int64  `json:"a,omitempty"`
	B  int64  `json:"b,omitempty"`
	S  string `json:"s,omitempty"`
	T  string `json:"t,omitempty"`
}

func (o Op) String() string {
	b, _ := json.Marshal(o)
	return string(b)
}

// Plan is everything the harness decides up front for one run.
type Plan struct {
	Params map[string]int64 `json:"params"`
	Ops    []Op             `json:"ops"`
}

// P returns a parameter.
func (p *Plan) P(name string) int64 { return p.Params[name] }

// Of returns the operations of one actor.
func (p *Plan) Of(c int) []Op {
	var out []Op
	for _, o := range p.Ops {
		if o.C == c {
			out = append(out, o)
		}
	}
	return out
}

// Sched is the scheduling half of a run.
type Sched struct {
	Strategy int    `json:"strategy"`
	YieldGap uint64 `json:"yield_gap"`
	StallGap uint64 `json:"stall_gap"`
	StallMax int64  `json:"stall_max"`
	// Explicit replay
	Explicit  bool     `json:"explicit,omitempty"`
	Yields    []uint64 `json:"yields,omitempty"`
	YieldArgs []int64  `json:"yield_args,omitempty"`
	Picks     []uint64 `json:"picks,omitempty"`
	PickArgs  []uint64 `json:"pick_args,omitempty"`
}

// Spec is the worker's input.
type Spec struct {
	Scenario string `json:"scenario"`
	Prop     string `json:"prop"`
	Seed     uint64 `json:"seed"`
	Thorough bool   `json:"thorough,omitempty"`
	Plan     *Plan  `json:"plan,omitempty"`
	Sched    *Sched `json:"sched,omitempty"`
	Trace    bool   `json:"trace,omitempty"`
	PlanOnly bool   `json:"plan_only,omitempty"`
}

// Violation of a property.
type Violation struct {
	Kind string `json:"kind"`
	Msg  string `json:"msg"`
}

// Result is the worker's output.
type Result struct {
	Violations []Violation      `json:"violations,omitempty"`
	Error      string           `json:"error,omitempty"`
	Plan       *Plan            `json:"plan,omitempty"`
	Sched      *Sched           `json:"sched,omitempty"`
	SimNS      int64            `json:"sim_ns"`
	Steps      uint64           `json:"steps"`
	Decisions  uint64           `json:"decisions"`
	Yields     uint64           `json:"yields"`
	Stalls     uint64           `json:"stalls"`
	Switches   uint64           `json:"switches"`
	SchedHash  uint64           `json:"sched_hash"`
	LogHash    uint64           `json:"log_hash"`
	Events     int              `json:"events"`
	Faults     map[string]int64 `json:"faults,omitempty"`
	Probes     map[string]int64 `json:"probes,omitempty"`
	NonTrivial bool             `json:"non_trivial"`
	Trace      []string         `json:"trace,omitempty"`
}

