package scen

import (
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/encoding"

	"vsim/sim"
)

// Registry: record types are registered, encoded and decoded by several
// goroutines at once. Registrations collide, or are refused; attributes have
// codecs of their own that are slow, fail, panic, or use the package again.

type regRec[M any] struct {
	ID string  `vflow:"1,required"`
	A  *string `vflow:"2"`
	N  uint64  `vflow:"3"`
	H  regAttr `vflow:"4"`
	P  *uint64 `vflow:"5"`
}

type (
	regM0 struct{}
	regM1 struct{}
	regM2 struct{}
	regM3 struct{}
	regM4 struct{}
	regM5 struct{}
)

// what cannot be registered
type (
	regBadTag struct {
		ID string `vflow:"1"`
		A  string `vflow:"1"`
	}
	regBadField struct {
		ID string         `vflow:"1"`
		A  map[string]int `vflow:"2"`
	}
	regBadOption struct {
		ID string `vflow:"1,optional"`
	}
)

type regFields struct {
	id   string
	a    *string
	n    uint64
	text string
	p    *uint64
}

type regKind struct {
	t    reflect.Type
	make func(regFields) any
}

func regKindOf[M any]() regKind {
	return regKind{reflect.TypeOf(regRec[M]{}), func(f regFields) any {
		return &regRec[M]{ID: f.id, A: f.a, N: f.n, H: regAttr{f.text}, P: f.p}
	}}
}

var regKinds = []regKind{regKindOf[regM0](), regKindOf[regM1](), regKindOf[regM2](), regKindOf[regM3](), regKindOf[regM4](), regKindOf[regM5]()}

var regBad = []any{"text", regBadTag{}, regBadField{}, regBadOption{}, vanflow.RouterRecord{}, 7}

const regCodes = 4 // of which the last+1 is one that is taken from the start

func regCode(i int) uint32 {
	if i == regCodes {
		return 1
	}
	return uint32(7000 + i)
}

// regAttr is an attribute with a codec of its own. Its text says what the
// codec does.
type regAttr struct{ Text string }

var regCur *regRun

func (a regAttr) EncodeRecordAttribute() (interface{}, error) {
	if a.Text == "" {
		return nil, encoding.ErrAttributeNotSet
	}
	return a.Text, regCur.act(a.Text)
}

func (a *regAttr) DecodeRecordAttribute(attr interface{}) error {
	s, ok := attr.(string)
	if !ok {
		return fmt.Errorf("not a string: %T", attr)
	}
	a.Text = s
	return regCur.act(s)
}

// genRegText picks what a codec does: a word, then numbers.
func genRegText(r *sim.RNG) string {
	switch r.N(10) {
	case 0, 1, 2:
		return ""
	case 3, 4:
		return "plain"
	case 5:
		return fmt.Sprintf("slow %d", r.In(1, 50))
	case 6:
		return fmt.Sprintf("enc %d", r.N(len(regKinds)))
	case 7:
		return fmt.Sprintf("dec %d", r.N(regCodes))
	case 8:
		return fmt.Sprintf("reg %d %d", r.N(regCodes), r.N(len(regKinds)))
	}
	return sim.Pick(r, "fail", "panic")
}

func genRegistry(r *sim.RNG, spec *sim.Spec) *sim.Plan {
	p := &sim.Plan{Params: map[string]int64{}}
	scale := sim.Pick(r, time.Microsecond, time.Millisecond, 20*time.Millisecond)
	kinds := r.In(1, len(regKinds))
	codes := r.In(1, regCodes)
	for c := 1; c <= r.In(2, 4); c++ {
		for i, n := 0, r.In(1, 8); i < n; i++ {
			op := sim.Op{C: c, K: sim.Pick(r, "reg", "reg", "enc", "enc", "dec", "dec"), B: int64(r.N(16))}
			switch op.K {
			case "reg":
				code, kind := r.N(codes), r.N(kinds)
				switch {
				case r.P(10):
					kind = len(regKinds) + r.N(len(regBad))
				case r.P(5):
					code = regCodes
				}
				op.A = int64(kind*10 + code)
			case "enc":
				op.A = int64(r.N(kinds))
				op.S = genRegText(r)
			case "dec":
				op.A = int64(r.N(codes))
				op.S = genRegText(r)
			}
			if r.P(50) {
				op.At = int64(r.Dur(scale))
			}
			p.Ops = append(p.Ops, op)
		}
	}
	return p
}

// ---------------------------------------------------------------- model

type regIn struct {
	op   string // reg enc dec
	code int
	kind int
}

type regOut struct {
	ok    bool
	other int // enc: the code; dec: the kind
}

// the state holds the kind registered for each code, -1 for none
type regState [regCodes]int8

var regModel = porcupine.Model{
	Init: func() any {
		var s regState
		for i := range s {
			s[i] = -1
		}
		return s
	},
	Step: func(st, in, out any) (bool, any) {
		s, i, o := st.(regState), in.(regIn), out.(regOut)
		at := -1
		for c, k := range s {
			if int(k) == i.kind {
				at = c
			}
		}
		switch i.op {
		case "reg":
			free := i.code < regCodes && i.kind < len(regKinds) && s[i.code] < 0 && at < 0
			if free != o.ok {
				return false, st
			}
			if free {
				s[i.code] = int8(i.kind)
			}
			return true, s
		case "enc":
			if at < 0 {
				return !o.ok, st
			}
			return o.ok && o.other == at, st
		case "dec":
			if s[i.code] < 0 {
				return !o.ok, st
			}
			return o.ok && o.other == int(s[i.code]), st
		}
		return false, st
	},
	Equal: func(a, b any) bool { return a.(regState) == b.(regState) },
}

// ---------------------------------------------------------------- run

type regRun struct {
	e     *sim.Env
	clock int64
	hist  []porcupine.Operation
}

func (g *regRun) tick() int64 { g.clock++; return g.clock }

func (g *regRun) note(in regIn, call int64, out regOut) {
	ret := g.tick()
	g.hist = append(g.hist, porcupine.Operation{Input: in, Call: call, Output: out, Return: ret})
	g.e.Logf("[%d,%d] %s code %d kind %d -> ok=%v %d", call, ret, in.op, in.code, in.kind, out.ok, out.other)
}

func guarded(fn func()) (p any) {
	defer func() { p = recover() }()
	fn()
	return nil
}

func (g *regRun) act(text string) error {
	var a, b int
	word, _, _ := strings.Cut(text, " ")
	fmt.Sscanf(text, word+" %d %d", &a, &b)
	switch word {
	case "slow":
		g.e.Fault("slow-codec")
		time.Sleep(time.Duration(a) * time.Millisecond)
	case "enc":
		g.e.Probe("codec-encodes")
		g.enc(a, "", 0)
	case "dec":
		g.e.Probe("codec-decodes")
		g.dec(a, "", 0)
	case "reg":
		g.e.Probe("codec-registers")
		g.reg(a, b, 0)
	case "fail":
		g.e.Fault("failing-codec")
		return fmt.Errorf("refused by the codec")
	case "panic":
		g.e.Fault("panicking-codec")
		panic("codec")
	}
	return nil
}

func (g *regRun) reg(code, kind int, flags int64) {
	var v any
	switch {
	case kind >= len(regKinds):
		v = regBad[kind-len(regKinds)]
	case flags&1 != 0:
		v = regKinds[kind].make(regFields{})
	default:
		v = reflect.Zero(regKinds[kind].t).Interface()
	}
	call := g.tick()
	p := guarded(func() { encoding.MustRegisterRecord(regCode(code), v) })
	g.note(regIn{"reg", code, kind}, call, regOut{ok: p == nil})
	if p == nil {
		g.e.NonTrivial()
	} else {
		g.e.Probe("registration-refused")
	}
}

func (g *regRun) fields(text string, flags int64) (regFields, map[uint32]any) {
	f := regFields{id: fmt.Sprintf("id-%d", g.clock), text: text}
	want := map[uint32]any{1: f.id}
	if flags&2 != 0 {
		s := fmt.Sprintf("a-%d", g.clock)
		f.a, want[2] = &s, s
	}
	if flags&4 != 0 {
		f.n, want[3] = uint64(g.clock+1), uint64(g.clock+1)
		u := uint64(g.clock % 2)
		f.p, want[5] = &u, u
	}
	if text != "" {
		want[4] = text
	}
	return f, want
}

func doomed(text string, flags int64) bool {
	return text == "fail" || text == "panic" || flags&8 != 0
}

// own is the caller's time in the codec of its record.
func regOwn(text string) time.Duration {
	var ms int
	fmt.Sscanf(text, "slow %d", &ms)
	return time.Duration(ms) * time.Millisecond
}

func (g *regRun) enc(kind int, text string, flags int64) {
	f, want := g.fields(text, flags)
	if flags&8 != 0 {
		f.id = ""
	}
	rec := regKinds[kind].make(f)
	if flags&1 != 0 {
		rec = reflect.ValueOf(rec).Elem().Interface()
	}
	var set encoding.RecordAttributeSet
	var err error
	call := g.tick()
	p := g.timed("Encode", text, func() { set, err = encoding.Encode(rec) })
	if doomed(text, flags) {
		if p == nil && err == nil {
			g.e.Violate("codec-error-lost", "Encode of kind %d with %q and flags %d succeeded", kind, text, flags)
		}
		return
	}
	if p != nil {
		g.e.Violate("codec-panics", "Encode of kind %d with %q: %v", kind, text, p)
		return
	}
	out := regOut{ok: err == nil}
	if err == nil {
		code, _ := set[uint32(0)].(uint32)
		out.other = int(code) - 7000
	}
	g.note(regIn{"enc", -1, kind}, call, out)
	if err != nil {
		return
	}
	check := func(when string) {
		got := map[uint32]any{}
		for k, v := range set {
			if u, ok := k.(uint32); ok && u != 0 {
				got[u] = v
			}
		}
		if len(set) != len(want)+1 || !reflect.DeepEqual(got, want) {
			g.e.Violate("wrong-encoding", "%s: %v, expected %v and the code", when, set, want)
		}
	}
	check("encoded")
	set["mine"] = int(call) // the result is the caller's own
	want2 := set["mine"]
	time.Sleep(time.Millisecond)
	if set["mine"] != want2 {
		g.e.Violate("shared-result", "another caller changed what Encode returned: %v", set)
	}
	delete(set, "mine")
	check("a moment later")
}

func (g *regRun) dec(code int, text string, flags int64) {
	f, attrs := g.fields(text, flags)
	set := encoding.RecordAttributeSet{uint32(0): regCode(code)}
	for k, v := range attrs {
		set[k] = v
	}
	if flags&8 != 0 {
		delete(set, uint32(1))
	}
	n := len(set)
	var rec any
	var err error
	call := g.tick()
	p := g.timed("Decode", text, func() { rec, err = encoding.Decode(set) })
	if doomed(text, flags) {
		if p == nil && err == nil {
			g.e.Violate("codec-error-lost", "Decode of code %d with %q and flags %d succeeded", code, text, flags)
		}
		return
	}
	if p != nil {
		g.e.Violate("codec-panics", "Decode of code %d with %q: %v", code, text, p)
		return
	}
	out := regOut{ok: err == nil, other: -1}
	if err == nil {
		t := reflect.TypeOf(rec)
		for i, k := range regKinds {
			if t == reflect.PointerTo(k.t) {
				out.other = i
			}
		}
	} else {
		out.other = 0
	}
	g.note(regIn{"dec", code, -1}, call, out)
	if len(set) != n {
		g.e.Violate("input-changed", "Decode changed the set it was given: %v", set)
	}
	if err != nil || out.other < 0 {
		return
	}
	want := regKinds[out.other].make(f)
	if !reflect.DeepEqual(rec, want) {
		g.e.Violate("wrong-decoding", "got %+v, expected %+v", rec, want)
	}
	// the result is the caller's own
	v := reflect.ValueOf(rec).Elem()
	mine := fmt.Sprintf("mine-%d", call)
	mark := func(f regFields) {
		v.Field(0).SetString(f.id)
		if a := v.Field(1); !a.IsNil() {
			a.Elem().SetString(*f.a)
		}
		if p := v.Field(4); !p.IsNil() {
			p.Elem().SetUint(*f.p)
		}
	}
	u := uint64(call)
	changed := f
	changed.id = mine
	if f.a != nil {
		changed.a = &mine
	}
	if f.p != nil {
		changed.p = &u
	}
	mark(changed)
	time.Sleep(time.Millisecond)
	if !reflect.DeepEqual(rec, regKinds[out.other].make(changed)) {
		g.e.Violate("shared-result", "another caller changed what Decode returned: %+v", rec)
	}
	mark(f)
	if !reflect.DeepEqual(rec, want) {
		g.e.Violate("shared-result", "a moment later %+v, expected %+v", rec, want)
	}
}

// timed makes one call and checks that other callers' codecs did not delay it.
func (g *regRun) timed(what, text string, fn func()) any {
	start, stalled, left := g.e.Now(), runtime.SimStallNS(), runtime.SimStallLeft()
	p := guarded(fn)
	spent := g.e.Now() - start - time.Duration(runtime.SimStallNS()-stalled+left)
	if max := regOwn(text) + 5*time.Millisecond; spent > max {
		g.e.Violate("delayed-by-others", "%s took %v where its own codec takes %v", what, spent, regOwn(text))
	}
	return p
}

func runRegistry(e *sim.Env) {
	g := &regRun{e: e}
	regCur = g
	all := sim.NewGroup()
	for c := 1; c <= 4; c++ {
		ops := e.Plan.Of(c)
		if len(ops) == 0 {
			continue
		}
		all.Go(func() {
			for _, op := range ops {
				time.Sleep(time.Duration(op.At))
				switch op.K {
				case "reg":
					g.reg(int(op.A%10), int(op.A/10), op.B)
				case "enc":
					g.enc(int(op.A), op.S, op.B)
				case "dec":
					g.dec(int(op.A), op.S, op.B)
				}
			}
		})
	}
	if !e.Await(time.Minute, all.Done()) {
		e.Violate("call-hangs", "a call of the package did not return")
		return
	}
	// whatever happened before, what is left is usable
	end := sim.NewGroup()
	end.Go(func() {
		for k := range regKinds {
			g.enc(k, "plain", 2)
		}
		for c := 0; c < regCodes; c++ {
			g.dec(c, "plain", 2)
		}
		g.reg(0, 0, 0)
		g.enc(0, "", 0)
		g.dec(0, "", 0)
	})
	if !e.Await(time.Minute, end.Done()) {
		e.Violate("call-hangs", "after everything ended, a call of the package did not return")
		return
	}
	if !porcupine.CheckOperations(regModel, g.hist) {
		var b strings.Builder
		for _, op := range g.hist {
			in, out := op.Input.(regIn), op.Output.(regOut)
			fmt.Fprintf(&b, "\n  [%d,%d] %s code=%d kind=%d -> ok=%v %d", op.Call, op.Return, in.op, in.code, in.kind, out.ok, out.other)
		}
		e.Violate("registry-not-atomic", "no sequential order of the registrations and lookups explains the results:%s", b.String())
	}
}

func init() {
	sim.Scenarios["registry"] = &sim.Scenario{Gen: genRegistry, Run: runRegistry, Stalls: true, MaxStall: time.Second}
}
