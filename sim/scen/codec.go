package scen

import (
	"time"

	"github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/encoding"

	"vsim/sim"
)

// Codec: the message and record codecs and the registry of record types are
// used by several goroutines at once, on records and messages they share.

type (
	codecRec1 struct {
		ID string  `vflow:"1,required"`
		A  *string `vflow:"2"`
	}
	codecRec2 struct {
		ID string  `vflow:"1,required"`
		B  *uint64 `vflow:"3"`
	}
	codecRec3 struct {
		vanflow.BaseRecord
		C *string `vflow:"30"`
	}
	codecRec4 struct {
		vanflow.BaseRecord
		D *uint64 `vflow:"40"`
	}
)

var codecRecs = []any{codecRec1{ID: "1"}, codecRec2{ID: "2"}, codecRec3{}, codecRec4{}}

func genCodec(r *sim.RNG, spec *sim.Spec) *sim.Plan {
	p := &sim.Plan{Params: map[string]int64{}}
	scale := sim.Pick(r, time.Microsecond, time.Millisecond)
	next := 0
	for c := 1; c <= r.In(2, 4); c++ {
		for i := 0; i < r.In(1, 8); i++ {
			op := sim.Op{C: c, K: sim.Pick(r, "reg", "record", "record", "decode", "message", "own"), A: int64(r.N(4)), B: int64(r.U64() >> 1)}
			if op.K == "reg" {
				if next == len(codecRecs) {
					continue
				}
				op.A = int64(next)
				next++
			}
			if r.P(50) {
				op.At = int64(r.Dur(scale))
			}
			p.Ops = append(p.Ops, op)
		}
	}
	return p
}

func runCodec(e *sim.Env) {
	// shared by all
	var recs []vanflow.Record
	var want []string
	var sets []map[any]any
	for i := 0; i < 4; i++ {
		rec := recordOf(genAttrs(e.R, randAnyType(e.R), "id", i, 60))
		a, _ := attrsOf(rec)
		recs, want, sets = append(recs, rec), append(want, a.String()), append(sets, wireAttrs(a))
	}
	var msg amqp.Message
	raw, err := amqpRecords("mc/sfe.x", mustAttrs(recs[0]), mustAttrs(recs[1])).MarshalBinary()
	if err != nil || msg.UnmarshalBinary(raw) != nil {
		e.Errorf("cannot make a message: %v", err)
		return
	}
	registered := map[int]bool{}
	g := sim.NewGroup()
	for c := 1; c <= 4; c++ {
		ops := e.Plan.Of(c)
		if len(ops) == 0 {
			continue
		}
		g.Go(func() {
			for _, op := range ops {
				time.Sleep(time.Duration(op.At))
				i := int(op.A)
				switch op.K {
				case "reg":
					encoding.MustRegisterRecord(uint32(1000+i), codecRecs[i])
					registered[i] = true
					e.NonTrivial()
				case "own":
					if !registered[i] {
						continue
					}
					if _, err := encoding.Encode(codecRecs[i]); err != nil && i < 2 {
						e.Violate("encode-failed", "type %d is registered and cannot be encoded: %v", i, err)
					}
				case "record":
					set, err := encoding.Encode(recs[i])
					if err != nil {
						e.Violate("encode-failed", "%v", err)
						continue
					}
					out, err := encoding.Decode(set)
					if err != nil {
						e.Violate("decode-failed", "%v", err)
						continue
					}
					if a, _ := attrsOf(out); normRecs([]attrs{a}) != normRecs([]attrs{mustAttrs(recs[i])}) {
						e.Violate("codec-differs", "%s became %s", want[i], a)
					}
				case "decode":
					set := encoding.RecordAttributeSet{}
					for k, v := range sets[i] {
						set[k.(uint32)] = v
					}
					if _, err := encoding.Decode(set); err != nil {
						e.Violate("decode-failed", "%v", err)
					}
				case "message":
					if _, err := vanflow.Decode(&msg); err != nil {
						e.Violate("decode-failed", "%v", err)
					}
					out, err := vanflow.RecordMessage{MessageProps: vanflow.MessageProps{To: "mc/sfe.x"}, Records: recs}.Encode()
					if err == nil {
						_, err = out.MarshalBinary()
					}
					if err != nil {
						e.Violate("encode-failed", "%v", err)
					}
				}
			}
		})
	}
	if !e.Await(time.Minute, g.Done()) {
		e.Violate("call-hangs", "a call of the codec did not return")
	}
}

func mustAttrs(r vanflow.Record) attrs { a, _ := attrsOf(r); return a }

func init() {
	sim.Scenarios["codec"] = &sim.Scenario{Gen: genCodec, Run: runCodec, Stalls: true, MaxStall: time.Second}
}
