package scen

import (
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"time"

	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/store"

	"vsim/sim"
)

// Dispatch: several dispatchers (one per source) hand record messages to
// stores registered by type; some types share a store keyed by type and ID,
// some are not registered, some records cannot be stored.

func genDispatch(r *sim.RNG, spec *sim.Spec) *sim.Plan {
	p := &sim.Plan{Params: map[string]int64{}}
	nt := r.In(2, 5)
	used := map[int]bool{}
	var types []int
	for len(types) < nt {
		c := randAnyType(r)
		if !used[c] {
			used[c] = true
			types = append(types, c)
		}
	}
	// C: store number (0 = shared, keyed by type and ID; -1 = unregistered)
	for i, c := range types {
		p.Ops = append(p.Ops, sim.Op{C: 0, K: "type", A: int64(c), B: sim.Pick(r, int64(0), 0, int64(i+1), -1)})
	}
	ids := r.In(1, 3)
	uniq := 0
	for d := 1; d <= r.In(1, 3); d++ {
		for m := 0; m < r.In(1, 6); m++ {
			for k := 0; k < r.In(1, 4); k++ {
				uniq++
				a := genAttrs(r, types[r.N(nt)], fmt.Sprint("id", r.N(ids)), uniq, r.In(0, 60))
				op := sim.Op{C: d, K: "rec", A: int64(m), S: a.String()}
				if r.P(10) {
					op.K = "refused"
				}
				p.Ops = append(p.Ops, op)
			}
		}
	}
	return p
}

type dispStore struct {
	store.Interface
	run  *dispRun
	name string
}

type dispRun struct {
	e       *sim.Env
	clock   int64
	refuse  map[vanflow.Record]bool
	arrived map[vanflow.Record][]string
}

// Accumulate records who is handed what before the real store gets it.
func (d dispStore) Accumulate(src store.SourceRef, rec vanflow.Record) error {
	d.run.arrived[rec] = append(d.run.arrived[rec], d.name+"/"+src.String())
	if d.run.refuse[rec] {
		return errors.New("injected store error")
	}
	return d.Interface.Accumulate(src, rec)
}

func typeIDKey(e store.Entry) (string, error) {
	return e.TypeMeta.String() + "/" + e.Record.Identity(), nil
}

type dispWrite struct {
	disp, seq int
	call, ret int64
	val       string
	src       string
}

func runDispatch(e *sim.Env) {
	d := &dispRun{e: e, refuse: map[vanflow.Record]bool{}, arrived: map[vanflow.Record][]string{}}
	var reg store.DispatchRegistry
	stores := map[int64]store.Interface{}
	storeOf := map[int]int64{}
	for _, o := range e.Plan.Of(0) {
		storeOf[int(o.A)] = o.B
		if o.B < 0 {
			continue
		}
		st := stores[o.B]
		if st == nil {
			cfg := store.CacheConfig{}
			if o.B == 0 {
				cfg.Key = typeIDKey
			}
			st = dispStore{store.NewDefaultCachingStore(cfg), d, fmt.Sprint("store", o.B)}
			stores[o.B] = st
		}
		rec := recordOf(attrs{0: strconv.Itoa(int(o.A))})
		if o.A%2 == 0 {
			reg.RegisterStore(reflect.ValueOf(rec).Elem().Interface().(vanflow.Record), st)
		} else {
			reg.RegisterStore(rec, st)
		}
	}
	type item struct {
		rec   vanflow.Record
		a     attrs
		disp  int
		seq   int
		call  int64
		ret   int64
		src   string
		bad   bool
		store int64
	}
	var items []*item
	g := sim.NewGroup()
	for c := 1; c <= 3; c++ {
		ops := e.Plan.Of(c)
		if len(ops) == 0 {
			continue
		}
		src := srcRef(int64(c))
		disp := reg.NewDispatcher(src)
		var msgs [][]*item
		for i, o := range ops {
			a := parseAttrs(o.S)
			code, _ := strconv.Atoi(a[0])
			so, ok := storeOf[code]
			if !ok {
				so = -1
			}
			it := &item{rec: recordOf(a), a: a, disp: c, seq: i, src: src.String(), bad: o.K == "refused", store: so}
			if it.bad {
				d.refuse[it.rec] = true
				e.Fault("store-refuses-record")
			}
			items = append(items, it)
			if n := len(msgs); n == 0 || ops[i-1].A != o.A {
				msgs = append(msgs, nil)
			}
			msgs[len(msgs)-1] = append(msgs[len(msgs)-1], it)
		}
		g.Go(func() {
			for _, m := range msgs {
				var msg vanflow.RecordMessage
				d.clock++
				for _, it := range m {
					msg.Records = append(msg.Records, it.rec)
					it.call = d.clock
				}
				e.Logf("dispatch %d records from %s", len(m), m[0].src)
				disp.Dispatch(msg)
				d.clock++
				for _, it := range m {
					it.ret = d.clock
				}
			}
		})
	}
	if !e.Await(time.Hour, g.Done()) {
		e.Violate("dispatch-hangs", "Dispatch did not return")
		return
	}
	// who was handed what
	for _, it := range items {
		got := d.arrived[it.rec]
		if it.store < 0 {
			if len(got) != 0 {
				e.Violate("dispatched-unregistered", "%s (unregistered type) was handed to %v", it.a, got)
			}
			continue
		}
		want := fmt.Sprintf("store%d/%s", it.store, it.src)
		if len(got) != 1 || got[0] != want {
			e.Violate("dispatch-wrong", "%s was handed to %v, want exactly once to %s", it.a, got, want)
		}
	}
	// what the stores hold
	type ident struct {
		store    int64
		code, id string
	}
	writes := map[ident]map[int][]dispWrite{}
	adders := map[ident][]dispWrite{}
	for _, it := range items {
		if it.store < 0 || it.bad {
			continue
		}
		id := ident{it.store, it.a[0], it.a[1]}
		if writes[id] == nil {
			writes[id] = map[int][]dispWrite{}
		}
		for k, v := range it.a {
			writes[id][k] = append(writes[id][k], dispWrite{it.disp, it.seq, it.call, it.ret, v, it.src})
		}
		adders[id] = append(adders[id], dispWrite{disp: it.disp, seq: it.seq, call: it.call, ret: it.ret, src: it.src})
	}
	var nums []int64
	for n := range stores {
		nums = append(nums, n)
	}
	sort.Slice(nums, func(i, j int) bool { return nums[i] < nums[j] })
	found := map[ident]bool{}
	for _, n := range nums {
		set, err := stores[n].List(nil, nil)
		if err != nil {
			e.Violate("list-failed", "%v", err)
			return
		}
		for _, ent := range set.Entries {
			a, _ := attrsOf(ent.Record)
			id := ident{n, a[0], a[1]}
			if found[id] {
				e.Violate("stored-twice", "store %d holds %s/%s twice", n, a[0], a[1])
			}
			found[id] = true
			w := writes[id]
			if w == nil {
				e.Violate("stored-from-nowhere", "store %d holds %s", n, a)
				continue
			}
			for k := range w {
				if _, ok := a[k]; !ok {
					e.Violate("attribute-lost", "store %d: %s lost attribute %d", n, a, k)
				}
			}
			for k, v := range a {
				ok := false
				for _, x := range w[k] {
					if x.val != v {
						continue
					}
					overwritten := false
					for _, y := range w[k] {
						if y.val != v && ((y.disp == x.disp && y.seq > x.seq) || y.call > x.ret) {
							overwritten = true
						}
					}
					if !overwritten {
						ok = true
					}
				}
				if !ok {
					e.Violate("attribute-stale", "store %d: %s attribute %d is %q, accumulated: %+v", n, a, k, v, w[k])
				}
			}
			ok := false
			for _, x := range adders[id] {
				if x.src != ent.Meta.Source.String() {
					continue
				}
				later := false
				for _, y := range adders[id] {
					if y.ret < x.call {
						later = true
					}
				}
				if !later {
					ok = true
				}
			}
			if !ok {
				e.Violate("source-wrong", "store %d: %s is attributed to %s", n, a, ent.Meta.Source)
			}
			if rt, k := typeByCode(atoi(a[0])); k && ent.TypeMeta.Type != rt.name {
				e.Violate("type-wrong", "store %d: %s has type %s", n, a, ent.TypeMeta)
			}
		}
	}
	for id := range writes {
		if !found[id] {
			e.Violate("record-missing", "store %d does not hold %s/%s", id.store, id.code, id.id)
		}
	}
	if len(items) > 1 && len(writes) > 0 {
		e.NonTrivial()
	}
}

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

func init() {
	sim.Scenarios["dispatch"] = &sim.Scenario{Gen: genDispatch, Run: runDispatch, Stalls: true, MaxStall: 3 * time.Second}
}
