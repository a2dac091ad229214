package scen

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/store"

	"vsim/sim"
)

// ---------------------------------------------------------------- values

const tagsKey = "tags"

// tagIndexer puts an entry in one bucket per tag (possibly none).
func tagIndexer(e store.Entry) []string {
	t := e.Meta.Annotations[tagsKey]
	if t == "" {
		return nil
	}
	return strings.Split(t, ",")
}

// platformIndexer buckets by a record attribute, which accumulation changes.
func platformIndexer(e store.Entry) []string {
	if s, ok := siteOf(e.Record); ok && s.Platform != nil {
		return []string{*s.Platform}
	}
	return nil
}

func siteOf(r vanflow.Record) (vanflow.SiteRecord, bool) {
	switch s := r.(type) {
	case vanflow.SiteRecord:
		return s, true
	case *vanflow.SiteRecord:
		if s != nil {
			return *s, true
		}
	}
	return vanflow.SiteRecord{}, false
}

func sourceIndexer(e store.Entry) []string { return []string{e.Meta.Source.String()} }

var storeIndexers = map[string]store.CacheIndexer{
	"tags":     tagIndexer,
	"platform": platformIndexer,
	"source":   sourceIndexer,
}

// rawRecord is a record type the codec does not know.
type rawRecord struct {
	ID string
	V  string
}

func (r rawRecord) Identity() string { return r.ID }
func (r rawRecord) GetTypeMeta() vanflow.TypeMeta {
	return vanflow.TypeMeta{APIVersion: "x", Type: "raw"}
}

// canonRecord renders the attributes of a record.
func canonRecord(r vanflow.Record) string {
	if r == nil {
		return "<nil>"
	}
	switch rr := r.(type) {
	case rawRecord:
		return "raw|" + rr.ID + "|" + rr.V
	case *rawRecord:
		return "raw|" + rr.ID + "|" + rr.V
	}
	a, ok := attrsOf(r)
	if !ok {
		return fmt.Sprintf("<unknown %T>", r)
	}
	return a.String()
}

// canonEntry renders everything but the update time.
func canonEntry(e store.Entry) string {
	return e.Meta.Source.String() + "|" + e.Meta.Annotations[tagsKey] + "|" + canonRecord(e.Record)
}

func sp(s string) *string { return &s }

// mkSite builds a record from a compact description "name=v,platform=w".
func mkSite(id, desc string) *vanflow.SiteRecord {
	r := &vanflow.SiteRecord{BaseRecord: vanflow.NewBase(id)}
	for _, kv := range strings.Split(desc, ",") {
		k, v, ok := strings.Cut(kv, "=")
		if !ok {
			continue
		}
		switch k {
		case "name":
			r.Name = sp(v)
		case "platform":
			r.Platform = sp(v)
		case "location":
			r.Location = sp(v)
		case "provider":
			r.Provider = sp(v)
		case "policy":
			r.Policy = sp(v)
		case "version":
			r.Version = sp(v)
		}
	}
	return r
}

func srcRef(n int64) store.SourceRef {
	return store.SourceRef{APIVersion: "1", Type: "t", Name: fmt.Sprint("src", n)}
}

// ---------------------------------------------------------------- plan

var siteAttrs = []string{"name", "platform", "location", "provider", "policy", "version"}

func genDesc(r *sim.RNG, uniq int, partial bool) string {
	var parts []string
	if !partial || r.P(70) {
		parts = append(parts, fmt.Sprintf("name=v%d", uniq))
	}
	for _, a := range siteAttrs[1:] {
		if r.P(25) {
			parts = append(parts, fmt.Sprintf("%s=%s", a, sim.Pick(r, "a", "b", fmt.Sprint("u", uniq))))
		}
	}
	return strings.Join(parts, ",")
}

func genTags(r *sim.RNG) string {
	if r.P(60) {
		return sim.Pick(r, "", "", "x", "y", "x,y", "z", "y,z,x", "x,x")
	}
	// any tags in any order
	tags := []string{"x", "y", "z", "w"}
	for i := range tags {
		j := i + r.N(len(tags)-i)
		tags[i], tags[j] = tags[j], tags[i]
	}
	return strings.Join(tags[:r.N(4)], ",")
}

type opWeights map[string]int

func (w opWeights) pick(r *sim.RNG) string {
	keys := make([]string, 0, len(w))
	total := 0
	for k, v := range w {
		keys = append(keys, k)
		total += v
	}
	sort.Strings(keys)
	n := r.N(total)
	for _, k := range keys {
		if n < w[k] {
			return k
		}
		n -= w[k]
	}
	return keys[0]
}

var storeMixes = map[string]opWeights{
	"S01": {"add": 4, "upd": 4, "del": 3, "get": 5, "list": 3, "repl": 2, "acc": 4, "cupd": 2, "idx": 4, "ival": 1},
	"S02": {"add": 3, "upd": 2, "del": 3, "get": 5, "repl": 1, "acc": 3, "cupd": 8},
	"S03": {"add": 4, "upd": 5, "del": 3, "idx": 5, "ival": 4, "repl": 2, "acc": 4, "cupd": 1},
	"S04": {"add": 5, "upd": 4, "del": 4, "acc": 6, "cupd": 3, "bad": 1, "get": 1},
	"S06": {"acc": 10, "same": 3, "get": 5, "add": 1, "del": 1},
}

func genStore(r *sim.RNG, spec *sim.Spec) *sim.Plan {
	mix, ok := storeMixes[spec.Prop]
	if !ok {
		mix = storeMixes["S01"]
	}
	p := &sim.Plan{Params: map[string]int64{}}
	nc := r.In(2, 4)
	keys := r.In(1, 3)
	n := r.In(3, 10)
	p.Params["pause"] = sim.Pick(r, int64(0), int64(0), int64(time.Millisecond))
	p.Params["few"] = int64(r.N(2)) // only one indexer
	indexes := []string{"tags", "platform", "source"}
	if p.Params["few"] == 1 {
		indexes = indexes[:1]
	}
	p.Params["init"] = int64(r.N(keys + 1))
	if spec.Prop == "S04" {
		p.Params["without"] = int64(sim.Pick(r, 0, 0, 0, 0, 0, 1, 2, 3)) // one handler less
	}
	uniq := 0
	for c := 0; c < nc; c++ {
		for i := 0; i < n; i++ {
			uniq++
			k := mix.pick(r)
			op := sim.Op{C: c, K: k, A: int64(r.N(keys)), B: int64(r.N(3))}
			switch k {
			case "add", "upd", "cupd":
				op.S = genDesc(r, uniq, false)
				op.T = genTags(r)
				if k == "cupd" && spec.Prop == "S02" && r.P(15) {
					op.At = int64(r.In(1, 4)) // some tag that is not this entry's
				}
			case "acc":
				op.S = genDesc(r, uniq, true)
			case "same":
				// resend attribute values in circulation
				op.S = sim.Pick(r, "platform=a", "platform=b", "location=a", "provider=b")
			case "repl":
				op.S = genDesc(r, uniq, false)
				op.T = genTags(r)
				op.A = int64(r.N(1 << keys)) // bitmask of keys
			case "idx":
				op.S = sim.Pick(r, indexes...)
				op.T = sim.Pick(r, "x", "y", "z", "w", "x,y", "a", "b")
			case "ival":
				op.S = sim.Pick(r, indexes...)
			}
			p.Ops = append(p.Ops, op)
		}
	}
	return p
}

// ---------------------------------------------------------------- model

type stIn struct {
	kind string
	key  string
	val  string // canonical entry for add/upd
	rec  string // canonical record for acc
	src  string
	etag string
	all  map[string]string // replace
	set  []string          // idx buckets / ""
	idx  string
	raw  bool
	desc string
	t0   int64 // when the call began
}

type stOut struct {
	ok    bool
	val   string
	etag  string
	upd   int64
	vals  map[string]string // list/index: key -> canonical
	dup   bool
	names []string // index values
	order []string
	err   string
	t1    int64 // when the call returned
}

// modelEntry is one key's state.
type modelEntry struct {
	val  string
	etag string // unknown until read
	upd  int64  // 0 unknown until read
	// lo and hi limit the update time, 0 if nothing does
	lo, hi int64
}

type modelState map[string]modelEntry

func (m modelState) clone() modelState {
	n := make(modelState, len(m)+1)
	for k, v := range m {
		n[k] = v
	}
	return n
}

func splitVal(v string) (src, tags, rec string) {
	parts := strings.SplitN(v, "|", 3)
	return parts[0], parts[1], parts[2]
}

func recAttr(rec, code string) (string, bool) {
	for _, kv := range strings.Split(rec, ";") {
		if strings.HasPrefix(kv, code+"=") {
			return kv[len(code)+1:], true
		}
	}
	return "", false
}

func mergeRec(cur, part string) string {
	m := map[string]string{}
	for _, s := range []string{cur, part} {
		for _, kv := range strings.Split(s, ";") {
			k, v, ok := strings.Cut(kv, "=")
			if ok {
				m[k] = v
			}
		}
	}
	keys := make([]string, 0, len(m))
	for k, v := range m {
		keys = append(keys, k+"="+v)
	}
	sort.Strings(keys)
	return strings.Join(keys, ";")
}

func modelBuckets(idx, val string) []string {
	src, tags, rec := splitVal(val)
	switch idx {
	case "tags":
		if tags == "" {
			return nil
		}
		return strings.Split(tags, ",")
	case "platform":
		if v, ok := recAttr(rec, "11"); ok {
			return []string{v}
		}
		return nil
	default:
		return []string{src}
	}
}

func stEqual(a, b any) bool {
	x, y := a.(modelState), b.(modelState)
	if len(x) != len(y) {
		return false
	}
	for k, v := range x {
		if y[k] != v {
			return false
		}
	}
	return true
}

// stStep is the sequential specification.
func stStep(state, input, output any) (bool, any) {
	s, in, out := state.(modelState), input.(stIn), output.(stOut)
	cur, present := s[in.key]
	switch in.kind {
	case "get":
		if out.ok != present {
			return false, s
		}
		if !present {
			return true, s
		}
		if out.val != cur.val {
			return false, s
		}
		if (cur.etag != "" && cur.etag != out.etag) || (cur.upd != 0 && cur.upd != out.upd) {
			return false, s
		}
		if out.upd != 0 && cur.hi != 0 && (out.upd < cur.lo || out.upd > cur.hi) {
			return false, s
		}
		if cur.etag == out.etag && cur.upd == out.upd {
			return true, s
		}
		n := s.clone()
		cur.etag, cur.upd = out.etag, out.upd
		n[in.key] = cur
		return true, n
	case "add":
		if out.ok == present {
			return false, s
		}
		if present {
			return true, s
		}
		n := s.clone()
		n[in.key] = modelEntry{val: in.val, lo: in.t0, hi: out.t1}
		return true, n
	case "upd":
		if !out.ok {
			return false, s
		}
		n := s.clone()
		n[in.key] = modelEntry{val: in.val, lo: in.t0, hi: out.t1}
		return true, n
	case "cupd":
		match := present && cur.etag == in.etag
		if match != out.ok {
			return false, s
		}
		if !match {
			return true, s
		}
		n := s.clone()
		n[in.key] = modelEntry{val: in.val, lo: in.t0, hi: out.t1}
		return true, n
	case "del":
		if !out.ok {
			return false, s
		}
		if !present {
			return true, s
		}
		n := s.clone()
		delete(n, in.key)
		return true, n
	case "acc":
		if !present {
			if !out.ok {
				return false, s
			}
			n := s.clone()
			n[in.key] = modelEntry{val: in.src + "||" + in.rec, lo: in.t0, hi: out.t1}
			return true, n
		}
		if in.raw {
			// cannot be merged: refused, nothing changes
			return !out.ok, s
		}
		if !out.ok {
			return false, s
		}
		src, tags, rec := splitVal(cur.val)
		merged := mergeRec(rec, in.rec)
		if merged == rec {
			return true, s
		}
		n := s.clone()
		n[in.key] = modelEntry{val: src + "|" + tags + "|" + merged, lo: in.t0, hi: out.t1}
		return true, n
	case "repl":
		n := make(modelState, len(in.all))
		for k, v := range in.all {
			n[k] = modelEntry{val: v}
		}
		return out.ok, n
	case "list":
		if !out.ok || out.dup || len(out.vals) != len(s) {
			return false, s
		}
		for k, v := range s {
			if out.vals[k] != v.val {
				return false, s
			}
		}
		return true, s
	case "idx":
		if !out.ok || out.dup {
			return false, s
		}
		n := 0
		for k, v := range s {
			hit := false
			for _, b := range modelBuckets(in.idx, v.val) {
				for _, q := range in.set {
					if b == q {
						hit = true
					}
				}
			}
			if hit {
				n++
				if out.vals[k] != v.val {
					return false, s
				}
			}
		}
		return n == len(out.vals), s
	case "ival":
		want := map[string]bool{}
		for _, v := range s {
			for _, b := range modelBuckets(in.idx, v.val) {
				want[b] = true
			}
		}
		if len(out.names) != len(want) || out.dup {
			return false, s
		}
		for _, n := range out.names {
			if !want[n] {
				return false, s
			}
		}
		return true, s
	}
	return false, s
}

var storeModel = porcupine.Model{
	Init:  func() any { return modelState{} },
	Step:  stStep,
	Equal: stEqual,
}

// ---------------------------------------------------------------- run

type stEvent struct {
	kind string // add change delete
	key  string
	prev string
	next string
	op   int // operation during which the handler ran, -1 if none
}

type storeRun struct {
	indexers map[string]store.CacheIndexer
	e        *sim.Env
	st       store.Interface
	hist     []porcupine.Operation
	clock    int64
	events   []stEvent
	curOp    map[uint64]int
	nop      int
	overlap  int
	active   int
}

func (s *storeRun) tick() int64 { s.clock++; return s.clock }

func (s *storeRun) onEvent(kind string, prev, next *store.Entry) {
	ev := stEvent{kind: kind, op: -1}
	if prev != nil {
		ev.prev = canonEntry(*prev)
		if prev.Record != nil {
			ev.key = prev.Record.Identity()
		}
	}
	if next != nil {
		ev.next = canonEntry(*next)
		if next.Record != nil {
			ev.key = next.Record.Identity()
		}
	}
	if op, ok := s.curOp[runtime.SimGoid()]; ok {
		ev.op = op
	}
	s.e.Logf("event %s %s: %q -> %q", kind, ev.key, ev.prev, ev.next)
	s.events = append(s.events, ev)
}

func (s *storeRun) do(c int, in stIn, fn func() stOut) stOut {
	s.nop++
	id := s.nop
	g := runtime.SimGoid()
	s.curOp[g] = id
	s.active++
	if s.active > 1 {
		s.overlap++
	}
	call := s.tick()
	s.e.Logf("c%d op%d %s %s %s", c, id, in.kind, in.key, in.desc)
	in.t0 = time.Now().UnixNano()
	out := fn()
	out.t1 = time.Now().UnixNano()
	ret := s.tick()
	s.active--
	delete(s.curOp, g)
	s.e.Logf("c%d op%d -> ok=%v %s %s", c, id, out.ok, out.val, out.err)
	s.hist = append(s.hist, porcupine.Operation{ClientId: c, Input: in, Call: call, Output: out, Return: ret})
	return out
}

func entryMap(es []store.Entry) (m map[string]string, dup bool, order []string) {
	m = make(map[string]string, len(es))
	for _, e := range es {
		k := "<nil>"
		if e.Record != nil {
			k = e.Record.Identity()
		}
		if _, ok := m[k]; ok {
			dup = true
		}
		m[k] = canonEntry(e)
		order = append(order, k)
	}
	return
}

func errStr(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

func key(n int64) string { return fmt.Sprintf("k%d", n) }

func newStoreRun(e *sim.Env) *storeRun {
	s := &storeRun{e: e, curOp: map[uint64]int{}, indexers: storeIndexers}
	if e.Plan.P("few") == 1 {
		s.indexers = map[string]store.CacheIndexer{"tags": tagIndexer}
	}
	h := store.EventHandlerFuncs{
		OnAdd:    func(n store.Entry) { s.onEvent("add", nil, &n) },
		OnChange: func(p, n store.Entry) { s.onEvent("change", &p, &n) },
		OnDelete: func(p store.Entry) { s.onEvent("delete", &p, nil) },
	}
	switch e.Plan.P("without") {
	case 1:
		h.OnChange = nil
	case 2:
		h.OnAdd = nil
	case 3:
		h.OnDelete = nil
	}
	s.st = store.NewDefaultCachingStore(store.CacheConfig{Indexers: s.indexers, EventHandlers: h})
	return s
}

func runStore(e *sim.Env) {
	ctx := context.Background()
	s := newStoreRun(e)
	cnt := 0
	clients := map[int]bool{}
	for _, o := range e.Plan.Ops {
		clients[o.C] = true
		if o.C >= cnt {
			cnt = o.C + 1
		}
	}
	for i := int64(0); i < e.Plan.P("init"); i++ {
		ent := store.Entry{Meta: store.Metadata{Source: srcRef(9), Annotations: map[string]string{tagsKey: "x"}}, Record: mkSite(key(i), fmt.Sprintf("name=i%d,platform=a", i))}
		s.do(99, stIn{kind: "add", key: key(i), val: canonEntry(ent)}, func() stOut { return stOut{ok: s.st.Add(ctx, ent) == nil} })
	}
	g := sim.NewGroup()
	pause := time.Duration(e.Plan.P("pause"))
	for c := 0; c < cnt; c++ {
		ops := e.Plan.Of(c)
		g.Go(func() {
			etags := map[string]string{}
			for _, o := range ops {
				if pause > 0 {
					time.Sleep(pause)
				}
				s.exec(ctx, c, o, etags)
			}
		})
	}
	if !e.Await(time.Hour, g.Done()) {
		e.Violate("store-op-hangs", "a store operation did not return")
		return
	}
	if s.overlap > 0 {
		e.NonTrivial()
	}
	// final reads close the history
	finals := map[string]string{}
	out := s.do(98, stIn{kind: "list"}, func() stOut {
		set, err := s.st.List(ctx, nil)
		m, dup, _ := entryMap(set.Entries)
		return stOut{ok: err == nil, vals: m, dup: dup}
	})
	for k, v := range out.vals {
		finals[k] = v
	}
	if e.For("S03") {
		for _, idx := range []string{"tags", "platform", "source"} {
			if s.indexers[idx] == nil {
				continue
			}
			s.exec(ctx, 98, sim.Op{K: "ival", S: idx}, nil)
			for _, b := range []string{"x", "y", "z", "w", "a", "b"} {
				if idx != "source" {
					s.exec(ctx, 98, sim.Op{K: "idx", S: idx, T: b}, nil)
				}
			}
		}
	}
	switch e.Spec.Prop {
	case "S04":
		s.checkEvents(finals)
	default:
		s.linearize(e.Spec.Prop)
	}
}

func (s *storeRun) exec(ctx context.Context, c int, o sim.Op, etags map[string]string) {
	k := key(o.A)
	mk := func() store.Entry {
		return store.Entry{
			Meta:     store.Metadata{Source: srcRef(o.B), Annotations: map[string]string{tagsKey: o.T}},
			TypeMeta: vanflow.SiteRecord{}.GetTypeMeta(),
			Record:   mkSite(k, o.S),
		}
	}
	ex := store.Entry{Record: mkSite(k, "")}
	switch o.K {
	case "add":
		ent := mk()
		s.do(c, stIn{kind: "add", key: k, val: canonEntry(ent), desc: o.S}, func() stOut {
			err := s.st.Add(ctx, ent)
			return stOut{ok: err == nil, err: errStr(err)}
		})
	case "upd":
		ent := mk()
		s.do(c, stIn{kind: "upd", key: k, val: canonEntry(ent), desc: o.S}, func() stOut {
			err := s.st.Update(ctx, ent)
			return stOut{ok: err == nil, err: errStr(err)}
		})
	case "cupd":
		tag := etags[k]
		if tag == "" || o.B == 2 {
			got := s.get(ctx, c, k, ex)
			tag = got.etag
			if !got.ok {
				return
			}
			etags[k] = tag
		}
		made := ""
		switch o.At {
		case 1:
			tag, made = "", "none"
		case 2:
			tag = tag[:len(tag)/2]
			made = "half " + tag
		case 3:
			tag, made = "bm90IGEgdGFnIGF0IGFsbA==", "made up"
		case 4:
			if got := s.get(ctx, c, key(o.A+1), store.Entry{Record: mkSite(key(o.A+1), "")}); got.ok {
				tag = got.etag
			}
		}
		ent := mk()
		want := tag
		if made != "" {
			want = made
		}
		s.do(c, stIn{kind: "cupd", key: k, val: canonEntry(ent), etag: want, desc: o.S + " etag=" + tag}, func() stOut {
			err := s.st.Update(store.WithIfMatch(ctx, tag), ent)
			return stOut{ok: err == nil, err: errStr(err)}
		})
		if o.B == 1 {
			delete(etags, k) // else: keep the stale tag and try it again later
		}
	case "del":
		s.do(c, stIn{kind: "del", key: k}, func() stOut {
			err := s.st.Delete(ctx, ex)
			return stOut{ok: err == nil, err: errStr(err)}
		})
	case "acc", "same":
		rec := mkSite(k, o.S)
		s.do(c, stIn{kind: "acc", key: k, rec: canonRecord(rec), src: srcRef(o.B).String(), desc: o.S}, func() stOut {
			err := s.st.Accumulate(srcRef(o.B), rec)
			return stOut{ok: err == nil, err: errStr(err)}
		})
	case "bad":
		rec := rawRecord{ID: k, V: "bad"}
		s.do(c, stIn{kind: "acc", key: k, rec: canonRecord(rec), src: srcRef(o.B).String(), raw: true}, func() stOut {
			err := s.st.Accumulate(srcRef(o.B), rec)
			return stOut{ok: err == nil, err: errStr(err)}
		})
	case "get":
		got := s.get(ctx, c, k, ex)
		if got.ok && etags != nil {
			etags[k] = got.etag
		}
	case "list":
		s.do(c, stIn{kind: "list"}, func() stOut {
			set, err := s.st.List(ctx, nil)
			m, dup, _ := entryMap(set.Entries)
			return stOut{ok: err == nil, vals: m, dup: dup}
		})
	case "repl":
		all := map[string]string{}
		var es []store.Entry
		for i := int64(0); i < 3; i++ {
			if o.A&(1<<i) != 0 {
				ent := mk()
				ent.Record = mkSite(key(i), o.S)
				ent.Meta.UpdatedAt = time.Now()
				es = append(es, ent)
				all[key(i)] = canonEntry(ent)
			}
		}
		s.do(c, stIn{kind: "repl", all: all, desc: fmt.Sprint(o.A)}, func() stOut {
			err := s.st.Replace(ctx, es)
			return stOut{ok: err == nil, err: errStr(err)}
		})
	case "idx":
		q := store.Entry{Record: mkSite("q", "")}
		var set []string
		switch o.S {
		case "tags":
			q.Meta.Annotations = map[string]string{tagsKey: o.T}
			set = strings.Split(o.T, ",")
		case "platform":
			q.Record = mkSite("q", "platform="+o.T)
			set = []string{o.T}
		default:
			q.Meta.Source = srcRef(o.B)
			set = []string{srcRef(o.B).String()}
		}
		s.do(c, stIn{kind: "idx", idx: o.S, set: set, desc: o.S + ":" + o.T}, func() stOut {
			r, err := s.st.Index(ctx, o.S, q, nil)
			m, dup, _ := entryMap(r.Entries)
			return stOut{ok: err == nil, vals: m, dup: dup, err: errStr(err)}
		})
	case "ival":
		s.do(c, stIn{kind: "ival", idx: o.S, desc: o.S}, func() stOut {
			names, err := s.st.IndexValues(ctx, o.S)
			seen := map[string]bool{}
			dup := false
			for _, n := range names {
				dup = dup || seen[n]
				seen[n] = true
			}
			return stOut{ok: err == nil, names: names, dup: dup, err: errStr(err)}
		})
	}
}

func (s *storeRun) get(ctx context.Context, c int, k string, ex store.Entry) stOut {
	return s.do(c, stIn{kind: "get", key: k}, func() stOut {
		r, err := s.st.Get(ctx, ex)
		if err != nil {
			return stOut{err: errStr(err)}
		}
		if !r.Found {
			return stOut{}
		}
		return stOut{ok: true, val: canonEntry(r.Entry), etag: r.ETag, upd: r.Entry.Meta.UpdatedAt.UnixNano()}
	})
}

// linearize decides the recorded history against the sequential model. What
// a property does not speak about is left out of the history, so that a
// failure is reported under the property it belongs to.
func (s *storeRun) linearize(prop string) {
	var hist []porcupine.Operation
	for _, op := range s.hist {
		in, out := op.Input.(stIn), op.Output.(stOut)
		if in.kind == "cupd" && prop != "S02" {
			if !out.ok {
				continue
			}
			in.kind = "upd"
		}
		if in.kind == "get" {
			if prop != "S02" {
				out.etag = ""
			}
			if prop != "S06" {
				out.upd = 0
			}
		}
		if prop != "S06" {
			in.t0, out.t1 = 0, 0
		}
		if (in.kind == "idx" || in.kind == "ival") && prop != "S03" && prop != "S01" {
			continue
		}
		op.Input, op.Output = in, out
		hist = append(hist, op)
	}
	// cooperative budget: virtual time does not advance inside the checker
	res := porcupine.CheckOperations(storeModel, hist)
	if !res {
		kind := map[string]string{"S01": "not-linearizable", "S02": "conditional-update-wrong", "S03": "index-disagrees", "S06": "accumulate-wrong"}[prop]
		if kind == "" {
			kind = "not-linearizable"
		}
		var b strings.Builder
		for _, op := range hist {
			in, out := op.Input.(stIn), op.Output.(stOut)
			fmt.Fprintf(&b, "\n  [%d,%d] c%d %s %s %s etag=%s -> ok=%v val=%s etag=%s names=%v vals=%v", op.Call, op.Return, op.ClientId, in.kind, in.key, in.desc, in.etag, out.ok, out.val, out.etag, out.names, out.vals)
		}
		s.e.Violate(kind, "no sequential order of the store operations explains the results:%s", b.String())
	}
}

// checkEvents checks the notifications of a run without Replace.
func (s *storeRun) checkEvents(finals map[string]string) {
	time.Sleep(time.Minute) // late notifications
	if w := s.e.Plan.P("without"); w > 0 {
		s.checkSome(finals, w)
		return
	}
	// per operation
	byKey := map[string][]stEvent{}
	for _, ev := range s.events {
		byKey[ev.key] = append(byKey[ev.key], ev)
	}
	for _, op := range s.hist {
		in, out := op.Input.(stIn), op.Output.(stOut)
		n := 0
		for _, ev := range byKey[in.key] {
			// names are unique to a write; an accumulation may restore the
			// value but does not come from another name
			if ev.next == in.val && in.val != "" && nameOf(ev.prev) != nameOf(ev.next) {
				n++
			}
		}
		switch in.kind {
		case "add", "upd", "cupd":
			if out.ok && n != 1 {
				s.e.Violate("event-missing-or-repeated", "%s of %s took effect but was notified %d times", in.kind, in.val, n)
			}
			if !out.ok && n != 0 {
				s.e.Violate("event-without-effect", "%s of %s failed but was notified", in.kind, in.val)
			}
			if in.kind == "add" && out.ok {
				for _, ev := range byKey[in.key] {
					if ev.next == in.val && nameOf(ev.prev) != nameOf(ev.next) && ev.kind != "add" {
						s.e.Violate("event-wrong-kind", "Add of %s notified as %s", in.val, ev.kind)
					}
				}
			}
		}
	}
	var keys []string
	for k := range byKey {
		keys = append(keys, k)
	}
	for k := range finals {
		if byKey[k] == nil {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		if k == "" || k == "<nil>" {
			s.e.Violate("event-without-entry", "a handler was called with an empty entry: %+v", byKey[k])
			continue
		}
		deg := map[string]int{}
		adj := map[string][]string{}
		for _, ev := range byKey[k] {
			if (ev.kind == "add") != (ev.prev == "") || (ev.kind == "delete") != (ev.next == "") {
				s.e.Violate("event-wrong-kind", "%s notification with prev=%q next=%q", ev.kind, ev.prev, ev.next)
			}
			if ev.prev == ev.next {
				s.e.Violate("event-without-effect", "change notification without a change: %q", ev.prev)
			}
			deg[ev.prev]++
			deg[ev.next]--
			adj[ev.prev] = append(adj[ev.prev], ev.next)
			adj[ev.next] = append(adj[ev.next], ev.prev)
		}
		deg[""]--
		deg[finals[k]]++
		for v, d := range deg {
			if d != 0 {
				s.e.Violate("events-do-not-chain", "notifications of %s do not form one history from absent to %q: unbalanced at %q (%+d)\n%s", k, finals[k], v, d, evList(byKey[k]))
				break
			}
		}
		seen := map[string]bool{"": true}
		q := []string{""}
		for len(q) > 0 {
			x := q[0]
			q = q[1:]
			for _, y := range adj[x] {
				if !seen[y] {
					seen[y] = true
					q = append(q, y)
				}
			}
		}
		for v := range adj {
			if !seen[v] {
				s.e.Violate("events-do-not-chain", "notifications of %s contain a part not connected to the rest at %q", k, v)
				break
			}
		}
	}
	if len(s.events) > 0 {
		s.e.Probe("events-notified")
	}
}

// checkSome checks the notifications of a store with one handler less.
func (s *storeRun) checkSome(finals map[string]string, without int64) {
	n := map[string]map[string]int{"add": {}, "change": {}, "delete": {}}
	to := map[string]int{} // notifications of what each write stored
	var keys []string
	for _, ev := range s.events {
		if n["add"][ev.key]+n["change"][ev.key]+n["delete"][ev.key] == 0 {
			keys = append(keys, ev.key)
		}
		n[ev.kind][ev.key]++
		if nameOf(ev.prev) != nameOf(ev.next) {
			to[ev.next]++
		}
	}
	sort.Strings(keys)
	for _, op := range s.hist {
		in, out := op.Input.(stIn), op.Output.(stOut)
		switch {
		case in.kind == "add" && out.ok && without != 2 && to[in.val] != 1,
			(in.kind == "upd" || in.kind == "cupd") && out.ok && without == 3 && to[in.val] != 1:
			s.e.Violate("event-missing-or-repeated", "%s of %s took effect but was notified %d times", in.kind, in.val, to[in.val])
		case !out.ok && in.val != "" && to[in.val] > 0:
			s.e.Violate("event-without-effect", "%s of %s failed but was notified", in.kind, in.val)
		}
	}
	for _, k := range keys {
		have := 0
		if finals[k] != "" {
			have = 1
		}
		if a, d := n["add"][k], n["delete"][k]; without == 1 && a-d != have {
			s.e.Violate("event-wrong-kind", "%s was notified as added %d times and as deleted %d times, at the end it is present %d times", k, a, d, have)
		}
	}
	var present []string
	for k := range finals {
		present = append(present, k)
	}
	sort.Strings(present)
	for _, k := range present {
		if without == 1 && n["add"][k] == 0 {
			s.e.Violate("event-missing-or-repeated", "%s is present but its addition was not notified", k)
			break
		}
	}
}

func nameOf(val string) string {
	if val == "" {
		return ""
	}
	_, _, rec := splitVal(val)
	n, _ := recAttr(rec, "30")
	return n
}

func evList(evs []stEvent) string {
	var b strings.Builder
	for _, ev := range evs {
		fmt.Fprintf(&b, "  %s %q -> %q\n", ev.kind, ev.prev, ev.next)
	}
	return b.String()
}

var errTest = errors.New("injected")

func init() {
	sim.Scenarios["store"] = &sim.Scenario{Gen: genStore, Run: runStore, Stalls: true, MaxStall: 3 * time.Second}
}
