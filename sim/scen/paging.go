package scen

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/store"

	"vsim/sim"
)

// Paging: walkers page through the store or an index while churners add,
// change and delete entries.

var pageKeys = []string{"", "a", "a0", "a1", "aa", "b", "b/x", "c", "B", "d", "e",
	strings.Repeat("k", 300) + "1", strings.Repeat("k", 300) + "2", "\xff\x00", "é", "~"}

func genPaging(r *sim.RNG, spec *sim.Spec) *sim.Plan {
	p := &sim.Plan{Params: map[string]int64{}}
	// every key is stable or churning
	for i := range pageKeys {
		switch r.N(3) {
		case 0:
			p.Ops = append(p.Ops, sim.Op{C: 0, K: "stable", A: int64(i), S: sim.Pick(r, "x", "x,y")})
		case 1:
			if r.P(60) {
				p.Ops = append(p.Ops, sim.Op{C: 0, K: "churn", A: int64(i), S: sim.Pick(r, "x", "y", "x,y")})
			}
		}
	}
	churn := r.N(3)
	quiet := churn == 0
	for w := 0; w < r.In(1, 2); w++ {
		for i := 0; i < r.In(1, 3); i++ {
			op := sim.Op{C: 1 + w, K: sim.Pick(r, "list", "list", "index"), A: int64(r.In(1, 5)), B: int64(r.N(2))}
			if quiet && r.P(30) {
				op.At = int64(r.N(6)) // offset
			}
			switch {
			case r.P(10):
				op.A = 0 // no limit
			case r.P(15):
				op.S = "vary" // another limit for every page
			}
			p.Ops = append(p.Ops, op)
		}
	}
	for c := 0; c < churn; c++ {
		for i := 0; i < r.In(4, 25); i++ {
			// every key has one writer, so that the harness knows what is there
			k := r.N(len(pageKeys))
			if churn == 2 {
				k = k&^1 | c
			}
			p.Ops = append(p.Ops, sim.Op{C: 10 + c, K: sim.Pick(r, "add", "add", "del", "del", "upd", "acc"), A: int64(k), S: sim.Pick(r, "x", "y", "x,y", "")})
		}
	}
	p.Params["pause"] = sim.Pick(r, int64(0), int64(time.Millisecond), int64(time.Second))
	p.Params["pagepause"] = sim.Pick(r, int64(0), int64(time.Millisecond), int64(3*time.Second))
	return p
}

type pagingRun struct {
	e       *sim.Env
	st      store.Interface
	stable  map[string]bool
	present map[string]string // churn-free view: key -> tags, valid while active == 0
	active  int               // churn operations in flight
	epoch   int               // churn operations so far
}

func pageEntry(k, tags, v string) store.Entry {
	return store.Entry{
		Meta:     store.Metadata{Source: srcRef(0), Annotations: map[string]string{tagsKey: tags}},
		TypeMeta: vanflow.SiteRecord{}.GetTypeMeta(),
		Record:   mkSite(k, "name="+v),
	}
}

func runPaging(e *sim.Env) {
	ctx := context.Background()
	p := &pagingRun{e: e, stable: map[string]bool{}, present: map[string]string{}}
	p.st = store.NewDefaultCachingStore(store.CacheConfig{Indexers: map[string]store.CacheIndexer{"tags": tagIndexer}})
	for _, o := range e.Plan.Of(0) {
		k := pageKeys[o.A]
		if o.K == "stable" {
			p.stable[k] = true
		}
		p.present[k] = o.S
		if err := p.st.Add(ctx, pageEntry(k, o.S, "0")); err != nil {
			e.Violate("add-failed", "Add of an absent key: %v", err)
			return
		}
	}
	g := sim.NewGroup()
	for w := 1; w <= 2; w++ {
		ops := e.Plan.Of(w)
		if len(ops) == 0 {
			continue
		}
		g.Go(func() {
			for _, o := range ops {
				p.walk(ctx, o)
			}
		})
	}
	for c := 10; c < 12; c++ {
		ops := e.Plan.Of(c)
		if len(ops) == 0 {
			continue
		}
		g.Go(func() {
			for i, o := range ops {
				if d := e.Plan.P("pause"); d > 0 {
					time.Sleep(time.Duration(d))
				}
				p.churn(ctx, i, o)
			}
		})
	}
	if !e.Await(time.Hour, g.Done()) {
		e.Violate("walk-hangs", "paging did not end")
	}
}

func (p *pagingRun) churn(ctx context.Context, i int, o sim.Op) {
	k := pageKeys[o.A]
	p.active++
	p.epoch++
	defer func() { p.active-- }()
	v := fmt.Sprintf("%d.%d", o.C, i)
	if p.stable[k] {
		// changes that keep the entry in place
		switch o.K {
		case "upd":
			tags := "x"
			if strings.Contains(o.S, "y") {
				tags = "y,x"
			}
			p.st.Update(ctx, pageEntry(k, tags, v))
			p.present[k] = tags
		default:
			p.st.Accumulate(srcRef(1), mkSite(k, "location="+v))
		}
		return
	}
	switch o.K {
	case "add":
		if p.st.Add(ctx, pageEntry(k, o.S, v)) == nil {
			p.present[k] = o.S
		}
	case "del":
		p.st.Delete(ctx, pageEntry(k, "", ""))
		delete(p.present, k)
	case "upd":
		p.st.Update(ctx, pageEntry(k, o.S, v))
		p.present[k] = o.S
	case "acc":
		p.st.Accumulate(srcRef(1), mkSite(k, "location="+v))
		if _, ok := p.present[k]; !ok {
			p.present[k] = ""
		}
	}
	p.e.Logf("churn %s %q %s", o.K, k, o.S)
}

func (p *pagingRun) walk(ctx context.Context, o sim.Op) {
	e := p.e
	sel := &store.Selector{Limit: int(o.A), Offset: int(o.At)}
	if o.B == 1 {
		sel.Ordering = store.Descending
	}
	less := func(a, b string) bool {
		if o.B == 1 {
			return a > b
		}
		return a < b
	}
	var seen []string
	startEpoch := p.epoch
	pages := 0
	for {
		epoch, quiet := p.epoch, p.active == 0
		var set store.Set
		var err error
		if o.K == "index" {
			set, err = p.st.Index(ctx, "tags", pageEntry("q", "x", ""), sel)
		} else {
			set, err = p.st.List(ctx, sel)
		}
		var got []string
		for _, ent := range set.Entries {
			got = append(got, idOf(ent.Record))
		}
		quiet = quiet && p.epoch == epoch && p.active == 0
		pages++
		if err != nil {
			e.Violate("page-error", "page %d of %s failed: %v", pages, o.K, err)
			return
		}
		e.Logf("c%d %s limit=%d order=%d page %d: %q more=%v", o.C, o.K, o.A, o.B, pages, got, set.Continue != "")
		if sel.Limit > 0 && len(got) > sel.Limit {
			e.Violate("page-over-limit", "page of %d entries with limit %d", len(got), sel.Limit)
		}
		for _, k := range got {
			if len(seen) > 0 && !less(seen[len(seen)-1], k) {
				kind := "out-of-order"
				for _, s := range seen {
					if s == k {
						kind = "repeated-entry"
					}
				}
				e.Violate(kind, "walk of %s limit %d order %d returned %q after %q (page %d)", o.K, o.A, o.B, k, seen[len(seen)-1], pages)
			}
			seen = append(seen, k)
		}
		if quiet && (sel.Offset == 0 || pages > 1) {
			// nothing changed meanwhile: the token must say the truth
			more := 0
			for k, tags := range p.present {
				if o.K == "index" && !strings.Contains(tags, "x") {
					continue
				}
				if len(seen) == 0 || less(seen[len(seen)-1], k) {
					more++
				}
			}
			if (more > 0) != (set.Continue != "") {
				e.Violate("token-wrong", "page %d of %s (limit %d order %d) ends at %q: %d entries remain but continue token present=%v", pages, o.K, o.A, o.B, last(seen), more, set.Continue != "")
			}
		}
		if set.Continue == "" {
			break
		}
		if pages > 300 {
			e.Violate("walk-endless", "the walk did not end")
			return
		}
		limit := sel.Limit
		if o.S == "vary" {
			limit = 1 + (limit+2)%7
		}
		sel = &store.Selector{Limit: limit, Ordering: sel.Ordering, Continue: set.Continue}
		if d := e.Plan.P("pagepause"); d > 0 {
			time.Sleep(time.Duration(d))
		}
	}
	if pages > 1 && (p.epoch > startEpoch || o.At == 0) {
		e.NonTrivial()
	}
	if pages > 1 && p.epoch > startEpoch {
		e.Probe("walks-under-churn")
	}
	var want []string
	for k := range p.stable {
		want = append(want, k)
	}
	if p.epoch == 0 {
		want = want[:0]
		for k, tags := range p.present {
			if o.K == "list" || strings.Contains(tags, "x") {
				want = append(want, k)
			}
		}
	}
	sort.Slice(want, func(i, j int) bool { return less(want[i], want[j]) })
	if o.At > 0 {
		if int(o.At) >= len(want) {
			want = nil
		} else {
			want = want[o.At:]
		}
		if strings.Join(want, "|") != strings.Join(seen, "|") || len(want) != len(seen) {
			e.Violate("missed-entry", "walk with offset %d returned %q, want %q", o.At, seen, want)
		}
		return
	}
	n := map[string]int{}
	for _, k := range seen {
		n[k]++
	}
	for _, k := range want {
		if n[k] != 1 {
			e.Violate(map[bool]string{true: "missed-entry", false: "repeated-entry"}[n[k] == 0], "%q was present during the whole walk of %s (limit %d order %d) and was returned %d times: %q", k, o.K, o.A, o.B, n[k], seen)
		}
	}
	if p.epoch == 0 && len(seen) != len(want) {
		e.Violate("wrong-walk", "walk returned %q, the store holds %q", seen, want)
	}
}

func last(s []string) string {
	if len(s) == 0 {
		return ""
	}
	return s[len(s)-1]
}

func init() {
	sim.Scenarios["paging"] = &sim.Scenario{Gen: genPaging, Run: runPaging, Stalls: true, MaxStall: 3 * time.Second}
}
