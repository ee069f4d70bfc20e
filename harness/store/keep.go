package store

import (
	"time"

	"code.cloudfoundry.org/log-cache/internal/cache/store"
	"code.cloudfoundry.org/log-cache/internal/zzverif/sym"
)

func oldest(es []*env) int64 {
	var o int64 = last
	for _, e := range es {
		if e.Timestamp < o {
			o = e.Timestamp
		}
	}
	return o
}

// S02_Evict fills a source past its maximum, in any order.
func S02_Evict() {
	sym.Expect("evicted", "late arrival", "equal timestamps")
	max := sym.Int("maximum", 1, sym.Bound("maximum per source", 3, 4))
	n := sym.Bound("envelopes", 4, 5)
	m := meter{}
	s := store.NewStore(max, &pruner{}, m)
	var held []*env
	var newest int64 = first
	for i := 0; i < n; i++ {
		e := &env{Timestamp: timestamp(), SourceId: "a"}
		if i > 0 && e.Timestamp < oldest(held) {
			sym.Cover("late arrival")
		}
		if e.Timestamp > newest {
			newest = e.Timestamp
		}
		s.Put(e, "a")
		got := all(s, "a")
		sym.Assert(len(got) <= max, "a source holds more than its maximum")
		sym.Assert(has(got, e), "a put drops the envelope put")
		want := len(held) + 1
		if len(held) == max {
			sym.Cover("evicted")
			want = max
		}
		sym.Assert(len(got) == want, "a put does not leave as many envelopes as it should")
		gone := 0
		for _, h := range held {
			if !has(got, h) {
				gone++
				o := oldest(held)
				sym.Assert(h.Timestamp == o, "a put drops an envelope that is not the oldest")
			}
		}
		sym.Assert(gone == len(held)+1-want, "a put drops the wrong number of envelopes")
		for i := 1; i < len(got); i++ {
			if got[i].Timestamp == got[i-1].Timestamp {
				sym.Cover("equal timestamps")
			}
		}
		held = got
	}
	sym.Assert(m.get("log_cache_store_size").v == float64(len(held)), "the store size does not match what is held")
	sym.Assert(m.get("log_cache_expired").v == float64(n-len(held)), "the expired count does not match what was dropped")
	sym.Assert(m.get("log_cache_ingress").v == float64(n), "the ingress count does not match what was put")
}

// S02_Two shows that sources do not evict each other's envelopes.
func S02_Two() {
	sym.Expect("full", "both")
	max := sym.Int("maximum", 1, 2)
	n := sym.Bound("envelopes of two sources", 4, 5)
	m := meter{}
	s := store.NewStore(max, &pruner{}, m)
	var held [2][]*env
	ids := []string{"a", "b"}
	for i := 0; i < n; i++ {
		k := sym.Choice("source", 2)
		e := &env{Timestamp: timestamp(), SourceId: ids[k]}
		s.Put(e, ids[k])
		got, other := all(s, ids[k]), all(s, ids[1-k])
		sym.Assert(len(other) == len(held[1-k]), "a put changes another source")
		for _, h := range held[1-k] {
			sym.Assert(has(other, h), "a put drops another source's envelope")
		}
		sym.Assert(has(got, e) && len(got) <= max, "a put drops the envelope put or keeps too many")
		if len(held[k]) == max {
			sym.Cover("full")
		}
		if len(other) > 0 {
			sym.Cover("both")
		}
		held[k] = got
	}
	sym.Assert(m.get("log_cache_store_size").v == float64(len(held[0])+len(held[1])), "the store size does not match what is held")
}

// S03_Meta compares the meta information with a model after every put and
// after a prune.
func S03_Meta() {
	sym.Expect("evicted", "pruned", "source forgotten", "source comes back", "two sources")
	max := sym.Int("maximum", 1, 2)
	n := sym.Bound("envelopes", 3, 4)
	p := &pruner{}
	m := meter{}
	s := store.NewStore(max, p, m)
	ids := []string{"a", "b"}
	var put, shown [2]int64
	var newest [2]int64
	var other [2][]int64 // which of two sources' equally old envelopes is pruned is not determined
	check := func() {
		meta := s.Meta()
		sources := 0
		for k, id := range ids {
			held := all(s, id)
			if len(held) == 0 {
				_, ok := meta[id]
				sym.Assert(!ok, "a source without envelopes is reported")
				if put[k] > 0 {
					sym.Cover("source forgotten")
				}
				put[k] = 0
				continue
			}
			sources++
			i, ok := meta[id]
			sym.Assert(ok, "a source is not reported")
			sym.Assert(i.Count == int64(len(held)), "the count is not the number of envelopes held")
			sym.Assert(i.Count+i.Expired == put[k], "held and expired do not make up what was put")
			sym.Assert(i.OldestTimestamp == held[0].Timestamp, "the oldest timestamp is not that of the oldest envelope held")
			sym.Assert(i.NewestTimestamp == newest[k], "the newest timestamp is not that of the newest envelope received")
			if i.Expired > 0 {
				sym.Cover("evicted")
			}
			shown[k]++
		}
		sym.Assert(len(meta) == sources, "other sources are reported")
		if sources == 2 {
			sym.Cover("two sources")
		}
	}
	prune := sym.Int("prune after", 0, n)
	for i := 0; i < n; i++ {
		if i == prune {
			p.n = sym.Int("prune", 1, 3)
			time.Sleep(time.Second)
			sym.Cover("pruned")
			check()
		}
		k := sym.Choice("source", 2)
		e := &env{Timestamp: timestamp(), SourceId: ids[k]}
		for _, o := range other[1-k] {
			sym.Assume(o != e.Timestamp)
		}
		other[k] = append(other[k], e.Timestamp)
		if put[k] == 0 && shown[k] > 0 {
			sym.Cover("source comes back")
		}
		if put[k] == 0 || e.Timestamp > newest[k] {
			newest[k] = e.Timestamp
		}
		put[k]++
		s.Put(e, ids[k])
		check()
	}
}

// S04_Prune drops any number of envelopes of several sources.
func S04_Prune() {
	sym.Expect("none", "some", "more than there are", "a source emptied", "equal timestamps", "across sources")
	p := &pruner{}
	m := meter{}
	pruned := time.Now().Add(500 * time.Millisecond).UnixNano()
	s := store.NewStore(100, p, m)
	ids := []string{"a", "b", "c"}
	n := sym.Int("envelopes", 0, sym.Bound("envelopes", 3, 4))
	var es []*env
	var of []int
	used := 0
	for i := 0; i < n; i++ {
		k := sym.Int("source", 0, used) // sources are taken into use in order
		if k == used && used < 2 {
			used++
		}
		e := &env{Timestamp: timestamp(), SourceId: ids[k]}
		es, of = append(es, e), append(of, k)
		s.Put(e, ids[k])
	}
	drop := sym.Int("drop", 0, n+1)
	big := sym.Flag("far more")
	p.n = drop
	if big {
		p.n = 1 << 40
	}
	time.Sleep(time.Second)
	left := n - drop
	if big || left < 0 {
		left = 0
		sym.Cover("more than there are")
	}
	var kept, gone []*env
	var hit [3]bool
	for i, e := range es {
		if has(all(s, ids[of[i]]), e) {
			kept = append(kept, e)
		} else {
			gone = append(gone, e)
			hit[of[i]] = true
		}
	}
	sym.Assert(len(kept) == left, "a prune does not drop as many envelopes as asked")
	for _, k := range kept {
		for _, g := range gone {
			sym.Assert(g.Timestamp <= k.Timestamp, "a prune drops an envelope while an older one stays")
			if g.Timestamp == k.Timestamp {
				sym.Cover("equal timestamps")
			}
		}
	}
	tie := false // which of two equally old envelopes goes is not determined
	for i := range es {
		for j := range es[:i] {
			if of[i] != of[j] && es[i].Timestamp == es[j].Timestamp {
				tie = true
			}
		}
	}
	switch {
	case len(gone) == 0:
		sym.Cover("none")
	case len(kept) > 0:
		sym.Cover("some")
	}
	if !tie && hit[0] && hit[1] {
		sym.Cover("across sources")
	}
	meta := s.Meta()
	total := 0
	for k := range ids {
		held := 0
		for i, e := range es {
			if of[i] == k && has(kept, e) {
				held++
			}
		}
		total += held
		i, ok := meta[ids[k]]
		sym.Assert(ok == (held > 0), "a source left empty is not forgotten, or another is")
		sym.Assert(i.Count == int64(held), "the count is wrong after a prune")
		if !tie && hit[k] && held == 0 {
			sym.Cover("a source emptied")
		}
	}
	sym.Assert(m.get("log_cache_store_size").v == float64(total), "the store size is wrong after a prune")
	sym.Assert(m.get("log_cache_expired").v == float64(len(gone)), "the expired count is wrong after a prune")
	if len(gone) > 0 {
		if total == 0 {
			sym.Assert(m.get("log_cache_cache_period").v == 0, "an empty store has a cache period")
		} else {
			v, o, ok := m.get("log_cache_cache_period").v, oldest(kept), false
			for _, e := range kept {
				period := (pruned - e.Timestamp) / int64(time.Millisecond)
				ok = sym.Or(ok, sym.And(e.Timestamp == o, v == float64(period)))
			}
			sym.Assert(ok, "the cache period is not the age of the oldest envelope held")
		}
	}
	// what is put afterwards is kept
	e := &env{Timestamp: timestamp(), SourceId: "a"}
	s.Put(e, "a")
	sym.Assert(has(all(s, "a"), e), "an envelope put after a prune is lost")
	sym.Assert(m.get("log_cache_store_size").v == float64(total+1), "the store size is wrong after a prune and a put")
}

// memory is what the system says about its memory.
type memory struct{ heap, avail, total uint64 }

func (m memory) Memory() (uint64, uint64, uint64) { return m.heap, m.avail, m.total }

// S04_Consultant asks the consultant how many to drop.
func S04_Consultant() {
	sym.Expect("nothing", "something")
	ms := []memory{{0, 5, 1 << 34}, {49, 0, 100}, {50, 0, 100}, {51, 0, 100}, {1 << 33, 0, 1 << 34}, {1<<33 + 1, 0, 1 << 34}, {1, 1, 3}, {7, 0, 7}, {9, 0, 7}}
	mem := ms[sym.Choice("memory", len(ms))]
	fill := []float64{50, 33.3, 100, 0}[sym.Choice("fill", 4)]
	count := int64(sym.Int("count", 0, sym.Bound("store count", 40, 200)))
	c := store.NewPruneConsultant(1, fill, mem)
	if sym.Flag("reported") {
		f := &figure{v: -1}
		c.SetMemoryReporter(f)
		defer func() {
			sym.Assert(f.v == float64(mem.heap*100)/float64(mem.total), "the memory utilisation is not reported as a percentage")
		}()
	}
	n := c.GetQuantityToPrune(count)
	sym.Assert(n >= 0 && int64(n) <= count, "more envelopes to drop than there are")
	pct := float64(mem.heap*100) / float64(mem.total)
	if pct <= fill {
		sym.Cover("nothing")
		sym.Assert(n == 0, "envelopes dropped without need")
	} else {
		sym.Cover("something")
		// what stays is what fits, or one more
		rest := float64(count) * (fill / pct)
		sym.Assert(float64(count-int64(n)) >= rest-1 && float64(count-int64(n)) <= rest+2, "not the share of envelopes that is above the limit")
	}
}
