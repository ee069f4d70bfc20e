package store

import (
	"sync"
	"sync/atomic"
	"time"

	"code.cloudfoundry.org/go-loggregator/metrics"
	"code.cloudfoundry.org/log-cache/internal/cache/store"
	"code.cloudfoundry.org/log-cache/internal/zzverif/sym"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
)

// tally is a metrics registry for concurrent use.
type tally struct{ c *gauge }

type gauge struct{ n int64 }

func (g *gauge) Add(d float64) { atomic.AddInt64(&g.n, int64(d)) }
func (g *gauge) Set(d float64) { atomic.StoreInt64(&g.n, int64(d)) }

func (t tally) NewCounter(name string, opts ...metrics.MetricOption) metrics.Counter {
	if name == "log_cache_expired" {
		return t.c
	}
	return &gauge{}
}
func (t tally) NewGauge(name string, opts ...metrics.MetricOption) metrics.Gauge { return &gauge{} }

// demand asks for n envelopes to be dropped, once.
type demand struct{ n int64 }

func (p *demand) GetQuantityToPrune(int64) int    { return int(atomic.SwapInt64(&p.n, 0)) }
func (p *demand) SetMemoryReporter(metrics.Gauge) {}

// S05_Mix lets two callers act while the store may be pruning.
//
//sym:race
func S05_Mix() {
	sym.Races()
	sym.Preemptions(sym.Bound("preemptions", 1, 2))
	c := &gauge{}
	p := &demand{}
	s := store.NewStore(2, p, tally{c})
	ids := []string{"a", "b"}
	puts := 0
	put := func(k int, ts int64) {
		s.Put(&env{Timestamp: ts, SourceId: ids[k]}, ids[k])
	}
	before := sym.Int("envelopes before", 0, sym.Bound("envelopes before", 1, 2))
	for i := 0; i < before; i++ {
		put(i%2, sym.Int64Range("ts", 0, 1<<62))
		puts++
	}
	// put, put; put elsewhere, put; put, read; put elsewhere, meta; read, meta
	pairs := [][2]int{{0, 0}, {1, 0}, {0, 2}, {1, 3}, {2, 3}}
	if sym.Thorough() {
		pairs = append(pairs, [][2]int{{0, 3}, {1, 2}, {3, 3}}...)
	}
	pair := pairs[sym.Choice("callers", len(pairs))]
	atomic.StoreInt64(&p.n, int64([]int{0, 1, 3}[sym.Choice("prune", 3)]))
	var wg sync.WaitGroup
	for g := 0; g < 2; g++ {
		g := g
		what := pair[g]
		var ts int64
		if what < 2 {
			puts++
			ts = sym.Int64Range("ts", 0, 1<<62)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(500 * time.Millisecond)
			switch what {
			case 0, 1:
				put(what, ts)
			case 2:
				for _, e := range all(s, "a") {
					sym.Assert(e != nil && e.SourceId == "a", "a concurrent read returns something else")
				}
			case 3:
				for id, i := range s.Meta() {
					checkInfo(id, i)
				}
			}
		}()
	}
	wg.Wait()
	time.Sleep(100 * time.Millisecond)
	held := 0
	m := s.Meta()
	for _, id := range ids {
		n := len(all(s, id))
		held += n
		i, ok := m[id]
		sym.Assert(ok == (n > 0) && i.Count == int64(n), "the meta information does not match what is held after concurrent use")
	}
	sym.Assert(held+int(atomic.LoadInt64(&c.n)) == puts, "an envelope put is neither held nor counted as expired")
}

func checkInfo(id string, i logcache_v1.MetaInfo) {
	sym.Assert(id == "a" || id == "b", "the meta information names another source")
	sym.Assert(i.Count >= 0 && i.Count <= 2, "the meta information counts other envelopes")
}
