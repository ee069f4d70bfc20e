// Package store holds the harnesses for the node's in-memory store.
package store

import (
	"regexp"
	"time"

	"code.cloudfoundry.org/go-loggregator/metrics"
	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/cache/store"
	"code.cloudfoundry.org/log-cache/internal/zzverif/sym"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
)

type env = loggregator_v2.Envelope

// figure is a metric; the store calls it under its own locks or alone.
type figure struct{ v float64 }

func (f *figure) Add(d float64) { f.v += d }
func (f *figure) Set(d float64) { f.v = d }

// meter is a metrics registry that keeps the figures.
type meter map[string]*figure

func (m meter) get(name string) *figure {
	if m[name] == nil {
		m[name] = &figure{}
	}
	return m[name]
}
func (m meter) NewCounter(name string, opts ...metrics.MetricOption) metrics.Counter {
	return m.get(name)
}
func (m meter) NewGauge(name string, opts ...metrics.MetricOption) metrics.Gauge {
	return m.get(name)
}

// pruner asks for a number of envelopes to be dropped once.
type pruner struct{ n int }

func (p *pruner) GetQuantityToPrune(int64) int {
	n := p.n
	p.n = 0
	return n
}
func (p *pruner) SetMemoryReporter(metrics.Gauge) {}

const (
	first = -1 << 63
	last  = 1<<63 - 1
)

var everything = []*env(nil)

// all reads everything a source holds (timestamps below the last one).
func all(s *store.Store, id string) []*env {
	return s.Get(id, time.Unix(0, first), time.Unix(0, last), nil, nil, 1000, false)
}

func has(es []*env, e *env) bool {
	for _, x := range es {
		if x == e {
			return true
		}
	}
	return false
}

func timestamp() int64 {
	ts := sym.Int64("ts")
	sym.Assume(ts < last)
	return ts
}

// checkRead compares an answer with the envelopes that match.
func checkRead(got, match, wrong []*env, limit int, desc bool) {
	for i, e := range got {
		sym.Assert(!has(wrong, e), "a read returned an envelope that does not match")
		sym.Assert(has(match, e), "a read returned something that was not stored")
		sym.Assert(!has(got[:i], e), "a read returned an envelope twice")
		if i > 0 {
			a, b := got[i-1].Timestamp, e.Timestamp
			sym.Assert(sym.Or(sym.And(!desc, a <= b), sym.And(desc, a >= b)), "a read is not in the order asked for")
			if a == b {
				sym.Cover("equal timestamps")
			}
		}
	}
	want := len(match)
	if want > limit {
		want = limit
		sym.Cover("limited")
	}
	sym.Assert(len(got) >= want, "a read misses matching envelopes")
	if len(got) > want {
		sym.Cover("a group completed")
		sym.Assert(want > 0 && got[len(got)-1].Timestamp == got[want-1].Timestamp, "a read exceeds its limit by more than the group sharing a timestamp")
	}
	for _, e := range match {
		if !has(got, e) && len(got) > 0 {
			l := got[len(got)-1].Timestamp
			sym.Assert(sym.Or(sym.And(!desc, e.Timestamp > l), sym.And(desc, e.Timestamp < l)), "a limited read skips an envelope")
		}
	}
	if len(match) > 1 {
		sym.Cover("several match")
	}
	if len(wrong) > 0 {
		sym.Cover("some do not match")
	}
}

// S01_Window reads any window of any timestamps.
func S01_Window() {
	sym.Expect("equal timestamps", "limited", "a group completed", "several match", "some do not match")
	s := store.NewStore(100, &pruner{}, meter{})
	n := sym.Int("envelopes", 0, sym.Bound("envelopes", 3, 4))
	var es []*env
	for i := 0; i < n; i++ {
		e := &env{Timestamp: sym.Int64("ts"), SourceId: "a"}
		es = append(es, e)
		s.Put(e, "a")
	}
	start, end := sym.Int64("start"), sym.Int64("end")
	desc := sym.Flag("descending")
	limit := sym.Int("limit", 1, n+1)
	got := s.Get("a", time.Unix(0, start), time.Unix(0, end), nil, nil, limit, desc)
	var match, wrong []*env
	for _, e := range es {
		if e.Timestamp >= start && e.Timestamp < end {
			match = append(match, e)
		} else {
			wrong = append(wrong, e)
		}
	}
	checkRead(got, match, wrong, limit, desc)
}

// kind makes an envelope of one of the types; names are those a filter sees.
func kind(k int, name string) *env {
	e := &env{SourceId: "a"}
	switch k {
	case 0:
		e.Message = &loggregator_v2.Envelope_Log{Log: &loggregator_v2.Log{}}
	case 1:
		e.Message = &loggregator_v2.Envelope_Counter{Counter: &loggregator_v2.Counter{Name: name}}
	case 2:
		e.Message = &loggregator_v2.Envelope_Gauge{Gauge: &loggregator_v2.Gauge{Metrics: map[string]*loggregator_v2.GaugeValue{name: {Value: 1}}}}
	case 3:
		e.Message = &loggregator_v2.Envelope_Timer{Timer: &loggregator_v2.Timer{Name: name}}
	case 4:
		e.Message = &loggregator_v2.Envelope_Event{Event: &loggregator_v2.Event{Title: name}}
	}
	return e
}

var types = []logcache_v1.EnvelopeType{
	logcache_v1.EnvelopeType_LOG, logcache_v1.EnvelopeType_COUNTER, logcache_v1.EnvelopeType_GAUGE,
	logcache_v1.EnvelopeType_TIMER, logcache_v1.EnvelopeType_EVENT,
}

// S01_Types reads with type filters.
func S01_Types() {
	sym.Expect("no filter", "any", "one type", "two types", "unknown type", "most types", "limited", "several match", "some do not match")
	s := store.NewStore(100, &pruner{}, meter{})
	n := sym.Bound("envelopes of any type", 2, 3)
	var es []*env
	var ks []int
	for i := 0; i < n; i++ {
		k := sym.Choice("kind", 5)
		e := kind(k, "m")
		e.Timestamp = sym.Int64("ts")
		es, ks = append(es, e), append(ks, k)
		s.Put(e, "a")
	}
	start, end := sym.Int64("start"), sym.Int64("end")
	desc := sym.Flag("descending")
	limit := sym.Int("limit", 1, 2)
	var filter []logcache_v1.EnvelopeType
	want := func(int) bool { return true }
	switch sym.Choice("filter", 6) {
	case 0:
		sym.Cover("no filter")
	case 1:
		sym.Cover("any")
		filter = []logcache_v1.EnvelopeType{logcache_v1.EnvelopeType_ANY}
	case 2:
		sym.Cover("one type")
		t := sym.Choice("type", 5)
		filter = []logcache_v1.EnvelopeType{types[t]}
		want = func(k int) bool { return k == t }
	case 3:
		sym.Cover("two types")
		t, u := sym.Choice("type", 5), sym.Choice("type", 5)
		filter = []logcache_v1.EnvelopeType{types[t], types[u]}
		want = func(k int) bool { return k == t || k == u }
	case 4:
		sym.Cover("unknown type")
		t, u := sym.Int64("unknown"), sym.Choice("type", 5)
		sym.Assume(t > 5 && t < 1<<31 || t < 0 && t >= -1<<31)
		filter = []logcache_v1.EnvelopeType{logcache_v1.EnvelopeType(t), types[u]}
		want = func(k int) bool { return k == u }
	case 5:
		sym.Cover("most types")
		t := sym.Choice("type", 5)
		for i := 0; i < 8; i++ {
			if i%5 != t {
				filter = append(filter, types[i%5])
			}
		}
		want = func(k int) bool { return k != t }
	}
	got := s.Get("a", time.Unix(0, start), time.Unix(0, end), filter, nil, limit, desc)
	var match, wrong []*env
	for i, e := range es {
		if want(ks[i]) && e.Timestamp >= start && e.Timestamp < end {
			match = append(match, e)
		} else {
			wrong = append(wrong, e)
		}
	}
	checkRead(got, match, wrong, limit, desc)
}

// S01_Names reads with a metric name filter.
func S01_Names() {
	sym.Expect("several match", "some do not match", "gauge cut down", "limited")
	s := store.NewStore(100, &pruner{}, meter{})
	n := sym.Bound("named envelopes", 2, 3)
	name := func() string {
		if sym.Flag("fixed name") {
			return "cpu"
		}
		return sym.StrOf("name", 1, "acx")
	}
	var es []*env
	var names [][]string
	for i := 0; i < n; i++ {
		k := sym.Choice("kind", 5)
		ns := []string{name()}
		e := kind(k, ns[0])
		e.Timestamp, e.InstanceId = sym.Int64("ts"), string(rune('0'+i))
		e.Tags = map[string]string{"t": "v"}
		if k == 2 {
			m := e.GetGauge().Metrics
			m["mem"] = &loggregator_v2.GaugeValue{Value: 2, Unit: "b"}
			ns = append(ns, "mem")
		}
		if k == 0 || k == 4 {
			ns = nil // logs and events have no metric name
		}
		es, names = append(es, e), append(names, ns)
		s.Put(e, "a")
	}
	var re string
	var pass func(string) bool
	switch sym.Choice("filter", 3) {
	case 0:
		re, pass = "c", func(n string) bool { return n == "cpu" || n == "c" }
	case 1:
		re, pass = "^[am]", func(n string) bool { return n == "a" || n == "mem" }
	case 2:
		re, pass = "", func(n string) bool { return true }
	}
	desc := sym.Flag("descending")
	limit := sym.Int("limit", 1, n)
	got := s.Get("a", time.Unix(0, first), time.Unix(0, last), nil, regexp.MustCompile(re), limit, desc)
	var match, wrong []*env
	for i, e := range es {
		in := false
		for _, n := range names[i] {
			if pass(n) {
				in = true
			}
		}
		if in && e.Timestamp < last {
			match = append(match, e)
		} else {
			wrong = append(wrong, e)
		}
	}
	// a gauge comes back with the metrics that match only
	for i, e := range got {
		if e.GetGauge() == nil {
			continue
		}
		j := int(e.InstanceId[0] - '0')
		ms, k := e.GetGauge().GetMetrics(), 0
		for _, n := range names[j] {
			v, ok := ms[n]
			sym.Assert(ok == pass(n), "a filtered gauge does not have exactly its matching metrics")
			if ok {
				k++
				w := es[j].GetGauge().Metrics[n]
				sym.Assert(v != nil && v.Value == w.Value && v.Unit == w.Unit, "a filtered gauge changes a value")
			}
		}
		sym.Assert(len(ms) <= k, "a filtered gauge has other metrics")
		sym.Assert(len(es[j].GetGauge().Metrics) == 2, "a read changes a stored gauge")
		sym.Assert(e.Timestamp == es[j].Timestamp && e.SourceId == "a" && len(e.Tags) == 1 && e.Tags["t"] == "v", "a filtered gauge loses its other fields")
		if len(ms) < 2 {
			sym.Cover("gauge cut down")
		}
		got[i] = es[j]
	}
	checkRead(got, match, wrong, limit, desc)
}

// S01_Sources keeps sources apart.
func S01_Sources() {
	sym.Expect("same source", "other source", "unknown source")
	s := store.NewStore(100, &pruner{}, meter{})
	ids := []string{sym.Str("a", 1), sym.Str("b", 1)}
	var es [2]*env
	for i := range es {
		es[i] = &env{Timestamp: timestamp(), SourceId: "x"}
		s.Put(es[i], ids[i])
	}
	id := sym.Str("read", 1)
	got := all(s, id)
	k := 0
	for i := range es {
		if ids[i] == id {
			sym.Cover("same source")
			k++
			sym.Assert(has(got, es[i]), "a read misses an envelope of its source")
		} else {
			sym.Cover("other source")
			sym.Assert(!has(got, es[i]), "a read returns another source's envelope")
		}
	}
	if k == 0 {
		sym.Cover("unknown source")
	}
	sym.Assert(len(got) == k, "a read returns something else")
	m := s.Meta()
	for i := range es {
		_, ok := m[ids[i]]
		sym.Assert(ok, "a source with envelopes is not reported")
	}
}

// S01_Long reads many envelopes, few of which match.
func S01_Long() {
	sym.Expect("limited", "few match")
	n := sym.Bound("many envelopes", 9, 12)
	s := store.NewStore(100, &pruner{}, meter{})
	var es []*env
	for i := 0; i < n; i++ {
		e := kind(0, "m")
		if sym.Flag("matches") {
			e = kind(1, "m")
		}
		e.Timestamp = int64(i / 2)
		es = append(es, e)
		s.Put(e, "a")
	}
	desc := sym.Flag("descending")
	limit := sym.Int("limit", 1, 3)
	got := s.Get("a", time.Unix(0, 0), time.Unix(0, 100), []logcache_v1.EnvelopeType{logcache_v1.EnvelopeType_COUNTER}, nil, limit, desc)
	var match, wrong []*env
	for _, e := range es {
		if e.GetCounter() != nil {
			match = append(match, e)
		} else {
			wrong = append(wrong, e)
		}
	}
	if len(match) > limit {
		sym.Cover("limited")
	} else {
		sym.Cover("few match")
	}
	checkRead(got, match, wrong, limit, desc)
}
