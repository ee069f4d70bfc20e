package prom

import (
	"context"
	"math"
	"strconv"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/promql"
	"code.cloudfoundry.org/log-cache/internal/zzverif/sym"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
)

const at = 10000 // the time of instant queries in seconds

func gaugeEnv(id, inst string, ts int64, tags map[string]string, name string, v float64) *env {
	return &env{SourceId: id, InstanceId: inst, Timestamp: ts, Tags: tags, Message: &loggregator_v2.Envelope_Gauge{Gauge: &loggregator_v2.Gauge{
		Metrics: map[string]*loggregator_v2.GaugeValue{name: {Unit: "u", Value: v}}}}}
}

// value is an arbitrary value, other than the one that marks the end of a
// series for the library.
func value() float64 {
	v := sym.Float64("value")
	sym.Assume(math.Float64bits(v) != 0x7ff0000000000002)
	return v
}

func instant(t *tape, q string) (*logcache_v1.PromQL_InstantQueryResult, error) {
	p, m := newPromQL(t)
	r, err := p.InstantQuery(context.Background(), &logcache_v1.PromQL_InstantQueryRequest{Query: q, Time: strconv.Itoa(at)})
	sym.Assert((m.failures > 0) == (err != nil && len(t.reads) > 0), "failed queries are not counted")
	return r, err
}

func samples(r *logcache_v1.PromQL_InstantQueryResult, err error) []*logcache_v1.PromQL_Sample {
	sym.Assert(err == nil, "a query fails that can be answered")
	v, ok := r.GetResult().(*logcache_v1.PromQL_InstantQueryResult_Vector)
	sym.Assert(ok, "a selector does not give a vector")
	return v.Vector.Samples
}

// ns is an arbitrary time within a second.
func ns(second int64) int64 {
	return second*1e9 + sym.Int64Range("nanoseconds", 0, 1e9-1)
}

var names = []struct {
	name string
	same bool // stands for m_x
}{
	{"m_x", true}, {"m.x", true}, {"m-x", true}, {"m x", true}, {"m\u00e9x", true}, {"mx", false}, {"m_X", false}, {"m__x", false}, {"m_x.", false}, {"", false},
}

// Q02_Values asks for the value of one envelope of any kind.
func Q02_Values() {
	sym.Expect("counter", "gauge", "timer", "other kind", "other name", "too old")
	nm := names[sym.Choice("name", len(names))]
	sec := []int64{1, 300, 301}[sym.Choice("age", 3)]
	e := &env{SourceId: "s", InstanceId: "0", Timestamp: ns(at - sec)}
	var want float64
	match := nm.same
	kind := sym.Choice("kind", 7)
	switch kind {
	case 0:
		u := sym.Uint64("total")
		e.Message = &loggregator_v2.Envelope_Counter{Counter: &loggregator_v2.Counter{Name: nm.name, Total: u, Delta: sym.Uint64("delta")}}
		want = float64(u)
	case 1:
		want = value()
		e.Message = &loggregator_v2.Envelope_Gauge{Gauge: &loggregator_v2.Gauge{Metrics: map[string]*loggregator_v2.GaugeValue{
			"other": {Value: 3}, nm.name: {Unit: "u", Value: want}}}}
	case 2:
		a, b := sym.Int64("start"), sym.Int64("stop")
		want = float64(b - a)
		e.Message = &loggregator_v2.Envelope_Timer{Timer: &loggregator_v2.Timer{Name: nm.name, Start: a, Stop: b}}
	case 3:
		e.Message = &loggregator_v2.Envelope_Log{Log: &loggregator_v2.Log{Payload: []byte(nm.name)}}
	case 4:
		e.Message = &loggregator_v2.Envelope_Event{Event: &loggregator_v2.Event{Title: nm.name, Body: nm.name}}
	case 5:
		e.Message = &loggregator_v2.Envelope_Gauge{Gauge: &loggregator_v2.Gauge{}}
	}
	match = match && kind < 3
	t := &tape{data: map[string][]*env{"s": {e}}}
	out := samples(instant(t, "m_x{source_id=\"s\"}"))
	if sec == 301 {
		sym.Cover("too old")
		match = false
	}
	sym.Assert(len(out) == 0 == !match, "a query does not select the metrics of its name")
	if kind >= 3 {
		sym.Cover("other kind")
	} else if !nm.same {
		sym.Cover("other name")
	}
	if !match {
		return
	}
	sym.Cover([]string{"counter", "gauge", "timer"}[kind])
	s := out[0]
	sym.Assert(len(out) == 1 && sym.SameFloat(s.Point.Value, want), "a sample has another value than its envelope")
	sym.Assert(s.Point.Time == "10000.000", "a sample of an instant query has another time")
	sym.Assert(len(s.Metric) == 2 && s.Metric["source_id"] == "s" && s.Metric["instance_id"] == "0", "a sample has other labels than its envelope")
	in := t.reads[0]
	sym.Assert(len(t.reads) == 1 && in.StartTime <= (at-300)*1e9 && in.EndTime >= at*1e9, "the reads do not cover the query")
	for _, ty := range []logcache_v1.EnvelopeType{logcache_v1.EnvelopeType_COUNTER, logcache_v1.EnvelopeType_GAUGE, logcache_v1.EnvelopeType_TIMER} {
		ok := len(in.EnvelopeTypes) == 0
		for _, x := range in.EnvelopeTypes {
			ok = ok || x == ty || x == logcache_v1.EnvelopeType_ANY
		}
		sym.Assert(ok, "a kind of metric is not read")
	}
}

// matcher is a condition on the label a (or the instance).
type matcher struct {
	text string
	ok   func(a, inst string) bool
}

var matchers = []matcher{
	{"a=\"1\"", func(a, i string) bool { return a == "1" }},
	{"a!=\"1\"", func(a, i string) bool { return a != "1" }},
	{"a=~\"1|2\"", func(a, i string) bool { return a == "1" || a == "2" }},
	{"a!~\"1|2\"", func(a, i string) bool { return a != "1" && a != "2" }},
	{"a=\"\"", func(a, i string) bool { return a == "" }},
	{"a!=\"\"", func(a, i string) bool { return a != "" }},
	{"a=~\".+\"", func(a, i string) bool { return a != "" }},
	{"a!=\"1\",a!=\"2\"", func(a, i string) bool { return a != "1" && a != "2" }},
	{"a=\"1\",instance_id!=\"0\"", func(a, i string) bool { return a == "1" && i != "0" }},
	{"instance_id=\"0\"", func(a, i string) bool { return i == "0" }},
	{"instance_id=~\"0|1\"", func(a, i string) bool { return i == "0" || i == "1" }},
	{"instance_id=\"\"", func(a, i string) bool { return i == "" }},
}

// Q02_Labels selects by label.
func Q02_Labels() {
	sym.Expect("selected", "not selected", "missing")
	m := matchers[sym.Choice("matcher", len(matchers))]
	tags := map[string]string{"b": "1"}
	a := ""
	if sym.Flag("tagged") {
		a = sym.StrOf("a", sym.Int("length", 0, 2), "123. ")
		tags["a"] = a
	} else {
		sym.Cover("missing")
		tags = nil
	}
	inst := sym.StrOf("instance", sym.Int("instance length", 0, 1), "012")
	v := value()
	t := &tape{data: map[string][]*env{"s": {gaugeEnv("s", inst, (at-1)*1e9, tags, "m", v)}}}
	out := samples(instant(t, "m{source_id=\"s\","+m.text+"}"))
	if !m.ok(a, inst) {
		sym.Cover("not selected")
		sym.Assert(len(out) == 0, "an envelope is selected whose labels do not match")
		return
	}
	sym.Cover("selected")
	sym.Assert(len(out) == 1, "an envelope is not selected whose labels match")
	got := out[0].Metric
	sym.Assert(got["source_id"] == "s" && sym.EqStr(got["instance_id"], inst) && sym.EqStr(got["a"], a) && (got["b"] == "1") == (tags != nil), "a sample has other labels than its envelope")
	sym.Assert(sym.SameFloat(out[0].Point.Value, v), "a sample has another value than its envelope")
}

var tagSets = []map[string]string{
	nil,
	{"a": "1"},
	{"a": "b-c-d"},
	{"a": "b", "c": "d"},
	{"a": "b\"\"c\"\"d"},
	{"b": "1"},
	{"a-b": "1"},
	{"source_id": "t", "instance_id": "9", "a": "1"},
}

func clone(m map[string]string) map[string]string {
	if m == nil {
		return nil
	}
	c := map[string]string{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

func labelsOf(e *env, tags map[string]string) map[string]string {
	l := clone(tags)
	if l == nil {
		l = map[string]string{}
	}
	l["source_id"] = e.SourceId
	if e.InstanceId != "" {
		l["instance_id"] = e.InstanceId
	}
	return l
}

func equal(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

// Q02_Series tells series apart by their labels and takes the latest value
// of each.
func Q02_Series() {
	sym.Expect("one", "several", "two sources", "latest")
	n := sym.Bound("envelopes", 2, 3)
	type point struct {
		labels map[string]string
		sec    int64
		v      float64
	}
	var want []point
	t := &tape{data: map[string][]*env{}}
	latest := false
	last := int64(5)
	for i := 0; i < n; i++ {
		id := []string{"s", "t"}[sym.Choice("source", 2)]
		tags := tagSets[sym.Choice("tags", len(tagSets))]
		last -= int64(sym.Int("pause", 1, sym.Bound("pause", 1, 2)))
		e := gaugeEnv(id, []string{"", "0"}[sym.Choice("instance", 2)], ns(at-last-1), clone(tags), "m", value())
		t.data[id] = append(t.data[id], e)
		p := point{labelsOf(e, tags), at - last - 1, e.GetGauge().Metrics["m"].Value}
		found := false
		for i := range want {
			if equal(want[i].labels, p.labels) {
				want[i] = p
				found, latest = true, true
			}
		}
		if !found {
			want = append(want, p)
		}
	}
	out := samples(instant(t, "m{source_id=~\"s|t\"}"))
	sym.Assert(len(out) == len(want), "series with different labels are merged or one series is split")
	for _, p := range want {
		found := false
		for _, s := range out {
			if equal(s.Metric, p.labels) {
				found = true
				sym.Assert(sym.SameFloat(s.Point.Value, p.v), "an instant query does not give the latest value of a series")
			}
		}
		sym.Assert(found, "a series is missing from the result")
	}
	if len(want) == 1 {
		sym.Cover("one")
	} else {
		sym.Cover("several")
	}
	if len(t.data) == 2 {
		sym.Cover("two sources")
	}
	if latest {
		sym.Cover("latest")
	}
}

// Q02_Errors fails a read of one of two sources.
func Q02_Errors() {
	sym.Expect("failed", "answered")
	a, b := sym.Bool("s fails"), sym.Bool("t fails")
	t := &tape{fail: map[string]bool{"s": a, "t": b}, data: map[string][]*env{"s": {gaugeEnv("s", "", (at-1)*1e9, nil, "m", 1)}, "t": {gaugeEnv("t", "", (at-1)*1e9, nil, "m", 1)}}}
	q := []string{"m{source_id=~\"s|t\"}", "m{source_id=\"s\"} or m{source_id=\"t\"}", "count_over_time(m{source_id=\"s\"}[1m]) + on() m{source_id=\"t\"}"}[sym.Choice("query", 3)]
	var err error
	var some bool
	p, m := newPromQL(t)
	if sym.Flag("range") {
		var r *logcache_v1.PromQL_RangeQueryResult
		r, err = p.RangeQuery(context.Background(), &logcache_v1.PromQL_RangeQueryRequest{Query: q, Start: strconv.Itoa(at), End: strconv.Itoa(at), Step: "1"})
		some = r != nil
	} else {
		var r *logcache_v1.PromQL_InstantQueryResult
		r, err = p.InstantQuery(context.Background(), &logcache_v1.PromQL_InstantQueryRequest{Query: q, Time: strconv.Itoa(at)})
		some = r != nil
	}
	if sym.Or(a, b) {
		sym.Cover("failed")
		sym.Assert(err == errRead && !some, "a query is answered though a read failed")
		sym.Assert(m.failures == 1, "a failed query is not counted")
		return
	}
	sym.Cover("answered")
	sym.Assert(err == nil && some, "a query fails though every read succeeded")
	sym.Assert(m.failures == 0, "an answered query is counted as failed")
}

// Q02_Now takes the current second when no time is given.
func Q02_Now() {
	sym.Expect("selected", "not yet")
	time.Sleep(time.Duration(sym.Int64Range("clock", 0, 5e9)))
	now := time.Now().UnixNano()
	sec := now - now%1e9
	sec0 := sym.Concrete(sec / 1e9)
	off := int64(sym.Int("second", -2, 0))
	v := value()
	t := &tape{data: map[string][]*env{"s": {gaugeEnv("s", "", ns(sec0+off), nil, "m", v)}}}
	p, _ := newPromQL(t)
	out := samples(p.InstantQuery(context.Background(), &logcache_v1.PromQL_InstantQueryRequest{Query: "m{source_id=\"s\"}"}))
	sym.Assert(len(t.reads) == 1 && t.reads[0].EndTime >= sec && t.reads[0].StartTime <= sec-300e9, "the reads do not cover the query")
	if len(out) == 0 {
		sym.Cover("not yet")
		sym.Assert(off == 0, "a metric of the last seconds is not selected")
		return
	}
	sym.Cover("selected")
	sym.Assert(len(out) == 1 && sym.SameFloat(out[0].Point.Value, v), "a sample has another value than its envelope")
}

// Q02_Range evaluates a selector at every step.
func Q02_Range() {
	sym.Expect("points", "gap", "empty", "two series")
	step := sym.Int("step", 1, 3)
	width := sym.Int("width", 0, sym.Bound("width", 5, 8))
	n := sym.Bound("envelopes", 2, 3)
	type point struct {
		sec int64
		v   float64
	}
	var data [2][]point
	t := &tape{data: map[string][]*env{}}
	sec := int64(at - 301)
	for i := 0; i < n; i++ {
		if i == 0 {
			sec += int64(sym.Int("first", 0, 3))
		} else {
			sec += int64([]int{1, 2, 301, 303}[sym.Choice("pause", 4)])
		}
		k := 0
		if i > 0 {
			k = sym.Choice("instance", 2)
		}
		v := value()
		t.data["s"] = append(t.data["s"], gaugeEnv("s", strconv.Itoa(k), ns(sec), nil, "m", v))
		if sec < int64(at+width) { // a read ends before its end time
			data[k] = append(data[k], point{sec, v})
		}
	}
	p, _ := newPromQL(t)
	r, err := p.RangeQuery(context.Background(), &logcache_v1.PromQL_RangeQueryRequest{Query: "m{source_id=\"s\"}",
		Start: strconv.Itoa(at), End: strconv.Itoa(at + width), Step: strconv.Itoa(step)})
	sym.Assert(err == nil, "a range query fails that can be answered")
	mx, ok := r.GetResult().(*logcache_v1.PromQL_RangeQueryResult_Matrix)
	sym.Assert(ok, "a range query does not give a matrix")
	in := t.reads[0]
	sym.Assert(len(t.reads) == 1 && in.StartTime <= (at-300)*1e9 && in.EndTime >= int64(at+width)*1e9, "the reads do not cover the query")
	series := 0
	for k, d := range data {
		var want []point
		for ts := int64(at); ts <= int64(at+width); ts += int64(step) {
			best := -1
			for i, x := range d {
				if x.sec <= ts && x.sec >= ts-300 {
					best = i
				}
			}
			if best < 0 {
				if len(want) > 0 {
					sym.Cover("gap")
				}
				continue
			}
			want = append(want, point{ts, d[best].v})
		}
		var got []*logcache_v1.PromQL_Point
		for _, s := range mx.Matrix.Series {
			if s.Metric["instance_id"] == strconv.Itoa(k) {
				got = s.Points
				sym.Assert(len(s.Metric) == 2 && s.Metric["source_id"] == "s", "a series has other labels than its envelopes")
			}
		}
		sym.Assert(len(got) == len(want), "a series has not one point per step at which it has a value")
		for i, w := range want {
			sym.Assert(got[i].Time == strconv.FormatInt(w.sec, 10)+".000", "a point is not at its step")
			sym.Assert(sym.SameFloat(got[i].Value, w.v), "a point has not the latest value of its series")
		}
		if len(want) > 0 {
			series++
			sym.Cover("points")
		}
	}
	sym.Assert(len(mx.Matrix.Series) == series, "a series is in the result that has no value")
	switch series {
	case 0:
		sym.Cover("empty")
	case 2:
		sym.Cover("two series")
	}
}

// Q02_Name makes any name one that queries can use.
func Q02_Name() {
	sym.Expect("kept", "changed")
	n := sym.Int("length", 0, sym.Bound("length", 2, 3))
	s := sym.Str("name", n)
	for i := 0; i < n; i++ {
		sym.Assume(s[i] < 0x80)
	}
	got := promql.SanitizeMetricName(s)
	sym.Assert(len(got) == n, "a name changes its length")
	same := true
	for i := 0; i < n; i++ {
		c := s[i]
		ok := sym.Or(sym.And(c >= 'a', c <= 'z'), sym.And(c >= 'A', c <= 'Z'), c == '_', sym.And(i > 0, c >= '0', c <= '9'))
		if ok {
			sym.Assert(got[i] == c, "a valid character of a name is changed")
		} else {
			same = false
			sym.Assert(got[i] == '_', "an invalid character of a name is not made an underscore")
		}
	}
	if same {
		sym.Cover("kept")
	} else {
		sym.Cover("changed")
	}
}
