package prom

import (
	"context"
	"math"
	"strconv"
	"time"

	"code.cloudfoundry.org/log-cache/internal/promql"
	"code.cloudfoundry.org/log-cache/internal/zzverif/sym"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
)

var fixed = []string{"NaN", "nan", "Inf", "+Inf", "-Inf", "infinity", "1e400", "-1e400", "9223372036", "9223372037", "-9223372036.854775", "-9223372037", "1e-400", "0x10", "1_000", "0.0009999", "0.001",
	"-0", "1537290750.123", "1e9", "4q", "m", "1m1s", "-1s", "1 s", "00s", "0s", "106751d", "106752d", "292y", "293y", "99999999999999999999y", "1.5m", "1ms", "1h", "10w"}

func text(name string) string {
	if sym.Flag(name + " is fixed") {
		return fixed[sym.Choice(name, len(fixed))]
	}
	n := sym.Int(name+" length", 0, sym.Bound("text length", 3, 4))
	return sym.StrOf(name, n, "059.-+e smhdwyNx")
}

// number reads a number the way the library does.
func number(s string) (float64, bool) {
	f, err := strconv.ParseFloat(s, 64)
	return f, err == nil
}

// Q03_Step reads steps.
func Q03_Step() {
	sym.Expect("number", "unit", "refused", "out of range")
	s := text("step")
	d, err := promql.ParseStep(s)
	f, ok := number(s)
	if ok {
		ns := f * 1e9
		if !(ns >= -9223372036854775808 && ns < 9223372036854775808) {
			sym.Cover("out of range")
			sym.Assert(err != nil, "a step is accepted that no duration can hold")
			return
		}
		sym.Cover("number")
		sym.Assert(err == nil && int64(d) == int64(ns), "a step in seconds is read as another duration")
		return
	}
	want, ok, fits := units(s)
	if !fits {
		// The library that reads units wraps around.
		return
	}
	if !ok {
		sym.Cover("refused")
		sym.Assert(err != nil, "a text that is no step is accepted")
		return
	}
	sym.Cover("unit")
	sym.Assert(err == nil && d == want, "a step with a unit is read as another duration")
	d2, err := promql.ParseDuration(s)
	sym.Assert(err == nil && d2 == want, "a duration is read as another")
}

// units reads digits with a unit and tells whether a duration can hold them.
func units(s string) (d time.Duration, ok, fits bool) {
	i := 0
	for i < len(s) && s[i] >= '0' && s[i] <= '9' {
		i++
	}
	if i == 0 {
		return 0, false, true
	}
	day := 24 * time.Hour
	u, ok := map[string]time.Duration{"ms": time.Millisecond, "s": time.Second, "m": time.Minute, "h": time.Hour, "d": day, "w": 7 * day, "y": 365 * day}[s[i:]]
	if !ok {
		return 0, false, true
	}
	n, err := strconv.ParseInt(s[:i], 10, 64)
	if err != nil || n > math.MaxInt64/int64(u) {
		return 0, false, false
	}
	return time.Duration(n) * u, true, true
}

// Q03_Time reads times.
func Q03_Time() {
	sym.Expect("number", "refused", "out of range", "date")
	s := text("time")
	dates := []string{"2018-09-18T17:12:30Z", "2018-09-18T17:12:30.123456789Z", "2018-09-18T17:12:30+02:00", "2018-09-18", "2018-13-18T17:12:30Z", "2018-09-18 17:12:30", "2300-01-01T00:00:00Z", "0001-01-01T00:00:00Z", "1677-01-01T00:00:00Z"}
	want := []int64{1537290750e9, 1537290750123456789, 1537283550e9, -1, -1, -1, -1, -1, -1}
	if sym.Flag("date") {
		i := sym.Choice("which", len(dates))
		t, err := promql.ParseTime(dates[i])
		sym.Assert((err == nil) == (want[i] >= 0), "a date is refused, or a text that is none is accepted")
		if err == nil {
			sym.Cover("date")
			sym.Assert(t.UnixNano() == want[i], "a date is read as another time")
		}
		return
	}
	t, err := promql.ParseTime(s)
	f, ok := number(s)
	if !ok {
		sym.Cover("refused")
		sym.Assert(err != nil, "a text that is no time is accepted")
		return
	}
	ns := f * 1e9
	if !(ns >= -9223372036854775808 && ns < 9223372036854775808) {
		sym.Cover("out of range")
		sym.Assert(err != nil, "a time is accepted that no timestamp can hold")
		return
	}
	sym.Cover("number")
	sym.Assert(err == nil && t.UnixNano() == int64(ns), "a time in seconds is read as another time")
}

// Q03_Range runs range queries with any parameters: every one ends, with a
// point per step or an error.
func Q03_Range() {
	sym.Expect("answered", "refused step", "refused start", "refused end", "start after end", "no data", "too many points")
	steps := []string{"1", "0", "-1", "0.0001", "0.0009", "0.001", "0.5", "NaN", "Inf", "1e-9", "0s", "1s", "1m", "", "x", "1e300"}
	times := []string{"1000", "1000.002", "1001", "999", "NaN", "Inf", "", "x", "1e300", "1970-01-01T00:16:40Z", "2200-01-01T00:00:00Z", "1700-01-01T00:00:00Z"}
	s := steps[sym.Choice("step", len(steps))]
	a, b := times[sym.Choice("start", len(times))], times[sym.Choice("end", len(times))]
	v := value()
	t := &tape{data: map[string][]*env{"s": {gaugeEnv("s", "", ns(990), nil, "m", v)}}}
	p, _ := newPromQL(t)
	r, err := p.RangeQuery(context.Background(), &logcache_v1.PromQL_RangeQueryRequest{Query: "m{source_id=\"s\"}", Start: a, End: b, Step: s})
	d, serr := promql.ParseStep(s)
	ta, aerr := promql.ParseTime(a)
	tb, berr := promql.ParseTime(b)
	switch {
	case serr != nil || d < time.Millisecond:
		sym.Cover("refused step")
		sym.Assert(err != nil, "a step is accepted that takes the query nowhere")
		return
	case aerr != nil:
		sym.Cover("refused start")
		sym.Assert(err != nil, "a query is answered whose start is no time")
		return
	case berr != nil:
		sym.Cover("refused end")
		sym.Assert(err != nil, "a query is answered whose end is no time")
		return
	}
	series := r.GetMatrix().GetSeries()
	if tb.Before(ta) {
		sym.Cover("start after end")
		sym.Assert(len(series) == 0, "a range query has points though it starts after its end")
		return
	}
	if tb.Sub(ta)/d > 100000 {
		sym.Cover("too many points")
		sym.Assert(err != nil, "a range query is answered that has more points than memory can hold")
		return
	}
	sym.Assert(err == nil, "a range query fails that can be answered")
	sym.Cover("answered")
	var n int64
	for ts := ta.UnixNano() / 1e6; ts <= tb.UnixNano()/1e6; ts += int64(d / time.Millisecond) {
		if ts >= 991000 && ts <= 1290000 {
			n++
		}
		if d > math.MaxInt64/4 {
			break
		}
	}
	if n == 0 {
		sym.Cover("no data")
		sym.Assert(len(series) == 0, "a range query has points that no envelope gives")
		return
	}
	sym.Assert(len(series) == 1 && int64(len(series[0].Points)) == n, "a range query has not one point per step")
	for _, p := range series[0].Points {
		sym.Assert(sym.SameFloat(p.Value, v), "a point has not the latest value of its series")
	}
}
