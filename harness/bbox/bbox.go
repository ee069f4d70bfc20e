// Package bbox holds the harnesses for the blackbox.
package bbox

import (
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"math"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/blackbox"
	"code.cloudfoundry.org/log-cache/internal/zzverif/sym"
	"code.cloudfoundry.org/log-cache/pkg/client"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"github.com/golang/protobuf/proto"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

var errQuery = errors.New("query failed")

// queries is a log cache that answers queries.
type queries struct {
	answer func() (*logcache_v1.PromQL_InstantQueryResult, error)
	asked  []string
	params []url.Values
	ctxs   []context.Context
	at     []time.Time
}

func (q *queries) PromQL(ctx context.Context, query string, opts ...client.PromQLOption) (*logcache_v1.PromQL_InstantQueryResult, error) {
	v := url.Values{}
	for _, o := range opts {
		o(&url.URL{}, v)
	}
	q.asked, q.params, q.ctxs = append(q.asked, query), append(q.params, v), append(q.ctxs, ctx)
	q.at = append(q.at, time.Now())
	return q.answer()
}

func (q *queries) LogCacheVMUptime(context.Context) (int64, error) { return 0, errQuery }

func quiet() *log.Logger { return log.New(io.Discard, "", 0) }

func matrix(s ...*logcache_v1.PromQL_Series) *logcache_v1.PromQL_InstantQueryResult {
	return &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Matrix{Matrix: &logcache_v1.PromQL_Matrix{Series: s}}}
}

func points(n int) []*logcache_v1.PromQL_Point {
	var ps []*logcache_v1.PromQL_Point
	for i := 0; i < n; i++ {
		ps = append(ps, &logcache_v1.PromQL_Point{Time: strconv.Itoa(946684800 + i), Value: 10})
	}
	return ps
}

// selector reads a query of the form name{source_id="s"}[range].
func selector(q string) (name, source string, window time.Duration, ok bool) {
	i, j := strings.IndexByte(q, '{'), strings.IndexByte(q, '}')
	if i < 0 || j < i || j+3 > len(q) || q[j+1] != '[' || q[len(q)-1] != ']' {
		return
	}
	name = strings.TrimSpace(q[:i])
	m := strings.TrimSpace(q[i+1 : j])
	if !strings.HasPrefix(m, "source_id") {
		return
	}
	m = strings.TrimSpace(strings.TrimPrefix(m, "source_id"))
	if len(m) < 3 || m[0] != '=' {
		return
	}
	source, err := strconv.Unquote(strings.TrimSpace(m[1:]))
	if err != nil {
		return
	}
	window, err = time.ParseDuration(q[j+2 : len(q)-1])
	return name, source, window, err == nil
}

// C15_Reliability measures with any answer of the log cache.
func C15_Reliability() {
	sym.Expect("figure", "query error", "no series", "part of an interval")
	window := []time.Duration{time.Second, 10 * time.Second, 10 * time.Minute}[sym.Choice("window", 3)]
	sample := []time.Duration{0, 15 * time.Second}[sym.Choice("sample interval", 2)]
	expected := int64(sym.Int("expected", 1, sym.Bound("expected emissions", 3, 8)))
	// an emission interval of which exactly that many fit in the window
	interval := sym.Int64Range("emission interval", int64(window)/(expected+1)+1, int64(window)/expected)
	if interval*expected != int64(window) {
		sym.Cover("part of an interval")
	}
	id := []string{"blackbox", "a/b-c.d"}[sym.Choice("source", 2)]
	rc := blackbox.ReliabilityCalculator{
		SampleInterval: sample, WindowInterval: window, WindowLag: 15 * time.Second, EmissionInterval: time.Duration(interval),
		SourceId: id, InfoLogger: quiet(), ErrorLogger: quiet(),
	}
	names := blackbox.MagicMetricNames()
	q := &queries{}
	failed, received := "", 0
	q.answer = func() (*logcache_v1.PromQL_InstantQueryResult, error) {
		switch sym.Choice("answer", 3) {
		case 0:
			failed = "query error"
			switch sym.Choice("error", 3) {
			case 0:
				return nil, errQuery
			case 1:
				return nil, context.DeadlineExceeded
			}
			// an error counts whatever comes with it
			return matrix(&logcache_v1.PromQL_Series{Points: points(1)}), errQuery
		case 1:
			failed = "no series"
			switch sym.Choice("no series", 4) {
			case 0:
				return matrix(), nil
			case 1:
				return &logcache_v1.PromQL_InstantQueryResult{}, nil
			case 2:
				return nil, nil
			}
			return &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Vector{Vector: &logcache_v1.PromQL_Vector{Samples: []*logcache_v1.PromQL_Sample{{Point: points(1)[0]}}}}}, nil
		}
		n := sym.Int("points", 0, sym.Bound("points", 4, 9))
		received += n
		return matrix(&logcache_v1.PromQL_Series{Metric: map[string]string{"source_id": id}, Points: points(n)}), nil
	}
	got, err := rc.Calculate(q)
	sym.Assert(len(q.asked) >= 1 && len(q.asked) <= len(names), "every test metric is asked for once")
	for i, text := range q.asked {
		name, source, w, ok := selector(text)
		sym.Assert(ok && name == names[i], "a query asks for a test metric")
		sym.Assert(source == id, "a query asks for the configured source")
		sym.Assert(w == window, "a query asks for the configured window")
	}
	if failed != "" {
		sym.Cover(failed)
		sym.Assert(err != nil && got == 0, "a measurement that failed has no figure")
		return
	}
	sym.Cover("figure")
	sym.Assert(err == nil && len(q.asked) == len(names), "every test metric is measured")
	sym.Assert(got == float64(received)/float64(int(expected)*len(names)), "the reliability is received over expected samples")
}

// C15_Window measures at any time with any lag.
func C15_Window() {
	sym.Expect("measured")
	window := 10 * time.Minute
	sample := []time.Duration{0, time.Second, 15 * time.Second, 7 * time.Second, time.Hour, time.Millisecond}[sym.Choice("sample interval", 6)]
	var lag, clock int64
	switch sym.Choice("any", sym.Bound("any", 2, 3)) {
	case 0:
		lag, clock = sym.Int64Range("lag", 0, int64(time.Hour)), 1234567891
	case 1:
		lag, clock = []int64{0, 15e9, 1}[sym.Choice("lag", 3)], sym.Int64Range("clock", 0, int64(time.Hour))
	case 2:
		lag, clock = sym.Int64Range("lag", 0, int64(time.Hour)), sym.Int64Range("clock", 0, int64(time.Hour))
	}
	time.Sleep(time.Hour + time.Duration(clock))
	rc := blackbox.ReliabilityCalculator{
		SampleInterval: sample, WindowInterval: window, WindowLag: time.Duration(lag), EmissionInterval: time.Second,
		SourceId: "blackbox", InfoLogger: quiet(), ErrorLogger: quiet(),
	}
	q := &queries{}
	q.answer = func() (*logcache_v1.PromQL_InstantQueryResult, error) {
		// a query takes its time
		time.Sleep(time.Second)
		return matrix(&logcache_v1.PromQL_Series{Metric: map[string]string{"source_id": "blackbox"}, Points: points(1)}), nil
	}
	_, err := rc.Calculate(q)
	sym.Assert(err == nil && len(q.asked) == len(blackbox.MagicMetricNames()), "every test metric is measured")
	sym.Cover("measured")
	for i := range q.asked {
		p := q.params[i]
		sym.Assert(len(p) == 1 && len(p["time"]) == 1, "a query is for one instant")
		f, err := strconv.ParseFloat(p["time"][0], 64)
		sym.Assert(err == nil, "a query's time is a number")
		end := q.at[i].Add(-time.Duration(lag)).Truncate(sample).UnixNano()
		d := f - float64(end)/1e9
		sym.Assert(math.Abs(d) <= 0.00063, "the window ends at the current time less the lag, rounded down to the sample interval")
		_, has := q.ctxs[i].Deadline()
		sym.Assert(has, "a query does not wait forever")
	}
}

// ingress is a log cache that takes envelopes.
type ingress struct {
	sent []send
	fail func(n int) error
	seen func(ctx context.Context)
	stop bool
}

type send struct {
	at   time.Time
	envs []*loggregator_v2.Envelope
	err  error
	ctx  context.Context
}

func (i *ingress) Send(ctx context.Context, r *logcache_v1.SendRequest, _ ...grpc.CallOption) (*logcache_v1.SendResponse, error) {
	if i.stop {
		select {}
	}
	var es []*loggregator_v2.Envelope
	for _, e := range r.GetEnvelopes().GetBatch() {
		c := *e
		es = append(es, &c)
	}
	err := i.fail(len(i.sent))
	if i.seen != nil {
		i.seen(ctx)
	}
	i.sent = append(i.sent, send{time.Now(), es, err, ctx})
	if err != nil {
		return nil, err
	}
	return &logcache_v1.SendResponse{}, nil
}

var errSend = errors.New("send failed")

// C16_Emit watches a few emission ticks.
func C16_Emit() {
	sym.Expect("retried", "gave up", "clean tick", "last attempt")
	interval := []time.Duration{time.Second, 50 * time.Millisecond, 7 * time.Second, time.Minute}[sym.Choice("interval", 4)]
	ticks := sym.Bound("ticks", 2, 3)
	offset := time.Duration(sym.Int64Range("phase", 0, int64(interval)-1))
	time.Sleep(offset)
	// failures before the success, or 5 for a batch that never gets through
	fails := make([]int, ticks)
	for i := range fails {
		fails[i] = sym.Int("failures", 0, 5)
	}
	id := sym.StrOf("source", 2, "ab\"{")
	in := &ingress{}
	tick, tries := 0, 0
	in.fail = func(n int) error {
		t := tick
		if t >= ticks {
			return nil
		}
		tries++
		if tries <= fails[t] {
			if tries == 5 {
				tick, tries = tick+1, 0
			}
			return errSend
		}
		tick, tries = tick+1, 0
		return nil
	}
	start := time.Now()
	go blackbox.StartEmittingTestMetrics(id, interval, in)
	names := blackbox.MagicMetricNames()
	n := 0
	for t := 1; t <= ticks; t++ {
		at := start.Add(time.Duration(t) * interval)
		// just before the tick nothing is sent
		time.Sleep(at.Sub(time.Now()) - 1)
		sym.Wait()
		sym.Assert(len(in.sent) == n, "nothing is sent between ticks")
		time.Sleep(1 + 25*time.Millisecond)
		sym.Wait()
		want := fails[t-1] + 1
		if want > 5 {
			want = 5
			sym.Cover("gave up")
		} else if want == 5 {
			sym.Cover("last attempt")
		}
		if want > 1 {
			sym.Cover("retried")
		} else {
			sym.Cover("clean tick")
		}
		sym.Assert(len(in.sent) == n+want, "a batch is sent until it succeeds, at most five times")
		for k := 0; k < want; k++ {
			s := in.sent[n+k]
			sym.Assert(s.at.Equal(at.Add(time.Duration(k)*5*time.Millisecond)), "a failed send is retried after five milliseconds")
			sym.Assert(len(s.envs) == len(names), "a batch has one envelope per test metric")
			ns := at.Truncate(interval).UnixNano()
			for i, e := range s.envs {
				sym.Assert(e.SourceId == id, "a test metric carries the configured source")
				sym.Assert(e.Timestamp == ns, "a test metric carries the tick's time rounded down to the interval")
				m := e.GetGauge().GetMetrics()
				g, ok := m[names[i]]
				sym.Assert(len(m) == 1 && ok && g != nil, "every envelope is the gauge of one test metric")
				first := in.sent[n].envs[i].GetGauge().GetMetrics()[names[i]]
				sym.Assert(g.Value == first.Value && g.Unit == first.Unit, "a batch is retried with the same content")
			}
		}
		n += want
	}
	in.stop = true
}

// C16_Codes fails with the errors a log cache and its connection can give.
func C16_Codes() {
	sym.Expect("status", "other", "gave up", "retried")
	in := &ingress{}
	calls := 0
	fails := sym.Choice("failures", 3) * 2 // 0, 2 or 4
	if fails == 4 {
		fails = 5
	}
	in.fail = func(int) error {
		calls++
		if calls > fails {
			return nil
		}
		if calls > 2 {
			return errSend
		}
		switch sym.Choice("error", 4) {
		case 0:
			sym.Cover("status")
			return status.Error(codes.Code(uint32(sym.Int64Range("code", 1, 17))), "refused")
		case 1:
			return context.DeadlineExceeded
		case 2:
			return io.EOF
		}
		sym.Cover("other")
		return context.Canceled
	}
	start := time.Now()
	go blackbox.StartEmittingTestMetrics("s", time.Second, in)
	time.Sleep(time.Second + 500*time.Millisecond)
	sym.Wait()
	want := fails + 1
	if want > 5 {
		want = 5
		sym.Cover("gave up")
	} else if want > 1 {
		sym.Cover("retried")
	}
	sym.Assert(len(in.sent) == want, "a failed send is retried whatever failed, at most five attempts")
	for k, s := range in.sent {
		sym.Assert(s.at.Equal(start.Add(time.Second+time.Duration(k)*5*time.Millisecond)), "retries follow after five milliseconds")
		sym.Assert(len(s.envs) == len(in.sent[0].envs), "a retry has the same content")
		for i := range s.envs {
			sym.Assert(proto.Equal(s.envs[i], in.sent[0].envs[i]), "a retry has the same content")
		}
	}
}

// C16_Slow has one batch whose sends take their time. Of the ticks that pass
// meanwhile the ticker keeps one, which gets its batch as soon as the slow one
// is through.
func C16_Slow() {
	sym.Expect("in time", "tick kept", "ticks dropped", "same timestamp twice", "retried", "gave up")
	const interval = time.Second
	time.Sleep([]time.Duration{0, 400, 999}[sym.Choice("phase", 3)] * time.Millisecond)
	in := &ingress{}
	takes := time.Duration(sym.Int64Range("takes", 0, 2500*int64(time.Millisecond)))
	slow := sym.Int("slow batch", 0, sym.Bound("slow batch", 0, 1))
	fails := sym.Choice("failures", 3) // 0, 1 or all
	attempts := []int{1, 2, 5}[fails]
	total := sym.Bound("batches", 4, 6)
	start := time.Now()
	due := start.Add(interval) // when the next attempt is made
	seen := int64(1)           // the ticks that have passed when the batch is begun
	batch, attempt := 0, 0
	var last time.Time
	in.fail = func(n int) error {
		now := time.Now()
		if batch >= total {
			return nil
		}
		if attempt == 0 {
			sym.Assert(now.Equal(due), "a tick gets its batch as soon as the batch before is through")
			ts := now.Truncate(interval)
			if ts.Equal(last) {
				sym.Cover("same timestamp twice")
			}
			last = ts
		} else {
			sym.Assert(now.Equal(due), "a failed send is retried after five milliseconds")
			sym.Cover("retried")
		}
		attempt++
		var err error
		free := now
		if batch == slow {
			time.Sleep(takes)
			free = time.Now()
			if attempt < attempts || fails == 2 {
				err = errSend
				due = free.Add(5 * time.Millisecond)
				if attempt < 5 {
					return err
				}
				free = due
				sym.Cover("gave up")
			}
		}
		batch, attempt = batch+1, 0
		passed := free.Sub(start)
		sym.Assume(passed%interval != 0 || int64(passed/interval) == seen) // a tick at the very moment the batch is through
		k := int64(passed / interval)
		switch {
		case k == seen:
			due = start.Add(time.Duration(seen+1) * interval)
			seen++
			sym.Cover("in time")
		default:
			if k > seen+1 {
				sym.Cover("ticks dropped")
			}
			due = free
			seen = k
			sym.Cover("tick kept")
		}
		return err
	}
	go blackbox.StartEmittingTestMetrics("id", interval, in)
	time.Sleep(time.Duration(total+14) * interval)
	sym.Wait()
	sym.Assert(batch >= total, "every tick that is not missed gets its batch")
	for i, s := range in.sent {
		for _, e := range s.envs {
			sym.Assert(e.Timestamp%int64(interval) == 0, "a test metric carries a time rounded down to the interval")
		}
		sym.Assert(len(s.envs) == len(in.sent[0].envs), "a batch has one envelope per test metric")
		_ = i
	}
	in.stop = true
}

// api is an info endpoint.
type api struct {
	answer func() (*http.Response, error)
}

func (a *api) Do(*http.Request) (*http.Response, error) { return a.answer() }

// C17_Measured emits measured metrics.
func C17_Measured() {
	sym.Expect("fresh", "old", "unknown", "no metrics", "send fails")
	up := sym.Int64("uptime")
	sym.Assume(up >= 0)
	how := sym.Choice("uptime answer", 6)
	known := how == 0
	a := &api{answer: func() (*http.Response, error) {
		resp := func(status int, body string) (*http.Response, error) {
			return &http.Response{StatusCode: status, Body: io.NopCloser(strings.NewReader(body))}, nil
		}
		switch how {
		case 0:
			return resp(200, fmt.Sprintf(`{"version":"2.0.0","vm_uptime":"%d"}`, up))
		case 1:
			return resp(200, `{"version":"2.0.0"}`)
		case 2:
			return resp(200, `{"vm_uptime":"soon"}`)
		case 3:
			return nil, errQuery
		case 4:
			st := int(sym.Int64Range("status", 100, 999))
			sym.Assume(st != 200)
			return resp(st, `{"vm_uptime":"5"}`)
		}
		return resp(200, `{"vm_upt`)
	}}
	if how > 0 && sym.Flag("uptime takes long") {
		inner := a.answer
		a.answer = func() (*http.Response, error) {
			time.Sleep(15 * time.Second)
			return inner()
		}
	}
	lc := client.NewClient("http://log-cache", client.WithHTTPClient(a))
	in := &ingress{}
	fails := sym.Flag("send fails")
	var sentAt time.Time
	expired := false
	in.fail = func(int) error {
		sentAt = time.Now()
		if fails {
			return errSend
		}
		return nil
	}
	in.seen = func(ctx context.Context) { expired = ctx.Err() != nil }
	metrics := map[string]float64{}
	n := sym.Int("metrics", 0, sym.Bound("metrics", 2, 3))
	for i := 0; i < n; i++ {
		metrics[[]string{"http", "grpc", "a b"}[i]] = sym.Float64("value")
	}
	if n == 0 && sym.Flag("nil map") {
		metrics = nil
	}
	id := sym.StrOf("source", 2, "ab\"{")
	time.Sleep(time.Duration(sym.Int64Range("clock", 0, int64(time.Hour))))
	began := time.Now()
	blackbox.EmitMeasuredMetrics(id, in, lc, metrics)
	if n == 0 {
		sym.Cover("no metrics")
		sym.Assert(len(in.sent) == 0, "nothing is sent without metrics")
		return
	}
	if known && up < 600 {
		sym.Cover("fresh")
		sym.Assert(len(in.sent) == 0, "nothing is sent from a VM up for less than ten minutes")
		return
	}
	if known {
		sym.Cover("old")
	} else {
		sym.Cover("unknown")
	}
	if fails {
		sym.Cover("send fails")
	}
	sym.Assert(len(in.sent) == 1 && len(in.sent[0].envs) == 1, "measurements are sent as one envelope")
	e := in.sent[0].envs[0]
	sym.Assert(e.SourceId == id, "measurements carry the configured source")
	sym.Assert(!expired, "measurements are sent although finding out the uptime took long")
	sym.Assert(sym.And(e.Timestamp >= began.UnixNano(), e.Timestamp <= sentAt.UnixNano()), "measurements carry the current time")
	g := e.GetGauge().GetMetrics()
	sym.Assert(len(g) == n, "every metric is one gauge")
	for k, v := range metrics {
		x, ok := g[k]
		sym.Assert(ok && sym.SameFloat(x.GetValue(), v) && x.GetUnit() == "%", "a metric is a percentage with its exact value")
	}
}
