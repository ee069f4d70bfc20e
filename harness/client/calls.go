package client

import (
	"context"
	"fmt"
	"net/http"
	"strings"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/zzverif/sym"
	"code.cloudfoundry.org/log-cache/pkg/client"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"github.com/golang/protobuf/jsonpb"
	"github.com/golang/protobuf/proto"
)

type env = loggregator_v2.Envelope

// outcome is what a call gave back.
type outcome struct {
	err  error
	none bool // no result
	same bool // the result is what the good body says
}

// call is one client call with a good body, if any, for it.
type call struct {
	name   string
	needs  int // requests it makes when all goes well
	status func(int) bool
	// good picks a well-formed body and what the call must give for it
	good func() (string, func(c *client.Client, ctx context.Context) outcome)
	bad  []string
}

func is(codes ...int) func(int) bool {
	return func(s int) bool {
		r := false
		for _, c := range codes {
			r = sym.Or(r, s == c)
		}
		return r
	}
}

func render(m proto.Message) string {
	s, err := (&jsonpb.Marshaler{OrigName: sym.Flag("original names"), EmitDefaults: true}).MarshalToString(m)
	if err != nil {
		panic(err)
	}
	return s
}

// number64 is any float but NaN, which proto.Equal never finds equal.
func number64(name string) float64 {
	f := sym.Float64(name)
	sym.Assume(f == f)
	return f
}

// envelopes picks a few envelopes of every kind with any content.
func envelopes() []*env {
	var es []*env
	kind := func(i int) *env {
		ts := sym.Int64("timestamp")
		e := &env{Timestamp: ts, SourceId: sym.StrOf("source", 1, "a\"<\\"), InstanceId: "0", Tags: map[string]string{"t": "v"}}
		switch i {
		case 0:
			e.Message = &loggregator_v2.Envelope_Log{Log: &loggregator_v2.Log{Payload: []byte(sym.Str("payload", 2)), Type: loggregator_v2.Log_Type(sym.Int("log type", 0, 1))}}
		case 1:
			e.Message = &loggregator_v2.Envelope_Counter{Counter: &loggregator_v2.Counter{Name: "c", Delta: sym.Uint64("delta"), Total: sym.Uint64("total")}}
		case 2:
			e.Message = &loggregator_v2.Envelope_Gauge{Gauge: &loggregator_v2.Gauge{Metrics: map[string]*loggregator_v2.GaugeValue{"g": {Unit: "u", Value: number64("gauge")}}}}
		case 3:
			e.Message = &loggregator_v2.Envelope_Timer{Timer: &loggregator_v2.Timer{Name: "t", Start: sym.Int64("start"), Stop: sym.Int64("stop")}}
		case 4:
			e.Message = &loggregator_v2.Envelope_Event{Event: &loggregator_v2.Event{Title: "a", Body: "b"}}
		}
		return e
	}
	n := sym.Int("envelopes", 0, 2)
	for i := 0; i < n; i++ {
		if i == 0 {
			es = append(es, kind(sym.Int("kind", 0, 5)))
		} else {
			es = append(es, kind(1))
		}
	}
	return es
}

func sameEnvelopes(a, b []*env) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = sym.And(r, proto.Equal(a[i], b[i]))
	}
	return r
}

func sameMeta(a, b map[string]*logcache_v1.MetaInfo) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for k, v := range a {
		w, ok := b[k]
		r = sym.And(r, ok && proto.Equal(v, w))
	}
	return r
}

func metaInfos() map[string]*logcache_v1.MetaInfo {
	m := map[string]*logcache_v1.MetaInfo{}
	n := sym.Int("sources", 0, 2)
	for i := 0; i < n; i++ {
		m[[]string{"app-1", `é"\`}[i]] = &logcache_v1.MetaInfo{Count: sym.Int64("count"), Expired: sym.Int64("expired"), OldestTimestamp: sym.Int64("oldest"), NewestTimestamp: sym.Int64("newest")}
	}
	return m
}

var brokenMessages = []string{``, `{`, `[]`, `"x"`, `5`, `true`, `<html></html>`}

func callRead() call {
	return call{
		name: "Read", needs: 2, status: is(200),
		good: func() (string, func(*client.Client, context.Context) outcome) {
			var want []*env
			text := []string{`{}`, `{"envelopes":{}}`, `{"envelopes":null}`, `{"envelopes":{"batch":null}}`, ""}[sym.Choice("body", 5)]
			if text == "" {
				want = envelopes()
				text = render(&logcache_v1.ReadResponse{Envelopes: &loggregator_v2.EnvelopeBatch{Batch: want}})
			}
			return text, func(c *client.Client, ctx context.Context) outcome {
				es, err := c.Read(ctx, "src", time.Unix(0, 5), client.WithLimit(3))
				return outcome{err, es == nil, sameEnvelopes(es, want)}
			}
		},
		bad: append([]string{`{"envelopes":5}`, `{"envelopes":{"batch":{}}}`, `{"envelopes":{"batch":[{"timestamp":"x"}]}}`,
			`{"envelopes":{"batch":[{"timestamp":"99999999999999999999"}]}}`, `{"envelopes":{"batch":[{"log":{"payload":"%"}}]}}`}, brokenMessages...),
	}
}

func callMeta() call {
	return call{
		name: "Meta", needs: 2, status: is(200),
		good: func() (string, func(*client.Client, context.Context) outcome) {
			want := map[string]*logcache_v1.MetaInfo{}
			text := []string{`{}`, `{"meta":{}}`, `{"meta":null}`, ""}[sym.Choice("body", 4)]
			if text == "" {
				want = metaInfos()
				text = render(&logcache_v1.MetaResponse{Meta: want})
			}
			return text, func(c *client.Client, ctx context.Context) outcome {
				m, err := c.Meta(ctx)
				return outcome{err, m == nil, sameMeta(m, want)}
			}
		},
		bad: append([]string{`{"meta":5}`, `{"meta":[]}`, `{"meta":{"a":5}}`, `{"meta":{"a":{"count":"x"}}}`}, brokenMessages...),
	}
}

func callVersion() call {
	return call{
		name: "LogCacheVersion", needs: 1, status: is(200, 404),
		good: func() (string, func(*client.Client, context.Context) outcome) {
			n := sym.StrOf("minor", 1, "0123456789")
			return `{"version":"3.` + n + `.2-pre+b","vm_uptime":"7"}`, func(c *client.Client, ctx context.Context) outcome {
				v, err := c.LogCacheVersion(ctx)
				return outcome{err, v.Major == 0 && v.Minor == 0 && v.Patch == 0, sym.Or(
					sym.And(v.Major == 3, v.Minor == uint64(n[0]-'0'), v.Patch == 2, len(v.Pre) == 1, len(v.Build) == 1),
					sym.And(v.Major == 1, v.Minor == 4, v.Patch == 7))}
			}
		},
		bad: append([]string{`{"version":"x"}`, `{"version":5}`, `{}`, `null`}, brokenMessages...),
	}
}

func callUptime() call {
	return call{
		name: "LogCacheVMUptime", needs: 1, status: is(200),
		good: func() (string, func(*client.Client, context.Context) outcome) {
			up := sym.Int64("uptime")
			return fmt.Sprintf(`{"version":"x","vm_uptime":"%d"}`, up), func(c *client.Client, ctx context.Context) outcome {
				u, err := c.LogCacheVMUptime(ctx)
				return outcome{err, u == -1, u == up}
			}
		},
		bad: append([]string{`{"version":"3.0.0"}`, `{"vm_uptime":5}`, `{"vm_uptime":""}`, `{"vm_uptime":"1.5"}`, `{"vm_uptime":"9223372036854775808"}`, `null`}, brokenMessages...),
	}
}

var brokenResults = append([]string{`{}`, `null`, `{"status":"error","error":"x"}`, `{"data":{"resultType":"scalar","result":[1]}}`, `{"data":{"resultType":"matrix","result":{}}}`,
	`{"data":{"resultType":"string","result":[1,"2"]}}`, `{"data":{"resultType":"matrix"}}`, `{"data":{"resultType":"matrix","result":[{"metric":{},"values":[[1,2]]}]}}`}, brokenMessages...)

func callPromQL() call {
	return call{
		name: "PromQL", needs: 1, status: is(200),
		good: func() (string, func(*client.Client, context.Context) outcome) {
			var want *logcache_v1.PromQL_InstantQueryResult
			var text string
			switch sym.Choice("kind", 3) {
			case 0:
				text = `{"status":"success","data":{"resultType":"scalar","result":[12.5,"-3.25"]}}`
				want = &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Scalar{Scalar: &logcache_v1.PromQL_Scalar{Time: "12.500", Value: -3.25}}}
			case 1:
				text = `{"status":"success","data":{"resultType":"vector","result":[{"metric":{"a":"b"},"value":[1,"2"]},{"metric":{},"value":[3,"+Inf"]}]}}`
				want = &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Vector{Vector: &logcache_v1.PromQL_Vector{Samples: []*logcache_v1.PromQL_Sample{
					{Metric: map[string]string{"a": "b"}, Point: &logcache_v1.PromQL_Point{Time: "1.000", Value: 2}},
					{Metric: map[string]string{}, Point: &logcache_v1.PromQL_Point{Time: "3.000", Value: inf()}},
				}}}}
			case 2:
				text = `{"status":"success","data":{"resultType":"vector","result":[]}}`
				want = &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Vector{Vector: &logcache_v1.PromQL_Vector{}}}
			}
			return text, func(c *client.Client, ctx context.Context) outcome {
				r, err := c.PromQL(ctx, "up", client.WithPromQLTime(time.Unix(1, 0)))
				return outcome{err, r == nil, r != nil && proto.Equal(r, want)}
			}
		},
		bad: brokenResults,
	}
}

func inf() float64 {
	x := 1e308
	return x * 10
}

func callPromQLRange() call {
	return call{
		name: "PromQLRange", needs: 1, status: is(200),
		good: func() (string, func(*client.Client, context.Context) outcome) {
			var want *logcache_v1.PromQL_RangeQueryResult
			var text string
			switch sym.Choice("kind", 2) {
			case 0:
				text = `{"status":"success","data":{"resultType":"matrix","result":[{"metric":{"a":"b"},"values":[[1,"2"],[3.25,"4"]]}]}}`
				want = &logcache_v1.PromQL_RangeQueryResult{Result: &logcache_v1.PromQL_RangeQueryResult_Matrix{Matrix: &logcache_v1.PromQL_Matrix{Series: []*logcache_v1.PromQL_Series{
					{Metric: map[string]string{"a": "b"}, Points: []*logcache_v1.PromQL_Point{{Time: "1.000", Value: 2}, {Time: "3.250", Value: 4}}}}}}}
			case 1:
				text = `{"status":"success","data":{"resultType":"matrix","result":[]}}`
				want = &logcache_v1.PromQL_RangeQueryResult{Result: &logcache_v1.PromQL_RangeQueryResult_Matrix{Matrix: &logcache_v1.PromQL_Matrix{}}}
			}
			return text, func(c *client.Client, ctx context.Context) outcome {
				r, err := c.PromQLRange(ctx, "up", client.WithPromQLStep("1m"))
				return outcome{err, r == nil, r != nil && proto.Equal(r, want)}
			}
		},
		bad: brokenResults,
	}
}

func callRaw(rng bool) call {
	cl := call{
		name: "PromQLRaw", needs: 1, status: is(200, 400, 500),
		good: func() (string, func(*client.Client, context.Context) outcome) {
			var want client.PromQLQueryResult
			var text string
			switch sym.Choice("kind", 3) {
			case 0:
				text = `{"status":"success","data":{"resultType":"scalar","result":[ 1.50, "2" ]}}`
				want = client.PromQLQueryResult{Status: "success", Data: client.PromQLResultData{ResultType: "scalar", Result: []byte(`[ 1.50, "2" ]`)}}
			case 1:
				text = `{"status":"error","errorType":"bad_data","error":"it's \"bad\""}`
				want = client.PromQLQueryResult{Status: "error", ErrorType: "bad_data", Error: `it's "bad"`}
			case 2:
				text = `{"status":"success","data":{"resultType":"vector","result":[]}}`
				want = client.PromQLQueryResult{Status: "success", Data: client.PromQLResultData{ResultType: "vector", Result: []byte(`[]`)}}
			}
			return text, func(c *client.Client, ctx context.Context) outcome {
				f := c.PromQLRaw
				if rng {
					f = c.PromQLRangeRaw
				}
				r, err := f(ctx, "up")
				return outcome{err, r == nil, r != nil && r.Status == want.Status && r.ErrorType == want.ErrorType && r.Error == want.Error &&
					r.Data.ResultType == want.Data.ResultType && string(r.Data.Result) == string(want.Data.Result)}
			}
		},
		bad: append([]string{`{"status":5}`, `{"data":[]}`, `{}x`}, brokenMessages...),
	}
	if rng {
		cl.name = "PromQLRangeRaw"
	}
	return cl
}

func anyCall() call {
	switch sym.Choice("call", 8) {
	case 0:
		return callRead()
	case 1:
		return callMeta()
	case 2:
		return callVersion()
	case 3:
		return callUptime()
	case 4:
		return callPromQL()
	case 5:
		return callPromQLRange()
	case 6:
		return callRaw(false)
	}
	return callRaw(true)
}

// C07_Failures makes every HTTP call fail in every way.
func C07_Failures() {
	sym.Expect("transport error", "status", "malformed", "truncated", "body error", "info fails")
	cl := anyCall()
	text, do := cl.good()
	a := answer{status: 200, body: text}
	how := sym.Choice("failure", 5)
	switch how {
	case 0:
		a.err = errTransport
		sym.Cover("transport error")
	case 1:
		a.status = int(sym.Int64Range("status", 100, 999))
		sym.Assume(!cl.status(a.status))
		sym.Cover("status")
	case 2:
		a.body = cl.bad[sym.Choice("malformed", len(cl.bad))]
		if cl.status(500) { // nor with another status that may come with a result
			a.status = []int{200, 400, 500}[sym.Choice("status", 3)]
		}
		sym.Cover("malformed")
	case 3: // a body that ends before its document does
		text = []string{`{"envelopes":{"batch":[{"timestamp":"15","log":{"payload":"YQ=="}}]}}`, `{"meta":{"a":{"count":"5","expired":"6"}}}`,
			`{"version":"2.1.0","vm_uptime":"5"}`, `{"status":"success","data":{"resultType":"matrix","result":[{"metric":{"a":"b"},"values":[[1,"2"],[3.25,"4"]]}]}}`}[sym.Choice("document", 4)]
		k := sym.Int("cut", 0, len(text)-1)
		a.body = text[:k]
		sym.Cover("truncated")
	case 4: // a body that breaks off
		k := sym.Int("break", 0, 1)
		a.body = text[:k]
		a.fail = true
		sym.Cover("body error")
	}
	ctx := newCtx()
	s := &server{}
	infoFails := cl.needs == 2 && sym.Flag("info fails")
	s.answer = func(req *http.Request) answer {
		if cl.needs == 2 && len(s.reqs) == 1 {
			if infoFails {
				sym.Cover("info fails")
				if a.status == 404 {
					return answer{status: 403, body: text}
				}
				if how == 2 || how == 3 {
					return answer{status: 200, body: `{"version":`}
				}
				return a
			}
			return answer{status: 200, body: `{"version":"2.0.0"}`}
		}
		return a
	}
	o := do(s.client(), ctx)
	sym.Assert(o.err != nil, "a failure is reported")
	sym.Assert(o.none, "a failed call has no result")
	s.clean(ctx)
}

// C07_Address makes every HTTP call to an address that is no URL.
func C07_Address() {
	addr := []string{"http://%zz", "http://[::1", "http://a b", "http://log-cache:port", "://", "http://log-cache\x7f"}[sym.Choice("address", 6)]
	s := &server{answer: func(req *http.Request) answer { return answer{status: 200, body: "{}"} }}
	_, do := anyCall().good()
	o := do(client.NewClient(addr, client.WithHTTPClient(s)), newCtx())
	sym.Assert(o.err != nil, "an address that is no URL is reported")
	sym.Assert(o.none, "a failed call has no result")
	sym.Assert(len(s.reqs) == 0, "no request is sent to an address that is no URL")
}

// C07_Success gives back what the server sent.
func C07_Success() {
	sym.Expect("other success status")
	cl := anyCall()
	text, do := cl.good()
	a := answer{status: int(sym.Int64Range("status", 100, 999)), body: text}
	sym.Assume(cl.status(a.status))
	if a.status != 200 {
		sym.Cover("other success status")
	}
	ctx := newCtx()
	s := &server{}
	s.answer = func(req *http.Request) answer {
		if cl.needs == 2 && len(s.reqs) == 1 {
			return answer{status: 200, body: `{"version":"2.0.0"}`}
		}
		return a
	}
	o := do(s.client(), ctx)
	sym.Assert(o.err == nil, "a well-formed answer is no failure")
	sym.Assert(o.same, "the result is exactly what the server sent")
	s.clean(ctx)
}

// C07_GRPC does the same for the calls that go over gRPC.
func C07_GRPC() {
	sym.Expect("failed", "empty", "content")
	fails := sym.Flag("fails")
	absent := sym.Flag("empty answer")
	ctx := newCtx()
	var fill func(reply interface{})
	calls := 0
	c := grpcClient(func(cctx context.Context, method string, req, reply interface{}) error {
		calls++
		sym.Assert(cctx.Value(ctxKey{}) == "caller", "every call carries the caller's context")
		if !absent {
			fill(reply)
		}
		if fails {
			return errTransport
		}
		return nil
	})
	var err error
	var none, same bool
	switch sym.Choice("call", 4) {
	case 0:
		want := envelopes()
		fill = func(r interface{}) {
			r.(*logcache_v1.ReadResponse).Envelopes = &loggregator_v2.EnvelopeBatch{Batch: want}
		}
		var es []*env
		es, err = c.Read(ctx, "src", time.Unix(0, 5))
		if absent {
			want = nil
		}
		none, same = es == nil, sameEnvelopes(es, want)
	case 1:
		want := metaInfos()
		fill = func(r interface{}) { r.(*logcache_v1.MetaResponse).Meta = want }
		var m map[string]*logcache_v1.MetaInfo
		m, err = c.Meta(ctx)
		if absent {
			want = nil
		}
		none, same = m == nil, sameMeta(m, want)
	case 2:
		want := &logcache_v1.PromQL_InstantQueryResult{}
		if !absent {
			want.Result = &logcache_v1.PromQL_InstantQueryResult_Scalar{Scalar: &logcache_v1.PromQL_Scalar{Time: "1", Value: number64("value")}}
		}
		fill = func(r interface{}) { r.(*logcache_v1.PromQL_InstantQueryResult).Result = want.Result }
		var r *logcache_v1.PromQL_InstantQueryResult
		r, err = c.PromQL(ctx, "up")
		none, same = r == nil, r != nil && proto.Equal(r, want)
	case 3:
		want := &logcache_v1.PromQL_RangeQueryResult{}
		if !absent {
			want.Result = &logcache_v1.PromQL_RangeQueryResult_Matrix{Matrix: &logcache_v1.PromQL_Matrix{Series: []*logcache_v1.PromQL_Series{{Points: []*logcache_v1.PromQL_Point{{Time: "1", Value: number64("value")}}}}}}
		}
		fill = func(r interface{}) { r.(*logcache_v1.PromQL_RangeQueryResult).Result = want.Result }
		var r *logcache_v1.PromQL_RangeQueryResult
		r, err = c.PromQLRange(ctx, "up")
		none, same = r == nil, r != nil && proto.Equal(r, want)
	}
	sym.Assert(calls == 1, "a call is made once")
	if fails {
		sym.Cover("failed")
		sym.Assert(err != nil && none, "a failed call is reported and has no result")
		return
	}
	if absent {
		sym.Cover("empty")
	} else {
		sym.Cover("content")
	}
	sym.Assert(err == nil && same, "the result is exactly what the server sent")
}

// C07_Large has answers of more than a megabyte, of which most is space.
func C07_Large() {
	cl := anyCall()
	text, do := cl.good()
	pad := strings.Repeat(" ", 1<<20+1)
	ctx := newCtx()
	s := &server{}
	s.answer = func(req *http.Request) answer {
		if cl.needs == 2 && len(s.reqs) == 1 {
			return answer{status: 200, body: `{"version":"2.0.0"}`}
		}
		return answer{status: 200, body: pad + text}
	}
	o := do(s.client(), ctx)
	sym.Assert(o.err == nil, "a well-formed answer is no failure")
	sym.Assert(o.same, "the result is exactly what the server sent")
	s.clean(ctx)
}
