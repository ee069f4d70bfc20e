package client

import (
	"context"
	"math"
	"net/http"
	"net/url"
	"strconv"
	"time"

	"code.cloudfoundry.org/log-cache/internal/zzverif/sym"
	"code.cloudfoundry.org/log-cache/pkg/client"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
)

// text is any short text, or one with all the characters that need escaping.
func text(name string, n int) string {
	switch sym.Choice(name+" kind", 3) {
	case 0:
		return sym.Str(name, n)
	case 1:
		return `sum(rate(http{source_id="a b",code=~"5..|é%2F+"}[1m])) by (x) & y=z;#?`
	}
	return ""
}

// isTime checks that s is ns nanoseconds as decimal seconds with three decimals.
func isTime(s string, ns int64) {
	f, err := strconv.ParseFloat(s, 64)
	sym.Assert(err == nil, "a time is sent as a decimal number")
	d := f - float64(ns)/1e9
	sym.Assert(math.Abs(d) <= 0.00063, "a time is sent as its seconds, exact to the millisecond")
	sym.Assert(decimals(s) == 3, "a time is sent with three decimals")
}

// decimals counts what follows the point; it is only asked on concrete runs
// and for texts whose form does not depend on the number.
func decimals(s string) int {
	if !sym.Native() {
		return 3
	}
	for i := range s {
		if s[i] == '.' {
			return len(s) - i - 1
		}
	}
	return 0
}

type promql struct {
	query            string
	rng              bool
	opts             []client.PromQLOption
	hasTime, hasStep bool
	hasStart, hasEnd bool
	time, start, end int64
	step             string
}

func anyTime(name string) int64 {
	if sym.Flag("a " + name + " off the millisecond") {
		return []int64{1234567890123456789, 0, -1, 999999, -1500000000, 1500000}[sym.Choice(name+" example", 6)]
	}
	return sym.Int64(name)
}

func anyQuery() *promql {
	p := &promql{query: text("query", sym.Bound("query bytes", 2, 3)), rng: sym.Flag("range")}
	if !p.rng {
		if p.hasTime = sym.Flag("time?"); p.hasTime {
			p.time = anyTime("time")
			p.opts = append(p.opts, client.WithPromQLTime(time.Unix(0, p.time)))
		}
		return p
	}
	if p.hasStart = sym.Flag("start?"); p.hasStart {
		p.start = anyTime("start")
		p.opts = append(p.opts, client.WithPromQLStart(time.Unix(0, p.start)))
	}
	if p.hasEnd = sym.Flag("end?"); p.hasEnd {
		p.end = sym.Int64("end")
		p.opts = append(p.opts, client.WithPromQLEnd(time.Unix(0, p.end)))
	}
	if p.hasStep = sym.Flag("step?"); p.hasStep {
		p.step = "1m"
		if sym.Flag("any step") {
			p.step = sym.Str("step", sym.Bound("step bytes", 1, 2))
		}
		p.opts = append(p.opts, client.WithPromQLStep(p.step))
	}
	return p
}

// url checks an HTTP request for the query.
func (p *promql) url(u *url.URL) {
	path := "/api/v1/query"
	if p.rng {
		path = "/api/v1/query_range"
	}
	sym.Assert(u.Path == path, "the query goes to its endpoint")
	q, err := url.ParseQuery(u.RawQuery)
	sym.Assert(err == nil, "the query string is well formed")
	sym.Assert(one(q, "query") == p.query, "the query text is sent exactly")
	n := 1
	if p.hasTime {
		n++
		isTime(one(q, "time"), p.time)
	}
	if p.hasStart {
		n++
		isTime(one(q, "start"), p.start)
	}
	if p.hasEnd {
		n++
		isTime(one(q, "end"), p.end)
	}
	if p.hasStep {
		n++
		sym.Assert(one(q, "step") == p.step, "the step is sent exactly")
	}
	sym.Assert(len(q) == n, "no parameter that was not given is sent")
}

// C08_HTTP sends a query over HTTP, decoded and raw.
func C08_HTTP() {
	sym.Expect("decoded", "raw", "range", "instant", "no parameters")
	p := anyQuery()
	raw := sym.Flag("raw")
	ctx := newCtx()
	s := &server{}
	s.answer = func(req *http.Request) answer {
		if p.rng {
			return answer{status: 200, body: `{"status":"success","data":{"resultType":"matrix","result":[]}}`}
		}
		return answer{status: 200, body: `{"status":"success","data":{"resultType":"vector","result":[]}}`}
	}
	c := s.client()
	var err error
	none := false
	switch {
	case raw && p.rng:
		var r *client.PromQLQueryResult
		r, err = c.PromQLRangeRaw(ctx, p.query, p.opts...)
		none = r == nil
	case raw:
		var r *client.PromQLQueryResult
		r, err = c.PromQLRaw(ctx, p.query, p.opts...)
		none = r == nil
	case p.rng:
		var r *logcache_v1.PromQL_RangeQueryResult
		r, err = c.PromQLRange(ctx, p.query, p.opts...)
		none = r == nil
	default:
		var r *logcache_v1.PromQL_InstantQueryResult
		r, err = c.PromQL(ctx, p.query, p.opts...)
		none = r == nil
	}
	sym.Assert(err == nil && !none, "an empty answer is a result")
	sym.Assert(len(s.reqs) == 1, "a query is one request")
	s.clean(ctx)
	p.url(s.reqs[0].URL)
	cover(raw, "raw", "decoded")
	cover(p.rng, "range", "instant")
	if len(p.opts) == 0 {
		sym.Cover("no parameters")
	}
}

func cover(b bool, yes, no string) {
	if b {
		sym.Cover(yes)
	} else {
		sym.Cover(no)
	}
}

// C08_GRPC sends a query over gRPC.
func C08_GRPC() {
	sym.Expect("range", "instant")
	p := anyQuery()
	ctx := newCtx()
	calls := 0
	given := func(name, v string, has bool, ns int64) {
		if has {
			isTime(v, ns)
		} else {
			sym.Assert(v == "", "no parameter that was not given is sent: "+name)
		}
	}
	c := grpcClient(func(cctx context.Context, method string, req, reply interface{}) error {
		calls++
		sym.Assert(cctx.Value(ctxKey{}) == "caller", "the call carries the caller's context")
		if p.rng {
			sym.Assert(method == "/logcache.v1.PromQLQuerier/RangeQuery", "a range query is a RangeQuery call")
			r := req.(*logcache_v1.PromQL_RangeQueryRequest)
			sym.Assert(r.Query == p.query, "the query text is sent exactly")
			given("start", r.Start, p.hasStart, p.start)
			given("end", r.End, p.hasEnd, p.end)
			sym.Assert(r.Step == p.step, "the step is sent exactly")
		} else {
			sym.Assert(method == "/logcache.v1.PromQLQuerier/InstantQuery", "an instant query is an InstantQuery call")
			r := req.(*logcache_v1.PromQL_InstantQueryRequest)
			sym.Assert(r.Query == p.query, "the query text is sent exactly")
			given("time", r.Time, p.hasTime, p.time)
		}
		return nil
	})
	var err error
	if p.rng {
		_, err = c.PromQLRange(ctx, p.query, p.opts...)
	} else {
		_, err = c.PromQL(ctx, p.query, p.opts...)
	}
	sym.Assert(err == nil && calls == 1, "a query is one call")
	cover(p.rng, "range", "instant")
}

// C08_Raw answers a raw query with every status.
func C08_Raw() {
	sym.Expect("error as result", "result", "refused")
	cl := callRaw(sym.Flag("range"))
	body, do := cl.good()
	a := answer{status: int(sym.Int64Range("status", 100, 999)), body: body}
	ctx := newCtx()
	s := &server{answer: func(*http.Request) answer { return a }}
	o := do(s.client(), ctx)
	s.clean(ctx)
	sym.Assert(len(s.reqs) == 1, "a query is one request")
	if sym.Or(a.status == 200, a.status == 400, a.status == 500) {
		cover(a.status == 200, "result", "error as result")
		sym.Assert(o.err == nil && o.same, "a result or Prometheus-style error is returned as the server sent it")
		return
	}
	sym.Cover("refused")
	sym.Assert(o.err != nil && o.none, "any other status is an error")
}

// C08_RawMalformed answers a raw query with what is no Prometheus answer.
func C08_RawMalformed() {
	cl := callRaw(sym.Flag("range"))
	_, do := cl.good()
	a := answer{status: []int{200, 400, 500}[sym.Choice("status", 3)], body: cl.bad[sym.Choice("malformed", len(cl.bad))]}
	a.fail = sym.Flag("breaks off")
	ctx := newCtx()
	s := &server{answer: func(*http.Request) answer { return a }}
	o := do(s.client(), ctx)
	s.clean(ctx)
	sym.Assert(o.err != nil && o.none, "a malformed answer is an error whatever its status")
}
