package client

import (
	"context"
	"net/http"
	"strconv"
	"time"

	"code.cloudfoundry.org/log-cache/internal/zzverif/sym"
	"code.cloudfoundry.org/log-cache/pkg/client"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
)

// sourceID is any short id, or one of the usual forms.
func sourceID() string {
	switch sym.Choice("source id", 3) {
	case 0:
		return sym.Str("id", sym.Bound("source id bytes", 1, 2))
	case 1:
		return "app/a b?c=d&e#f%2f;+é"
	}
	return "doppler"
}

func one(q map[string][]string, k string) string {
	v, ok := q[k]
	sym.Assert(ok && len(v) == 1, "a given option is sent exactly once: "+k)
	return v[0]
}

// number reads a parameter the way the server does.
func number(s string) int64 {
	n, err := strconv.ParseInt(s, 10, 64)
	sym.Assert(err == nil, "numbers are sent in decimal")
	return n
}

// C05_Again gives options more than once: over HTTP and over gRPC the last one
// counts, and envelope types add up.
func C05_Again() {
	sym.Expect("end", "limit", "name", "order", "types")
	var opts []client.ReadOption
	want := &logcache_v1.ReadRequest{SourceId: "src", StartTime: 5}
	query := map[string][]string{"start_time": {"5"}}
	switch sym.Choice("option", 5) {
	case 0:
		a, b := sym.Int64("end"), sym.Int64("end again")
		opts = []client.ReadOption{client.WithEndTime(time.Unix(0, a)), client.WithEndTime(time.Unix(0, b))}
		want.EndTime = b
		query["end_time"] = []string{strconv.FormatInt(b, 10)}
		sym.Cover("end")
	case 1:
		a, b := sym.Int64("limit"), sym.Int64("limit again")
		opts = []client.ReadOption{client.WithLimit(int(a)), client.WithLimit(int(b))}
		want.Limit = b
		query["limit"] = []string{strconv.FormatInt(b, 10)}
		sym.Cover("limit")
	case 2:
		a, b := sym.Str("name", 1), sym.Str("name again", 1)
		opts = []client.ReadOption{client.WithNameFilter(a), client.WithNameFilter(b)}
		want.NameFilter = b
		query["name_filter"] = []string{b}
		sym.Cover("name")
	case 3:
		opts = []client.ReadOption{client.WithDescending(), client.WithDescending()}
		want.Descending = true
		query["descending"] = []string{"true"}
		sym.Cover("order")
	case 4:
		n := sym.Int("types", 1, 9)
		by := sym.Int("together", 1, 3)
		shift := sym.Int("shift", 0, 5)
		var part []logcache_v1.EnvelopeType
		for i := 0; i < n; i++ {
			t := logcache_v1.EnvelopeType((i + shift) % 6)
			part = append(part, t)
			want.EnvelopeTypes = append(want.EnvelopeTypes, t)
			query["envelope_types"] = append(query["envelope_types"], t.String())
			if len(part) == by || i == n-1 {
				opts = append(opts, client.WithEnvelopeTypes(part...))
				part = nil
			}
		}
		sym.Cover("types")
	}
	s := &server{answer: func(req *http.Request) answer {
		if req.URL.Path == "/api/v1/info" {
			return answer{status: 200, body: `{"version":"2.0.0"}`}
		}
		return answer{status: 200, body: `{}`}
	}}
	_, err := s.client().Read(newCtx(), "src", time.Unix(0, 5), opts...)
	sym.Assert(err == nil && len(s.reqs) == 2, "the read is issued over HTTP")
	q := s.reqs[1].URL.Query()
	sym.Assert(len(q) == len(query), "the read asks for what was given, and nothing else, over HTTP")
	for k, vs := range query {
		sym.Assert(len(q[k]) == len(vs), "the read asks for the options as they were given last over HTTP")
		for i, v := range vs {
			sym.Assert(q[k][i] == v, "the read asks for the options as they were given last over HTTP")
		}
	}
	g := grpcClient(func(_ context.Context, _ string, req, _ interface{}) error {
		r := req.(*logcache_v1.ReadRequest)
		sym.Assert(r.SourceId == want.SourceId && r.StartTime == want.StartTime && r.EndTime == want.EndTime && r.Limit == want.Limit &&
			r.NameFilter == want.NameFilter && r.Descending == want.Descending, "the read asks for the options as they were given last over gRPC")
		sym.Assert(len(r.EnvelopeTypes) == len(want.EnvelopeTypes), "all envelope types are sent over gRPC")
		for i, t := range want.EnvelopeTypes {
			sym.Assert(r.EnvelopeTypes[i] == t, "the envelope types are sent over gRPC")
		}
		return nil
	})
	_, err = g.Read(newCtx(), "src", time.Unix(0, 5), opts...)
	sym.Assert(err == nil, "the read is issued over gRPC")
}

// C05_Read issues one read over HTTP and the same one over gRPC.
func C05_Read() {
	sym.Expect("all options", "no options", "types repeated", "legacy prefix", "current prefix")
	id := sourceID()
	start := sym.Int64("start")
	var opts []client.ReadOption
	given := 0
	hasEnd, hasLimit, hasTypes, hasName, desc := sym.Flag("end?"), sym.Flag("limit?"), sym.Flag("types?"), sym.Flag("name?"), sym.Flag("descending?")
	var end int64
	var limit int
	var types []logcache_v1.EnvelopeType
	var name string
	if hasEnd {
		end = sym.Int64("end")
		opts = append(opts, client.WithEndTime(time.Unix(0, end)))
		given++
	}
	if hasLimit {
		limit = int(sym.Int64("limit"))
		opts = append(opts, client.WithLimit(limit))
		given++
	}
	if hasTypes {
		k := sym.Int("type count", 1, 2)
		for i := 0; i < k; i++ {
			if i == 0 {
				types = append(types, logcache_v1.EnvelopeType(sym.Int("type", 0, 5)))
			} else {
				types = append(types, (types[0]+logcache_v1.EnvelopeType(sym.Int("distance", 0, sym.Bound("distance of a second type", 1, 5))))%6)
			}
		}
		if sym.Flag("separate options") {
			for _, t := range types {
				opts = append(opts, client.WithEnvelopeTypes(t))
			}
		} else {
			opts = append(opts, client.WithEnvelopeTypes(types...))
		}
		if k == 2 {
			sym.Cover("types repeated")
		}
		given++
	}
	if hasName {
		if sym.Flag("usual name") {
			name = `a+b&c=%20 "é#.*`
		} else {
			name = sym.Str("name", 1)
		}
		opts = append(opts, client.WithNameFilter(name))
		given++
	}
	if desc {
		opts = append(opts, client.WithDescending())
		given++
	}
	if given == 5 {
		sym.Cover("all options")
	}
	if given == 0 {
		sym.Cover("no options")
	}

	legacy := sym.Flag("legacy server")
	ctx := newCtx()
	s := &server{}
	s.answer = func(req *http.Request) answer {
		if req.URL.Path == "/api/v1/info" {
			if legacy {
				return answer{status: 404}
			}
			return answer{status: 200, body: `{"version":"2.0.0"}`}
		}
		return answer{status: 200, body: `{}`}
	}
	es, err := s.client().Read(ctx, id, time.Unix(0, start), opts...)
	sym.Assert(err == nil && len(es) == 0, "an empty answer is an empty result")
	s.clean(ctx)
	sym.Assert(len(s.reqs) == 2, "a read is one info and one read request")
	prefix := "/api/v1"
	if legacy {
		prefix = "/v1"
		sym.Cover("legacy prefix")
	} else {
		sym.Cover("current prefix")
	}
	u := s.reqs[1].URL
	sym.Assert(u.Path == prefix+"/read/"+id, "the read asks for the source over HTTP")
	q := u.Query()
	n := 1
	sym.Assert(number(one(q, "start_time")) == start, "the start time is sent exactly over HTTP")
	if hasEnd {
		n++
		sym.Assert(number(one(q, "end_time")) == end, "the end time is sent exactly over HTTP")
	}
	if hasLimit {
		n++
		sym.Assert(number(one(q, "limit")) == int64(limit), "the limit is sent exactly over HTTP")
	}
	if hasTypes {
		n++
		v := q["envelope_types"]
		sym.Assert(len(v) == len(types), "all envelope types are sent over HTTP")
		for i, t := range types {
			sym.Assert(v[i] == t.String(), "the envelope types are sent over HTTP")
		}
	}
	if hasName {
		n++
		sym.Assert(one(q, "name_filter") == name, "the name filter is sent exactly over HTTP")
	}
	if desc {
		n++
		b, err := strconv.ParseBool(one(q, "descending"))
		sym.Assert(err == nil && b, "the order is sent over HTTP")
	}
	sym.Assert(len(q) == n, "no option that was not given is sent over HTTP")

	calls := 0
	g := grpcClient(func(cctx context.Context, method string, req, reply interface{}) error {
		calls++
		sym.Assert(method == "/logcache.v1.Egress/Read", "a read is a Read call")
		sym.Assert(cctx.Value(ctxKey{}) == "caller", "the call carries the caller's context")
		r := req.(*logcache_v1.ReadRequest)
		sym.Assert(r.SourceId == id, "the read asks for the source over gRPC")
		sym.Assert(r.StartTime == start, "the start time is sent exactly over gRPC")
		sym.Assert(r.EndTime == end, "the end time is sent exactly over gRPC")
		sym.Assert(r.Limit == int64(limit), "the limit is sent exactly over gRPC")
		sym.Assert(r.NameFilter == name, "the name filter is sent exactly over gRPC")
		sym.Assert(r.Descending == desc, "the order is sent over gRPC")
		sym.Assert(len(r.EnvelopeTypes) == len(types), "all envelope types are sent over gRPC")
		for i, t := range types {
			sym.Assert(r.EnvelopeTypes[i] == t, "the envelope types are sent over gRPC")
		}
		reply.(*logcache_v1.ReadResponse).Envelopes = nil
		return context.Canceled
	})
	_, err = g.Read(ctx, id, time.Unix(0, start), opts...)
	sym.Assert(err == context.Canceled, "an error of the call is returned")
	sym.Assert(calls == 1, "a read is one call")
}
