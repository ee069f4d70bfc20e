// Package gate holds the harnesses for the gateway.
package gate

import (
	"bytes"
	"context"
	"crypto/tls"
	"encoding/json"
	"errors"
	"io"
	"net/http"
	"os"
	"strconv"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/gateway"
	"code.cloudfoundry.org/log-cache/internal/zzverif/keys"
	"code.cloudfoundry.org/log-cache/internal/zzverif/sym"
	"code.cloudfoundry.org/log-cache/pkg/client"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// backend stands for the Log Cache a gateway dials: calls end at it.
type backend struct {
	methods []string
	reqs    []interface{}
	err     error
	read    *logcache_v1.ReadResponse
	meta    *logcache_v1.MetaResponse
	instant *logcache_v1.PromQL_InstantQueryResult
	ranged  *logcache_v1.PromQL_RangeQueryResult
}

func (b *backend) call(ctx context.Context, method string, req, reply interface{}, cc *grpc.ClientConn, invoker grpc.UnaryInvoker, opts ...grpc.CallOption) error {
	sym.Assert(ctx.Err() == nil, "a call is made with a context that has ended")
	b.methods = append(b.methods, method)
	b.reqs = append(b.reqs, req)
	if b.err != nil {
		return b.err
	}
	switch r := reply.(type) {
	case *logcache_v1.ReadResponse:
		r.Envelopes = b.read.Envelopes
	case *logcache_v1.MetaResponse:
		r.Meta = b.meta.Meta
	case *logcache_v1.PromQL_InstantQueryResult:
		r.Result = b.instant.Result
	case *logcache_v1.PromQL_RangeQueryResult:
		r.Result = b.ranged.Result
	default:
		sym.Fail("the reply is not of the method's type")
	}
	return nil
}

// start starts a gateway in front of b and gives its URL.
func start(b *backend, opts ...gateway.GatewayOption) string {
	certFile, keyFile := keyPair()
	opts = append(opts, gateway.WithGatewayLogCacheDialOpts(grpc.WithInsecure(), grpc.WithUnaryInterceptor(b.call)))
	g := gateway.NewGateway("127.0.0.1:1", "127.0.0.1:0", certFile, keyFile, opts...)
	g.Start()
	return "https://" + g.Addr()
}

var certFile, keyFile string

func keyPair() (string, string) {
	if certFile == "" || !sym.Native() {
		dir, err := os.MkdirTemp("", "gate")
		if err != nil {
			panic(err)
		}
		certFile, keyFile = dir+"/cert", dir+"/key"
		if err := errors.Join(os.WriteFile(certFile, []byte(keys.CertA), 0o600), os.WriteFile(keyFile, []byte(keys.KeyA), 0o600)); err != nil {
			panic(err)
		}
	}
	return certFile, keyFile
}

// transport sends requests and follows no redirects.
type transport struct{ t http.Transport }

func newTransport() *transport {
	return &transport{http.Transport{TLSClientConfig: &tls.Config{InsecureSkipVerify: true}, DisableKeepAlives: true}}
}

func (t *transport) Do(r *http.Request) (*http.Response, error) { return t.t.RoundTrip(r) }

// fetch sends one request and gives its answer.
func fetch(method, u string) (int, http.Header, []byte) { return fetchWith(method, u, nil) }

func fetchWith(method, u string, h http.Header) (int, http.Header, []byte) {
	req, err := http.NewRequest(method, u, nil)
	if err != nil {
		sym.Fail("no request: " + err.Error())
	}
	for k, v := range h {
		req.Header[k] = v
	}
	res, err := newTransport().Do(req)
	if err != nil {
		sym.Fail("no response: " + err.Error())
	}
	body, err := io.ReadAll(res.Body)
	if err != nil {
		sym.Fail("no body: " + err.Error())
	}
	res.Body.Close()
	return res.StatusCode, res.Header, body
}

func ascii(name string, n int) string {
	s := sym.Str(name, n)
	for i := range s {
		sym.Assume(s[i] < 0x80)
	}
	return s
}

// escape percent-encodes every byte.
func escape(s string) string {
	digit := func(d byte) byte { return byte(sym.IteInt64(d < 10, int64('0'+d), int64('A'-10+d))) }
	var b []byte
	for i := 0; i < len(s); i++ {
		b = append(b, '%', digit(s[i]>>4), digit(s[i]&15))
	}
	return string(b)
}

// C18_Body: what the info endpoint writes.
//
//sym:real
func C18_Body() {
	version := ascii("version", sym.Int("version bytes", 0, sym.Bound("version bytes", 2, 3)))
	up := []int64{sym.Int64("uptime"), sym.Int64("later uptime")}
	calls := 0
	u := start(&backend{}, gateway.WithGatewayVersion(version), gateway.WithGatewayVMUptimeFn(func() int64 {
		calls++
		return up[calls-1]
	}))
	for i := range up {
		method := []string{"GET", "POST", "DELETE"}[sym.Choice("method", 3)]
		query := []string{"", "?", "?version=9.9.9&vm_uptime=1"}[sym.Choice("query", 3)]
		code, _, body := fetch(method, u+"/api/v1/info"+query)
		sym.Assert(code == 200, "the info endpoint answers with another status")
		var got struct {
			Version  *string `json:"version"`
			VMUptime *string `json:"vm_uptime"`
		}
		if err := json.Unmarshal(body, &got); err != nil {
			sym.Fail("the info endpoint's answer is not JSON")
		}
		sym.Assert(got.Version != nil && *got.Version == version, "the info endpoint's version is not the configured one")
		sym.Assert(got.VMUptime != nil && *got.VMUptime == strconv.FormatInt(up[i], 10), "the info endpoint's uptime is not the current one")
	}
	sym.Assert(calls == 2, "the uptime is not evaluated for every request")
	sym.Cover("info read")
}

// C18_Client: what the client makes of the info endpoint.
//
//sym:real
func C18_Client() {
	version := ""
	var nums [3]uint64
	for i := range nums {
		if i > 0 {
			version += "."
		}
		d := sym.StrOf("digit", 1, "0123456789")
		if nums[i] = uint64(d[0] - '0'); sym.Flag("more digits") {
			sym.Assume(d[0] != '0')
			d2 := sym.StrOf("digit", 1, "0123456789")
			nums[i] = 10*nums[i] + uint64(d2[0]-'0')
			d += d2
		}
		version += d
	}
	const ids = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ-"
	pre, build := "", ""
	switch sym.Choice("extra", 4) {
	case 1:
		pre = sym.StrOf("prerelease", 1, ids[10:]) + sym.StrOf("prerelease", 1, ids)
	case 2:
		build = sym.StrOf("build", 2, ids)
	case 3:
		pre, build = sym.StrOf("prerelease", 1, ids[10:]), sym.StrOf("build", 1, ids)
	}
	if pre != "" {
		version += "-" + pre
	}
	if build != "" {
		version += "+" + build
	}
	uptime := sym.Int64("uptime")
	u := start(&backend{}, gateway.WithGatewayVersion(version), gateway.WithGatewayVMUptimeFn(func() int64 { return uptime }))
	c := client.NewClient(u, client.WithHTTPClient(newTransport()))
	v, err := c.LogCacheVersion(context.Background())
	sym.Assert(err == nil, "the client cannot read the gateway's version")
	sym.Assert(v.Major == nums[0] && v.Minor == nums[1] && v.Patch == nums[2], "the client reads another version than the gateway's")
	sym.Assert(pre == "" && len(v.Pre) == 0 || len(v.Pre) == 1 && !v.Pre[0].IsNum && v.Pre[0].VersionStr == pre, "the client reads another prerelease than the gateway's")
	sym.Assert(build == "" && len(v.Build) == 0 || len(v.Build) == 1 && v.Build[0] == build, "the client reads another build than the gateway's")
	got, err := c.LogCacheVMUptime(context.Background())
	sym.Assert(err == nil, "the client cannot read the gateway's uptime")
	sym.Assert(got == uptime, "the client reads another uptime than the gateway's")
	sym.Cover("version and uptime read")
}

// httpStatus is the HTTP status of a gRPC code.
var httpStatus = map[codes.Code]int{1: 408, 2: 500, 3: 400, 4: 504, 5: 404, 6: 409, 7: 403, 8: 429, 9: 400, 10: 409, 11: 400, 12: 501, 13: 500, 14: 503, 15: 500, 16: 401}

type defaultError struct {
	Error   *string           `json:"error"`
	Code    *int32            `json:"code"`
	Message *string           `json:"message"`
	Details []json.RawMessage `json:"details"`
	Status  *string           `json:"status"`
	Type    *string           `json:"errorType"`
}

// checkError checks the answer to a failed request.
func checkError(promql bool, status int, h http.Header, body []byte, code codes.Code, msg string) {
	want, ok := httpStatus[code]
	if !ok {
		want = 500
	}
	sym.Assert(status == want, "the HTTP status does not correspond to the gRPC code")
	sym.Assert(h.Get("Content-Type") == "application/json", "an error has another content type than JSON")
	var e defaultError
	if err := json.Unmarshal(body, &e); err != nil {
		sym.Fail("the error body is not JSON")
	}
	sym.Assert(e.Error != nil && *e.Error == msg, "the error text is not the gRPC description")
	if promql {
		sym.Assert(e.Status != nil && *e.Status == "error", "the status of a PromQL error is not error")
		sym.Assert(e.Type != nil && *e.Type == "internal", "the PromQL error type is not internal")
		sym.Assert(e.Code == nil && e.Message == nil, "a PromQL error has the default format")
		sym.Cover("PromQL error")
		return
	}
	sym.Assert(e.Status == nil && e.Type == nil, "an error outside PromQL has the PromQL format")
	sym.Assert(e.Code != nil && *e.Code == int32(code), "the default error's code is not the gRPC code")
	sym.Assert(e.Message != nil && *e.Message == msg, "the default error's message is not the gRPC description")
	sym.Assert(len(e.Details) == 0, "the default error has details of nothing")
	sym.Cover("default error")
}

var routes = []struct {
	path   string
	promql bool
}{
	{"/api/v1/query?query=up", true},
	{"/api/v1/query_range?query=up&start=1&end=2&step=1s", true},
	{"/api/v1/query", true},
	{"/api/v1/read/some-id", false},
	{"/api/v1/read/api/v1/query", false},
	{"/api/v1/meta", false},
}

// C19_Codes: errors of the gRPC server.
//
//sym:real
func C19_Codes() {
	r := routes[sym.Choice("route", len(routes))]
	msg := ascii("message", sym.Int("message bytes", 0, sym.Bound("message bytes", 2, 3)))
	var code codes.Code
	b := &backend{}
	if sym.Flag("no status") {
		code, b.err = codes.Unknown, errors.New(msg)
	} else {
		code = codes.Code(sym.Int64Range("code", 1, 1<<31-1))
		b.err = status.Error(code, msg)
	}
	u := start(b)
	st, h, body := fetch("GET", u+r.path)
	checkError(r.promql, st, h, body, code, msg)
	sym.Assert(len(b.methods) == 1, "a failed request is not sent once")
	sym.Expect("PromQL error", "default error")
}

// C19_Parameters: parameters that cannot be understood.
//
//sym:real
func C19_Parameters() {
	b := &backend{read: &logcache_v1.ReadResponse{}, meta: &logcache_v1.MetaResponse{}}
	u := start(b)
	bad := sym.StrOf("value", sym.Int("value bytes", 1, 2), "ghijkmnopqrsuvwyzGHIJ-+x")
	path := []string{
		"/api/v1/read/some-id?start_time=", "/api/v1/read/some-id?end_time=", "/api/v1/read/some-id?limit=", "/api/v1/read/some-id?descending=",
		"/api/v1/read/some-id?envelope_types=", "/api/v1/meta?local_only=",
	}[sym.Choice("parameter", 6)]
	st, h, body := fetch("GET", u+path+bad)
	sym.Assert(st == 400, "a parameter of another type is not refused as a bad request")
	sym.Assert(h.Get("Content-Type") == "application/json", "an error has another content type than JSON")
	var e defaultError
	if err := json.Unmarshal(body, &e); err != nil {
		sym.Fail("the error body is not JSON")
	}
	sym.Assert(e.Status == nil && e.Type == nil && e.Error != nil && e.Code != nil && *e.Code == 3, "the error has another format than the default one")
	sym.Assert(len(b.methods) == 0, "a request with a bad parameter is sent")
	sym.Cover("refused")
}

// C19_Refused: requests that cannot be passed on.
//
//sym:real
func C19_Refused() {
	b := &backend{read: &logcache_v1.ReadResponse{}, meta: &logcache_v1.MetaResponse{}, instant: &logcache_v1.PromQL_InstantQueryResult{}, ranged: &logcache_v1.PromQL_RangeQueryResult{}}
	u := start(b)
	r := routes[sym.Choice("route", len(routes))]
	h := http.Header{}
	switch sym.Choice("how", 3) {
	case 0:
		h.Set("Grpc-Timeout", sym.StrOf("timeout", sym.Int("timeout bytes", 1, 2), "xyzXYZ-"))
	case 1:
		h.Set("Some-Bin", "x")
		h.Set("Grpc-Metadata-Some-Bin", "*")
	case 2:
		// a text, which has no fields
		r = routes[:3][sym.Choice("route with a text", 3)]
		sep := "?"
		for i := range r.path {
			if r.path[i] == '?' {
				sep = "&"
			}
		}
		r.path += sep + "query." + sym.StrOf("field", 1, "abcXYZ019") + "=1"
	}
	st, hd, body := fetchWith("GET", u+r.path, h)
	var e defaultError
	if err := json.Unmarshal(body, &e); err != nil {
		sym.Fail("the error body is not JSON")
	}
	sym.Assert(e.Error != nil && *e.Error != "", "a refused request has no error text")
	checkError(r.promql, st, hd, body, codes.InvalidArgument, *e.Error)
	sym.Assert(len(b.methods) == 0, "a refused request is sent")
	sym.Expect("PromQL error", "default error")
}

// C19_Rendering: answers that cannot be rendered.
//
//sym:real
func C19_Rendering() {
	pt := &logcache_v1.PromQL_Point{Time: ascii("time", sym.Int("time bytes", 0, 2)), Value: 1}
	for i := range pt.Time {
		// not a number
		sym.Assume(sym.And(pt.Time[i] >= 'g', pt.Time[i] != 'i', pt.Time[i] != 'n', pt.Time[i] != 'x', pt.Time[i] != 'p'))
	}
	mat := &logcache_v1.PromQL_Matrix{Series: []*logcache_v1.PromQL_Series{{Points: []*logcache_v1.PromQL_Point{pt}}}}
	b := &backend{}
	path := "/api/v1/query?query=up"
	switch sym.Choice("kind", 4) {
	case 0:
		b.instant = &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Scalar{Scalar: &logcache_v1.PromQL_Scalar{Time: pt.Time, Value: 1}}}
	case 1:
		b.instant = &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Vector{
			Vector: &logcache_v1.PromQL_Vector{Samples: []*logcache_v1.PromQL_Sample{{Point: pt}}}}}
	case 2:
		b.instant = &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Matrix{Matrix: mat}}
	case 3:
		path = "/api/v1/query_range?query=up&start=1&end=2&step=1"
		b.ranged = &logcache_v1.PromQL_RangeQueryResult{Result: &logcache_v1.PromQL_RangeQueryResult_Matrix{Matrix: mat}}
	}
	st, h, body := fetch("GET", start(b)+path)
	sym.Assert(st == 500, "an answer that cannot be rendered does not give an internal error")
	sym.Assert(h.Get("Content-Type") == "application/json", "an error has another content type than JSON")
	var e defaultError
	if err := json.Unmarshal(body, &e); err != nil {
		sym.Fail("the error body is not JSON")
	}
	sym.Assert(e.Status != nil && *e.Status == "error" && e.Type != nil && *e.Type == "internal" && e.Error != nil && *e.Error != "", "the error is no PromQL error")
	sym.Cover("rendering refused")
}

// number is the decimal of any int64.
func number(name string) (int64, string) {
	n := sym.Int64(name)
	return n, strconv.FormatInt(n, 10)
}

var typeNames = []string{"ANY", "LOG", "COUNTER", "GAUGE", "TIMER", "EVENT"}

func envelope(src string) *loggregator_v2.Envelope {
	return &loggregator_v2.Envelope{SourceId: src, Timestamp: sym.Int64("timestamp"), Message: &loggregator_v2.Envelope_Counter{
		Counter: &loggregator_v2.Counter{Name: "c", Total: sym.Uint64("total")}}}
}

// sourceID is an id that keeps a place of its own in a URL when its bytes
// are percent-encoded.
func sourceID(max int) string { return ascii("source id", sym.Int("source id bytes", 0, max)) }

// C20_Read: requests to read a source.
//
//sym:real
func C20_Read() {
	src := sourceID(sym.Bound("source id bytes", 3, 4))
	b := &backend{read: &logcache_v1.ReadResponse{Envelopes: &loggregator_v2.EnvelopeBatch{}}}
	u := start(b) + "/api/v1/read/" + escape(src)
	st, _, _ := fetch("GET", u)
	sym.Assert(st == 200, "a read is not answered")
	sym.Assert(len(b.reqs) == 1 && b.methods[0] == "/logcache.v1.Egress/Read", "a read does not reach the server once")
	req, ok := b.reqs[0].(*logcache_v1.ReadRequest)
	sym.Assert(ok, "the request is no read")
	sym.Assert(req.SourceId == src, "the source id reaches the server altered")
	sym.Assert(req.StartTime == 0 && req.EndTime == 0 && req.Limit == 0 && len(req.EnvelopeTypes) == 0 && !req.Descending && req.NameFilter == "", "parameters that were not given reach the server")
	sym.Cover("read")
}

// C20_ReadParameters: parameters of reads.
//
//sym:real
func C20_ReadParameters() {
	b := &backend{read: &logcache_v1.ReadResponse{Envelopes: &loggregator_v2.EnvelopeBatch{}}}
	want := logcache_v1.ReadRequest{SourceId: "some-id"}
	q := ""
	add := func(name, value string) {
		if q != "" {
			q += "&"
		}
		q += name + "=" + value
	}
	// one number at a time, next to fixed ones
	which := sym.Choice("number", 5)
	num := func(i int, name string, p *int64) {
		v := "1"
		if *p = 1; i == which {
			*p, v = number(name)
		}
		add(name, v)
	}
	num(0, "start_time", &want.StartTime)
	num(1, "end_time", &want.EndTime)
	num(2, "limit", &want.Limit)
	for i, n := 0, sym.Int("types", 0, sym.Bound("types", 2, 3)); i < n; i++ {
		t := sym.Choice("type", 6)
		want.EnvelopeTypes = append(want.EnvelopeTypes, logcache_v1.EnvelopeType(t))
		add("envelope_types", typeNames[t])
	}
	if sym.Flag("order") {
		want.Descending = sym.Flag("descending")
		add("descending", strconv.FormatBool(want.Descending))
	}
	if which == 3 {
		want.NameFilter = ascii("filter", 2)
		add("name_filter", escape(want.NameFilter))
	}
	st, _, _ := fetch("GET", start(b)+"/api/v1/read/some-id?"+q)
	sym.Assert(st == 200, "a read is not answered")
	sym.Assert(len(b.reqs) == 1 && b.methods[0] == "/logcache.v1.Egress/Read", "a read does not reach the server once")
	req, ok := b.reqs[0].(*logcache_v1.ReadRequest)
	sym.Assert(ok, "the request is no read")
	sym.Assert(req.SourceId == want.SourceId, "the source id reaches the server altered")
	sym.Assert(req.StartTime == want.StartTime, "the start time reaches the server altered")
	sym.Assert(req.EndTime == want.EndTime, "the end time reaches the server altered")
	sym.Assert(req.Limit == want.Limit, "the limit reaches the server altered")
	sym.Assert(req.Descending == want.Descending, "the order reaches the server altered")
	sym.Assert(req.NameFilter == want.NameFilter, "the name filter reaches the server altered")
	sym.Assert(len(req.EnvelopeTypes) == len(want.EnvelopeTypes), "envelope types are lost")
	for i, t := range want.EnvelopeTypes {
		sym.Assert(req.EnvelopeTypes[i] == t, "an envelope type reaches the server altered")
	}
	sym.Cover("read with parameters")
}

// C20_Path: reads of the path's source, whatever the query calls one.
//
//sym:real
func C20_Path() {
	b := &backend{read: &logcache_v1.ReadResponse{Envelopes: &loggregator_v2.EnvelopeBatch{}}}
	other := escape(ascii("other", sym.Int("other bytes", 0, 2)))
	q := []string{"source_id=" + other, "sourceId=" + other, "source_id[" + other + "]=", "sourceId[" + other + "]=1", "sourceId%5b" + other + "%5d", "SourceId=" + other,
		"sourceid=" + other, "limit=7&sourceId=" + other, "unknown=" + other}[sym.Choice("query", 9)]
	if sym.Flag("twice") {
		q += "&sourceId=z&source_id=z"
	}
	st, _, _ := fetch("GET", start(b)+"/api/v1/read/some-id?"+q)
	sym.Assert(st == 200 || st == 400, "a read is not answered")
	sym.Assert(st != 200 || len(b.reqs) == 1, "a read does not reach the server once")
	for _, r := range b.reqs {
		req, ok := r.(*logcache_v1.ReadRequest)
		sym.Assert(ok, "the request is no read")
		sym.Assert(req.SourceId == "some-id", "a parameter replaces the source id of the path")
		sym.Assert(req.StartTime == 0 && req.EndTime == 0 && len(req.EnvelopeTypes) == 0 && !req.Descending && req.NameFilter == "", "parameters that were not given reach the server")
		sym.Cover("read")
	}
	sym.Expect("read")
}

// C20_Query: the text that is asked, whatever else the query of the URL names.
//
//sym:real
func C20_Query() {
	b := &backend{
		instant: &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Vector{Vector: &logcache_v1.PromQL_Vector{}}},
		ranged:  &logcache_v1.PromQL_RangeQueryResult{Result: &logcache_v1.PromQL_RangeQueryResult_Matrix{Matrix: &logcache_v1.PromQL_Matrix{}}},
	}
	other := escape(ascii("other", sym.Int("other bytes", 0, 2)))
	q := []string{"query[" + other + "]=", "query[" + other + "]=1", "query%5b" + other + "%5d=x", "query%5B" + other + "%5D", "Query=" + other,
		"query.x=" + other, "unknown=" + other, "query%20=" + other}[sym.Choice("parameter", 8)]
	if sym.Flag("first") {
		q = q + "&query=metric"
	} else {
		q = "query=metric&" + q
	}
	path := "/api/v1/query"
	if sym.Flag("range") {
		path += "_range"
	}
	st, _, _ := fetch("GET", start(b)+path+"?"+q)
	sym.Assert(st == 200 || st == 400, "a query is not answered")
	sym.Assert(st != 200 || len(b.reqs) == 1, "a query does not reach the server once")
	for _, r := range b.reqs {
		switch req := r.(type) {
		case *logcache_v1.PromQL_InstantQueryRequest:
			sym.Assert(req.Query == "metric", "a parameter replaces the query")
			sym.Assert(req.Time == "", "a time that was not given reaches the server")
		case *logcache_v1.PromQL_RangeQueryRequest:
			sym.Assert(req.Query == "metric", "a parameter replaces the query")
			sym.Assert(req.Start == "" && req.End == "" && req.Step == "", "a range that was not given reaches the server")
		default:
			sym.Fail("the request is no query")
		}
		sym.Cover("query")
	}
	sym.Expect("query")
}

// C20_Elsewhere: paths outside the API.
//
//sym:real
func C20_Elsewhere() {
	b := &backend{read: &logcache_v1.ReadResponse{}, meta: &logcache_v1.MetaResponse{}, instant: &logcache_v1.PromQL_InstantQueryResult{}, ranged: &logcache_v1.PromQL_RangeQueryResult{}}
	last := []string{"meta", "query", "query_range", "read/some-id"}[sym.Choice("endpoint", 4)]
	x := sym.StrOf("segment", sym.Int("segment bytes", 1, 2), "apivAPI012")
	path := ""
	switch sym.Choice("where", 4) {
	case 0:
		path = "/" + x + "/v1/" + last
	case 1:
		sym.Assume(x != "v1")
		path = "/api/" + x + "/" + last
	case 2:
		path = "/api/v1/" + x + last
	case 3:
		sym.Assume(last != "read/some-id")
		path = "/api/v1/" + last + "/" + x
	}
	st, _, _ := fetch("GET", start(b)+path)
	sym.Assert(st == 404, "a path outside the API is found")
	sym.Assert(len(b.methods) == 0, "a request outside the API is sent")
}

// C20_Envelopes: answers to reads.
//
//sym:real
func C20_Envelopes() {
	n := sym.Int("envelopes", 0, 2)
	batch := &loggregator_v2.EnvelopeBatch{}
	for i := 0; i < n; i++ {
		e := &loggregator_v2.Envelope{SourceId: ascii("source", 1), InstanceId: "", Timestamp: sym.Int64("timestamp")}
		switch sym.Choice("kind", 3) {
		case 0:
			e.Message = &loggregator_v2.Envelope_Log{Log: &loggregator_v2.Log{Payload: []byte(sym.Str("payload", 2)), Type: loggregator_v2.Log_Type(sym.Choice("log type", 2))}}
		case 1:
			e.Message = &loggregator_v2.Envelope_Counter{Counter: &loggregator_v2.Counter{Name: "c", Total: sym.Uint64("total")}}
		case 2:
			e.Tags = map[string]string{"t": ascii("tag", 1)}
			e.Message = &loggregator_v2.Envelope_Timer{Timer: &loggregator_v2.Timer{Name: "t", Start: sym.Int64("start"), Stop: sym.Int64("stop")}}
		}
		batch.Batch = append(batch.Batch, e)
	}
	b := &backend{read: &logcache_v1.ReadResponse{Envelopes: batch}}
	st, h, body := fetch("GET", start(b)+"/api/v1/read/some-id")
	sym.Assert(st == 200 && h.Get("Content-Type") == "application/json", "a read is not answered with JSON")
	type log struct{ Payload, Type *string }
	type counter struct{ Name, Delta, Total *string }
	type timer struct{ Name, Start, Stop *string }
	var got struct {
		Envelopes *struct {
			Batch *[]struct {
				Timestamp      *string                     `json:"timestamp"`
				SourceID       *string                     `json:"source_id"`
				InstanceID     *string                     `json:"instance_id"`
				DeprecatedTags *map[string]json.RawMessage `json:"deprecated_tags"`
				Tags           *map[string]string          `json:"tags"`
				Log            *struct {
					Payload []byte  `json:"payload"`
					Type    *string `json:"type"`
				} `json:"log"`
				Counter *struct {
					Name  *string `json:"name"`
					Delta *string `json:"delta"`
					Total *string `json:"total"`
				} `json:"counter"`
				Timer *struct {
					Name  *string `json:"name"`
					Start *string `json:"start"`
					Stop  *string `json:"stop"`
				} `json:"timer"`
			} `json:"batch"`
		} `json:"envelopes"`
	}
	if err := json.Unmarshal(body, &got); err != nil {
		sym.Fail("the answer is not JSON")
	}
	sym.Assert(got.Envelopes != nil && got.Envelopes.Batch != nil, "a list of envelopes is left out")
	sym.Assert(len(*got.Envelopes.Batch) == n, "envelopes of the answer are lost")
	is := func(p *string, want string) bool { return p != nil && *p == want }
	for i, g := range *got.Envelopes.Batch {
		e := batch.Batch[i]
		sym.Assert(is(g.Timestamp, strconv.FormatInt(e.Timestamp, 10)) && is(g.SourceID, e.SourceId), "an envelope is rendered altered")
		sym.Assert(is(g.InstanceID, "") && g.DeprecatedTags != nil && g.Tags != nil, "default values are left out or fields renamed")
		sym.Assert(len(*g.Tags) == len(e.Tags) && (*g.Tags)["t"] == e.Tags["t"], "tags are rendered altered")
		switch m := e.Message.(type) {
		case *loggregator_v2.Envelope_Log:
			sym.Assert(g.Log != nil && g.Counter == nil && g.Timer == nil && bytes.Equal(g.Log.Payload, m.Log.Payload) && is(g.Log.Type, []string{"OUT", "ERR"}[m.Log.Type]), "a log is rendered altered")
		case *loggregator_v2.Envelope_Counter:
			sym.Assert(g.Log == nil && g.Counter != nil && g.Timer == nil && is(g.Counter.Name, "c") && is(g.Counter.Delta, "0") &&
				is(g.Counter.Total, strconv.FormatUint(m.Counter.Total, 10)), "a counter is rendered altered")
		case *loggregator_v2.Envelope_Timer:
			sym.Assert(g.Log == nil && g.Counter == nil && g.Timer != nil && is(g.Timer.Name, "t") && is(g.Timer.Start, strconv.FormatInt(m.Timer.Start, 10)) &&
				is(g.Timer.Stop, strconv.FormatInt(m.Timer.Stop, 10)), "a timer is rendered altered")
		}
	}
	sym.Cover("answer rendered")
}

// C20_Meta: requests for meta information and their answers.
//
//sym:real
func C20_Meta() {
	b := &backend{meta: &logcache_v1.MetaResponse{Meta: map[string]*logcache_v1.MetaInfo{}}}
	want := map[string]*logcache_v1.MetaInfo{}
	for i, n := 0, sym.Int("sources", 0, 2); i < n; i++ {
		m := &logcache_v1.MetaInfo{}
		if i == 0 {
			m = &logcache_v1.MetaInfo{Count: sym.Int64("count"), Expired: sym.Int64("expired"), OldestTimestamp: sym.Int64("oldest"), NewestTimestamp: sym.Int64("newest")}
		}
		id := []string{"a/\"", "zero"}[i]
		b.meta.Meta[id], want[id] = m, m
	}
	q, local := "", false
	if sym.Flag("local only given") {
		local = sym.Flag("local only")
		q = "?local_only=" + strconv.FormatBool(local)
	}
	st, h, body := fetch("GET", start(b)+"/api/v1/meta"+q)
	sym.Assert(st == 200 && h.Get("Content-Type") == "application/json", "a meta request is not answered with JSON")
	sym.Assert(len(b.reqs) == 1 && b.methods[0] == "/logcache.v1.Egress/Meta", "a meta request does not reach the server once")
	req, ok := b.reqs[0].(*logcache_v1.MetaRequest)
	sym.Assert(ok && req.LocalOnly == local, "local_only reaches the server altered")
	var got struct {
		Meta *map[string]struct {
			Count   *string `json:"count"`
			Expired *string `json:"expired"`
			Oldest  *string `json:"oldest_timestamp"`
			Newest  *string `json:"newest_timestamp"`
		} `json:"meta"`
	}
	if err := json.Unmarshal(body, &got); err != nil {
		sym.Fail("the answer is not JSON")
	}
	sym.Assert(got.Meta != nil && len(*got.Meta) == len(want), "sources are lost")
	is := func(p *string, want int64) bool { return p != nil && *p == strconv.FormatInt(want, 10) }
	for id, m := range want {
		g, ok := (*got.Meta)[id]
		sym.Assert(ok, "a source is lost")
		sym.Assert(is(g.Count, m.Count) && is(g.Expired, m.Expired) && is(g.Oldest, m.OldestTimestamp) && is(g.Newest, m.NewestTimestamp), "meta information is rendered altered")
	}
	sym.Cover("meta")
}

// C20_Queries: PromQL requests, and their answers as the client reads them.
//
//sym:real
func C20_Queries() {
	text := func(name string) string {
		return ascii(name, sym.Int(name+" bytes", 0, 1))
	}
	query := ascii("query", sym.Int("query bytes", 0, 2))
	val := sym.Float64("value")
	sym.Assume(val == val)
	if sym.Flag("range") {
		p := []string{text("start"), text("end"), text("step")}
		b := &backend{ranged: &logcache_v1.PromQL_RangeQueryResult{Result: &logcache_v1.PromQL_RangeQueryResult_Matrix{Matrix: &logcache_v1.PromQL_Matrix{
			Series: []*logcache_v1.PromQL_Series{{Metric: map[string]string{"l": "v"}, Points: []*logcache_v1.PromQL_Point{{Time: "1.500", Value: val}}}}}}}}
		st, _, body := fetch("GET", start(b)+"/api/v1/query_range?step="+escape(p[2])+"&query="+escape(query)+"&start="+escape(p[0])+"&end="+escape(p[1]))
		sym.Assert(st == 200, "a range query is not answered")
		sym.Assert(len(b.reqs) == 1 && b.methods[0] == "/logcache.v1.PromQLQuerier/RangeQuery", "a range query does not reach the server once")
		req, ok := b.reqs[0].(*logcache_v1.PromQL_RangeQueryRequest)
		sym.Assert(ok && req.Query == query, "the query reaches the server altered")
		sym.Assert(req.Start == p[0] && req.End == p[1] && req.Step == p[2], "the range of a query reaches the server altered")
		var got answer
		if err := json.Unmarshal(body, &got); err != nil {
			sym.Fail("the answer is not JSON")
		}
		sym.Assert(got.Status == "success" && got.Data.ResultType == "matrix" && len(got.Data.Result) == 1, "the result is lost")
		sym.Cover("range query")
		return
	}
	tm := text("time")
	b := &backend{instant: &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Vector{Vector: &logcache_v1.PromQL_Vector{
		Samples: []*logcache_v1.PromQL_Sample{{Metric: map[string]string{"l": "v"}, Point: &logcache_v1.PromQL_Point{Time: "1.500", Value: val}}}}}}}
	st, _, body := fetch("GET", start(b)+"/api/v1/query?time="+escape(tm)+"&query="+escape(query))
	sym.Assert(st == 200, "a query is not answered")
	sym.Assert(len(b.reqs) == 1 && b.methods[0] == "/logcache.v1.PromQLQuerier/InstantQuery", "a query does not reach the server once")
	req, ok := b.reqs[0].(*logcache_v1.PromQL_InstantQueryRequest)
	sym.Assert(ok && req.Query == query, "the query reaches the server altered")
	sym.Assert(req.Time == tm, "the time of a query reaches the server altered")
	var got answer
	if err := json.Unmarshal(body, &got); err != nil {
		sym.Fail("the answer is not JSON")
	}
	sym.Assert(got.Status == "success" && got.Data.ResultType == "vector" && len(got.Data.Result) == 1, "the result is lost")
	sym.Cover("query")
	sym.Expect("range query", "query")
}

type answer struct {
	Status string `json:"status"`
	Data   struct {
		ResultType string            `json:"resultType"`
		Result     []json.RawMessage `json:"result"`
	} `json:"data"`
}

// C20_Client: a client's reads and queries through the gateway.
//
//sym:real
func C20_Client() {
	src := sourceID(sym.Bound("source id bytes of clients", 2, 3))
	batch := &loggregator_v2.EnvelopeBatch{Batch: []*loggregator_v2.Envelope{envelope("x")}}
	b := &backend{read: &logcache_v1.ReadResponse{Envelopes: batch}}
	c := client.NewClient(start(b, gateway.WithGatewayVersion("2.4.0"), gateway.WithGatewayVMUptimeFn(func() int64 { return 1 })), client.WithHTTPClient(newTransport()))
	es, err := c.Read(context.Background(), src, time.Unix(0, 0), client.WithDescending(), client.WithEnvelopeTypes(logcache_v1.EnvelopeType_LOG))
	sym.Assert(err == nil, "a client's read fails")
	req := b.reqs[0].(*logcache_v1.ReadRequest)
	sym.Assert(req.SourceId == src, "the source id reaches the server altered")
	sym.Assert(req.Descending && len(req.EnvelopeTypes) == 1 && req.EnvelopeTypes[0] == 1, "a client's options reach the server altered")
	sym.Assert(len(es) == 1 && es[0].Timestamp == batch.Batch[0].Timestamp && es[0].GetCounter().GetTotal() == batch.Batch[0].GetCounter().GetTotal(), "the client reads another envelope than the server's")
	sym.Cover("client read")
}
