// Package auth holds the harnesses for the CF auth proxy.
package auth

import (
	"context"
	"encoding/json"
	"errors"
	"io"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"time"

	"code.cloudfoundry.org/go-loggregator/metrics"
	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/auth"
	"code.cloudfoundry.org/log-cache/internal/promql"
	"code.cloudfoundry.org/log-cache/internal/zzverif/sym"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"

	"log"
)

const goodToken = "bearer t0k.en"

var errRefused = errors.New("refused")

// world is what the middleware asks: the issuer of tokens, the cloud
// controller and log cache.
type world struct {
	valid, admin bool
	may          func(source string) bool
	available    []string
	related      map[string][]string
	meta         map[string]*logcache_v1.MetaInfo
	metaErr      bool
}

func (w *world) Read(token string) (auth.Oauth2ClientContext, error) {
	if !w.valid || token != goodToken {
		return auth.Oauth2ClientContext{}, errRefused
	}
	return auth.Oauth2ClientContext{IsAdmin: w.admin, Token: token, ExpiresAt: time.Now().Add(time.Hour)}, nil
}

func (w *world) IsAuthorized(source, token string) bool {
	sym.Assert(!w.valid || token == goodToken, "another token than the request's is authorised")
	return w.may(source)
}

func (w *world) AvailableSourceIDs(token string) []string {
	sym.Assert(!w.valid || token == goodToken, "another token than the request's is authorised")
	return w.available
}

func (w *world) GetRelatedSourceIds(names []string, token string) map[string][]string {
	sym.Assert(!w.valid || token == goodToken, "another token than the request's is authorised")
	return w.related
}

func (w *world) Meta(context.Context) (map[string]*logcache_v1.MetaInfo, error) {
	if w.metaErr {
		return nil, errRefused
	}
	return w.meta, nil
}

// inner stands for what the middleware protects.
type inner struct{ reqs []*http.Request }

func (i *inner) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
	i.reqs = append(i.reqs, r)
	rw.WriteHeader(299)
	rw.Write([]byte("inner"))
}

type answer struct {
	header http.Header
	status int
	body   []byte
}

func (a *answer) Header() http.Header { return a.header }
func (a *answer) WriteHeader(s int) {
	if a.status == 0 {
		a.status = s
	}
}
func (a *answer) Write(b []byte) (int, error) {
	a.WriteHeader(200)
	a.body = append(a.body, b...)
	return len(b), nil
}

func (w *world) serve(in http.Handler, r *http.Request) *answer {
	a := &answer{header: http.Header{}}
	auth.NewCFAuthMiddlewareProvider(w, w, w, promql.ExtractSourceIds, w).Middleware(in).ServeHTTP(a, r)
	return a
}

// token gives a request the token of the world, another one or none.
func (w *world) token(r *http.Request) {
	switch sym.Choice("token", 4) {
	case 0:
		w.valid = true
		r.Header.Set("Authorization", goodToken)
	case 1:
		r.Header.Set("Authorization", goodToken)
	case 2:
		r.Header["Authorization"] = []string{""}
	case 3:
	}
	w.admin = w.valid && sym.Flag("admin")
}

func request(method, u, body string) *http.Request {
	parsed, err := url.Parse("https://proxy" + u)
	if err != nil {
		sym.Fail("no URL: " + err.Error())
	}
	return &http.Request{Method: method, URL: parsed, Header: http.Header{}, Body: io.NopCloser(strings.NewReader(body)), Host: "proxy", RemoteAddr: "1.2.3.4:5"}
}

// escape percent-encodes every byte.
func escape(s string) string {
	digit := func(d byte) byte { return byte(sym.IteInt64(d < 10, int64('0'+d), int64('A'-10+d))) }
	var b []byte
	for i := 0; i < len(s); i++ {
		b = append(b, '%', digit(s[i]>>4), digit(s[i]&15))
	}
	return string(b)
}

func ascii(name string, n int) string {
	s := sym.Str(name, n)
	for i := range s {
		sym.Assume(s[i] < 0x80)
	}
	return s
}

const readPath = "/api/v1/read/"

// A01_Read reads a source.
func A01_Read() {
	sym.Expect("passed", "refused", "odd id")
	id := ""
	if sym.Flag("any id") {
		id = ascii("source id", sym.Int("source id bytes", 0, sym.Bound("source id bytes", 2, 3)))
	} else {
		id = []string{"app-guid_1", "..", "a/../b", "a//b", "./x", "../meta", "../info", "/api/v1/info", "a/b/c", "%2e%2e", "a?b", "a:b", "a b+c#d", "x/..", "caf\xc3\xa9", "\xff"}[sym.Choice("id", 16)]
	}
	q := []string{"", "?limit=7&start_time=5", "?source_id=other"}[sym.Choice("query", 3)]
	method := []string{"GET", "POST"}[sym.Choice("method", 2)]
	r := request(method, readPath+escape(id)+q, "")
	path, query := r.URL.Path, r.URL.RawQuery
	w := &world{}
	w.token(r)
	authorised := sym.Flag("authorised")
	asked := false
	w.may = func(s string) bool {
		asked = true
		sym.Assert(sym.EqStr(s, id), "another source than the one to be read is authorised")
		return authorised
	}
	in := &inner{}
	a := w.serve(in, r)
	// Ids with empty or dot segments or line ends have no path of their own.
	odd := id == "" || id[0] == '/'
	for i := range id {
		odd = sym.Or(odd, id[i] == '.', id[i] == '/', id[i] == '\n')
	}
	if odd {
		sym.Cover("odd id")
	}
	if len(in.reqs) == 0 {
		sym.Cover("refused")
		sym.Assert(a.status >= 300, "a refused read looks like a success")
		sym.Assert(odd || !w.valid || !w.admin && !authorised, "an authorised read is refused")
		return
	}
	sym.Cover("passed")
	sym.Assert(len(in.reqs) == 1, "a read is passed on once")
	sym.Assert(w.valid, "a read without a valid token passes")
	sym.Assert(w.admin || asked && authorised, "an unauthorised read passes")
	got := in.reqs[0]
	sym.Assert(got.URL.Path == path && got.URL.RawQuery == query && got.Method == method, "a read is passed on altered")
	sym.Assert(a.status == 299 && string(a.body) == "inner", "the answer to a read is altered")
}

// A01_Paths makes requests without a valid token to any path.
func A01_Paths() {
	sym.Expect("info", "refused")
	p := ""
	switch sym.Choice("path", 6) {
	case 0:
		p = "/api/v1/" + escape(ascii("rest", sym.Int("rest bytes", 0, sym.Bound("rest bytes", 3, 4))))
	case 1:
		p = "/api/v1/" + escape(sym.StrOf("first", 1, "rRiqm/.%")) + []string{"ead/x", "nfo", "uery?query=m%7bsource_id=%22x%22%7d", "eta"}[sym.Choice("rest of the path", 4)]
	case 2:
		p = "/" + escape(ascii("segment", 1)) + "/api/v1/read/x"
	case 3:
		p = "/api/v1/read" + escape(ascii("separator", 1)) + "x"
	case 4:
		p = "/api/v1/query" + escape(ascii("more", 1)) + "?query=m%7bsource_id=%22x%22%7d"
	case 5:
		p = "/api/v1/info" + escape(ascii("more", sym.Int("more bytes", 0, 2))) + "/../read/x"
	}
	w := &world{may: func(string) bool { return true }, available: []string{"x"}, related: map[string][]string{}, meta: map[string]*logcache_v1.MetaInfo{"x": {Count: 77}}}
	r := request("GET", p, "")
	w.token(r)
	sym.Assume(!w.valid)
	in := &inner{}
	a := w.serve(in, r)
	if len(in.reqs) > 0 {
		sym.Assert(in.reqs[0].URL.Path == "/api/v1/info", "a request without a valid token passes")
		sym.Cover("info")
		return
	}
	sym.Assert(a.status >= 300, "a refused request looks like a success")
	sym.Assert(!strings.Contains(string(a.body), "77"), "a request without a valid token is told about sources")
	sym.Cover("refused")
}

type meter struct{}

func (meter) Set(float64) {}
func (meter) Add(float64) {}

type registry struct{}

func (registry) NewCounter(string, ...metrics.MetricOption) metrics.Counter { return meter{} }
func (registry) NewGauge(string, ...metrics.MetricOption) metrics.Gauge     { return meter{} }

// tape records what the query engine reads.
type tape struct{ ids []string }

func (t *tape) Read(ctx context.Context, in *logcache_v1.ReadRequest) (*logcache_v1.ReadResponse, error) {
	t.ids = append(t.ids, in.SourceId)
	return &logcache_v1.ReadResponse{Envelopes: &loggregator_v2.EnvelopeBatch{}}, nil
}

func has(ids []string, id string) bool {
	for _, x := range ids {
		if x == id {
			return true
		}
	}
	return false
}

// reads gives the sources a query reads.
func reads(q string) ([]string, bool) {
	t := &tape{}
	_, err := promql.New(t, registry{}, log.New(io.Discard, "", 0), 10*time.Second).InstantQuery(context.Background(), &logcache_v1.PromQL_InstantQueryRequest{Query: q, Time: "100"})
	return t.ids, err == nil
}

var queries = []struct {
	text string
	ids  []string
}{
	{`m{source_id="app"}`, []string{"app"}},
	{`m{source_id=~"app|b.1"}`, []string{"app", "b.1"}},
	{`sum(rate(m{source_id="app"}[1m])) / n{a!="z",source_id="b.1"}`, []string{"app", "b.1"}},
	{`m{source_id="app",source_id="b.1"}`, []string{"app", "b.1"}},
	{`m{source_id=~"app|g2|b.1"} unless n{source_id="g1"}`, []string{"app", "g2", "b.1", "g1"}},
	{`m{source_id="app"} or m{source_id="app"}`, []string{"app"}},
	{`m{source_id="app"} + m`, []string{"app"}}, // the second selector is refused by the query engine
	{`m`, nil},
	{`m{source_id!="app"}`, nil},
	{`m{source_id="app"`, nil},
	{`1 + 2`, nil},
	{``, nil},
}

// A01_Query queries sources, some of which stand for others.
func A01_Query() {
	sym.Expect("passed", "refused", "bad query", "reduced")
	qi := sym.Choice("query", len(queries))
	q := queries[qi]
	r := request("GET", "/api/v1/"+[]string{"query", "query_range"}[sym.Choice("endpoint", 2)], "")
	more := ""
	switch sym.Choice("parameters", 3) {
	case 1:
		more = "&time=5&step=1"
	case 2:
		more = "&query=" + url.QueryEscape(`m{source_id="secret"}`)
	}
	r.URL.RawQuery = "query=" + url.QueryEscape(q.text) + more
	w := &world{}
	w.token(r)
	w.related = []map[string][]string{
		nil, {}, {"app": {"g1"}}, {"app": {"g1", "g2"}, "b.1": {"g2"}}, {"app": {"b.1", "app"}, "other": {"secret"}}, {"b.1": {"g1"}},
	}[sym.Choice("related", 6)]
	want := map[string]bool{}
	full, pass, dropped := map[string][]string{}, w.valid && len(q.ids) > 0 && w.related != nil, false
	for _, id := range q.ids {
		full[id] = append(append([]string{}, w.related[id]...), id)
	}
	granted := map[string]bool{}
	if w.valid && !w.admin {
		for _, id := range []string{"app", "b.1", "g1", "g2"} {
			granted[id] = sym.Flag("may " + id)
		}
	}
	for _, id := range q.ids {
		n := 0
		for _, x := range full[id] {
			if w.admin || granted[x] {
				want[x] = true
				n++
			} else {
				dropped = true
			}
		}
		pass = pass && n > 0
	}
	w.may = func(s string) bool { return granted[s] }
	in := &inner{}
	a := w.serve(in, r)
	if len(in.reqs) == 0 {
		sym.Assert(!pass, "an authorised query is refused")
		sym.Assert(a.status >= 400, "a refused query looks like a success")
		sym.Cover("refused")
		if len(q.ids) == 0 && w.valid {
			sym.Assert(a.status == 400, "a query that names no source is not called bad")
			var e struct{ Status, ErrorType, Error string }
			sym.Assert(json.Unmarshal(a.body, &e) == nil && e.Status == "error" && e.ErrorType == "bad_data" && e.Error != "", "a bad query is not answered with an error of the PromQL API")
			sym.Cover("bad query")
		}
		return
	}
	sym.Assert(len(in.reqs) == 1, "a query is passed on once")
	sym.Assert(w.valid, "a query without a valid token passes")
	got := in.reqs[0].URL.Query()
	sym.Assert(len(got["query"]) == 1, "another query than the authorised one passes")
	touched, ok := reads(got.Get("query"))
	sym.Assert(ok || qi == 6, "a query that was passed on fails")
	for _, id := range touched {
		sym.Assert(w.admin || granted[id], "a query of an unauthorised source passes")
	}
	sym.Assert(pass, "a query of a source none of which is authorised passes")
	for id := range want {
		sym.Assert(!ok || has(touched, id), "a query is passed on without a source")
	}
	for _, id := range touched {
		sym.Assert(want[id], "a query is passed on with a source it did not name")
	}
	if more == "&time=5&step=1" {
		sym.Assert(len(got) == 3 && got.Get("time") == "5" && got.Get("step") == "1", "the parameters of a query are altered")
	}
	if dropped {
		sym.Cover("reduced")
	}
	sym.Cover("passed")
}

// A01_Meta asks for meta information.
func A01_Meta() {
	sym.Expect("told", "refused", "admin")
	r := request("GET", "/api/v1/meta", "")
	w := &world{metaErr: sym.Flag("log cache fails"), meta: map[string]*logcache_v1.MetaInfo{}}
	w.token(r)
	ids := []string{"a", "b/\"", "c"}
	want := map[string]int64{}
	for _, id := range ids[:sym.Int("sources", 0, 3)] {
		w.meta[id] = &logcache_v1.MetaInfo{Count: sym.Int64("count"), NewestTimestamp: 5}
	}
	w.may = func(s string) bool { return has(w.available, s) }
	if w.valid && !w.admin {
		for _, id := range append(ids, "elsewhere") {
			if sym.Flag("available " + id) {
				w.available = append(w.available, id)
			}
		}
	}
	for id, m := range w.meta {
		if w.admin || has(w.available, id) {
			want[id] = m.Count
		}
	}
	in := &inner{}
	a := w.serve(in, r)
	sym.Assert(len(in.reqs) == 0, "a meta request is passed on unfiltered")
	if !w.valid || w.metaErr {
		sym.Assert(a.status >= 400, "a refused request looks like a success")
		sym.Assert(!strings.Contains(string(a.body), "newest"), "a refused request is told about sources")
		sym.Cover("refused")
		return
	}
	var got struct {
		Meta map[string]struct {
			Count  *string `json:"count"`
			Newest *string `json:"newestTimestamp"`
		} `json:"meta"`
	}
	if err := json.Unmarshal(a.body, &got); err != nil {
		sym.Fail("the answer is not JSON")
	}
	sym.Assert(len(got.Meta) == len(want), "a meta answer has other sources than the authorised ones")
	for id, m := range got.Meta {
		n, ok := want[id]
		sym.Assert(ok, "a meta answer has an unauthorised source")
		sym.Assert(m.Count == nil && n == 0 || m.Count != nil && *m.Count == strconv.FormatInt(n, 10), "a meta answer is altered")
		sym.Assert(m.Newest != nil && *m.Newest == "5", "a meta answer is altered")
	}
	sym.Cover("told")
	if w.admin {
		sym.Cover("admin")
	}
}
