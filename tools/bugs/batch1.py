MF = 'pkg/marshaler/marshaler.go'
W = 'pkg/client/walk.go'
HEAD = '''package client

import (
	"context"
	"testing"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
)

type zzNever struct{ c *int }

func env(t int64) *loggregator_v2.Envelope { return &loggregator_v2.Envelope{Timestamp: t} }
'''
HT = '''package client

import (
	"context"
	"io/ioutil"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"testing"
	"time"

	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"google.golang.org/grpc"
)

var _ = time.Now
var _ = url.Parse
var _ grpc.CallOption
var _ logcache_v1.ReadRequest
var _ = context.Background

type zzBody struct {
	*strings.Reader
	closed bool
}

func (b *zzBody) Close() error { b.closed = true; return nil }

type zzHTTP struct {
	mu   sync.Mutex
	reqs []*http.Request
	body []*zzBody
	f    func(r *http.Request, n int) (int, string)
}

func (c *zzHTTP) Do(r *http.Request) (*http.Response, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	s, t := c.f(r, len(c.reqs))
	c.reqs = append(c.reqs, r)
	b := &zzBody{Reader: strings.NewReader(t)}
	c.body = append(c.body, b)
	return &http.Response{StatusCode: s, Body: b, Header: http.Header{}}, nil
}

var _ = ioutil.ReadAll
'''
MH = '''package marshaler

import (
	"testing"

	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"github.com/grpc-ecosystem/grpc-gateway/runtime"
)

var _ logcache_v1.PromQL_Point

func m() *PromqlMarshaler { return NewPromqlMarshaler(&runtime.JSONPb{}) }
'''
BH = '''package blackbox

import (
	"context"
	"errors"
	"io/ioutil"
	"log"
	"sync"
	"testing"
	"time"

	"code.cloudfoundry.org/log-cache/pkg/client"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"google.golang.org/grpc"
)

var _ = errors.New
var _ = time.Now
var _ = log.New
var _ = ioutil.Discard

type zzIngress struct {
	mu   sync.Mutex
	reqs []*logcache_v1.SendRequest
	err  func(n int) error
}

func (z *zzIngress) Send(ctx context.Context, r *logcache_v1.SendRequest, o ...grpc.CallOption) (*logcache_v1.SendResponse, error) {
	z.mu.Lock()
	defer z.mu.Unlock()
	z.reqs = append(z.reqs, r)
	if z.err != nil {
		return nil, z.err(len(z.reqs))
	}
	return &logcache_v1.SendResponse{}, nil
}

type zzQuery struct {
	up  int64
	err error
	at  []string
	q   func() *logcache_v1.PromQL_InstantQueryResult
}

func (z *zzQuery) LogCacheVMUptime(context.Context) (int64, error) { return z.up, z.err }
func (z *zzQuery) PromQL(ctx context.Context, q string, o ...client.PromQLOption) (*logcache_v1.PromQL_InstantQueryResult, error) {
	return z.q(), nil
}
'''
BUGS = [
dict(id='walk-short-page-ends', property='C01', pkg='pkg/client',
  needs='a walk with an end time and a limit above what the server applies, or one of whose pages was shortened by pruning',
  breaks='a page shorter than the asked limit ends the walk although the server capped it',
  edits=[(W, "		c.start = es[len(es)-1].Timestamp + 1\n", "		// A page that is not full is the last one.\n		if !c.end.IsZero() && c.limit != nil && len(es) < *c.limit {\n			return\n		}\n\n		c.start = es[len(es)-1].Timestamp + 1\n")],
  demo=HEAD + '''
func TestZZDemo(t *testing.T) {
	var got int
	r := func(ctx context.Context, id string, start time.Time, o ...ReadOption) ([]*loggregator_v2.Envelope, error) {
		var es []*loggregator_v2.Envelope
		for i := start.UnixNano(); i < 10 && len(es) < 3; i++ {
			es = append(es, env(i))
		}
		return es, nil
	}
	Walk(context.Background(), "s", func(es []*loggregator_v2.Envelope) bool { got += len(es); return true }, r,
		WithWalkLimit(5000), WithWalkEndTime(time.Unix(0, 10)))
	if got != 10 {
		t.Fatalf("got %d", got)
	}
}
'''),
dict(id='walk-empty-sticks', property='C02', pkg='pkg/client',
  needs='a walk with an end time and a retrying backoff, one empty page, then at least two pages with envelopes of which the second holds too new ones',
  breaks='after one empty page no later page is pruned of envelopes that are too new',
  edits=[(W, "		c.backoff.Reset()\n		receivedEmpty = false\n", "		c.backoff.Reset()\n		if c.end.IsZero() {\n			receivedEmpty = false\n		}\n")],
  demo=HEAD + '''
func TestZZDemo(t *testing.T) {
	now := time.Now().UnixNano()
	n := 0
	r := func(ctx context.Context, id string, start time.Time, o ...ReadOption) ([]*loggregator_v2.Envelope, error) {
		n++
		switch n {
		case 2:
			return []*loggregator_v2.Envelope{env(now - int64(time.Hour))}, nil
		case 3:
			return []*loggregator_v2.Envelope{env(now - int64(time.Minute)), env(now + int64(time.Minute))}, nil
		}
		return nil, nil
	}
	Walk(context.Background(), "s", func(es []*loggregator_v2.Envelope) bool {
		for _, e := range es {
			if e.Timestamp > now {
				t.Fatalf("too new envelope handed over")
			}
		}
		return n < 3
	}, r, WithWalkEndTime(time.Now().Add(time.Hour)), WithWalkBackoff(NewRetryBackoff(time.Millisecond, 5)))
}
'''),
dict(id='backoff-onerr-reset', property='C03', pkg='pkg/client',
  needs='an error-only backoff, errors before and after a page that was handed over',
  breaks='errors before a success count against the maximum of consecutive failures',
  edits=[(W, "func (b *RetryBackoff) Reset() {\n	b.count = 0\n}", "func (b *RetryBackoff) Reset() {\n	if !b.onlyErr {\n		b.count = 0\n	}\n}")],
  demo=HEAD + '''
func TestZZDemo(t *testing.T) {
	b := NewRetryBackoffOnErr(0, 3)
	if !b.OnErr(nil) || !b.OnErr(nil) {
		t.Fatal("gave up early")
	}
	b.Reset()
	if !b.OnErr(nil) || !b.OnErr(nil) || b.OnErr(nil) {
		t.Fatal("reset did not start counting again")
	}
	_ = context.Background
	_ = env
	_ = time.Now
}
'''),
dict(id='window-end-clipped', property='C04', pkg='pkg/client',
  needs='a window that reaches into the future',
  breaks='a window that ends in the future is cut off at the current time and so is not the configured width wide',
  edits=[('pkg/client/window.go', "		es := w(walkCtx, c.start, c.start.Add(c.width))\n", "		end := c.start.Add(c.width)\n		if now := time.Now(); end.After(now) {\n			end = now\n		}\n\n		es := w(walkCtx, c.start, end)\n")],
  demo=HEAD + '''
func TestZZDemo(t *testing.T) {
	Window(context.Background(), func([]*loggregator_v2.Envelope) bool { return false },
		func(ctx context.Context, s, e time.Time) []*loggregator_v2.Envelope {
			if e.Sub(s) != time.Hour {
				t.Errorf("width %v", e.Sub(s))
			}
			return nil
		}, WithWindowInterval(20*time.Millisecond), WithWindowWidth(time.Hour), WithWindowStartTime(time.Now().Add(-time.Minute)))
	_ = env
}
'''),
dict(id='grpc-limit-32', property='C05', pkg='pkg/client',
  needs='a read over gRPC with a limit that needs more than 32 bits',
  breaks='the limit asked for over gRPC is clamped to 32 bits while HTTP asks for the given one',
  edits=[('pkg/client/client.go', "		req.Limit, _ = strconv.ParseInt(v[0], 10, 64)", "		req.Limit, _ = strconv.ParseInt(v[0], 10, 32)")],
  demo=HT + '''
type zzEgress struct{ req *logcache_v1.ReadRequest }

func (z *zzEgress) Read(ctx context.Context, r *logcache_v1.ReadRequest, o ...grpc.CallOption) (*logcache_v1.ReadResponse, error) {
	z.req = r
	return &logcache_v1.ReadResponse{}, nil
}
func (z *zzEgress) Meta(ctx context.Context, r *logcache_v1.MetaRequest, o ...grpc.CallOption) (*logcache_v1.MetaResponse, error) {
	return nil, nil
}

func TestZZDemo(t *testing.T) {
	z := &zzEgress{}
	defer func() { recover() }()
	c := &Client{grpcClient: z}
	c.Read(context.Background(), "s", time.Unix(0, 1), WithLimit(1<<40))
	if z.req.Limit != 1<<40 {
		t.Fatalf("limit %d", z.req.Limit)
	}
}
'''),
dict(id='prefix-prerelease', property='C06', pkg='pkg/client',
  needs='a server reporting a pre-release of 2.0.0',
  breaks='a pre-release of 2.0.0 precedes 2.0.0 but is asked under /api/v1',
  edits=[('pkg/client/client.go', "	if logCacheVersion.GTE(FIRST_LOG_CACHE_VERSION_AFTER_API_MOVE) {", "	if logCacheVersion.Major >= FIRST_LOG_CACHE_VERSION_AFTER_API_MOVE.Major {")],
  demo=HT + '''
func TestZZDemo(t *testing.T) {
	h := &zzHTTP{f: func(r *http.Request, n int) (int, string) {
		if n == 0 {
			return 200, `{"version":"2.0.0-rc.1"}`
		}
		return 200, `{}`
	}}
	c := NewClient("http://x", WithHTTPClient(h))
	c.Read(context.Background(), "s", time.Unix(0, 1))
	if len(h.reqs) != 2 || h.reqs[1].URL.Path != "/v1/read/s" {
		t.Fatalf("asked %v", h.reqs[1].URL)
	}
}
'''),
dict(id='meta-body-leak', property='C07', pkg='pkg/client',
  needs='a meta call answered with a status other than 200',
  breaks='the response body of a rejected meta call is never closed',
  edits=[('pkg/client/client.go', "	defer resp.Body.Close()\n\n	if resp.StatusCode != http.StatusOK {\n		return nil, fmt.Errorf(\"unexpected status code %d\", resp.StatusCode)\n	}\n\n	var metaResponse logcache_v1.MetaResponse\n", "	if resp.StatusCode != http.StatusOK {\n		return nil, fmt.Errorf(\"unexpected status code %d\", resp.StatusCode)\n	}\n	defer resp.Body.Close()\n\n	var metaResponse logcache_v1.MetaResponse\n")],
  demo=HT + '''
func TestZZDemo(t *testing.T) {
	h := &zzHTTP{f: func(r *http.Request, n int) (int, string) {
		if n == 0 {
			return 200, `{"version":"2.0.0"}`
		}
		return 503, `{}`
	}}
	c := NewClient("http://x", WithHTTPClient(h))
	if _, err := c.Meta(context.Background()); err == nil {
		t.Fatal("no error")
	}
	for i, b := range h.body {
		if !b.closed {
			t.Fatalf("body %d not closed", i)
		}
	}
}
'''),
dict(id='promql-millis-trunc', property='C08', pkg='pkg/client',
  needs='a time before 1970 that is no whole number of seconds',
  breaks='the fraction of a time before the epoch is written with the wrong sign and value',
  edits=[('pkg/client/client.go', '	return fmt.Sprintf("%.3f", float64(t.UnixNano())/1e9)', '	ms := (t.UnixNano() + 5e5) / 1e6\n	return fmt.Sprintf("%d.%03d", ms/1000, ms%1000)')],
  demo=HT + '''
func TestZZDemo(t *testing.T) {
	h := &zzHTTP{f: func(r *http.Request, n int) (int, string) {
		return 200, `{"status":"success","data":{"resultType":"scalar","result":[1,"2"]}}`
	}}
	c := NewClient("http://x", WithHTTPClient(h))
	c.PromQL(context.Background(), "q", WithPromQLTime(time.Unix(-2, 500000000)))
	if got := h.reqs[0].URL.Query().Get("time"); got != "-1.500" {
		t.Fatalf("time %s", got)
	}
}
'''),
dict(id='oauth2-redirect-keeps', property='C09', pkg='pkg/client',
  needs='a response in 300-399 or below 200 to an authorised request, followed by another request',
  breaks='a token whose request was answered with a redirect is kept',
  edits=[('pkg/client/oauth2_http_client.go', "	if resp.StatusCode < http.StatusOK || resp.StatusCode >= http.StatusMultipleChoices {", "	if resp.StatusCode >= http.StatusBadRequest {")],
  demo=HT + '''
func TestZZDemo(t *testing.T) {
	tokens := 0
	h := &zzHTTP{f: func(r *http.Request, n int) (int, string) {
		if r.URL.Path == "/oauth/token" {
			tokens++
			return 200, `{"token_type":"bearer","access_token":"t"}`
		}
		return 302, ``
	}}
	c := NewOauth2HTTPClient("http://uaa", "c", "s", WithOauth2HTTPClient(h))
	for i := 0; i < 2; i++ {
		r, _ := http.NewRequest("GET", "http://x/", nil)
		c.Do(r)
	}
	if tokens != 2 {
		t.Fatalf("%d tokens fetched", tokens)
	}
}
'''),
dict(id='oauth2-user-unlocked', property='C10', pkg='pkg/client', race=True,
  needs='concurrent requests through one client configured with a user',
  breaks='the token is read and written without the lock in the user flow',
  edits=[('pkg/client/oauth2_http_client.go', "func (c *Oauth2HTTPClient) getUserToken() (string, error) {\n	c.mu.Lock()\n	defer c.mu.Unlock()\n", "func (c *Oauth2HTTPClient) getUserToken() (string, error) {\n	if c.token != \"\" {\n		return c.token, nil\n	}\n\n	c.mu.Lock()\n	defer c.mu.Unlock()\n")],
  demo=HT + '''
func TestZZDemo(t *testing.T) {
	h := &zzHTTP{f: func(r *http.Request, n int) (int, string) {
		if r.URL.Path == "/oauth/token" {
			return 200, `{"token_type":"bearer","access_token":"t"}`
		}
		if n%3 == 0 {
			return 401, ``
		}
		return 200, ``
	}}
	c := NewOauth2HTTPClient("http://uaa", "c", "s", WithOauth2HTTPClient(h), WithOauth2HTTPUser("u", "p"))
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				r, _ := http.NewRequest("GET", "http://x/", nil)
				c.Do(r)
			}
		}()
	}
	wg.Wait()
}
'''),
dict(id='matrix-null-labels', property='C11', pkg='pkg/marshaler',
  needs='a matrix of at least two series of which a later one has no labels',
  breaks='a series without labels is rendered with the labels of the series before it',
  edits=[('pkg/marshaler/marshaler.go', "	result := make([]interface{}, 0)\n\n	for _, s := range v.GetSeries() {\n", "	result := make([]interface{}, 0)\n	metric := make(map[string]string, 0)\n\n	for _, s := range v.GetSeries() {\n"),
         ('pkg/marshaler/marshaler.go', "		metric := s.GetMetric()\n		if metric == nil {\n			metric = make(map[string]string, 0)\n		}\n\n		result = append(result", "		if labels := s.GetMetric(); labels != nil {\n			metric = labels\n		}\n\n		result = append(result")],
  demo=MH + '''
func TestZZDemo(t *testing.T) {
	b, err := m().Marshal(&logcache_v1.PromQL_RangeQueryResult{Result: &logcache_v1.PromQL_RangeQueryResult_Matrix{Matrix: &logcache_v1.PromQL_Matrix{
		Series: []*logcache_v1.PromQL_Series{{Metric: map[string]string{"a": "b"}}, {}}}}})
	want := `{"status":"success","data":{"resultType":"matrix","result":[{"metric":{"a":"b"},"values":[]},{"metric":{},"values":[]}]}}` + "\\n"
	if err != nil || string(b) != want {
		t.Fatalf("%s %v", b, err)
	}
}
'''),
dict(id='decode-time-truncated', property='C12', pkg='pkg/marshaler',
  needs='a time whose milliseconds are not exact in binary',
  breaks='decoded times are truncated instead of rounded to milliseconds',
  edits=[('pkg/marshaler/marshaler.go', "	return strconv.FormatFloat(t, 'f', 3, 64), decodedValue, nil", "	millis := int64(t * 1000)\n	return fmt.Sprintf(\"%d.%03d\", millis/1000, millis%1000), decodedValue, nil")],
  demo=MH + '''
func TestZZDemo(t *testing.T) {
	b, _ := m().Marshal(&logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Scalar{Scalar: &logcache_v1.PromQL_Scalar{Time: "1.001", Value: 3}}})
	for _, s := range []string{"1.001", "4.035", "8.029", "1.005", "1.105"} {
		b, _ = m().Marshal(&logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Scalar{Scalar: &logcache_v1.PromQL_Scalar{Time: s, Value: 3}}})
		var q logcache_v1.PromQL_InstantQueryResult
		if err := m().Unmarshal(b, &q); err != nil || q.GetScalar().GetTime() != s {
			t.Fatalf("%s %v %v", s, q, err)
		}
	}
}
'''),
dict(id='point-three-elements', property='C13', pkg='pkg/marshaler',
  needs='a point with more than two elements',
  breaks='a point with three elements is accepted',
  edits=[('pkg/marshaler/marshaler.go', "	if len(point) != 2 {", "	if len(point) < 2 {")],
  demo=MH + '''
func TestZZDemo(t *testing.T) {
	var q logcache_v1.PromQL_InstantQueryResult
	if err := m().Unmarshal([]byte(`{"status":"success","data":{"resultType":"scalar","result":[1,"2","3"]}}`), &q); err == nil {
		t.Fatal("accepted")
	}
}
'''),
dict(id='decoder-eof-swallow', property='C14', pkg='pkg/marshaler',
  needs='a stream decoder asked for a message that is no PromQL result at the end of its stream',
  breaks='the stream decoder hides the end of the stream that the fallback reports',
  edits=[(MF, "		return fallbackDecoder.Decode(v)\n", "		if err := fallbackDecoder.Decode(v); err != nil && err != io.EOF {\n			return err\n		}\n\n		return nil\n")],
  demo=MH.replace('"testing"', '"io"\n	"strings"\n	"testing"') + '''
func TestZZDemo(t *testing.T) {
	var q logcache_v1.MetaRequest
	if err := m().NewDecoder(strings.NewReader("")).Decode(&q); err != io.EOF {
		t.Fatalf("%v", err)
	}
}
'''),
dict(id='reliability-last-series', property='C15', pkg='internal/blackbox',
  needs='an answer of several series of different length',
  breaks='the points of every series are counted rather than those of the returned series',
  edits=[('internal/blackbox/blackbox.go', "	return uint64(len(points)), nil", "	if missing := int(rc.ExpectedSamples()) - len(points); missing < 0 {\n		return uint64(rc.ExpectedSamples()), nil\n	}\n\n	return uint64(len(points)), nil")],
  demo=BH + '''
func TestZZDemo(t *testing.T) {
	l := log.New(ioutil.Discard, "", 0)
	rc := ReliabilityCalculator{SampleInterval: time.Second, WindowInterval: 4 * time.Second, EmissionInterval: 2 * time.Second, SourceId: "s", InfoLogger: l, ErrorLogger: l}
	z := &zzQuery{q: func() *logcache_v1.PromQL_InstantQueryResult {
		return &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Matrix{Matrix: &logcache_v1.PromQL_Matrix{
			Series: []*logcache_v1.PromQL_Series{{Points: []*logcache_v1.PromQL_Point{{Time: "1"}, {Time: "2"}, {Time: "3"}}}}}}}
	}}
	f, err := rc.Calculate(z)
	if err != nil || f != 1.5 {
		t.Fatalf("%v %v", f, err)
	}
}
'''),
dict(id='emit-retry-grows', property='C16', pkg='internal/blackbox',
  needs='a send that fails and is retried',
  breaks='a retry does not carry the timestamp of the tick but the time of the retry',
  edits=[('internal/blackbox/blackbox.go', "		time.Sleep(5 * time.Millisecond)\n	}\n\n	if err != nil {\n		log.Printf(\"failed to write test metric envelope", "		time.Sleep(5 * time.Millisecond)\n		for _, e := range batch {\n			e.Timestamp += int64(5 * time.Millisecond)\n		}\n	}\n\n	if err != nil {\n		log.Printf(\"failed to write test metric envelope")],
  demo=BH + '''
func TestZZDemo(t *testing.T) {
	var at []int64
	z := &zzIngress{}
	z.err = func(n int) error {
		at = append(at, z.reqs[n-1].Envelopes.Batch[0].Timestamp)
		if n < 3 {
			return errors.New("e")
		}
		return nil
	}
	emitTestMetrics("s", z, time.Unix(0, 1000))
	if len(at) != 3 || at[0] != 1000 || at[2] != 1000 {
		t.Fatalf("%v", at)
	}
}
'''),
dict(id='uptime-zero', property='C17', pkg='internal/blackbox',
  needs='a VM that reports an uptime of zero seconds',
  breaks='metrics measured on a VM that has just started are sent',
  edits=[('internal/blackbox/blackbox.go', "	if up >= 0 && up < TEN_MINUTES {", "	if up > 0 && up < TEN_MINUTES {")],
  demo=BH + '''
func TestZZDemo(t *testing.T) {
	z := &zzIngress{}
	EmitMeasuredMetrics("s", z, &zzQuery{up: 0}, map[string]float64{"m": 1})
	if len(z.reqs) != 0 {
		t.Fatal("sent")
	}
}
'''),
]
