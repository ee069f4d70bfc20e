import os
_ns = {}
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)) if '__file__' in globals() else '/verif/tools/bugs', 'batch1.py')).read(), _ns)
HEAD, HT, MH, BH = (_ns[k] for k in ('HEAD', 'HT', 'MH', 'BH'))
MF = 'pkg/marshaler/marshaler.go'
W = 'pkg/client/walk.go'
WI = 'pkg/client/window.go'
C = 'pkg/client/client.go'
O = 'pkg/client/oauth2_http_client.go'
B = 'internal/blackbox/blackbox.go'
G = 'internal/gateway/gateway.go'
T = 'internal/tls/tls.go'
D = 'internal/promql/data_reader/walking_data_reader.go'
E = 'pkg/rpc/logcache_v1/egress.pb.gw.go'
BUGS = [
dict(id='info-memoised', property='C18', pkg='internal/gateway',
  needs='two info requests within a second between which the uptime changes',
  breaks='the info endpoint answers with an uptime remembered from an earlier request',
  edits=[(G, '		VMUptime: g.uptimeFn(),\n', '		VMUptime: g.currentUptime(),\n'),
    (G, 'func uptimeInSeconds() int64 {', '''// currentUptime asks the host at most once a second.
func (g *Gateway) currentUptime() int64 {
	g.uptimeMu.Lock()
	defer g.uptimeMu.Unlock()

	if now := time.Now(); now.Sub(g.uptimeAt) >= time.Second {
		g.uptime, g.uptimeAt = g.uptimeFn(), now
	}

	return g.uptime
}

func uptimeInSeconds() int64 {'''),
    (G, '	uptimeFn        func() int64\n', '	uptimeFn        func() int64\n	uptimeMu        sync.Mutex\n	uptime          int64\n	uptimeAt        time.Time\n'),
    (G, '	"strings"\n', '	"strings"\n	"sync"\n	"time"\n')],
  demo='''package gateway

import (
	"fmt"
	"net/http/httptest"
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	up := int64(41)
	g := NewGateway("", "", "", "", WithGatewayVMUptimeFn(func() int64 { up++; return up }))
	for i := 42; i < 45; i++ {
		w := httptest.NewRecorder()
		g.handleInfoEndpoint(w, httptest.NewRequest("GET", "/api/v1/info", nil))
		if !strings.Contains(w.Body.String(), fmt.Sprintf(`"vm_uptime":"%d"`, i)) {
			t.Fatalf("uptime %d: %s", i, w.Body)
		}
	}
}
'''),
dict(id='error-format-suffix', property='C19', pkg='internal/gateway',
  needs='a failing read of a source whose id ends in "/query"-like segments, such as /api/v1/read/query',
  breaks='errors of reads are given in the format of PromQL queries if the path merely ends like a query',
  edits=[(G, 'if r.URL.Path != "/api/v1/query" && r.URL.Path != "/api/v1/query_range" {', 'if !strings.HasSuffix(r.URL.Path, "/query") && !strings.HasSuffix(r.URL.Path, "/query_range") {')],
  demo='''package gateway

import (
	"context"
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/grpc-ecosystem/grpc-gateway/runtime"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

func TestZZDemo(t *testing.T) {
	g := NewGateway("", "", "", "")
	w := httptest.NewRecorder()
	ctx := runtime.NewServerMetadataContext(context.Background(), runtime.ServerMetadata{})
	g.httpErrorHandler(ctx, runtime.NewServeMux(), &runtime.JSONPb{}, w, httptest.NewRequest("GET", "/api/v1/read/query", nil), status.Error(codes.Unavailable, "gone"))
	if strings.Contains(w.Body.String(), "errorType") || w.Code != 503 {
		t.Fatalf("%d %s", w.Code, w.Body)
	}
}
'''),
dict(id='read-parameter-wins', property='C20', pkg='internal/gateway',
  needs='a read whose query string carries a source_id besides the one in the path',
  breaks='the parameter takes the place of the source id of the path',
  edits=[(E, 'filter_Egress_Read_0 = &utilities.DoubleArray{Encoding: map[string]int{"source_id": 0}, Base: []int{1, 1, 0}, Check: []int{0, 1, 2}}', 'filter_Egress_Read_0 = &utilities.DoubleArray{Encoding: map[string]int{}, Base: []int(nil), Check: []int(nil)}')],
  demo='''package gateway

import (
	"context"
	"net/http/httptest"
	"testing"

	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"github.com/grpc-ecosystem/grpc-gateway/runtime"
	"google.golang.org/grpc"
)

type zzEgress struct{ id string }

func (e *zzEgress) Read(ctx context.Context, r *logcache_v1.ReadRequest, o ...grpc.CallOption) (*logcache_v1.ReadResponse, error) {
	e.id = r.SourceId
	return &logcache_v1.ReadResponse{}, nil
}

func (e *zzEgress) Meta(ctx context.Context, r *logcache_v1.MetaRequest, o ...grpc.CallOption) (*logcache_v1.MetaResponse, error) {
	return nil, nil
}

func TestZZDemo(t *testing.T) {
	e := &zzEgress{}
	mux := runtime.NewServeMux()
	if err := logcache_v1.RegisterEgressHandlerClient(context.Background(), mux, e); err != nil {
		t.Fatal(err)
	}
	mux.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/api/v1/read/mine?limit=3&source_id=other", nil))
	if e.id != "mine" {
		t.Fatalf("read %q", e.id)
	}
}
'''),
dict(id='ca-pool-shared', property='C21', pkg='internal/tls',
  needs='two configurations made in one process with different certificate authorities',
  breaks='a configuration trusts the authorities of every configuration made before it',
  edits=[(T, '	caCertPool := x509.NewCertPool()\n', ''), (T, 'func NewBaseTLSConfig() *tls.Config {', 'var caCertPool = x509.NewCertPool()\n\nfunc NewBaseTLSConfig() *tls.Config {')],
  demo='''package tls

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"io/ioutil"
	"math/big"
	"path/filepath"
	"testing"
	"time"
)

func zzPair(t *testing.T, dir, name string) (string, string) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	tpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: name}, NotBefore: time.Unix(0, 0), NotAfter: time.Unix(1<<33, 0), IsCA: true, BasicConstraintsValid: true}
	c, err := x509.CreateCertificate(rand.Reader, tpl, tpl, k.Public(), k)
	if err != nil {
		t.Fatal(err)
	}
	b, err := x509.MarshalECPrivateKey(k)
	if err != nil {
		t.Fatal(err)
	}
	cp, kp := filepath.Join(dir, name+".crt"), filepath.Join(dir, name+".key")
	ioutil.WriteFile(cp, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: c}), 0600)
	ioutil.WriteFile(kp, pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: b}), 0600)
	return cp, kp
}

func TestZZDemo(t *testing.T) {
	d := t.TempDir()
	for _, n := range []string{"one", "two"} {
		c, k := zzPair(t, d, n)
		cfg, err := NewMutualTLSConfig(c, c, k, "x")
		if err != nil {
			t.Fatal(err)
		}
		if got := len(cfg.RootCAs.Subjects()); got != 1 {
			t.Fatalf("%s trusts %d authorities", n, got)
		}
	}
}
'''),
dict(id='read-partial-on-timeout', property='C22', pkg='internal/promql/data_reader',
  needs='a read whose context ends after at least one page arrived',
  breaks='a read that ran out of time gives the pages it has as if they were all',
  edits=[(D, '	if err := ctx.Err(); err != nil {', '	if err := ctx.Err(); err != nil && len(result) == 0 {')],
  demo='''package data_reader

import (
	"context"
	"testing"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/pkg/client"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
)

func TestZZDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	n := 0
	r := NewWalkingDataReader(func(_ context.Context, _ string, start time.Time, _ ...client.ReadOption) ([]*loggregator_v2.Envelope, error) {
		if n++; n == 2 {
			cancel()
		}
		return []*loggregator_v2.Envelope{{Timestamp: start.UnixNano()}}, nil
	})
	res, err := r.Read(ctx, &logcache_v1.ReadRequest{SourceId: "a", StartTime: 1, EndTime: 1000})
	if err == nil || res != nil {
		t.Fatalf("%v %v", res, err)
	}
}
'''),
dict(id='oauth2-empty-header', property='C09', pkg='pkg/client',
  needs='a request that carries an empty Authorization header on purpose',
  breaks='a request with an Authorization header is given a token instead of going through untouched',
  edits=[(O, '	if _, ok := req.Header["Authorization"]; ok {', '	if req.Header.Get("Authorization") != "" {')],
  demo=HT + '''
func TestZZDemo(t *testing.T) {
	h := &zzHTTP{f: func(r *http.Request, n int) (int, string) { return 200, `{"token_type":"bearer","access_token":"secret"}` }}
	c := NewOauth2HTTPClient("http://uaa", "id", "pw", WithOauth2HTTPClient(h))
	r, _ := http.NewRequest("GET", "http://elsewhere", nil)
	r.Header.Set("Authorization", "")
	if _, err := c.Do(r); err != nil {
		t.Fatal(err)
	}
	if len(h.reqs) != 1 || r.Header.Get("Authorization") != "" {
		t.Fatal("the request did not go through untouched")
	}
}
'''),
dict(id='backoff-narrow', property='C03', pkg='pkg/client',
  needs='a backoff with a maximum above 255',
  breaks='the count of failures wraps around before the maximum is reached, so that the backoff never gives up',
  edits=[(W, '	count    int\n', '	count    uint8\n'), (W, '''func (b *RetryBackoff) OnErr(error) bool {
	b.count++
	if b.count >= b.maxCount {''', '''func (b *RetryBackoff) OnErr(error) bool {
	b.count++
	if int(b.count) >= b.maxCount {'''), (W, '''	b.count++
	if b.count >= b.maxCount {
		return false
	}

	time.Sleep(b.interval)
	return true
}

// Reset''', '''	b.count++
	if int(b.count) >= b.maxCount {
		return false
	}

	time.Sleep(b.interval)
	return true
}

// Reset''')],
  demo=HEAD + '''
func TestZZDemo(t *testing.T) {
	b := NewRetryBackoff(0, 300)
	n := 0
	for b.OnErr(nil) {
		if n++; n > 1000 {
			t.Fatal("does not give up")
		}
	}
	if n != 299 {
		t.Fatal(n)
	}
	_ = context.Background
	_ = env
	_ = time.Now
}
'''),
dict(id='types-once', property='C05', pkg='pkg/client',
  needs='an option for envelope types that is used for more than one read, as a walk does',
  breaks='only the first read asks for the types',
  edits=[(C, '''		for _, v := range t {
			q.Add("envelope_types", v.String())
		}''', '''		for ; len(t) > 0; t = t[1:] {
			q.Add("envelope_types", t[0].String())
		}''')],
  demo=HT + '''
func TestZZDemo(t *testing.T) {
	h := &zzHTTP{f: func(r *http.Request, n int) (int, string) {
		if strings.HasSuffix(r.URL.Path, "/info") {
			return 200, `{"version":"1.4.7"}`
		}
		return 200, `{"envelopes":{"batch":[]}}`
	}}
	c := NewClient("http://lc", WithHTTPClient(h))
	o := WithEnvelopeTypes(logcache_v1.EnvelopeType_LOG)
	for i := 0; i < 2; i++ {
		if _, err := c.Read(context.Background(), "a", time.Unix(0, 0), o); err != nil {
			t.Fatal(err)
		}
		if q := h.reqs[len(h.reqs)-1].URL.Query()["envelope_types"]; len(q) != 1 || q[0] != "LOG" {
			t.Fatalf("read %d asks for %v", i, q)
		}
	}
}
'''),
dict(id='emit-gives-up', property='C16', pkg='internal/blackbox',
  needs='a send that fails as invalid or as exhausting resources',
  breaks='such a failure is not retried',
  edits=[(B, '''		if err == nil {
			break
		}

		time.Sleep(5''', '''		if err == nil || status.Code(err) == codes.ResourceExhausted {
			break
		}

		time.Sleep(5'''), (B, '	"google.golang.org/grpc"\n', '	"google.golang.org/grpc"\n	"google.golang.org/grpc/codes"\n	"google.golang.org/grpc/status"\n')],
  demo=BH.replace('	"google.golang.org/grpc"\n', '	"google.golang.org/grpc"\n	"google.golang.org/grpc/codes"\n	"google.golang.org/grpc/status"\n') + '''
func TestZZDemo(t *testing.T) {
	z := &zzIngress{err: func(n int) error { return status.Error(codes.ResourceExhausted, "busy") }}
	go StartEmittingTestMetrics("s", time.Second, z)
	time.Sleep(1500 * time.Millisecond)
	z.mu.Lock()
	defer z.mu.Unlock()
	if len(z.reqs) != 5 {
		t.Fatalf("%d attempts", len(z.reqs))
	}
	_ = sync.Mutex{}
}
'''),
dict(id='value-single', property='C11', pkg='pkg/marshaler',
  needs='a value that single precision cannot hold',
  breaks='values are rendered with the digits of their single precision neighbour',
  edits=[(MF, "strconv.FormatFloat(value, 'f', -1, 64)", "strconv.FormatFloat(value, 'f', -1, 32)")],
  demo=MH.replace('	"testing"\n', '	"strings"\n	"testing"\n') + '''
func TestZZDemo(t *testing.T) {
	b, err := m().Marshal(&logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Scalar{Scalar: &logcache_v1.PromQL_Scalar{Time: "1", Value: 16777217.25}}})
	if err != nil || strings.TrimSpace(string(b)) != `{"status":"success","data":{"resultType":"scalar","result":[1.000,"16777217.25"]}}` {
		t.Fatalf("%s %v", b, err)
	}
}
'''),
dict(id='measured-nan', property='C17', pkg='internal/blackbox',
  needs='a measurement that is not a number, as the reliability of a window without an expected sample is',
  breaks='such a metric is left out of the envelope',
  edits=[(B, '''	for metricName, value := range metrics {
		envelopeMetrics''', '''	for metricName, value := range metrics {
		if value != value {
			continue
		}

		envelopeMetrics''')],
  demo=BH.replace('	"log"\n', '	"log"\n	"math"\n') + '''
func TestZZDemo(t *testing.T) {
	z := &zzIngress{}
	EmitMeasuredMetrics("s", z, &zzQuery{up: 6000}, map[string]float64{"a": math.NaN(), "b": 2})
	if len(z.reqs) != 1 || len(z.reqs[0].Envelopes.Batch) != 1 || len(z.reqs[0].Envelopes.Batch[0].GetGauge().Metrics) != 2 {
		t.Fatalf("%v", z.reqs)
	}
}
'''),
dict(id='decode-merges-points', property='C12', pkg='pkg/marshaler',
  needs='a series with two points of the same time (to the millisecond)',
  breaks='decoding drops the first of two points of the same time',
  edits=[(MF, '			points = append(points, &logcache_v1.PromQL_Point{', '			if n := len(points); n > 0 && points[n-1].Time == time {\n				points = points[:n-1]\n			}\n			points = append(points, &logcache_v1.PromQL_Point{')],
  demo=MH + '''
func TestZZDemo(t *testing.T) {
	in := &logcache_v1.PromQL_RangeQueryResult{Result: &logcache_v1.PromQL_RangeQueryResult_Matrix{Matrix: &logcache_v1.PromQL_Matrix{Series: []*logcache_v1.PromQL_Series{
		{Metric: map[string]string{"a": "b"}, Points: []*logcache_v1.PromQL_Point{{Time: "1", Value: 1}, {Time: "1.0001", Value: 2}}}}}}}
	b, err := m().Marshal(in)
	if err != nil {
		t.Fatal(err)
	}
	var out logcache_v1.PromQL_RangeQueryResult
	if err := m().Unmarshal(b, &out); err != nil {
		t.Fatal(err)
	}
	if n := len(out.GetMatrix().Series[0].Points); n != 2 {
		t.Fatalf("%d points", n)
	}
}
'''),
dict(id='decode-lenient-time', property='C13', pkg='pkg/marshaler',
  needs='a point whose time is a string of digits',
  breaks='a point whose time is not a number is accepted',
  edits=[(MF, '	t, ok := point[0].(float64)\n', '	t, ok := point[0].(float64)\n	if s, isStr := point[0].(string); isStr {\n		if f, err := strconv.ParseFloat(s, 64); err == nil {\n			t, ok = f, true\n		}\n	}\n')],
  demo=MH + '''
func TestZZDemo(t *testing.T) {
	var out logcache_v1.PromQL_InstantQueryResult
	if m().Unmarshal([]byte(`{"status":"success","data":{"resultType":"scalar","result":["1.5","2"]}}`), &out) == nil {
		t.Fatal("accepted")
	}
}
'''),
]
