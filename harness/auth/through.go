package auth

import (
	"context"
	"crypto/tls"
	"crypto/x509"
	"errors"
	"io"
	"net/http"
	"net/url"
	"os"
	"strings"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/auth"
	"code.cloudfoundry.org/log-cache/internal/cfauthproxy"
	"code.cloudfoundry.org/log-cache/internal/gateway"
	"code.cloudfoundry.org/log-cache/internal/promql"
	"code.cloudfoundry.org/log-cache/internal/zzverif/keys"
	"code.cloudfoundry.org/log-cache/internal/zzverif/sym"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"google.golang.org/grpc"
)

// cache stands for the Log Cache behind the gateway: it notes what is read.
type cache struct{ ids []string }

func (c *cache) call(ctx context.Context, method string, req, reply interface{}, cc *grpc.ClientConn, invoker grpc.UnaryInvoker, opts ...grpc.CallOption) error {
	note := func(q string) {
		ids, _ := reads(q)
		c.ids = append(c.ids, ids...)
	}
	switch r := req.(type) {
	case *logcache_v1.ReadRequest:
		c.ids = append(c.ids, r.SourceId)
		reply.(*logcache_v1.ReadResponse).Envelopes = &loggregator_v2.EnvelopeBatch{}
	case *logcache_v1.PromQL_InstantQueryRequest:
		note(r.Query)
		reply.(*logcache_v1.PromQL_InstantQueryResult).Result = &logcache_v1.PromQL_InstantQueryResult_Vector{Vector: &logcache_v1.PromQL_Vector{}}
	case *logcache_v1.PromQL_RangeQueryRequest:
		note(r.Query)
		reply.(*logcache_v1.PromQL_RangeQueryResult).Result = &logcache_v1.PromQL_RangeQueryResult_Matrix{Matrix: &logcache_v1.PromQL_Matrix{}}
	default:
		sym.Fail("a request nobody made reaches the log cache")
	}
	return nil
}

var certFile, keyFile string

func keyPair() (string, string) {
	if certFile == "" || !sym.Native() {
		dir, err := os.MkdirTemp("", "auth")
		if err != nil {
			panic(err)
		}
		certFile, keyFile = dir+"/cert", dir+"/key"
		if err := errors.Join(os.WriteFile(certFile, []byte(keys.CertA), 0o600), os.WriteFile(keyFile, []byte(keys.KeyA), 0o600)); err != nil {
			panic(err)
		}
	}
	return certFile, keyFile
}

// A01_Through sends requests through the proxy and the gateway.
//
//sym:real
func A01_Through() {
	sym.Expect("read", "queried")
	c := &cache{}
	cert, key := keyPair()
	g := gateway.NewGateway("127.0.0.1:1", "127.0.0.1:0", cert, key, gateway.WithGatewayLogCacheDialOpts(grpc.WithInsecure(), grpc.WithUnaryInterceptor(c.call)))
	g.Start()
	pool := x509.NewCertPool()
	pool.AppendCertsFromPEM([]byte(keys.CertA))
	w := &world{valid: true, related: map[string][]string{"mine": {"m1"}, "other": {"secret"}}, may: func(s string) bool { return s == "mine" || s == "m1" }}
	p := cfauthproxy.NewCFAuthProxy("https://"+g.Addr(), "127.0.0.1:0", cert, key, pool, cfauthproxy.WithAuthMiddleware(auth.NewCFAuthMiddlewareProvider(w, w, w, promql.ExtractSourceIds, w).Middleware))
	p.Start()

	mine, secret := url.QueryEscape(`m{source_id="mine"}`), url.QueryEscape(`m{source_id="secret"}`)
	u, body, isQuery := "", "", false
	form := false
	switch sym.Choice("request", 9) {
	case 0:
		u = "/api/v1/read/mine"
	case 1:
		u = "/api/v1/read/" + escape(ascii("id", sym.Int("id bytes", 1, 2)))
	case 2:
		u = "/api/v1/read/mine" + escape(ascii("more", 1)) + []string{"", "secret", "../secret"}[sym.Choice("then", 3)]
	case 3:
		u = "/api/v1/read/mine?" + []string{"sourceId=", "source_id=", "sourceId[secret]=", "SourceId=", "limit=1&sourceId="}[sym.Choice("parameter", 5)] + "secret"
	case 4:
		u, body = "/api/v1/read/mine", "sourceId=secret&source_id=secret"
	case 5:
		u, isQuery = "/api/v1/query?query="+mine, true
	case 6:
		u, isQuery = "/api/v1/query?"+[]string{"query=" + mine + "&query=" + secret, "query=" + secret + "&query=" + mine, "query=" + mine + ";query=" + secret, "query[x]=" + secret + "&query=" + mine, "%71uery=" + secret, "Query=" + secret + "&query=" + mine}[sym.Choice("queries", 6)], true
	case 7:
		u, body, isQuery = "/api/v1/query?query="+mine, "query="+secret, true
	case 8:
		u, isQuery = "/api/v1/query_range?start=1&end=2&step=1&query="+mine, true
	}
	method := "GET"
	if body != "" {
		form = sym.Flag("form")
		method = []string{"GET", "POST", "PUT"}[sym.Choice("method", 3)]
	}
	req, err := http.NewRequest(method, "https://"+p.Addr()+u, strings.NewReader(body))
	if err != nil {
		sym.Fail("no request: " + err.Error())
	}
	req.Header.Set("Authorization", goodToken)
	if form {
		req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	}
	if sym.Flag("override") {
		req.Header.Set("X-Http-Method-Override", "GET")
	}
	res, err := (&http.Transport{TLSClientConfig: &tls.Config{InsecureSkipVerify: true}, DisableKeepAlives: true}).RoundTrip(req)
	if err != nil {
		sym.Fail("no response: " + err.Error())
	}
	if _, err := io.ReadAll(res.Body); err != nil {
		sym.Fail("no body: " + err.Error())
	}
	res.Body.Close()
	for _, id := range c.ids {
		sym.Assert(sym.Or(id == "mine", id == "m1"), "a source the user may not read reaches the log cache")
	}
	if res.StatusCode == 200 {
		sym.Assert(len(c.ids) > 0, "a request is answered without the log cache")
		if isQuery {
			sym.Cover("queried")
		} else {
			sym.Cover("read")
		}
		return
	}
	sym.Assert(u != "/api/v1/read/mine" || method != "GET", "an authorised read is refused")
}
