package auth

import (
	"crypto/tls"
	"crypto/x509"
	"io"
	"net"
	"net/http"
	"net/url"
	"strings"
	"sync"

	"code.cloudfoundry.org/log-cache/internal/auth"
	"code.cloudfoundry.org/log-cache/internal/cfauthproxy"
	"code.cloudfoundry.org/log-cache/internal/zzverif/keys"
	"code.cloudfoundry.org/log-cache/internal/zzverif/sym"
)

// upstream stands for the gateway.
type upstream struct {
	mu     sync.Mutex
	n      int
	got    *http.Request
	body   string
	status int
	header http.Header
	answer string
}

func (u *upstream) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
	u.mu.Lock()
	defer u.mu.Unlock()
	u.n++
	u.got = r
	b, err := io.ReadAll(r.Body)
	if err != nil {
		sym.Fail("no body: " + err.Error())
	}
	u.body = string(b)
	for k, v := range u.header {
		rw.Header()[k] = v
	}
	rw.WriteHeader(u.status)
	if r.Method != "HEAD" && u.status != 204 {
		rw.Write([]byte(u.answer))
	}
}

func (u *upstream) serve() string {
	cert, key := keyPair()
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s := &http.Server{Handler: u}
	go s.ServeTLS(l, cert, key)
	return l.Addr().String()
}

func poolOf(certs ...string) *x509.CertPool {
	p := x509.NewCertPool()
	for _, c := range certs {
		p.AppendCertsFromPEM([]byte(c))
	}
	return p
}

// get makes one request of the proxy.
func get(p *cfauthproxy.CFAuthProxy, c *tls.Config, method, uri, body string, h http.Header) (*http.Response, string, error) {
	req, err := http.NewRequest(method, "https://"+p.Addr()+uri, strings.NewReader(body))
	if err != nil {
		sym.Fail("no request: " + err.Error())
	}
	req.Header = h
	res, err := (&http.Transport{TLSClientConfig: c, DisableKeepAlives: true, DisableCompression: true}).RoundTrip(req)
	if err != nil {
		return nil, "", err
	}
	b, err := io.ReadAll(res.Body)
	if err != nil {
		sym.Fail("no body: " + err.Error())
	}
	res.Body.Close()
	return res, string(b), nil
}

// P01_Proxy sends requests through the proxy, to a gateway that answers
// anything.
//
//sym:real
func P01_Proxy() {
	sym.Expect("passed", "refused", "logged")
	up := &upstream{header: http.Header{"X-Other": {"a", "b"}}}
	up.status = []int{200, 204, 400, 404, 500, 503}[sym.Choice("status", 6)]
	up.answer = sym.StrOf("answer", sym.Int("answer bytes", 0, 2), "{\n\x00\xff")
	up.header.Set("Content-Type", []string{"application/json", "text/plain"}[sym.Choice("type", 2)])
	addr := up.serve()
	cert, key := keyPair()

	refuse := sym.Flag("refuse")
	f := &file{}
	mw := func(h http.Handler) http.Handler {
		return http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
			if refuse {
				rw.WriteHeader(http.StatusNotFound)
				return
			}
			h.ServeHTTP(rw, r)
		})
	}
	opts := []cfauthproxy.CFAuthProxyOption{cfauthproxy.WithAuthMiddleware(mw)}
	logs := sym.Flag("logs")
	if logs {
		opts = append(opts, cfauthproxy.WithAccessMiddleware(auth.NewAccessMiddleware(auth.NewAccessLogger(f), "10.0.0.1", "8083")))
	}
	p := cfauthproxy.NewCFAuthProxy("https://"+addr, "127.0.0.1:0", cert, key, poolOf(keys.CertA), opts...)
	p.Start()

	method, uri, body := "GET", "/api/v1/read/a?limit=1", ""
	h := http.Header{"Authorization": {goodToken}, "X-One": {"1", "2"}}
	n := sym.Bound("bytes", 1, 2)
	switch sym.Choice("vary", 5) {
	case 0:
		uri = "/api/v1/read/" + escape(sym.Str("path", n)) + "?limit=1"
	case 1:
		// The proxy leaves a query out that cannot be parsed.
		uri = "/api/v1/query?query=" + escape(sym.Str("query", n))
	case 2:
		method = []string{"GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS"}[sym.Choice("method", 6)]
	case 3:
		method = []string{"GET", "POST"}[sym.Choice("method", 2)]
		body = sym.Str("body", sym.Int("body bytes", 1, n+1))
		if sym.Flag("form") {
			body = []string{"query=b", "=", "a=1&query=%zz"}[sym.Choice("fields", 3)]
			h["Content-Type"] = []string{"application/x-www-form-urlencoded"}
		}
	case 4:
		s := visible("header", n)
		h["X-One"] = []string{s}
		h["X-Forwarded-For"] = []string{"9.8.7.6"}
		h["Content-Type"] = []string{"application/x-www-form-urlencoded"}
	}
	sent := h.Clone()
	res, got, err := get(p, &tls.Config{InsecureSkipVerify: true}, method, uri, body, h)
	if err != nil {
		sym.Fail("no response: " + err.Error())
	}
	if logs {
		sym.Assert(len(f.lines) == 1, "a request is not logged once")
		sym.Assert(strings.HasPrefix(f.lines[0], "CEF:0|cloud_foundry|log_cache|1.0|"+method+" /api/v1/") && strings.HasSuffix(f.lines[0], "\n") && strings.Count(f.lines[0], "\n") == 1, "a request is not logged as a line")
		sym.Cover("logged")
	} else {
		sym.Assert(len(f.lines) == 0, "a request is logged")
	}
	up.mu.Lock()
	defer up.mu.Unlock()
	if refuse {
		sym.Assert(up.n == 0, "a refused request reaches the gateway")
		sym.Assert(res.StatusCode == 404 && got == "", "a refused request is answered by the gateway")
		sym.Cover("refused")
		return
	}
	sym.Cover("passed")
	sym.Assert(up.n == 1, "a request does not reach the gateway once")
	r := up.got
	want, _ := url.ParseRequestURI(uri)
	sym.Assert(r.Method == method, "another method reaches the gateway")
	sym.Assert(sym.EqStr(r.URL.Path, want.Path), "another path reaches the gateway")
	sym.Assert(sym.EqStr(r.URL.EscapedPath(), want.EscapedPath()), "a path of another spelling reaches the gateway")
	wq, gq := want.Query(), r.URL.Query()
	sym.Assert(len(wq) == len(gq), "another query reaches the gateway")
	for k, v := range wq {
		sym.Assert(len(gq[k]) == 1 && sym.EqStr(gq[k][0], v[0]), "another query reaches the gateway")
	}
	sym.Assert(sym.EqStr(up.body, body), "another body reaches the gateway")
	for k, v := range sent {
		if k == "X-Forwarded-For" {
			continue
		}
		sym.Assert(len(r.Header[k]) == len(v), "headers are lost or added")
		for i := range v {
			sym.Assert(sym.EqStr(r.Header[k][i], v[i]), "another header reaches the gateway")
		}
	}
	sym.Assert(res.StatusCode == up.status, "another status is given than the gateway's")
	if method != "HEAD" && up.status != 204 {
		sym.Assert(sym.EqStr(got, up.answer), "another answer is given than the gateway's")
	}
	sym.Assert(res.Header.Get("Content-Type") == up.header.Get("Content-Type"), "another content type is given than the gateway's")
	sym.Assert(strings.Join(res.Header["X-Other"], ",") == "a,b", "another header is given than the gateway's")
}

// P01_Trust: who the proxy talks to, and how.
//
//sym:real
func P01_Trust() {
	sym.Expect("trusted", "untrusted", "old")
	up := &upstream{status: 200, answer: "answer"}
	addr := up.serve()
	cert, key := keyPair()
	trusts := false
	var pool *x509.CertPool
	switch sym.Choice("pool", 5) {
	case 0:
	case 1:
		pool = poolOf()
	case 2:
		pool = poolOf(keys.CertB)
	case 3:
		pool, trusts = poolOf(keys.CertA), true
	case 4:
		pool, trusts = poolOf(keys.CertB, keys.CertA), true
	}
	opts := []cfauthproxy.CFAuthProxyOption{}
	if sym.Flag("middleware") {
		opts = append(opts, cfauthproxy.WithAuthMiddleware(func(h http.Handler) http.Handler { return h }))
	}
	p := cfauthproxy.NewCFAuthProxy("https://"+addr, "127.0.0.1:0", cert, key, pool, opts...)
	p.Start()
	c := &tls.Config{RootCAs: poolOf(keys.CertA)}
	v := sym.Choice("version", 5)
	c.MinVersion = tls.VersionTLS10
	c.MaxVersion = []uint16{0, tls.VersionTLS10, tls.VersionTLS11, tls.VersionTLS12, tls.VersionTLS13}[v]
	res, got, err := get(p, c, "GET", "/api/v1/info", "", http.Header{"Authorization": {goodToken}})
	up.mu.Lock()
	defer up.mu.Unlock()
	if v == 1 || v == 2 {
		sym.Assert(err != nil, "the proxy accepts versions before TLS 1.2")
		sym.Assert(up.n == 0, "a request nobody made reaches the gateway")
		sym.Cover("old")
		return
	}
	if err != nil {
		sym.Fail("no response: " + err.Error())
	}
	if !trusts {
		sym.Assert(up.n == 0, "a request reaches a gateway that is not trusted")
		sym.Assert(res.StatusCode >= 500, "a request that reaches no gateway succeeds")
		sym.Cover("untrusted")
		return
	}
	sym.Assert(up.n == 1 && res.StatusCode == 200 && got == "answer", "a trusted gateway does not answer")
	sym.Cover("trusted")

	// The transport that others share
	t := cfauthproxy.NewTransportWithRootCA(pool)
	sym.Assert(t.TLSClientConfig != nil && t.TLSClientConfig.RootCAs == pool && !t.TLSClientConfig.InsecureSkipVerify, "a transport trusts others than the given authorities")
	sym.Assert(t.TLSHandshakeTimeout > 0, "a transport waits for a handshake forever")
}
