package auth

import (
	"errors"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"time"

	"code.cloudfoundry.org/log-cache/internal/auth"
	"code.cloudfoundry.org/log-cache/internal/zzverif/sym"
)

// reader takes a line of an access log apart.
type reader struct{ rest string }

func (r *reader) lit(s, what string) {
	sym.Assert(strings.HasPrefix(r.rest, s), "the access log line has no "+what)
	r.rest = r.rest[len(s):]
}

var entities = map[string]string{`"`: "&#34;", "&": "&amp;", "'": "&#39;", "+": "&#43;", "<": "&lt;", ">": "&gt;"}

// val reads a value: every byte as it is, as in HTML or, in a request's URL,
// percent-encoded where it is none that URLs have.
func (r *reader) val(s, what string, inURL bool) {
	for i := 0; i < len(s); i++ {
		b := s[i]
		if r.rest != "" && r.rest[0] == b && !strings.HasPrefix(r.rest, "&") {
			r.rest = r.rest[1:]
			sym.Assert(sym.And(b != '\n', b != '\r'), "the "+what+" breaks the line of an access log")
			sym.Assert(sym.Not(sym.And(inURL, sym.Or(b == ' ', b == '|'))), "the "+what+" passes for fields of an access log")
			continue
		}
		if n := len("%00"); inURL && len(r.rest) >= n && sym.Concrete(int64(r.rest[0])) == '%' && r.rest[:n] == escape(s[i:i+1]) {
			r.rest = r.rest[n:]
			continue
		}
		sym.Assert(strings.IndexByte("\"&'+<>", b) >= 0, "the "+what+" is another one in the access log")
		if strings.HasPrefix(r.rest, "&") {
			e := entities[s[i:i+1]]
			if strings.HasPrefix(r.rest, e) {
				r.rest = r.rest[len(e):]
				continue
			}
		}
		r.lit("&", what)
	}
}

type logged struct {
	req                          *http.Request
	uri, id                      string
	host, port, srcHost, srcPort string
	ts                           time.Time
}

// check says whether a line tells of a request.
func (l *logged) check(line string) {
	r := &reader{line}
	r.lit("CEF:0|cloud_foundry|log_cache|1.0|", "header")
	for i := 0; i < 2; i++ {
		r.val(l.req.Method, "method", false)
		r.lit(" ", "method")
		r.val(l.uri, "request", true)
		r.lit("|", "request")
	}
	r.lit("0|rt="+strconv.FormatInt(l.ts.UnixNano()/1e6, 10)+" cs1Label=userAuthenticationMechanism cs1=oauth-access-token cs2Label=vcapRequestId cs2=", "time")
	r.val(l.id, "request id", false)
	r.lit(" request=", "request id")
	r.val(l.uri, "request", true)
	r.lit(" requestMethod=", "request")
	r.val(l.req.Method, "method", false)
	r.lit(" src=", "method")
	r.val(l.srcHost, "source", false)
	r.lit(" spt=", "source")
	r.lit(l.srcPort, "source port")
	r.lit(" dst=", "source port")
	r.val(l.host, "destination", false)
	r.lit(" dpt=", "destination")
	r.val(l.port, "destination port", false)
	sym.Assert(r.rest == "", "an access log line goes on")
}

// visible is text a header may hold.
func visible(name string, n int) string {
	s := sym.Str(name, n)
	for i := range s {
		sym.Assume(sym.And(s[i] >= '!', s[i] <= '~'))
	}
	return s
}

func newLogged(ts time.Time) *logged {
	l := &logged{ts: ts, host: "10.0.0.1", port: "8083", uri: "/", id: ""}
	method := "GET"
	addr := "1.2.3.4:5678"
	l.srcHost, l.srcPort = "1.2.3.4", "5678"
	xff := []string{}
	n := sym.Bound("bytes", 2, 3)
	switch sym.Choice("vary", 6) {
	case 0: // any byte, encoded
		l.uri += escape(sym.Str("path", n-1))
		if sym.Flag("query") {
			l.uri += "?" + escape(sym.Str("query", n-1))
		}
		sym.Cover("encoded")
	case 1: // any byte as it is
		s := visible("path", n)
		for i := range s {
			sym.Assume(sym.And(s[i] != '%', s[i] != '?'))
		}
		l.uri += s
	case 2:
		s := visible("query", n)
		l.uri = "/p?" + s
		sym.Cover("query")
	case 3:
		l.id = visible("id", sym.Int("id bytes", 0, n))
	case 4:
		m := visible("method", sym.Int("method bytes", 1, n))
		for i := range m {
			sym.Assume(sym.Or(sym.And(m[i] >= 'A', m[i] <= 'Z'), sym.And(m[i] >= 'a', m[i] <= 'z'), m[i] == '+', m[i] == '\'', m[i] == '&'))
		}
		method = m
	case 5:
		l.srcPort = ""
		type from struct{ addr, xff, host, port string }
		f := []from{
			{"[::1]:7", "", "::1", "7"},
			{addr, "9.8.7.6", "9.8.7.6", ""},
			{addr, "9.8.7.6, 1.1.1.1", "9.8.7.6", ""},
			{addr, "9.8.7.6,1.1.1.1,2.2.2.2", "9.8.7.6", ""},
			{addr, "9.8.7.6:54", "9.8.7.6", "54"},
			{addr, "9.8.7.6:54, 1.1.1.1:3", "9.8.7.6", "54"},
			{addr, "2001:db8::1", "2001:db8::1", ""},
			{addr, "2001:db8::1, 1.1.1.1", "2001:db8::1", ""},
			{addr, "::1", "::1", ""},
			{addr, "[2001:db8::1]:54", "2001:db8::1", "54"},
			{addr, "client", "client", ""},
			{addr, "unknown, 1.1.1.1", "unknown", ""},
			{addr, ", 1.1.1.1", "1.2.3.4", "5678"},
		}[sym.Choice("source", 13)]
		addr, l.srcHost, l.srcPort = f.addr, f.host, f.port
		if f.xff != "" {
			xff = append(xff, f.xff)
		}
		sym.Cover("source")
	}
	u, err := url.ParseRequestURI(l.uri)
	if err != nil {
		sym.Fail("no URL: " + err.Error())
	}
	l.req = &http.Request{Method: method, URL: u, RequestURI: l.uri, Header: http.Header{}, Host: "log-cache", RemoteAddr: addr}
	if l.id != "" {
		l.req.Header.Set("X-Vcap-Request-Id", l.id)
	}
	if len(xff) > 0 {
		l.req.Header["X-Forwarded-For"] = xff
	}
	if sym.Flag("more headers") {
		l.req.Header.Set("X-Forwarded-Host", "other")
		l.req.Header.Set("Authorization", goodToken)
	}
	return l
}

// P01_Log logs any request.
func P01_Log() {
	sym.Expect("encoded", "query", "source")
	ts := time.Unix(0, []int64{1257894000123456789, 1, 999999, 1000000}[sym.Choice("time", 4)])
	l := newLogged(ts)
	l.check(auth.NewAccessLog(l.req, ts, l.host, l.port).String())
}

// log is a file that may not take what is written to it.
type file struct {
	lines []string
	fails bool
}

var errFull = errors.New("no space left")

func (f *file) Write(b []byte) (int, error) {
	f.lines = append(f.lines, string(b))
	if f.fails {
		return 0, errFull
	}
	return len(b), nil
}

// P01_Access: every request is logged once, before it is handled, and handled
// all the same when it cannot be logged.
func P01_Access() {
	sym.Expect("failed", "refused")
	f := &file{fails: sym.Flag("log fails")}
	n := 0
	var want []*logged
	refuse := sym.Flag("refused")
	h := http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		n++
		sym.Assert(len(f.lines) == n, "a request is handled before it is logged")
		sym.Assert(r == want[n-1].req, "another request is handled than the one logged")
		if refuse {
			rw.WriteHeader(http.StatusNotFound)
			sym.Cover("refused")
			return
		}
		rw.Write([]byte("answer"))
	})
	m := auth.NewAccessMiddleware(auth.NewAccessLogger(f), "10.0.0.1", "8083")(h)
	for i := 0; i < 2; i++ {
		time.Sleep(time.Duration(sym.Choice("wait", 2)) * 1500 * time.Microsecond)
		l := &logged{host: "10.0.0.1", port: "8083", uri: []string{"/a", "/b?c"}[i], srcHost: "1.2.3.4", srcPort: "5"}
		l.req = request("GET", l.uri, "")
		want = append(want, l)
		l.ts = time.Now()
		a := &answer{header: http.Header{}}
		m.ServeHTTP(a, l.req)
		sym.Assert(n == i+1 && len(f.lines) == n, "a request is not logged and handled once")
		if refuse {
			sym.Assert(a.status == 404 && len(a.body) == 0, "another answer is given")
		} else {
			sym.Assert(a.status == 200 && string(a.body) == "answer", "another answer is given")
		}
		line := f.lines[i]
		sym.Assert(strings.HasSuffix(line, "\n"), "a line of the access log does not end")
		if !sym.Native() {
			l.check(strings.TrimSuffix(line, "\n"))
		}
	}
	if f.fails {
		sym.Cover("failed")
	}
	// Without an access log
	want, f.lines, n = append(want[:0], &logged{req: request("GET", "/", "")}), []string{"none"}, 0
	a := &answer{header: http.Header{}}
	auth.NewNullAccessMiddleware()(h).ServeHTTP(a, want[0].req)
	sym.Assert(n == 1, "a request is not handled without an access log")
}
