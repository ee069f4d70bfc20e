package client

import (
	"net/http"
	"strings"
	"time"

	"code.cloudfoundry.org/log-cache/internal/zzverif/sym"
	"code.cloudfoundry.org/log-cache/pkg/client"
)

// number of a version: no leading zero, digits only.
func versionNumber(s string) (n int, ok bool) {
	if len(s) == 0 || len(s) > 1 && s[0] == '0' {
		return 0, false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		n = n*10 + int(s[i]-'0')
	}
	return n, true
}

func identifiers(s string, pre bool) bool {
	for _, id := range strings.Split(s, ".") {
		if id == "" {
			return false
		}
		digits := true
		for i := 0; i < len(id); i++ {
			c := id[i]
			switch {
			case c >= '0' && c <= '9':
			case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c == '-':
				digits = false
			default:
				return false
			}
		}
		if pre && digits && len(id) > 1 && id[0] == '0' {
			return false
		}
	}
	return true
}

// precedence tells whether a version text is well formed and at least 2.0.0.
func precedence(v string) (valid, atLeast2 bool) {
	core, pre, build := v, "", ""
	hasPre, hasBuild := false, false
	if i := strings.IndexByte(core, '+'); i >= 0 {
		core, build, hasBuild = core[:i], core[i+1:], true
	}
	if i := strings.IndexByte(core, '-'); i >= 0 {
		core, pre, hasPre = core[:i], core[i+1:], true
	}
	p := strings.Split(core, ".")
	if len(p) != 3 {
		return false, false
	}
	var n [3]int
	for i := range p {
		x, ok := versionNumber(p[i])
		if !ok {
			return false, false
		}
		n[i] = x
	}
	if hasPre && !identifiers(pre, true) || hasBuild && !identifiers(build, false) {
		return false, false
	}
	if n[0] != 2 {
		return true, n[0] > 2
	}
	return true, n[1] > 0 || n[2] > 0 || !hasPre
}

// prefixOf asks for a read or for meta information against a server whose
// info endpoint answers a, and gives the path of the second request.
func prefixOf(info answer) (path string, err error, fake *server) {
	s := &server{}
	s.answer = func(req *http.Request) answer {
		if len(s.reqs) == 1 {
			sym.Assert(req.URL.Path == "/api/v1/info" && req.URL.RawQuery == "", "the version is asked for at the info endpoint")
			return info
		}
		sym.Assert(len(s.reqs) == 2, "a call is one info request and one other")
		return answer{status: 200, body: "{}"}
	}
	ctx := newCtx()
	if sym.Flag("meta") {
		m, e := s.client().Meta(ctx)
		err = e
		if len(s.reqs) == 2 {
			path = strings.TrimSuffix(s.reqs[1].URL.Path, "/meta")
		}
		sym.Assert(err == nil || m == nil, "a failed call has no result")
	} else {
		es, e := s.client().Read(ctx, "src", time.Unix(0, 1))
		err = e
		if len(s.reqs) == 2 {
			path = strings.TrimSuffix(s.reqs[1].URL.Path, "/read/src")
		}
		sym.Assert(err == nil || es == nil, "a failed call has no result")
	}
	s.clean(ctx)
	return path, err, s
}

func judge(path string, err error, s *server, valid, atLeast2 bool) {
	if !valid {
		sym.Assert(err != nil, "an unusable info answer makes the call fail")
		sym.Assert(len(s.reqs) == 1, "nothing is requested after an unusable info answer")
		sym.Cover("refused")
		return
	}
	sym.Assert(err == nil, "a usable info answer lets the call proceed")
	if atLeast2 {
		sym.Assert(path == "/api/v1", "versions from 2.0.0 on are reached under /api/v1")
		sym.Cover("current")
	} else {
		sym.Assert(path == "/v1", "versions before 2.0.0 are reached under /v1")
		sym.Cover("legacy")
	}
}

// C06_Versions covers well-formed versions of any numbers and every text of
// a few characters around the boundary.
func C06_Versions() {
	sym.Expect("current", "legacy", "refused")
	var v string
	switch sym.Choice("form", 5) {
	case 0: // numbers of one or two digits
		for i := 0; i < 3; i++ {
			if i > 0 {
				v += "."
			}
			v += sym.StrOf("number", sym.Int("digits", 1, sym.Bound("digits per number", 2, 3)), "0123456789")
		}
	case 1: // pre-releases and builds next to the boundary
		v = sym.StrOf("major", 1, "123") + "." + sym.StrOf("minor", 1, "01") + ".0" + sym.StrOf("suffix", sym.Int("suffix length", 1, sym.Bound("suffix characters", 3, 4)), "-+.0a")
	case 2: // texts over a small alphabet
		v = sym.StrOf("text", sym.Int("length", 0, sym.Bound("version characters", 5, 6)), "23.-")
	case 3: // what servers report
		v = []string{"2.0.0", "1.4.7", "2.9.2-dev.5+sha.1", "2.0.0-dev", "2.0.0+build", "10.0.0", "1.99.99", "v2.0.0", "2.0", "2.0.0.0", "dev", " 2.0.0", "2.0.0 ", "02.0.0"}[sym.Choice("example", 14)]
	case 4: // numbers beyond 32 bits
		v = []string{"4294967298.0.0", "1.4294967296.0", "18446744073709551616.0.0", "1.18446744073709551615.0", "1.18446744073709551616.0"}[sym.Choice("large", 5)]
		path, err, s := prefixOf(answer{status: 200, body: `{"version":"` + v + `"}`})
		over := v == "18446744073709551616.0.0" || v == "1.18446744073709551616.0"
		judge(path, err, s, !over, v[0] != '1')
		return
	}
	valid, new := precedence(v)
	path, err, s := prefixOf(answer{status: 200, body: `{"version":"` + v + `","vm_uptime":"5"}`})
	judge(path, err, s, valid, new)
}

// C06_Upgrade makes a few calls through one client to a server whose version
// changes, or whose info endpoint fails, between them.
func C06_Upgrade() {
	sym.Expect("upgraded", "downgraded", "failed in between")
	var info answer
	s := &server{}
	s.answer = func(req *http.Request) answer {
		if req.URL.Path == "/api/v1/info" {
			return info
		}
		return answer{status: 200, body: "{}"}
	}
	c := s.client()
	was, failed := 0, false
	for i := 0; i < 3; i++ {
		now := sym.Choice("server", 4)
		info = []answer{{status: 200, body: `{"version":"1.9.0"}`}, {status: 200, body: `{"version":"2.0.0"}`}, {status: 404}, {status: 500}}[now]
		n := len(s.reqs)
		var err error
		if sym.Flag("meta") {
			_, err = c.Meta(newCtx())
		} else {
			_, err = c.Read(newCtx(), "src", time.Unix(0, 1))
		}
		if now == 3 {
			sym.Assert(err != nil, "an unusable info answer makes the call fail")
			for _, r := range s.reqs[n:] {
				sym.Assert(r.URL.Path == "/api/v1/info", "nothing is requested after an unusable info answer")
			}
			failed = true
			continue
		}
		sym.Assert(err == nil && len(s.reqs) > n, "a usable info answer lets the call proceed")
		p := s.reqs[len(s.reqs)-1].URL.Path
		sym.Assert(strings.HasPrefix(p, "/api/v1/") == (now == 1), "the prefix follows the version the server reports now")
		if now == 1 && was == 2 {
			sym.Cover("upgraded")
		}
		if now != 1 && was == 1 {
			sym.Cover("downgraded")
		}
		if failed {
			sym.Cover("failed in between")
		}
		was = map[bool]int{true: 1, false: 2}[now == 1]
	}
}

// C06_Slash has a server whose address ends in a slash.
func C06_Slash() {
	s := &server{}
	s.answer = func(req *http.Request) answer {
		if len(s.reqs) == 1 {
			sym.Assert(req.URL.Path == "/api/v1/info", "the version is asked for at the info endpoint")
			return answer{status: 200, body: `{"version":"2.0.0"}`}
		}
		return answer{status: 200, body: "{}"}
	}
	c := client.NewClient("http://log-cache:8080/", client.WithHTTPClient(s))
	ctx := newCtx()
	var err error
	want := "/api/v1/meta"
	if sym.Flag("meta") {
		_, err = c.Meta(ctx)
	} else {
		id := sym.StrOf("id", 2, "a-/")
		want = "/api/v1/read/" + id
		_, err = c.Read(ctx, id, time.Unix(0, 1))
	}
	sym.Assert(err == nil && len(s.reqs) == 2, "a usable info answer lets the call proceed")
	sym.Assert(s.reqs[1].URL.Path == want, "versions from 2.0.0 on are reached under /api/v1")
	s.clean(ctx)
}

// C06_Answers covers every status and unusable bodies.
func C06_Answers() {
	sym.Expect("current", "legacy", "refused", "not found", "transport error", "other status")
	bodies := []struct {
		text    string
		valid   bool
		current bool
	}{
		{`{"version":"3.1.4"}`, true, true},
		{`{"version":"1.0.0"}`, true, false},
		{`{"other":[1,{"version":"9.9.9"}],"version":"1.0.0"}`, true, false},
		{``, false, false},
		{`{`, false, false},
		{`{"version":"3.1.4"`, false, false},
		{`{"version":3}`, false, false},
		{`{"version":["3.1.4"]}`, false, false},
		{`{"version":""}`, false, false},
		{`{}`, false, false},
		{`null`, false, false},
		{`[]`, false, false},
		{`"3.1.4"`, false, false},
		{`<html>not found</html>`, false, false},
	}
	b := bodies[sym.Choice("body", len(bodies))]
	a := answer{status: int(sym.Int64Range("status", 100, 999)), body: b.text}
	if sym.Flag("transport error") {
		a.err = errTransport
		sym.Cover("transport error")
	}
	if sym.Flag("body breaks off") {
		a.fail = true
		// a document that is complete before the break may be used or not
		sym.Assume(a.err != nil || a.status != 200 || !b.valid)
	}
	path, err, s := prefixOf(a)
	switch {
	case a.err != nil:
		judge(path, err, s, false, false)
	case a.status == 404:
		sym.Cover("not found")
		judge(path, err, s, true, false)
	case a.status != 200:
		sym.Cover("other status")
		judge(path, err, s, false, false)
	default:
		judge(path, err, s, b.valid, b.current)
	}
}
