package auth

import (
	"bytes"
	"errors"
	"io"
	"log"
	"net/http"
	"time"

	"code.cloudfoundry.org/go-loggregator/metrics"
	"code.cloudfoundry.org/log-cache/internal/auth"
	"code.cloudfoundry.org/log-cache/internal/zzverif/sym"
)

// gauges takes measurements.
type gauges struct{}

func (gauges) NewGauge(string, ...metrics.MetricOption) metrics.Gauge { return gauge{} }

type gauge struct{}

func (gauge) Add(float64) {}
func (gauge) Set(float64) {}

// page is one answer of the cloud controller.
type page struct {
	err    bool
	status int
	body   string
	ids    []string // What it lists.
	names  []string
	next   string
}

func list(next string, ids ...string) page { return page{status: 200, ids: ids, next: next} }

func (p page) bytes() []byte {
	if p.body != "" {
		return []byte(p.body)
	}
	b := []byte(`{"pagination":{"next":`)
	if p.next == "" {
		b = append(b, "null"...)
	} else {
		b = append(b, `{"href":"`...)
		b = append(b, p.next...)
		b = append(b, `"}`...)
	}
	b = append(b, `},"resources":[`...)
	for i, id := range p.ids {
		if i > 0 {
			b = append(b, ',')
		}
		b = append(b, `{"guid":"`...)
		b = append(b, id...)
		b = append(b, '"')
		if i < len(p.names) {
			b = append(b, `,"name":"`...)
			b = append(b, p.names[i]...)
			b = append(b, '"')
		}
		b = append(b, '}')
	}
	return append(b, "]}"...)
}

// body is the body of an answer.
type body struct {
	io.Reader
	open *int
	shut bool
}

func (b *body) Close() error {
	if !b.shut {
		b.shut = true
		*b.open--
	}
	return nil
}

// controller is the cloud controller.
type controller struct {
	answer func(path, token string, r *http.Request) page
	reqs   []string // The paths asked for.
	open   int
	took   time.Duration
}

const controllerAddr = "https://capi.example:9023"

func (c *controller) Do(r *http.Request) (*http.Response, error) {
	sym.Assert(r.Method == "GET", "the cloud controller is asked to do something else than answer")
	sym.Assert(r.URL.Scheme == "https" && r.URL.Host == "capi.example:9023" && (r.Host == "" || r.Host == "capi.example:9023"), "the token is sent to another server")
	tokens := r.Header["Authorization"]
	sym.Assert(len(tokens) == 1, "a request to the cloud controller carries no single token")
	c.reqs = append(c.reqs, r.URL.Path)
	sym.Assert(len(c.reqs) < 64, "requests to the cloud controller never end")
	if c.took > 0 {
		time.Sleep(c.took)
	}
	p := c.answer(r.URL.Path, tokens[0], r)
	if p.err {
		return nil, errors.New("no route")
	}
	c.open++
	return &http.Response{StatusCode: p.status, Status: "status", Header: http.Header{}, Body: &body{Reader: bytes.NewReader(p.bytes()), open: &c.open}, Request: r}, nil
}

func (c *controller) client(opts ...auth.CAPIOption) *auth.CAPIClient {
	return auth.NewCAPIClient(controllerAddr, c, gauges{}, log.New(io.Discard, "", 0), opts...)
}

// grant is a whole answer of the cloud controller for a token.
type grant struct {
	token, id string
	ok        bool
	at        time.Time
}

// broken is an answer that is none.
func broken(i int) page {
	return []page{
		{err: true},
		{status: 500, body: `{"resources":[{"guid":"a"},{"guid":"b"}]}`},
		{status: 401, body: `{"resources":[{"guid":"a"},{"guid":"b"}]}`},
		{status: 202, body: `{"resources":[{"guid":"a"},{"guid":"b"}]}`},
		{status: 200, body: `{"resources":[{"guid":"a"},{"guid":"b"}`},
		{status: 200, body: `{"resources":[{"guid":"a"},{"guid":7}]}`},
		{status: 200, body: `{"pagination":{"next":{"href":"%zz"}},"resources":[{"guid":"a"},{"guid":"b"}]}`},
		{status: 200, body: `<html>`},
		{status: 200, body: `[]`},
	}[i]
}

// A02_History: requests of two tokens over time.
func A02_History() {
	life := time.Duration(sym.Int64Range("lifetime", int64(time.Second), int64(10*time.Minute)))
	ids := []string{"a", "b"}
	tokens := []string{"T", "U"}
	var last [2]struct {
		cached bool
		id     string // What the last whole answer for the token lists.
		at     time.Time
		asked  int
	}
	c := &controller{}
	var now int
	var fail, chosen bool
	var lists string
	c.answer = func(path, token string, r *http.Request) page {
		sym.Assert(token == tokens[now], "the cloud controller is asked for another token")
		if !chosen {
			chosen = true
			lists = []string{"", "a", "b"}[sym.Choice("controller lists", 3)]
			fail = lists != "" && sym.Flag("controller fails")
		}
		switch path {
		case "/v3/apps":
			if fail && lists == "a" {
				return broken(0)
			}
			if lists == "a" {
				return list("", "a", "x")
			}
			return list("", "x")
		case "/v3/service_instances":
			if fail {
				return broken(1)
			}
			if lists == "b" {
				return list("", "y", "b")
			}
			return list("")
		}
		sym.Fail("another resource than apps and service instances is asked for")
		return page{}
	}
	client := c.client(auth.WithCacheExpirationInterval(life), auth.WithTokenPruningInterval(90*time.Second))
	n := sym.Bound("requests", 3, 4)
	for i := 0; i < n; i++ {
		if i > 0 {
			time.Sleep([]time.Duration{0, 59 * time.Second, 3 * time.Minute}[sym.Choice("pause", 3)])
		}
		now = 0
		if i > 0 && sym.Flag("other token") {
			now = 1
		}
		lists, fail, chosen = "", false, false
		id := ids[0]
		if i > 0 {
			id = ids[sym.Choice("source", 2)]
		}
		before := len(c.reqs)
		start := time.Now()
		got := client.IsAuthorized(id, tokens[now])
		asked := len(c.reqs) - before
		l := &last[now]
		fresh := l.cached && start.Before(l.at.Add(life))
		if fresh && l.id == id {
			sym.Assert(got, "an authorised source is refused within the lifetime of the answer")
			sym.Assert(asked == 0, "the cloud controller is asked again within the lifetime of its answer")
			sym.Cover("answered from the cache")
			continue
		}
		sym.Assert(asked > 0, "the cloud controller is not asked")
		want := !fail && lists == id
		sym.Assert(!got || want, "a source is authorised that the cloud controller does not list for the token")
		sym.Assert(got || !want, "a source is refused that the cloud controller lists for the token")
		if l.cached && !fresh {
			sym.Cover("answer expired")
		}
		if fail {
			sym.Cover("controller failed")
			l.id = ""
		} else {
			l.id = lists
		}
		l.cached, l.at = true, time.Now()
		if got {
			sym.Cover("authorised")
		}
	}
	sym.Assert(c.open == 0, "a body is left open")
	sym.Expect("answered from the cache", "answer expired", "controller failed", "authorised")
}

// A02_Retries: a source that is not listed is asked for again a few times in
// the lifetime of the answer.
func A02_Retries() {
	life := time.Duration(sym.Int64Range("lifetime", int64(30*time.Second), int64(5*time.Minute)))
	c := &controller{}
	var listed bool
	else_ := sym.Choice("until then", 3)
	c.answer = func(path, token string, r *http.Request) page {
		switch {
		case listed && path == "/v3/apps":
			return list("", "other", "a")
		case else_ == 0:
			return list("", "other")
		case else_ == 1 || listed:
			return list("")
		}
		return broken(1)
	}
	client := c.client(auth.WithCacheExpirationInterval(life), auth.WithTokenPruningInterval([]time.Duration{time.Hour, 25 * time.Second}[sym.Choice("pruned", 2)]))
	tries, fetched := 0, time.Time{}
	n := sym.Bound("requests", 6, 7)
	for i := 0; i < n; i++ {
		if i > 0 && sym.Flag("pause") {
			time.Sleep(40 * time.Second)
		}
		if !listed && i >= 3 {
			listed = sym.Flag("listed from now on")
		}
		fresh := tries > 0 && time.Now().Before(fetched.Add(life))
		before := len(c.reqs)
		got := client.IsAuthorized("a", "T")
		asked := len(c.reqs) > before
		if !fresh {
			tries = 0
		}
		if tries > auth.MAX_RETRIES {
			sym.Assert(!asked, "the cloud controller is asked without end for a source it does not list")
			sym.Assert(!got, "a source is authorised that the cloud controller never listed")
			sym.Cover("refused without asking")
			continue
		}
		sym.Assert(asked, "the cloud controller is not asked")
		sym.Assert(got == listed, "the answer is not the cloud controller's")
		tries, fetched = tries+1, time.Now()
		if got {
			sym.Cover("listed at last")
			return
		}
	}
	sym.Assert(client.TokenCacheSize() <= 1, "another token than the one given is kept")
	sym.Expect("refused without asking", "listed at last")
}

// A02_Pages: one request whose answers come in pages, any of which fails.
func A02_Pages() {
	pages := sym.Bound("pages", 2, 3)
	href := []string{"https://capi.example:9023/v3/apps?page=", "http://evil.example/v3/apps?page=", "//evil.example/v3/apps?page=", "/v3/apps?page=", "https://user:pw@evil.example/v3/apps?page=", "//evil.example:1/v3/apps?page="}[sym.Choice("link", 6)]
	kinds := []string{"/v3/apps", "/v3/service_instances"}
	var at [2]int
	var count [2]int
	where, bad := sym.Int("failing page", -1, pages*2-1), 0
	if where >= 0 {
		bad = sym.Choice("failure", 9)
	}
	for k := range count {
		count[k] = sym.Int("pages of "+kinds[k], 1, pages)
	}
	id := sym.StrOf("listed", 1, "ab")
	lister := sym.Int("lister", 0, 1)
	on := sym.Int("listing page", 0, pages-1)
	var failed, seen bool
	c := &controller{}
	c.took = time.Duration(sym.Int("request takes", 0, 1)) * time.Second
	c.answer = func(path, token string, r *http.Request) page {
		sym.Assert(token == "bearer t", "the cloud controller is asked for another token")
		k := 0
		if path == kinds[1] || at[0] == count[0] {
			k = 1
		}
		i := at[k]
		sym.Assert(i < count[k], "a page is asked for that is not there")
		if i == 0 {
			sym.Assert(path == kinds[k], "another resource is asked for")
		} else {
			sym.Assert(path == "/v3/apps" && r.URL.Query().Get("page") == string(rune('1'+i)), "another page is asked for than the next")
		}
		at[k]++
		if where == k*pages+i {
			failed = true
			return broken(bad)
		}
		next := ""
		if i+1 < count[k] {
			next = href + string(rune('1'+i+1))
		}
		if k == lister && i == on {
			seen = true
			return list(next, "x", id)
		}
		return list(next, "y", "z")
	}
	client := c.client()
	ask := sym.Str("asked", 1)
	want := func() bool { return !failed && seen && at == count && sym.EqStr(ask, id) }
	if sym.Flag("whole list") {
		got := client.AvailableSourceIDs("bearer t")
		sym.Assert(c.open == 0, "a body is left open")
		if failed {
			sym.Assert(len(got) == 0, "sources are authorised although an answer failed")
			sym.Cover("list failed")
			return
		}
		sym.Assert(at == count, "pages are left out")
		total := 2 * (count[0] + count[1])
		sym.Assert(len(got) == total, "sources are lost or made up")
		found := 0
		for _, g := range got {
			if g != "x" && g != "y" && g != "z" {
				sym.Assert(g == id, "a source is authorised that is not listed")
				found++
			}
		}
		sym.Assert((found == 1) == seen, "the source listed is lost")
		sym.Cover("list")
		return
	}
	sym.Assume(ask != "x")
	sym.Assume(ask != "y")
	sym.Assume(ask != "z")
	got := client.IsAuthorized(ask, "bearer t")
	sym.Assert(c.open == 0, "a body is left open")
	if want() {
		sym.Assert(got, "a source is refused that is listed")
		sym.Cover("authorised")
	} else {
		sym.Assert(!got, "a source is authorised that no whole answer lists")
	}
	sym.Expect("authorised", "list", "list failed")
}

// A02_Names: apps by their names.
func A02_Names() {
	var asked string
	c := &controller{}
	names := []string{"n", "m"}
	var bad int
	fail := sym.Flag("fails")
	if fail {
		bad = sym.Choice("failure", 9)
	}
	second := sym.Flag("two pages")
	guid := sym.StrOf("guid", 2, "ab-")
	c.answer = func(path, token string, r *http.Request) page {
		sym.Assert(token == "T" && path == "/v3/apps", "another request than for apps")
		q := r.URL.Query()
		if q.Get("page") == "2" {
			if fail {
				return broken(bad)
			}
			return page{status: 200, ids: []string{"g3"}, names: []string{"n"}}
		}
		asked = q.Get("names")
		sym.Assert(q.Get("per_page") == "5000", "apps are not asked for in large pages")
		if fail && !second {
			return broken(bad)
		}
		p := page{status: 200, ids: []string{guid, "g2"}, names: names}
		if second {
			p.next = "http://elsewhere/v3/apps?page=2"
		}
		return p
	}
	client := c.client()
	sym.Assert(len(client.GetRelatedSourceIds(nil, "T")) == 0 && len(c.reqs) == 0, "apps without names are asked for")
	n1 := escapeFree("name", sym.Int("name bytes", 0, 2))
	got := client.GetRelatedSourceIds([]string{n1, "other"}, "T")
	sym.Assert(c.open == 0, "a body is left open")
	sym.Assert(asked == n1+",other", "the names asked for are altered")
	sym.Assert(got != nil, "no answer for names")
	if fail {
		sym.Assert(len(got) == 0, "apps are found although the answer failed")
		sym.Cover("failed")
		return
	}
	sym.Assert(len(got) == 2, "names are lost or made up")
	sym.Assert(len(got["m"]) == 1 && got["m"][0] == "g2", "an app is lost")
	if second {
		sym.Assert(len(got["n"]) == 2 && got["n"][0] == guid && got["n"][1] == "g3", "an app of a further page is lost")
		sym.Cover("two pages")
	} else {
		sym.Assert(len(got["n"]) == 1 && got["n"][0] == guid, "an app is lost")
	}
	sym.Expect("failed", "two pages")
}

// escapeFree is text that a query needs not escape much.
func escapeFree(name string, n int) string {
	return sym.StrOf(name, n, "aZ0 &=+%/#?;")
}

// A02_Prune: what has expired is forgotten, what has not is kept.
func A02_Prune() {
	life := time.Duration(sym.Int64Range("lifetime", int64(time.Second), int64(3*time.Minute)))
	c := &controller{answer: func(path, token string, r *http.Request) page { return list("", "of "+token) }}
	client := c.client(auth.WithCacheExpirationInterval(life), auth.WithTokenPruningInterval(time.Minute))
	sym.Assert(client.IsAuthorized("of T", "T"), "an authorised source is refused")
	at := time.Now()
	if sym.Flag("second token") {
		time.Sleep(25 * time.Second)
		sym.Assert(client.IsAuthorized("of U", "U"), "an authorised source is refused")
		sym.Assert(!client.IsAuthorized("of U", "T"), "the source of another token is authorised")
		at = time.Now()
	}
	time.Sleep([]time.Duration{30 * time.Second, 61 * time.Second, 4*time.Minute + time.Second}[sym.Choice("pause", 3)])
	sym.Yield()
	n := client.TokenCacheSize()
	if time.Now().Sub(at) > life+61*time.Second {
		sym.Assert(n == 0, "expired answers are kept")
		sym.Cover("pruned")
	}
	before := len(c.reqs)
	if time.Now().Sub(at) < life {
		tok := "T"
		sym.Assert(client.IsAuthorized("of "+tok, tok), "an authorised source is refused")
		sym.Assert(len(c.reqs) == before, "an answer is forgotten within its lifetime")
		sym.Cover("kept")
	}
	sym.Expect("pruned", "kept")
}

// A02_Together: two users at the same time.
//
//sym:race
func A02_Together() {
	sym.Preemptions(sym.Bound("preemptions", 1, 2))
	sym.Races()
	c := &safeController{lists: map[string]string{"T": "a", "U": "b"}}
	client := auth.NewCAPIClient(controllerAddr, c, gauges{}, log.New(io.Discard, "", 0), auth.WithTokenPruningInterval(time.Hour))
	if sym.Flag("cached") {
		sym.Assert(client.IsAuthorized("a", "T"), "an authorised source is refused")
	}
	tok := []string{"T", "U"}[sym.Choice("second token", 2)]
	id := []string{"a", "b"}[sym.Choice("second source", 2)]
	first := make(chan bool)
	go func() { first <- client.IsAuthorized("a", "T") }()
	got := client.IsAuthorized(id, tok)
	sym.Assert(got == (c.lists[tok] == id), "another answer than the cloud controller's for the token")
	sym.Assert(<-first, "an authorised source is refused")
	sym.Assert(client.IsAuthorized("a", "T"), "an authorised source is refused")
	sym.Assert(!client.IsAuthorized("b", "T"), "the source of another token is authorised")
}

type safeController struct{ lists map[string]string }

func (c *safeController) Do(r *http.Request) (*http.Response, error) {
	p := list("", c.lists[r.Header.Get("Authorization")])
	return &http.Response{StatusCode: 200, Header: http.Header{}, Body: io.NopCloser(bytes.NewReader(p.bytes()))}, nil
}
