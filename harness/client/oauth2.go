package client

import (
	"errors"
	"io"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"time"

	"code.cloudfoundry.org/log-cache/internal/zzverif/sym"
	"code.cloudfoundry.org/log-cache/pkg/client"
)

// hub is the transport below an OAuth2 client: a token server and an API.
type hub struct {
	token func(req *http.Request) answer
	api   func(req *http.Request) answer

	mu     sync.Mutex
	tokens []*http.Request
	apis   []*http.Request
	sent   []*body  // of API answers
	auths  []string // the Authorization of each API request when it was sent
	bodies []*body  // of token answers
}

func (h *hub) Do(req *http.Request) (*http.Response, error) {
	var a answer
	isToken := req.URL.Host == "uaa.example:8443"
	h.mu.Lock()
	if isToken {
		h.tokens = append(h.tokens, req)
	} else {
		h.apis = append(h.apis, req)
		h.auths = append(h.auths, req.Header.Get("Authorization"))
	}
	h.mu.Unlock()
	if isToken {
		a = h.token(req)
	} else {
		a = h.api(req)
	}
	if a.err != nil {
		return nil, a.err
	}
	b := &body{data: []byte(a.body), fail: a.fail}
	h.mu.Lock()
	if isToken {
		h.bodies = append(h.bodies, b)
	} else {
		h.sent = append(h.sent, b)
	}
	h.mu.Unlock()
	return &http.Response{StatusCode: a.status, Body: b, Header: http.Header{}, Request: req}, nil
}

func apiRequest() *http.Request {
	r, err := http.NewRequest("GET", "http://log-cache:8080/v1/read/x", nil)
	if err != nil {
		panic(err)
	}
	return r
}

var badTokens = append([]string{`{"token_type":5,"access_token":"x"}`, `{"token_type":"bearer","access_token":{}}`, `{"token_type":"bearer","access_token":"x"`}, brokenMessages[:6]...)

var emptyTokens = []string{`{}`, `null`, `{"token_type":"bearer"}`, `{"token_type":"bearer","access_token":""}`}

// C09_Requests runs a few requests through one client and compares every
// request sent with what a client that holds one token would send.
func C09_Requests() {
	sym.Expect("reused", "rejected", "token refused", "passed through", "transport error")
	n := sym.Bound("requests", 3, 4)
	var c *client.Oauth2HTTPClient
	h := &hub{}
	if sym.Flag("user") {
		c = client.NewOauth2HTTPClient("https://uaa.example:8443", "cli", "secret", client.WithOauth2HTTPClient(h), client.WithOauth2HTTPUser("me", "pw"))
	} else {
		c = client.NewOauth2HTTPClient("https://uaa.example:8443", "cli", "secret", client.WithOauth2HTTPClient(h))
	}
	held := "" // the token a client should hold
	for i := 0; i < n; i++ {
		ta, aa := answer{status: 200}, answer{status: 200, body: "ok"}
		issued, asked := "", false
		h.token = func(*http.Request) answer {
			asked = true
			switch sym.Choice("token answer", 5) {
			case 0:
				text := sym.Str("token", 1)
				sym.Assume(sym.And(text[0] > ' ', text[0] < 0x7f, text[0] != '"', text[0] != '\\'))
				kind := []string{"bearer", "Basic"}[i%2]
				issued = kind + " a-" + text
				ta.body = `{"access_token":"a-` + text + `","token_type":"` + kind + `","expires_in":599}`
			case 1:
				ta.status = int(sym.Int64Range("token status", 100, 999))
				sym.Assume(ta.status != 200)
				ta.body = `{"access_token":"not this","token_type":"bearer"}`
			case 2:
				ta.err = errTransport
			case 3:
				ta.body = badTokens[sym.Choice("malformed", len(badTokens))]
			case 4:
				ta.body = `{"access_`
				ta.fail = true
			}
			return ta
		}
		h.api = func(*http.Request) answer {
			if sym.Flag("API fails") {
				aa.err = errTransport
				return aa
			}
			aa.status = int(sym.Int64Range("status", 100, 999))
			return aa
		}
		req := apiRequest()
		req.Header.Set("X-Other", "kept")
		preset := sym.Flag("own authorization")
		own := []string{"mine"}
		if preset {
			// also one that says there is none
			own = [][]string{{"mine"}, {""}, {"mine", "too"}}[sym.Choice("own value", 1+i%2*2)]
			req.Header["Authorization"] = own
		}
		tokens, apis := len(h.tokens), len(h.apis)
		resp, err := c.Do(req)
		for _, b := range h.bodies {
			sym.Assert(b.closed > 0, "every answer of the token server is closed")
		}
		sym.Assert(len(h.tokens)-tokens <= 1 && len(h.apis)-apis <= 1, "a request is sent at most once, and so is its token request")
		if preset {
			sym.Cover("passed through")
			sym.Assert(!asked, "a request with its own authorization needs no token")
			sym.Assert(len(h.apis) == apis+1 && h.apis[apis] == req, "a request with its own authorization is sent")
			same := len(req.Header["Authorization"]) == len(own)
			for k, v := range req.Header["Authorization"] {
				same = same && v == own[k]
			}
			first := ""
			if len(own) > 0 {
				first = own[0]
			}
			sym.Assert(h.auths[apis] == first && same && len(req.Header) == 2, "a request with its own authorization goes through untouched")
		} else {
			sym.Assert(asked == (held == ""), "a token is fetched exactly when there is none")
			if asked && issued == "" {
				sym.Cover("token refused")
				sym.Assert(err != nil && resp == nil, "a failed token request is reported")
				sym.Assert(len(h.apis) == apis, "no request is sent without a token")
				continue
			}
			if !asked {
				sym.Cover("reused")
				issued = held
			}
			held = issued
			sym.Assert(len(h.apis) == apis+1 && h.apis[apis] == req, "the request is sent")
			sym.Assert(h.auths[apis] == held && len(req.Header["Authorization"]) == 1, "the request carries the token the server issued")
		}
		sym.Assert(req.Header.Get("X-Other") == "kept", "the rest of a request goes through untouched")
		if aa.err != nil {
			sym.Cover("transport error")
			sym.Assert(err == errTransport && resp == nil, "a transport error is returned")
			continue
		}
		sym.Assert(err == nil && resp != nil && resp.StatusCode == aa.status, "the answer is returned as it is")
		b := h.sent[len(h.sent)-1]
		sym.Assert(resp.Body == b && b.closed == 0 && b.off == 0, "the answer is returned as it is")
		if !preset && sym.Or(aa.status < 200, aa.status > 299) {
			sym.Cover("rejected")
			held = ""
		}
	}
}

// C09_Empty answers token requests without giving a token.
func C09_Empty() {
	h := &hub{}
	c := client.NewOauth2HTTPClient("https://uaa.example:8443", "cli", "secret", client.WithOauth2HTTPClient(h))
	h.token = func(*http.Request) answer {
		return answer{status: 200, body: emptyTokens[sym.Choice("answer", len(emptyTokens))]}
	}
	h.api = func(*http.Request) answer { return answer{status: 200} }
	resp, err := c.Do(apiRequest())
	sym.Assert(err != nil && resp == nil && len(h.apis) == 0, "no request is sent with an empty token")
}

// C09_Address has a token server whose address is no URL.
func C09_Address() {
	h := &hub{}
	opts := []client.Oauth2Option{client.WithOauth2HTTPClient(h)}
	if sym.Flag("user") {
		opts = append(opts, client.WithOauth2HTTPUser("me", "pw"))
	}
	c := client.NewOauth2HTTPClient([]string{"http://%zz", "http://[::1", "://", "https://uaa:port"}[sym.Choice("address", 4)], "cli", "secret", opts...)
	h.token = func(*http.Request) answer {
		return answer{status: 200, body: `{"access_token":"x","token_type":"bearer"}`}
	}
	h.api = func(*http.Request) answer { return answer{status: 200} }
	for i := 0; i < 2; i++ {
		resp, err := c.Do(apiRequest())
		sym.Assert(err != nil && resp == nil && len(h.apis) == 0 && len(h.tokens) == 0, "an address of the token server that is no URL is reported")
	}
}

// C09_Credentials looks at what a token request carries.
func C09_Credentials() {
	sym.Expect("client", "user")
	n := sym.Bound("credential bytes", 1, 2)
	id, secret, user, pass := "cf", "s", "me", "pw"
	odd := "a b&c=d+%41é:@/"
	pick := func(name, plain string) string {
		kinds := 3
		if name != "client" && name != "user" {
			kinds = 4
		}
		switch sym.Choice(name+" kind", kinds) {
		case 0:
			return sym.Str(name, n)
		case 1:
			return odd
		case 3:
			return ""
		}
		return plain
	}
	which := sym.Choice("which", 4)
	switch which {
	case 0:
		id = pick("client", id)
	case 1:
		secret = pick("secret", secret)
	case 2:
		user = pick("user", user)
	case 3:
		pass = pick("password", pass)
	}
	byUser := sym.Flag("by user")
	h := &hub{}
	opts := []client.Oauth2Option{client.WithOauth2HTTPClient(h)}
	if byUser {
		opts = append(opts, client.WithOauth2HTTPUser(user, pass))
	}
	c := client.NewOauth2HTTPClient("https://uaa.example:8443", id, secret, opts...)
	h.token = func(req *http.Request) answer {
		sym.Assert(req.Method == "POST" && req.URL.Scheme == "https" && req.URL.Path == "/oauth/token", "a token request goes to the token endpoint")
		sym.Assert(req.Header.Get("Content-Type") == "application/x-www-form-urlencoded", "a token request is a form")
		b, err := io.ReadAll(req.Body)
		sym.Assert(err == nil, "a token request has a body")
		f, err := url.ParseQuery(string(b))
		sym.Assert(err == nil, "a token request is a well-formed form")
		sym.Assert(one(f, "client_id") == id, "the client is named")
		if byUser {
			sym.Cover("user")
			sym.Assert(one(f, "grant_type") == "password" && one(f, "username") == user && one(f, "password") == pass && one(f, "client_secret") == secret, "a user's token request carries exactly the user's credentials")
			sym.Assert(len(f) == 5 && req.URL.User == nil, "a token request carries nothing else")
		} else {
			sym.Cover("client")
			p, ok := req.URL.User.Password()
			sym.Assert(one(f, "grant_type") == "client_credentials" && ok && req.URL.User.Username() == id && p == secret, "a client's token request carries exactly the client's credentials")
			sym.Assert(len(f) == 2, "a token request carries nothing else")
		}
		return answer{status: 200, body: `{"access_token":"t","token_type":"bearer"}`}
	}
	h.api = func(*http.Request) answer { return answer{status: 200} }
	_, err := c.Do(apiRequest())
	sym.Assert(err == nil && len(h.tokens) == 1, "the request is sent with one token request")
}

// C10_Races sends concurrent requests whose answers reject the token or not.
//
//sym:race
func C10_Races() {
	sym.Races()
	n := 2
	if sym.Thorough() && sym.Flag("three requests") {
		n = 3
		sym.Preemptions(1)
	} else {
		sym.Preemptions(sym.Bound("preemptions", 2, 3))
	}
	h := &hub{}
	var mu sync.Mutex
	issued := map[string]bool{}
	h.token = func(*http.Request) answer {
		mu.Lock()
		defer mu.Unlock()
		t := string(rune('a' + len(issued)))
		issued["bearer "+t] = true
		return answer{status: 200, body: `{"access_token":"` + t + `","token_type":"bearer"}`}
	}
	var opts []client.Oauth2Option
	opts = append(opts, client.WithOauth2HTTPClient(h))
	if sym.Flag("user") {
		opts = append(opts, client.WithOauth2HTTPUser("me", "pw"))
	}
	c := client.NewOauth2HTTPClient("https://uaa.example:8443", "cli", "secret", opts...)
	status := make([]int, n)
	for i := range status {
		status[i] = int(sym.Int64Range("status", 100, 999))
	}
	h.api = func(req *http.Request) answer {
		return answer{status: status[int(req.URL.Path[1]-'0')]}
	}
	var wg sync.WaitGroup
	errs := make([]error, n)
	for i := 0; i < n; i++ {
		i := i
		wg.Add(1)
		req, err := http.NewRequest("GET", "http://log-cache:8080/"+string(rune('0'+i)), nil)
		if err != nil {
			panic(err)
		}
		go func() {
			defer wg.Done()
			_, errs[i] = c.Do(req)
		}()
	}
	wg.Wait()
	for _, err := range errs {
		sym.Assert(err == nil, "concurrent requests succeed")
	}
	sym.Assert(len(h.auths) == n, "every request is sent")
	for _, a := range h.auths {
		sym.Assert(issued[a], "every request carries a complete token the server issued")
	}
}

// C10_Discard has the first token rejected, and no other, while requests use
// it concurrently.
//
//sym:race
func C10_Discard() {
	sym.Expect("newer token")
	sym.Preemptions(sym.Bound("preemptions", 2, 3))
	h := &hub{}
	var mu sync.Mutex
	k := 0
	h.token = func(*http.Request) answer {
		mu.Lock()
		defer mu.Unlock()
		k++
		return answer{status: 200, body: `{"access_token":"` + string(rune('a'+k-1)) + `","token_type":"bearer"}`}
	}
	var opts []client.Oauth2Option
	opts = append(opts, client.WithOauth2HTTPClient(h))
	if sym.Flag("user") {
		opts = append(opts, client.WithOauth2HTTPUser("me", "pw"))
	}
	c := client.NewOauth2HTTPClient("https://uaa.example:8443", "cli", "secret", opts...)
	h.api = func(req *http.Request) answer {
		if req.Header.Get("Authorization") == "bearer a" {
			return answer{status: 401}
		}
		return answer{status: 200}
	}
	done := make(chan struct{})
	go func() {
		c.Do(apiRequest())
		close(done)
	}()
	c.Do(apiRequest())
	c.Do(apiRequest())
	<-done
	req := apiRequest()
	resp, err := c.Do(req)
	sym.Assert(err == nil && resp.StatusCode == 200, "a rejected token is not used again")
	sym.Assert(k == 2, "a rejection leaves a newer token alone")
	sym.Cover("newer token")
}

var errLate = errors.New("late")

// C10_Newer lets other requests happen while one is in flight whose answer
// rejects its token.
func C10_Newer() {
	sym.Expect("replaced meanwhile", "same token")
	h := &hub{}
	k := 0
	sameLength := sym.Flag("tokens of the same length")
	h.token = func(*http.Request) answer {
		k++
		t := strings.Repeat("t", k)
		if sameLength {
			t = "t" + string(rune('a'+k))
		}
		return answer{status: 200, body: `{"access_token":"` + t + `","token_type":"bearer"}`}
	}
	c := client.NewOauth2HTTPClient("https://uaa.example:8443", "cli", "secret", client.WithOauth2HTTPClient(h))
	level := 0
	current := "" // the token held when all is done
	between := sym.Int("requests meanwhile", 0, sym.Bound("requests meanwhile", 2, 3))
	h.api = func(req *http.Request) answer {
		if level == 0 {
			level = 1
			for i := 0; i < between; i++ {
				done := make(chan struct{})
				go func() { c.Do(apiRequest()); close(done) }()
				select {
				case <-done:
				case <-time.After(time.Minute): // a client may serialise its requests
					return answer{err: errLate}
				}
			}
			st := int(sym.Int64Range("rejection", 100, 999))
			sym.Assume(sym.Or(st < 200, st > 299))
			return answer{status: st}
		}
		a := answer{status: 200}
		a.status = int(sym.Int64Range("status", 100, 999))
		if sym.Or(a.status < 200, a.status > 299) {
			current = ""
		} else {
			current = req.Header.Get("Authorization")
		}
		return a
	}
	first := apiRequest()
	_, err := c.Do(first)
	if err != nil {
		return
	}
	rejected := first.Header.Get("Authorization")
	if current == rejected {
		current = ""
	}
	if current != "" {
		sym.Cover("replaced meanwhile")
	} else {
		sym.Cover("same token")
	}
	before := len(h.tokens)
	h.api = func(*http.Request) answer { return answer{status: 200} }
	_, err = c.Do(apiRequest())
	last := h.auths[len(h.auths)-1]
	sym.Assert(err == nil && last != rejected, "a rejected token is not used again")
	if current != "" {
		sym.Assert(len(h.tokens) == before && last == current, "a rejection leaves a newer token alone")
	} else {
		sym.Assert(len(h.tokens) == before+1, "a new token is fetched once the last was rejected")
	}
}
