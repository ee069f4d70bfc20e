package auth

import (
	"bytes"
	"crypto/rsa"
	"encoding/json"
	"errors"
	"io"
	"log"
	"net/http"
	"strings"
	"sync"
	"time"

	"code.cloudfoundry.org/log-cache/internal/auth"
	"code.cloudfoundry.org/log-cache/internal/zzverif/sym"
	jose "github.com/dvsekhvalnov/jose2go"
)

// Keys, known by their exponents, and texts that are none.
const (
	pem65537 = `-----BEGIN PUBLIC KEY-----
MIGfMA0GCSqGSIb3DQEBAQUAA4GNADCBiQKBgQCvsOCaBEE/ZRN4MM2Au2aijxcw
jqBuU2JXF5O/K0r4Kle1cfuYZmaLfJDdOOmGh1cBSqlJIGsxCUY7ObQJv58WWqSa
BPpp9fFQQ8Z9NAk2zkK7x/8MGRIUhMWGeyGv5jxdjrgnEsePghSJTbRTBL3WlCjr
Litg9Sj1t0zYlgqfgwIDAQAB
-----END PUBLIC KEY-----
`
	pem3 = `-----BEGIN PUBLIC KEY-----
MIGdMA0GCSqGSIb3DQEBAQUAA4GLADCBhwKBgQDZnNv3t+U8FFptE4SSSI7rerbS
nP0PzVpQWE18VIBI+3DC5nhwgW9ku1r8Lj3vDkanZST7TBxXJLFmLxYuMEl22Ido
yDie1+O7X+SUwwYTWPcvs8yZDbDrCVLwJrmewt4By/vxe6R1jhvtCQBRf/KVZcMV
/K3bqr6zwK6J+X0FbwIBAw==
-----END PUBLIC KEY-----
`
	pemEC = `-----BEGIN PUBLIC KEY-----
MFkwEwYHKoZIzj0CAQYIKoZIzj0DAQcDQgAEQ/V/y7w1fB4mHASPBAHdlPBDaNPG
JOQQ7Ex7tR2IQJZWYETzuQQCQaxTbwVmc5QWGHGATZC2IRejiMFXd9Mj6Q==
-----END PUBLIC KEY-----
`
	pemPKCS1 = `-----BEGIN RSA PUBLIC KEY-----
MIGJAoGBAOaFdjg29teB+LhT58XoOTSw/d3VfAEwodh28f4bPyuZpUlCu76AsRab
1cn7b2lhAeqKqzgKMf2LCbHVZABG4OUzSH3s4MwmrBEGJrv0SebDmkRQ+uA5weGf
GzYZS2vQjScosCTPfl1MRQJ/ub1lgydCeV1ExkfJJ9kcCmNcRFl/AgMBAAE=
-----END RSA PUBLIC KEY-----
`
)

// signs makes signatures ideal, the seal of the key, and takes tokens apart at
// bars.
func signs() {
	jose.VerifyRS256 = func(secured, signature []byte, key *rsa.PublicKey) error {
		if string(signature) != seal(key.E) {
			return errors.New("crypto/rsa: verification error")
		}
		return nil
	}
	jose.Segments = func(token string) ([][]byte, error) {
		var parts [][]byte
		for _, p := range strings.SplitN(token, "|", 3) {
			parts = append(parts, []byte(p))
		}
		return parts, nil
	}
}

func seal(e int) string {
	if e == 3 {
		return "3"
	}
	return "65537"
}

// signed makes a token.
func signed(header, payload string, e int) string {
	return header + "|" + payload + "|" + seal(e)
}

// issuer is the UAA.
type issuer struct {
	answer func() (int, string, error)
	reqs   int
	at     []time.Time
}

func (u *issuer) Do(r *http.Request) (*http.Response, error) {
	sym.Assert(r.Method == "GET" && r.URL.Scheme == "https" && r.URL.Host == "uaa.example" && strings.Trim(r.URL.Path, "/") == "token_keys", "keys are asked for elsewhere")
	u.reqs++
	u.at = append(u.at, time.Now())
	status, body, err := u.answer()
	if err != nil {
		return nil, err
	}
	return &http.Response{StatusCode: status, Status: "status", Header: http.Header{}, Body: io.NopCloser(bytes.NewReader([]byte(body))), Request: r}, nil
}

func (u *issuer) client(opts ...auth.UAAOption) *auth.UAAClient {
	return auth.NewUAAClient("https://uaa.example", u, gauges{}, log.New(io.Discard, "", 0), opts...)
}

func keyList(kidsAndPems ...string) string {
	type key struct {
		Kid   string `json:"kid"`
		Value string `json:"value"`
	}
	keys := []key{}
	for i := 0; i+1 < len(kidsAndPems); i += 2 {
		keys = append(keys, key{kidsAndPems[i], kidsAndPems[i+1]})
	}
	b, err := json.Marshal(map[string]interface{}{"keys": keys})
	if err != nil {
		sym.Fail("no JSON")
	}
	return string(b)
}

// A03_Token: a token of any kind.
func A03_Token() {
	signs()
	u := &issuer{answer: func() (int, string, error) { return 200, keyList("k1", pem65537, "k2", pem3), nil }}
	c := u.client()
	time.Sleep(50*time.Second + time.Millisecond)

	good := true
	header := ""
	switch sym.Choice("algorithm", 8) {
	case 0:
		header = `"alg":"RS256"`
	case 1:
		b := sym.StrOf("algorithm ends", 1, "0456 78abSHs")
		header = `"alg":"RS25` + b + `"`
		good = b == "6"
	case 2:
		header, good = `"alg":"none"`, false
	case 3:
		header, good = `"alg":"HS256"`, false
	case 4:
		header, good = `"typ":"JWT"`, false
	case 5:
		header, good = `"alg":7`, false
	case 6:
		header, good = `"alg":null`, false
	case 7:
		header, good = `"alg":"rs256"`, false
	}
	key := 0
	if good {
		switch sym.Choice("key", 8) {
		case 0:
			header += `,"kid":"k1"`
			key = 65537
		case 1:
			header += `,"kid":"k2"`
			key = 3
		case 2:
			header += `,"kid":"k3"`
		case 3:
			b := sym.Str("key ends", 1)
			sym.Assume(b[0] >= ' ')
			sym.Assume(b[0] < 0x7f)
			sym.Assume(b != `"`)
			sym.Assume(b != `\`)
			header += `,"kid":"k` + b + `"`
			if b == "1" {
				key = 65537
			} else if b == "2" {
				key = 3
			}
		case 4:
		case 5:
			header += `,"kid":null`
		case 6:
			header += `,"kid":1`
		case 7:
			header += `,"kid":["k1"]`
		}
		good = key != 0
	} else {
		header += `,"kid":"k1"`
	}
	header = "{" + header + "}"
	signer := []int{65537, 3}[sym.Choice("signer", 2)]
	good = good && signer == key

	admin := false
	var exp int64
	payload := ""
	if good {
		scope := ""
		switch sym.Choice("scope", 9) {
		case 0:
			scope = `["logs.admin"]`
			admin = true
		case 1:
			scope = `["openid","doppler.firehose"]`
			admin = true
		case 2:
			b := sym.StrOf("scope ends", 1, "abnNs.\x00 "[:6])
			scope = `["logs.admi` + b + `","x"]`
			admin = b == "n"
		case 3:
			scope = `["doppler.firehose.x","logs.admins","xlogs.admin","logs","admin"]`
		case 4:
			scope = `[]`
		case 5:
			scope = `null`
		case 6:
			scope, good = `"logs.admin"`, false
		case 7:
			scope, good = `[["logs.admin"]]`, false
		case 8:
			b := sym.StrOf("scope starts", 1, "dDk.")
			scope = `["` + b + `oppler.firehose"]`
			admin = b == "d"
		}
		e := ""
		switch sym.Choice("expiry", 10) {
		case 0:
			tens, ones := sym.Int64Range("tens", 0, 9), sym.Int64Range("ones", 0, 9)
			e = "9466848" + string([]byte{byte('0' + tens), byte('0' + ones)})
			exp = 946684800 + 10*tens + ones
		case 1:
			e, exp = "946684849.9", 946684849
		case 2:
			e, exp = "1946684800", 1946684800
		case 3:
			e, exp = "9e9", 9000000000
		case 4:
			e, exp = "-946684900", -946684900
		case 5:
			e, exp = "0", 0
		case 6:
			e, exp = "null", 0
		case 7:
			e, good = `"1946684800"`, false
		case 8:
			e, good = "1e999", false
		case 9:
			e = ""
		}
		payload = `{"scope":` + scope
		if e != "" {
			payload += `,"exp":` + e
		}
		payload += "}"
		if good && sym.Flag("odd payload") {
			payload, good = []string{"", "7", `"x"`, "[]", `{"exp":1946684800`, "null"}[sym.Choice("payload", 6)], false
		}
	} else {
		payload = `{"scope":["logs.admin"],"exp":1946684800}`
	}
	token := "bearer " + signed(header, payload, signer)
	got, err := c.Read(token)
	now := time.Now()
	if !good {
		sym.Assert(err != nil, "a token is accepted that is no good")
		sym.Assert(!got.IsAdmin && got.Token == "" && got.ExpiresAt.IsZero(), "a refused token gives rights")
		sym.Cover("refused")
		return
	}
	sym.Assert(u.reqs == 1, "the issuer's keys are not asked for once")
	valid := now.Unix() < exp
	sym.Assert(!(err == nil && !valid), "an expired token is accepted")
	sym.Assert(!(err != nil && valid), "a good token is refused")
	if err != nil {
		sym.Assert(!got.IsAdmin && got.Token == "", "a refused token gives rights")
		sym.Cover("expired")
		return
	}
	sym.Assert(got.Token == token, "the token is altered")
	sym.Assert(got.IsAdmin == admin, "the admin's rights are wrong")
	sym.Assert(got.ExpiresAt.Unix() == exp, "the time of expiry is altered")
	if admin {
		sym.Cover("admin")
	} else {
		sym.Cover("user")
	}
	sym.Expect("refused", "expired", "admin", "user")
}

// A03_Prefix: what stands before the token.
func A03_Prefix() {
	signs()
	u := &issuer{answer: func() (int, string, error) { return 200, keyList("k1", pem65537), nil }}
	c := u.client()
	word := []string{"bearer", "Bearer", "BEARER", "bEaReR", "", "basic", "bearerbearer", "bearer "}[sym.Choice("word", 8)]
	space := sym.StrOf("space", sym.Int("spaces", 0, 2), " \t\nx{")
	token := word + space + signed(`{"alg":"RS256","kid":"k1"}`, `{"exp":1946684800}`, 65537)
	got, err := c.Read(token)
	good := strings.EqualFold(strings.TrimSpace(word), "bearer") && (space != "" || word == "bearer ") && strings.TrimSpace(space) == "" || word+space == ""
	blank := strings.TrimSpace(word+space) == ""
	if good {
		sym.Assert(err == nil, "a good token is refused")
		sym.Assert(got.Token == token && !got.IsAdmin && got.ExpiresAt.Unix() == 1946684800, "the token is altered")
		sym.Cover("accepted")
	} else if !blank {
		sym.Assert(err != nil, "a token is accepted behind another scheme")
		sym.Cover("refused")
	}
	sym.Expect("accepted", "refused")
}

// A03_Malformed: texts that are no tokens.
func A03_Malformed() {
	segments := jose.Segments
	signs()
	jose.Segments = segments
	u := &issuer{answer: func() (int, string, error) { return 200, keyList("k1", pem65537), nil }}
	c := u.client()
	// e30 is {}, bnVsbA null, W10 [], eyJhbGciOiJSUzI1NiJ9 names RS256 and
	// eyJhbGciOiJSUzI1NiIsImtpZCI6ImsxIn0 a key as well.
	first := []string{"", "e30", "bnVsbA", "W10", "eyJhbGciOiJSUzI1NiJ9", "eyJhbGciOiJSUzI1NiIsImtpZCI6ImsxIn0"}[sym.Choice("first", 6)]
	text := sym.StrOf("text", sym.Int("length", 0, sym.Bound("length", 3, 4)), ".eA=\n ")
	token := first + text
	if sym.Flag("bearer") {
		token = "bearer " + token
	}
	got, err := c.Read(token)
	sym.Assert(err != nil, "a text that is no token is accepted")
	sym.Assert(!got.IsAdmin && got.Token == "", "a refused token gives rights")
	sym.Cover("refused")
	sym.Expect("refused")
}

// A03_Keys: the keys that the issuer lists over time.
func A03_Keys() {
	signs()
	type listing struct {
		status int
		body   string
		err    error
		keys   map[string]int // The keys that can be told from it.
		whole  bool
	}
	listings := []listing{
		{200, keyList("k1", pem65537), nil, map[string]int{"k1": 65537}, true},
		{200, keyList("k1", pem3), nil, map[string]int{"k1": 3}, true},
		{200, keyList("k2", pem3, "k1", pem65537), nil, map[string]int{"k1": 65537, "k2": 3}, true},
		{200, keyList("k2", pem3), nil, map[string]int{"k2": 3}, true},
		{200, keyList("k2", pem3, "k1", ""), nil, map[string]int{"k2": 3}, false},
		{200, keyList("k2", pemEC, "k1", pem65537), nil, nil, false},
		{200, keyList("k2", pemPKCS1), nil, nil, false},
		{200, keyList("k2", "text"), nil, nil, false},
		{200, `{"keys":7}`, nil, nil, false},
		{500, keyList("k2", pem3), nil, nil, false},
		{0, "", errors.New("no route"), nil, false},
		{200, `{}`, nil, nil, true},
	}
	known := map[string]int{}
	var state int
	u := &issuer{}
	u.answer = func() (int, string, error) {
		l := listings[state]
		if l.whole {
			known = map[string]int{}
		}
		for k, e := range l.keys {
			known[k] = e
		}
		return l.status, l.body, l.err
	}
	interval := time.Duration(sym.Int64Range("interval", int64(time.Second), int64(time.Minute)))
	c := u.client(auth.WithMinimumRefreshInterval(interval))
	n := sym.Bound("tokens", 3, 4)
	for i := 0; i < n; i++ {
		if i > 0 && sym.Flag("pause") {
			time.Sleep(40 * time.Second)
		}
		if i == 0 {
			state = []int{2, 8}[sym.Choice("first listing", 2)]
		} else if sym.Flag("listing changes") {
			if i+1 < n {
				state = []int{1, 3, 4, 9}[sym.Choice("listing", 4)]
			} else {
				state = sym.Choice("last listing", len(listings))
			}
		}
		kid, e := "k1", 65537
		if i > 0 {
			kid = []string{"k1", "k2"}[sym.Choice("key", 2)]
			e = []int{65537, 3}[sym.Choice("signer", 2)]
		}
		allowed := u.reqs == 0 || !time.Now().Before(u.at[len(u.at)-1].Add(interval))
		before := u.reqs
		had, has := known[kid]
		if has {
			allowed = allowed && had != e
		}
		_, err := c.Read("bearer " + signed(`{"alg":"RS256","kid":"`+kid+`"}`, `{"exp":1946684800}`, e))
		want := has && had == e
		if !has {
			want = known[kid] == e
		}
		sym.Assert(!(err == nil && !want), "a token is accepted that no key of the issuer signed")
		sym.Assert(!(err != nil && want), "a token that a key of the issuer signed is refused")
		if want {
			sym.Cover("accepted")
		} else {
			sym.Cover("refused")
		}
		time.Sleep(time.Nanosecond)
		sym.Assert(u.reqs == before || allowed, "the issuer is asked more often than allowed")
		sym.Assert(u.reqs > before || !allowed, "the issuer is not asked for its keys after a token of an unknown key")
		sym.Assert(u.reqs <= before+1, "the issuer is asked twice for one token")
		if u.reqs > before && has {
			sym.Cover("same key identifier, another key")
		}
	}
	sym.Expect("accepted", "refused", "same key identifier, another key")
}

// A03_Together: tokens at the time the keys change.
//
//sym:race
func A03_Together() {
	signs()
	sym.Preemptions(sym.Bound("preemptions", 1, 2))
	sym.Races()
	u := twoKeys{sym.Flag("second key first")}
	c := auth.NewUAAClient("https://uaa.example", u, gauges{}, log.New(io.Discard, "", 0), auth.WithMinimumRefreshInterval(0))
	read := func(kid string, e int) bool {
		_, err := c.Read("bearer " + signed(`{"alg":"RS256","kid":"`+kid+`"}`, `{"exp":1946684800}`, e))
		return err == nil
	}
	if sym.Flag("before") {
		sym.Assert(read("k1", 65537), "a good token is refused")
	}
	second := make(chan bool)
	go func() { second <- read("k2", 3) }()
	sym.Assert(!read("k1", 3), "a token is accepted that no key of the issuer signed")
	sym.Assert(<-second, "a good token is refused")
	sym.Assert(!read("k2", 65537), "a token is accepted that no key of the issuer signed")
}

// twoKeys is an issuer without a history.
type twoKeys struct{ second bool }

func (u twoKeys) Do(r *http.Request) (*http.Response, error) {
	b := keyList("k1", pem65537, "k2", pem3)
	if u.second {
		b = keyList("k2", pem3, "k1", pem65537)
	}
	return &http.Response{StatusCode: 200, Header: http.Header{}, Body: io.NopCloser(strings.NewReader(b))}, nil
}

// A03_Throttled: tokens of unknown keys at the same time.
//
//sym:race
func A03_Throttled() {
	sym.Expect("one asks", "later again")
	signs()
	sym.Preemptions(sym.Bound("preemptions", 1, 2))
	sym.Races()
	u := &counted{}
	c := auth.NewUAAClient("https://uaa.example", u, gauges{}, log.New(io.Discard, "", 0), auth.WithMinimumRefreshInterval(time.Minute))
	slow := sym.Flag("slow issuer")
	if slow {
		u.took = 5 * time.Second
	}
	done := make(chan bool)
	n := sym.Bound("tokens at once", 2, 3)
	for i := 0; i < n; i++ {
		go func() {
			_, err := c.Read("bearer " + signed(`{"alg":"RS256","kid":"none"}`, `{"exp":1946684800}`, 3))
			done <- err == nil
		}()
	}
	for i := 0; i < n; i++ {
		sym.Assert(!<-done, "a token is accepted that no key of the issuer signed")
	}
	time.Sleep(time.Second)
	sym.Assert(u.n() == 1, "the issuer is asked more often than allowed")
	sym.Cover("one asks")
	time.Sleep(time.Minute)
	c.Read("bearer " + signed(`{"alg":"RS256","kid":"none"}`, `{"exp":1946684800}`, 3))
	sym.Assert(u.n() < 3, "the issuer is asked more often than allowed after the interval")
	sym.Assert(u.n() == 2, "the issuer is not asked again after the interval")
	sym.Cover("later again")
}

// counted is an issuer that counts what it is asked.
type counted struct {
	twoKeys
	mu   sync.Mutex
	reqs int
	took time.Duration
}

func (u *counted) n() int {
	u.mu.Lock()
	defer u.mu.Unlock()
	return u.reqs
}

func (u *counted) Do(r *http.Request) (*http.Response, error) {
	u.mu.Lock()
	u.reqs++
	u.mu.Unlock()
	time.Sleep(u.took)
	return u.twoKeys.Do(r)
}
