// Package sysl holds the harnesses for the syslog server.
package sysl

import (
	"context"
	"crypto/tls"
	"errors"
	"io"
	"log"
	"net"
	"os"
	"strconv"
	"strings"
	"time"

	"code.cloudfoundry.org/go-loggregator/metrics"
	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/syslog"
	"code.cloudfoundry.org/log-cache/internal/zzverif/keys"
	"code.cloudfoundry.org/log-cache/internal/zzverif/sym"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	gosyslog "github.com/influxdata/go-syslog"
	"github.com/influxdata/go-syslog/octetcounting"
	"google.golang.org/grpc"
)

type env = loggregator_v2.Envelope

// message is a parsed message; what is nil was "-" or missing.
type message struct {
	pri             uint8
	at              *time.Time
	app, proc, text *string
	data            *map[string]map[string]string
}

func (m *message) Valid() bool                                   { return true }
func (m *message) Version() uint16                               { return 1 }
func (m *message) Priority() *uint8                              { return &m.pri }
func (m *message) Timestamp() *time.Time                         { return m.at }
func (m *message) Appname() *string                              { return m.app }
func (m *message) ProcID() *string                               { return m.proc }
func (m *message) Message() *string                              { return m.text }
func (m *message) StructuredData() *map[string]map[string]string { return m.data }
func (m *message) Facility() *uint8                              { v := m.pri / 8; return &v }
func (m *message) Severity() *uint8                              { v := m.pri % 8; return &v }
func (m *message) FacilityMessage() *string                      { return nil }
func (m *message) FacilityLevel() *string                        { return nil }
func (m *message) SeverityMessage() *string                      { return nil }
func (m *message) SeverityLevel() *string                        { return nil }
func (m *message) SeverityShortLevel() *string                   { return nil }
func (m *message) Hostname() *string                             { return nil }
func (m *message) MsgID() *string                                { return nil }

// conn is a connection of a client.
type conn struct {
	in        []byte
	deadlines []time.Duration // from the time they were set
	closed    int
}

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

func (c *conn) Read(b []byte) (int, error) {
	if c.closed > 0 || len(c.in) == 0 {
		return 0, io.EOF
	}
	n := copy(b, c.in)
	c.in = c.in[n:]
	return n, nil
}
func (c *conn) Write(b []byte) (int, error)        { return len(b), nil }
func (c *conn) Close() error                       { c.closed++; return nil }
func (c *conn) LocalAddr() net.Addr                { return addr("here") }
func (c *conn) RemoteAddr() net.Addr               { return addr("there") }
func (c *conn) SetDeadline(t time.Time) error      { return c.SetReadDeadline(t) }
func (c *conn) SetWriteDeadline(t time.Time) error { return nil }
func (c *conn) SetReadDeadline(t time.Time) error {
	c.deadlines = append(c.deadlines, time.Until(t))
	return nil
}

// socket is what the server listens on.
type socket struct {
	conns  chan net.Conn
	closed chan bool
	cfg    *tls.Config
	laddr  string
}

var errClosed = errors.New("closed")

func (s *socket) Accept() (net.Conn, error) {
	select {
	case c := <-s.conns:
		return c, nil
	case <-s.closed:
		return nil, errClosed
	}
}
func (s *socket) Close() error   { close(s.closed); return nil }
func (s *socket) Addr() net.Addr { return addr("127.0.0.1:6514") }

// cache is Log Cache as the server sees it.
type cache struct {
	fail bool
	got  []*env
}

func (c *cache) Send(ctx context.Context, r *logcache_v1.SendRequest, _ ...grpc.CallOption) (*logcache_v1.SendResponse, error) {
	if c.fail {
		return nil, errClosed
	}
	sym.Assert(!r.LocalOnly, "a message is kept on the node that received it")
	c.got = append(c.got, r.GetEnvelopes().GetBatch()...)
	return &logcache_v1.SendResponse{}, nil
}

type counter struct{ n float64 }

func (c *counter) Add(d float64) { c.n += d }

type registry map[string]*counter

func (r registry) NewCounter(name string, opts ...metrics.MetricOption) metrics.Counter {
	if r[name] == nil {
		r[name] = &counter{}
	}
	return r[name]
}

// rig is a running server.
type rig struct {
	sock  *socket
	cache *cache
	m     registry
	srv   *syslog.Server
	dir   string
	done  bool
}

func start(opts ...syslog.ServerOption) *rig {
	dir, err := os.MkdirTemp("", "sysl")
	if err != nil {
		panic(err)
	}
	for f, c := range map[string]string{"/cert": keys.CertA, "/key": keys.KeyA} {
		if err := os.WriteFile(dir+f, []byte(c), 0o600); err != nil {
			panic(err)
		}
	}
	r := &rig{sock: &socket{conns: make(chan net.Conn), closed: make(chan bool)}, cache: &cache{}, m: registry{}, dir: dir}
	tls.ZZListen = func(network, laddr string, cfg *tls.Config) (net.Listener, error) {
		r.sock.cfg, r.sock.laddr = cfg, laddr
		return r.sock, nil
	}
	r.srv = syslog.NewServer(log.New(io.Discard, "", 0), r.cache, r.m, dir+"/cert", dir+"/key", opts...)
	go func() {
		r.srv.Start()
		r.done = true
	}()
	sym.Wait()
	if sym.Native() {
		os.RemoveAll(dir)
	}
	return r
}

func (r *rig) stop() {
	r.srv.Stop()
	sym.Wait()
	sym.Assert(r.done, "the server goes on after it is stopped")
	octetcounting.Source = nil
	tls.ZZListen = nil
}

// give lets a client send what the parser makes these results of.
func (r *rig) give(rs ...*gosyslog.Result) *conn {
	octetcounting.Source = func(_ io.Reader, emit gosyslog.ParserListener) {
		for _, x := range rs {
			emit(x)
		}
	}
	c := &conn{}
	r.sock.conns <- c
	sym.Wait()
	sym.Assert(c.closed > 0, "a connection that ended is left open")
	return c
}

func (r *rig) counted(good, bad int, what string) {
	sym.Assert(r.m["ingress"] != nil && r.m["invalid_ingress"] != nil, "the server has no counters")
	sym.Assert(r.m["ingress"].n == float64(good), what+": messages are counted wrong")
	sym.Assert(r.m["invalid_ingress"].n == float64(bad), what+": invalid messages are counted wrong")
}

func str(name string, n int, alphabet string) *string {
	if sym.Flag("no " + name) {
		return nil
	}
	s := sym.StrOf(name, sym.Int(name+" length", 1, n), alphabet)
	return &s
}

func instant() *time.Time {
	if sym.Flag("no time") {
		return nil
	}
	t := time.Unix(0, sym.Int64("time"))
	return &t
}

// instance is what a process id stands for.
func instance(proc *string) (kind, id string) {
	if proc == nil {
		return "", ""
	}
	p := *proc
	for len(p) > 0 && (p[0] == '[' || p[0] == ']') {
		p = p[1:]
	}
	for len(p) > 0 && (p[len(p)-1] == '[' || p[len(p)-1] == ']') {
		p = p[:len(p)-1]
	}
	kind, id = p, p
	for i := 0; i < len(p); i++ {
		if p[i] == '/' {
			kind = p[:i]
			break
		}
	}
	for i := len(p) - 1; i >= 0; i-- {
		if p[i] == '/' {
			id = p[i+1:]
			break
		}
	}
	return kind, id
}

func space(c byte) bool { return c == ' ' || c == '\t' || c == '\n' }

// Y01_Log converts messages without structured data.
func Y01_Log() {
	sym.Expect("log", "error log", "nothing said", "no source")
	m := &message{pri: sym.Byte("priority"), at: instant(), app: str("app", sym.Bound("app length", 1, 2), "ab-/["), text: nil}
	switch sym.Choice("process", 3) {
	case 0:
	case 1:
		p := sym.StrOf("proc", sym.Int("process id length", 1, sym.Bound("process id length", 3, 5)), "[]/A2")
		m.proc = &p
	case 2:
		p := "[APP/PROC/WEB/" + sym.Str("index", 1) + "]"
		m.proc = &p
	}
	m.text = str("text", sym.Bound("text length", 2, 3), " \t\na\xff")
	if sym.Flag("empty data") {
		m.data = &map[string]map[string]string{}
	}
	sym.Assume(m.pri <= 191)
	r := start()
	defer r.stop()
	r.give(&gosyslog.Result{Message: m})
	if m.app == nil || m.at == nil {
		sym.Cover("no source")
		sym.Assert(len(r.cache.got) == 0, "a message without a source or a time is stored")
		r.counted(0, 1, "message without a source or a time")
		return
	}
	sym.Assert(len(r.cache.got) == 1, "a log is not forwarded once")
	r.counted(1, 0, "log")
	e := r.cache.got[0]
	kind, id := instance(m.proc)
	sym.Assert(sym.EqStr(e.SourceId, *m.app), "a log has another source id")
	sym.Assert(sym.EqStr(e.InstanceId, id), "a log has another instance id")
	sym.Assert(e.Timestamp == m.at.UnixNano(), "a log has another timestamp")
	sym.Assert(len(e.Tags) == 1 && sym.EqStr(e.Tags["source_type"], kind), "a log has other tags")
	l := e.GetLog()
	sym.Assert(l != nil, "a log becomes something else")
	want := ""
	if m.text != nil {
		want = *m.text
		for len(want) > 0 && space(want[0]) {
			want = want[1:]
		}
		for len(want) > 0 && space(want[len(want)-1]) {
			want = want[:len(want)-1]
		}
	} else {
		sym.Cover("nothing said")
	}
	sym.Assert(sym.EqStr(string(l.Payload), want), "a log says something else")
	if m.pri == 11 {
		sym.Cover("error log")
		sym.Assert(l.Type == loggregator_v2.Log_ERR, "an error is an output")
	} else {
		sym.Cover("log")
		sym.Assert(l.Type == loggregator_v2.Log_OUT, "an output is an error")
	}
}

// number is a parameter: a short text or one at the limits.
func number(name, alphabet string) (s string, given bool) {
	big := []string{"18446744073709551615", "18446744073709551616", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "1e3", "0x1p-2", "NaN", "-Inf", "007"}
	switch k := sym.Choice(name, 3); k {
	case 0:
		return "", false
	case 1:
		return sym.StrOf(name+" text", sym.Int(name+" length", 0, sym.Bound("number length", 2, 3)), alphabet), true
	default:
		return big[sym.Choice(name+" special", len(big))], true
	}
}

func put(m map[string]string, k, v string, given bool) {
	if given {
		m[k] = v
	}
}

// Y01_Metric converts messages with structured data.
func Y01_Metric() {
	sym.Expect("counter", "gauge", "timer", "event", "unknown", "refused", "largest total")
	names := []string{"counter", "gauge", "timer", "event", "Counter", "log"}
	suffix := []string{"@47450", "", "x"}
	k := sym.Choice("element", len(names))
	p := map[string]string{}
	at := time.Unix(0, sym.Int64("time"))
	app, proc := "src", "[APP/7]"
	txt := "ignored"
	m := &message{pri: 14, at: &at, app: &app, proc: &proc, text: &txt, data: &map[string]map[string]string{names[k] + suffix[sym.Choice("suffix", 3)]: p}}
	if sym.Flag("bare") {
		m.text, m.proc = nil, nil
	}
	hasName := sym.Flag("name")
	name := ""
	if hasName {
		name = sym.Str("name text", sym.Int("name length", 0, 2))
		p["name"] = name
	}
	ok := true
	var delta, total uint64
	var start_, stop int64
	var value float64
	unit, title, body := "", "", ""
	var err, err2 error
	switch names[k] {
	case "counter":
		d, g1 := number("delta", "019+-_")
		t, g2 := number("total", "019+-_")
		put(p, "delta", d, g1)
		put(p, "total", t, g2)
		delta, err = strconv.ParseUint(d, 10, 64)
		total, err2 = strconv.ParseUint(t, 10, 64)
		ok = err == nil && err2 == nil
	case "gauge":
		v, g := number("value", "01.e-")
		put(p, "value", v, g)
		value, err = strconv.ParseFloat(v, 64)
		hasUnit := sym.Flag("unit")
		if hasUnit {
			unit = []string{"", "x"}[sym.Choice("unit text", 2)]
			p["unit"] = unit
		}
		ok = err == nil && hasUnit
	case "timer":
		a, g1 := number("start", "019+-_")
		b, g2 := number("stop", "019+-_")
		put(p, "start", a, g1)
		put(p, "stop", b, g2)
		start_, err = strconv.ParseInt(a, 10, 64)
		stop, err2 = strconv.ParseInt(b, 10, 64)
		ok = err == nil && err2 == nil
	case "event":
		if sym.Flag("title") {
			title = sym.Str("title text", sym.Int("title length", 0, 2))
			p["title"] = title
		}
		if sym.Flag("body") {
			body = sym.Str("body text", sym.Int("body length", 0, 2))
			p["body"] = body
		}
	default:
		sym.Cover("unknown")
		ok = false
	}
	r := start()
	defer r.stop()
	r.give(&gosyslog.Result{Message: m})
	if !ok {
		sym.Cover("refused")
		sym.Assert(len(r.cache.got) == 0, "a message that makes no sense is stored")
		r.counted(0, 1, "metric that makes no sense")
		return
	}
	sym.Assert(len(r.cache.got) == 1, "a metric is not forwarded once")
	r.counted(1, 0, "metric")
	e := r.cache.got[0]
	_, id := instance(m.proc)
	sym.Assert(e.SourceId == app, "a metric has another source id")
	sym.Assert(e.InstanceId == id, "a metric has another instance id")
	sym.Assert(e.Timestamp == at.UnixNano(), "a metric has another timestamp")
	sym.Assert(len(e.Tags) == 0 && len(e.DeprecatedTags) == 0, "a metric has tags that nobody gave it")
	switch names[k] {
	case "counter":
		c := e.GetCounter()
		sym.Assert(c != nil, "a counter becomes something else")
		sym.Assert(sym.EqStr(c.Name, name), "a counter has another name")
		sym.Assert(c.Delta == delta, "a counter has another delta")
		sym.Assert(c.Total == total, "a counter has another total")
		if total == 1<<64-1 {
			sym.Cover("largest total")
		}
		sym.Cover("counter")
	case "gauge":
		g := e.GetGauge()
		sym.Assert(g != nil && len(g.Metrics) == 1, "a gauge becomes something else")
		v := g.Metrics[name]
		sym.Assert(v != nil, "a gauge has another name")
		sym.Assert(sym.EqStr(v.Unit, unit), "a gauge has another unit")
		sym.Assert(sym.SameFloat(v.Value, value), "a gauge has another value")
		sym.Cover("gauge")
	case "timer":
		t := e.GetTimer()
		sym.Assert(t != nil, "a timer becomes something else")
		sym.Assert(sym.EqStr(t.Name, name), "a timer has another name")
		sym.Assert(t.Start == start_ && t.Stop == stop, "a timer has other times")
		sym.Cover("timer")
	case "event":
		v := e.GetEvent()
		sym.Assert(v != nil, "an event becomes something else")
		sym.Assert(sym.EqStr(v.Title, title) && sym.EqStr(v.Body, body), "an event says something else")
		sym.Cover("event")
	}
}

// Y01_Stream sends good, bad and undeliverable messages over connections.
func Y01_Stream() {
	sym.Expect("good", "bad", "half", "undelivered", "second connection", "default timeout")
	idle := 2 * time.Minute
	var opts []syslog.ServerOption
	if sym.Flag("timeout") {
		idle = time.Duration(sym.Int64Range("idle", 1, 1<<50))
		opts = append(opts, syslog.WithIdleTimeout(idle))
	} else {
		sym.Cover("default timeout")
	}
	r := start(opts...)
	defer r.stop()
	sym.Assert(r.srv.Addr() == "127.0.0.1:6514", "the server does not tell where it listens")
	good, bad := 0, 0
	var want []int64
	for n := sym.Int("connections", 1, 2); n > 0; n-- {
		if n == 1 && good+bad > 0 {
			sym.Cover("second connection")
		}
		octetcounting.Source = nil
		k := sym.Int("messages", 0, sym.Bound("messages", 2, 3))
		c := &conn{}
		octetcounting.Source = func(_ io.Reader, emit gosyslog.ParserListener) {
			sym.Assert(len(c.deadlines) == 1, "a client may say nothing for ever")
			for i := 0; i < k; i++ {
				time.Sleep(time.Duration(sym.Int64Range("silence", 0, 1<<40)))
				at := time.Unix(0, sym.Int64("time"))
				app, proc, text := "a", "[APP/1]", "t"
				m := &message{at: &at, app: &app, proc: &proc, text: &text}
				r.cache.fail = false
				before := len(c.deadlines)
				switch sym.Choice("kind", 4) {
				case 0:
					emit(&gosyslog.Result{Message: m})
					good++
					want = append(want, at.UnixNano())
					sym.Cover("good")
				case 1:
					emit(&gosyslog.Result{Error: errClosed})
					bad++
					sym.Cover("bad")
				case 2: // what could be made out of a bad message
					emit(&gosyslog.Result{Error: errClosed, Message: m})
					bad++
					sym.Cover("half")
				case 3:
					r.cache.fail = true
					emit(&gosyslog.Result{Message: m})
					sym.Cover("undelivered")
				}
				sym.Assert(len(c.deadlines) > before, "a client that goes on is disconnected")
			}
		}
		r.sock.conns <- c
		time.Sleep(time.Hour)
		sym.Wait()
		sym.Assert(c.closed > 0, "a connection that ended is left open")
		for _, d := range c.deadlines {
			sym.Assert(d == idle, "a client is disconnected after another time than configured")
		}
		r.counted(good, bad, "stream")
	}
	sym.Assert(len(r.cache.got) == len(want), "messages are lost or repeated")
	for i, e := range r.cache.got {
		sym.Assert(e.Timestamp == want[i], "messages change places")
	}
}

// Y01_Together has a client say nothing while others come.
func Y01_Together() {
	sym.Expect("served")
	r := start()
	defer r.stop()
	at := time.Unix(0, 7)
	app := "a"
	silent := make(chan bool)
	quiet := sym.Int("silent clients", 1, 2)
	n := 0
	octetcounting.Source = func(_ io.Reader, emit gosyslog.ParserListener) {
		n++
		if n <= quiet {
			<-silent
		}
		emit(&gosyslog.Result{Message: &message{at: &at, app: &app}})
	}
	cs := make([]*conn, quiet+2)
	for i := range cs {
		cs[i] = &conn{}
		select {
		case r.sock.conns <- cs[i]:
		case <-time.After(time.Minute):
			sym.Fail("a client waits for another that says nothing")
		}
		sym.Wait()
		sym.Assert((cs[i].closed > 0) == (i >= quiet), "a client that says nothing is disconnected, or one that ended is not")
	}
	r.counted(2, 0, "others")
	sym.Cover("served")
	close(silent)
	sym.Wait()
	r.counted(quiet+2, 0, "all")
	for _, c := range cs {
		sym.Assert(c.closed > 0, "a connection that ended is left open")
	}
}

func field(name string, s *string, alphabet string) string {
	if sym.Flag("no " + name) {
		return "-"
	}
	*s = sym.StrOf(name, 1, alphabet)
	return *s
}

// Y01_Wire sends the bytes of messages.
func Y01_Wire() {
	sym.Expect("log", "counter", "refused", "garbage first", "two in a row")
	r := start()
	defer r.stop()
	octetcounting.Source = nil
	if sym.Flag("garbage") {
		c := &conn{in: []byte(sym.StrOf("bytes", sym.Int("bytes", 0, sym.Bound("garbage bytes", 4, 6)), "1 <>-a\n"))}
		r.sock.conns <- c
		sym.Wait()
		sym.Assert(c.closed > 0, "a connection that ended is left open")
		sym.Assert(len(r.cache.got) == 0, "bytes that are no message are stored")
		sym.Cover("garbage first")
	}
	r.m["ingress"].n, r.m["invalid_ingress"].n = 0, 0
	app, proc, text := "", "", ""
	at := "-"
	if !sym.Flag("no time") {
		at = "1970-01-01T00:00:00.012345+00:00"
	}
	line := "<11>1 " + at + " host " + field("app", &app, "ab") + " " + field("proc", &proc, "1/") + " - "
	isCounter := sym.Flag("counter")
	if isCounter {
		line += `[counter@47450 name="n" total="99" delta="1"]`
	} else {
		line += "-"
	}
	if !sym.Flag("no text") {
		text = sym.StrOf("text", sym.Int("wire text", 1, sym.Bound("wire text", 2, 3)), "a \n")
		line += " " + text
	}
	n := 1
	if sym.Flag("twice") {
		n = 2
		sym.Cover("two in a row")
	}
	var in []byte
	for i := 0; i < n; i++ {
		in = append(in, strconv.Itoa(len(line))+" "+line...)
	}
	c := &conn{in: in}
	r.sock.conns <- c
	sym.Wait()
	sym.Assert(c.closed > 0, "a connection that ended is left open")
	if app == "" || at == "-" {
		sym.Cover("refused")
		sym.Assert(len(r.cache.got) == 0, "a message without a source or a time is stored")
		r.counted(0, n, "message without a source or a time")
		return
	}
	r.counted(n, 0, "message")
	sym.Assert(len(r.cache.got) == n, "a message is not forwarded once")
	for _, e := range r.cache.got {
		sym.Assert(sym.EqStr(e.SourceId, app) && e.Timestamp == 12345000, "a message comes from elsewhere or another time")
		if isCounter {
			sym.Assert(e.GetCounter().GetName() == "n" && e.GetCounter().GetTotal() == 99 && e.GetCounter().GetDelta() == 1, "a counter counts something else")
			sym.Cover("counter")
			continue
		}
		sym.Assert(e.GetLog() != nil && sym.EqStr(string(e.GetLog().Payload), strings.TrimSpace(text)), "a log says something else")
		sym.Assert(e.GetLog().GetType() == loggregator_v2.Log_ERR, "an error is an output")
		sym.Cover("log")
	}
}
