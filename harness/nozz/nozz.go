// Package nozz holds the harnesses for the nozzle.
package nozz

import (
	"context"
	"errors"
	"io"
	"log"
	"runtime"
	"sync"
	"time"

	"code.cloudfoundry.org/go-loggregator"
	"code.cloudfoundry.org/go-loggregator/metrics"
	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/nozzle"
	"code.cloudfoundry.org/log-cache/internal/zzverif/sym"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"google.golang.org/grpc"
)

type env = loggregator_v2.Envelope

// batch is what the stream brings, after a silence.
type batch struct {
	silence time.Duration
	envs    []*env
}

// stream is where the envelopes come from.
type stream struct {
	mu      sync.Mutex
	reqs    []*loggregator_v2.EgressBatchRequest
	batches []batch
	at      []time.Time // when each envelope came
	given   []*env
}

func (s *stream) Stream(ctx context.Context, req *loggregator_v2.EgressBatchRequest) loggregator.EnvelopeStream {
	s.reqs = append(s.reqs, req)
	return func() []*env {
		if len(s.batches) == 0 {
			select {}
		}
		b := s.batches[0]
		s.batches = s.batches[1:]
		time.Sleep(b.silence)
		s.mu.Lock()
		defer s.mu.Unlock()
		for _, e := range b.envs {
			s.given = append(s.given, e)
			s.at = append(s.at, time.Now())
		}
		return b.envs
	}
}

type metric struct {
	mu sync.Mutex
	n  float64
}

func (m *metric) Add(d float64) { m.mu.Lock(); m.n += d; m.mu.Unlock() }
func (m *metric) Set(d float64) { m.mu.Lock(); m.n = d; m.mu.Unlock() }

func (r registry) value(name string) float64 {
	m := r[name]
	sym.Assert(m != nil, "the nozzle lacks a counter")
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.n
}

type registry map[string]*metric

func (r registry) get(name string) *metric {
	if r[name] == nil {
		r[name] = &metric{}
	}
	return r[name]
}
func (r registry) NewCounter(name string, _ ...metrics.MetricOption) metrics.Counter {
	return r.get(name)
}
func (r registry) NewGauge(name string, _ ...metrics.MetricOption) metrics.Gauge { return r.get(name) }

// sent is a request to log cache.
type sent struct {
	at   time.Time
	envs []*env
	ok   bool
}

// cache is Log Cache as the nozzle sees it.
type cache struct {
	mu    sync.Mutex
	calls []sent
	fate  func(i int) string // of the i-th request
}

var errDown = errors.New("down")

func (c *cache) call(ctx context.Context, method string, req, reply interface{}, cc *grpc.ClientConn, invoker grpc.UnaryInvoker, opts ...grpc.CallOption) error {
	if cc.Target() != "127.0.0.1:13" {
		sym.Fail("another node is called than the one configured")
	}
	r, ok := req.(*logcache_v1.SendRequest)
	if !ok || r.LocalOnly {
		sym.Fail("log cache is asked for something else than to take envelopes")
	}
	if dl, ok := ctx.Deadline(); !ok || time.Until(dl) > 3*time.Second {
		sym.Fail("a request has no time limit of 3 seconds")
	}
	c.mu.Lock()
	i := len(c.calls)
	f := c.fate(i)
	c.calls = append(c.calls, sent{at: time.Now(), envs: r.Envelopes.GetBatch(), ok: f == "taken"})
	c.mu.Unlock()
	switch f {
	case "refused":
		return errDown
	case "hangs":
		<-ctx.Done()
		return ctx.Err()
	}
	return nil
}

type rig struct {
	s *stream
	c *cache
	m registry
}

func start(s *stream, c *cache, opts ...nozzle.NozzleOption) *rig {
	r := &rig{s: s, c: c, m: registry{}}
	opts = append([]nozzle.NozzleOption{nozzle.WithDialOpts(grpc.WithInsecure(), grpc.WithUnaryInterceptor(c.call))}, opts...)
	go nozzle.NewNozzle(s, "127.0.0.1:13", "shard", r.m, log.New(io.Discard, "", 0), opts...).Start()
	return r
}

// check looks at what has been sent when everything has come to rest.
func (r *rig) check() {
	r.c.mu.Lock()
	defer r.c.mu.Unlock()
	r.s.mu.Lock()
	defer r.s.mu.Unlock()
	i, good, failed := 0, 0, 0
	for _, call := range r.c.calls {
		sym.Assert(len(call.envs) > 0, "an empty request is sent")
		sym.Assert(len(call.envs) <= 512, "a request has more than 512 envelopes")
		for _, e := range call.envs {
			sym.Assert(i < len(r.s.given), "an envelope is sent twice")
			sym.Assert(e == r.s.given[i], "an envelope is lost, repeated or out of place")
			sym.Assert(call.at.Sub(r.s.at[i]) <= 510*time.Millisecond, "an envelope waits for longer than the flush interval")
			i++
		}
		if call.ok {
			good += len(call.envs)
		} else {
			failed++
		}
	}
	sym.Assert(i == len(r.s.given), "an envelope is never sent")
	sym.Assert(r.m.value("nozzle_ingress") == float64(len(r.s.given)), "envelopes that came are counted wrong")
	sym.Assert(r.m.value("nozzle_egress") == float64(good), "envelopes that were taken are counted wrong")
	sym.Assert(r.m.value("nozzle_err") == float64(failed), "failed requests are counted wrong")
}

func envelopes(n int) []*env {
	var es []*env
	for i := 0; i < n; i++ {
		es = append(es, &env{Timestamp: int64(i)})
	}
	return es
}

// N01_Forward lets envelopes come at different times, and requests fail.
func N01_Forward() {
	sym.Expect("taken", "refused", "hangs", "nothing", "several requests")
	s := &stream{}
	silences := []time.Duration{0, 3 * time.Millisecond, 498 * time.Millisecond, 700 * time.Millisecond}
	for n := sym.Int("batches", 0, sym.Bound("batches", 2, 3)); n > 0; n-- {
		s.batches = append(s.batches, batch{silences[sym.Choice("silence", len(silences))] + time.Duration(sym.Int64Range("more silence", 100000, 300000)), envelopes(sym.Int("envelopes", 0, 2))})
	}
	fates := []string{"taken", "refused", "hangs"}
	var fate []string
	for range s.batches {
		fate = append(fate, fates[sym.Choice("fate", 3)])
	}
	c := &cache{fate: func(i int) string {
		if i >= len(fate) {
			return "taken"
		}
		sym.Cover(fate[i])
		return fate[i]
	}}
	r := start(s, c)
	time.Sleep(7 * time.Second)
	sym.Wait()
	if len(s.given) == 0 {
		sym.Cover("nothing")
	}
	if len(c.calls) > 1 {
		sym.Cover("several requests")
	}
	r.check()
}

// N01_Large lets more come at once than a request takes.
func N01_Large() {
	sym.Expect("full", "over")
	sizes := []int{511, 512, 513}
	s := &stream{}
	k := sym.Choice("size", len(sizes))
	s.batches = append(s.batches, batch{0, envelopes(sizes[k])})
	if sym.Flag("more") {
		s.batches = append(s.batches, batch{time.Duration(sym.Choice("silence", 2)) * 100 * time.Millisecond, envelopes(2)})
	}
	c := &cache{fate: func(int) string { return "taken" }}
	r := start(s, c)
	time.Sleep(1500 * time.Millisecond)
	sym.Wait()
	if sizes[k] == 512 {
		sym.Cover("full")
	}
	if len(c.calls) > 1 {
		sym.Cover("over")
	}
	r.check()
}

// N01_Hanging has log cache take longer than envelopes come in.
func N01_Hanging() {
	sym.Expect("all hang")
	s := &stream{}
	n := sym.Int("batches", 3, sym.Bound("hanging batches", 4, 6))
	for i := 0; i < n; i++ {
		s.batches = append(s.batches, batch{600 * time.Millisecond, envelopes(1)})
	}
	last := sym.Int("last to hang", 0, n)
	c := &cache{fate: func(i int) string {
		if i < last {
			return "hangs"
		}
		return "taken"
	}}
	if last == n {
		sym.Cover("all hang")
	}
	r := start(s, c)
	time.Sleep(time.Duration(n)*600*time.Millisecond + 4*time.Second)
	sym.Wait()
	r.check()
}

// kind is 0 for what cannot be sent.
func kind(s *loggregator_v2.Selector) int {
	switch m := s.Message.(type) {
	case *loggregator_v2.Selector_Log:
		if m.Log != nil {
			return 1
		}
	case *loggregator_v2.Selector_Gauge:
		if m.Gauge != nil {
			return 2
		}
	case *loggregator_v2.Selector_Counter:
		if m.Counter != nil {
			return 3
		}
	case *loggregator_v2.Selector_Timer:
		if m.Timer != nil {
			return 4
		}
	case *loggregator_v2.Selector_Event:
		if m.Event != nil {
			return 5
		}
	}
	return 0
}

// N01_Failing has log cache refuse more requests than there are writers.
func N01_Failing() {
	sym.Expect("taken at last")
	s := &stream{}
	n := 2*runtime.NumCPU() + 1
	for i := 0; i <= n; i++ {
		s.batches = append(s.batches, batch{600 * time.Millisecond, envelopes(1)})
	}
	fate := []string{"refused", "hangs"}[sym.Choice("fate", 2)]
	c := &cache{fate: func(i int) string {
		if i == n {
			sym.Cover("taken at last")
			return "taken"
		}
		return fate
	}}
	r := start(s, c)
	time.Sleep(time.Duration(n)*600*time.Millisecond + 5*time.Second)
	sym.Wait()
	r.check()
}

// N01_Concurrent has the reader, the batcher and the writers share what is not
// theirs alone only in order.
//
//sym:race
func N01_Concurrent() {
	sym.Expect("sent")
	sym.Races()
	s := &stream{batches: []batch{{0, envelopes(1)}, {0, envelopes(1)}, {600 * time.Millisecond, envelopes(1)}}}
	c := &cache{fate: func(int) string { return "taken" }}
	r := start(s, c)
	time.Sleep(1600 * time.Millisecond)
	sym.Wait()
	sym.Cover("sent")
	r.check()
}

// N01_Selectors asks for what is configured.
func N01_Selectors() {
	sym.Expect("none", "all")
	names := []string{"log", "gauge", "counter", "timer", "event"}
	msgs := []*loggregator_v2.Selector{
		{Message: &loggregator_v2.Selector_Log{Log: &loggregator_v2.LogSelector{}}},
		{Message: &loggregator_v2.Selector_Gauge{Gauge: &loggregator_v2.GaugeSelector{}}},
		{Message: &loggregator_v2.Selector_Counter{Counter: &loggregator_v2.CounterSelector{}}},
		{Message: &loggregator_v2.Selector_Timer{Timer: &loggregator_v2.TimerSelector{}}},
		{Message: &loggregator_v2.Selector_Event{Event: &loggregator_v2.EventSelector{}}},
	}
	var opts []nozzle.NozzleOption
	var given []string
	var want []*loggregator_v2.Selector
	for i := range names {
		if sym.Flag(names[i]) {
			given = append(given, names[i])
			want = append(want, msgs[i])
		}
	}
	if sym.Flag("backwards") {
		for i, j := 0, len(given)-1; i < j; i, j = i+1, j-1 {
			given[i], given[j] = given[j], given[i]
		}
	}
	if len(given) > 0 || sym.Flag("said so") {
		opts = append(opts, nozzle.WithSelectors(given...))
	}
	s := &stream{}
	start(s, &cache{fate: func(int) string { return "taken" }}, opts...)
	time.Sleep(time.Second)
	sym.Wait()
	sym.Assert(len(s.reqs) == 1, "the stream is not opened once")
	q := s.reqs[0]
	sym.Assert(q.ShardId == "shard", "the stream is opened for another shard")
	sym.Assert(q.UsePreferredTags, "the stream is opened without the preferred tags")
	sym.Assert(len(q.Selectors) == len(want) && q.LegacySelector == nil, "the stream selects something else")
	for _, x := range want {
		n := 0
		for _, y := range q.Selectors {
			if y != nil && kind(y) == kind(x) {
				n++
				sym.Assert(y.SourceId == "", "the stream is limited to a source")
			}
		}
		sym.Assert(n == 1, "the stream selects something else")
	}
	switch len(want) {
	case 0:
		sym.Cover("none")
	case len(names):
		sym.Cover("all")
	}
}
