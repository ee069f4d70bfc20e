// Package node holds the harnesses for whole nodes and clusters of them.
package node

import (
	"context"
	"fmt"
	"io"
	"log"
	"sync"
	"sync/atomic"
	"time"

	"code.cloudfoundry.org/go-loggregator/metrics"
	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/cache"
	"code.cloudfoundry.org/log-cache/internal/scheduler"
	"code.cloudfoundry.org/log-cache/internal/zzverif/sym"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	sigar "github.com/cloudfoundry/gosigar"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

type env = loggregator_v2.Envelope

var silent = log.New(io.Discard, "", 0)

var addrs = []string{"127.0.0.1:11", "127.0.0.1:12", "127.0.0.1:13"}

type metric struct {
	mu sync.Mutex
	n  float64
}

func (m *metric) Add(d float64) { m.mu.Lock(); m.n += d; m.mu.Unlock() }
func (m *metric) Set(d float64) { m.mu.Lock(); m.n = d; m.mu.Unlock() }

type registry map[string]*metric

func (r registry) get(name string) *metric {
	if r[name] == nil {
		r[name] = &metric{}
	}
	return r[name]
}
func (r registry) NewCounter(name string, _ ...metrics.MetricOption) metrics.Counter {
	return r.get(name)
}
func (r registry) NewGauge(name string, _ ...metrics.MetricOption) metrics.Gauge { return r.get(name) }

// machine is one that runs a node.
type machine struct {
	lc   *cache.LogCache
	srv  *grpc.Server
	down bool
	slow bool // takes requests and never answers
	reg  registry

	served int64 // requests that went through the options of the server
}

// cluster is the network between nodes and everyone who calls them.
type cluster struct {
	addrs []string
	ms    map[string]*machine
}

func (c *cluster) call(ctx context.Context, method string, req, reply interface{}, cc *grpc.ClientConn, invoker grpc.UnaryInvoker, opts ...grpc.CallOption) error {
	m := c.ms[cc.Target()]
	if m == nil {
		sym.Fail("an address is called that no node has: " + cc.Target())
	}
	if m.down {
		return status.Error(codes.Unavailable, "transport is closing")
	}
	if m.slow {
		<-ctx.Done()
		return status.FromContextError(ctx.Err()).Err()
	}
	before := atomic.LoadInt64(&m.served)
	out, err := m.srv.ZZInvoke(ctx, method, func(v interface{}) error {
		carry(v, req)
		return nil
	})
	sym.Assert(status.Code(err) == codes.Unavailable || atomic.LoadInt64(&m.served) > before, "the server does without the options it was given")
	if err != nil {
		if _, ok := status.FromError(err); !ok {
			err = status.Error(codes.Unknown, err.Error())
		}
		return err
	}
	carry(reply, out)
	return nil
}

// carry brings a message over.
func carry(to, from interface{}) {
	switch f := from.(type) {
	case *logcache_v1.SendRequest:
		t := to.(*logcache_v1.SendRequest)
		t.LocalOnly = f.LocalOnly
		t.Envelopes = &loggregator_v2.EnvelopeBatch{Batch: append([]*env(nil), f.Envelopes.GetBatch()...)}
	case *logcache_v1.SendResponse:
	case *logcache_v1.ReadRequest:
		*to.(*logcache_v1.ReadRequest) = *f
	case *logcache_v1.ReadResponse:
		t := to.(*logcache_v1.ReadResponse)
		t.Envelopes = &loggregator_v2.EnvelopeBatch{}
		for _, e := range f.Envelopes.GetBatch() {
			o := &env{Timestamp: e.Timestamp, SourceId: e.SourceId, InstanceId: e.InstanceId, Message: e.Message}
			for k, v := range e.Tags {
				if o.Tags == nil {
					o.Tags = map[string]string{}
				}
				o.Tags[k] = v
			}
			t.Envelopes.Batch = append(t.Envelopes.Batch, o)
		}
	case *logcache_v1.MetaRequest:
		*to.(*logcache_v1.MetaRequest) = *f
	case *logcache_v1.MetaResponse:
		t := to.(*logcache_v1.MetaResponse)
		t.Meta = map[string]*logcache_v1.MetaInfo{}
		for id, i := range f.Meta {
			t.Meta[id] = &logcache_v1.MetaInfo{Count: i.Count, Expired: i.Expired, OldestTimestamp: i.OldestTimestamp, NewestTimestamp: i.NewestTimestamp}
		}
	case *logcache_v1.AddRangeRequest:
		t := to.(*logcache_v1.AddRangeRequest)
		t.Range = &logcache_v1.Range{Start: f.Range.Start, End: f.Range.End}
	case *logcache_v1.AddRangeResponse:
	case *logcache_v1.RemoveRangeRequest:
		t := to.(*logcache_v1.RemoveRangeRequest)
		t.Range = &logcache_v1.Range{Start: f.Range.Start, End: f.Range.End}
	case *logcache_v1.RemoveRangeResponse:
	case *logcache_v1.ListRangesRequest:
	case *logcache_v1.ListRangesResponse:
		t := to.(*logcache_v1.ListRangesResponse)
		t.Ranges = nil
		for _, r := range f.Ranges {
			t.Ranges = append(t.Ranges, &logcache_v1.Range{Start: r.Start, End: r.End})
		}
	case *logcache_v1.SetRangesRequest:
		t := to.(*logcache_v1.SetRangesRequest)
		t.Ranges = map[string]*logcache_v1.Ranges{}
		for a, rs := range f.Ranges {
			o := &logcache_v1.Ranges{}
			for _, r := range rs.Ranges {
				o.Ranges = append(o.Ranges, &logcache_v1.Range{Start: r.Start, End: r.End})
			}
			t.Ranges[a] = o
		}
	case *logcache_v1.SetRangesResponse:
	case *logcache_v1.PromQL_InstantQueryRequest:
		*to.(*logcache_v1.PromQL_InstantQueryRequest) = *f
	case *logcache_v1.PromQL_InstantQueryResult:
		*to.(*logcache_v1.PromQL_InstantQueryResult) = *f
	case *logcache_v1.PromQL_RangeQueryRequest:
		*to.(*logcache_v1.PromQL_RangeQueryRequest) = *f
	case *logcache_v1.PromQL_RangeQueryResult:
		*to.(*logcache_v1.PromQL_RangeQueryResult) = *f
	default:
		sym.Fail(fmt.Sprintf("a message that nodes do not know: %T", from))
	}
}

func (c *cluster) dial() []grpc.DialOption {
	return []grpc.DialOption{grpc.WithInsecure(), grpc.WithUnaryInterceptor(c.call)}
}

func (c *cluster) start(i int, opts ...cache.LogCacheOption) {
	m := &machine{reg: registry{}}
	opts = append([]cache.LogCacheOption{
		cache.WithAddr(c.addrs[i]),
		cache.WithClustered(i, c.addrs, c.dial()...),
		cache.WithServerOpts(grpc.UnaryInterceptor(func(ctx context.Context, req interface{}, info *grpc.UnaryServerInfo, h grpc.UnaryHandler) (interface{}, error) {
			atomic.AddInt64(&m.served, 1)
			return h(ctx, req)
		})),
	}, opts...)
	m.lc = cache.New(m.reg, silent, opts...)
	n := len(grpc.ZZServers)
	m.lc.Start()
	sym.Assert(len(grpc.ZZServers) == n+1, "a node has another number of servers than one")
	m.srv = grpc.ZZServers[n]
	sym.Assert(m.lc.Addr() == c.addrs[i], "a node listens on another address than the one configured")
	c.ms[c.addrs[i]] = m
}

func up(n int, opts ...cache.LogCacheOption) *cluster {
	c := &cluster{addrs: addrs[:n], ms: map[string]*machine{}}
	for i := 0; i < n; i++ {
		c.start(i, opts...)
	}
	sym.Wait()
	return c
}

func (c *cluster) schedule(opts ...scheduler.SchedulerOption) {
	opts = append([]scheduler.SchedulerOption{
		scheduler.WithSchedulerInterval(10 * time.Second),
		scheduler.WithSchedulerDialOpts(c.dial()...),
	}, opts...)
	scheduler.NewScheduler(c.addrs, opts...).Start()
	sym.Wait()
}

func (c *cluster) conn(i int) *grpc.ClientConn {
	conn, err := grpc.Dial(c.addrs[i], c.dial()...)
	if err != nil {
		sym.Fail("dialing fails")
	}
	return conn
}

func (c *cluster) send(i int, es ...*env) {
	_, err := logcache_v1.NewIngressClient(c.conn(i)).Send(context.Background(), &logcache_v1.SendRequest{
		Envelopes: &loggregator_v2.EnvelopeBatch{Batch: es},
	})
	sym.Assert(err == nil, "a node does not take envelopes")
}

func (c *cluster) read(i int, id string) ([]*env, error) {
	r, err := logcache_v1.NewEgressClient(c.conn(i)).Read(context.Background(), &logcache_v1.ReadRequest{SourceId: id, Limit: 100})
	return r.GetEnvelopes().GetBatch(), err
}

var ids = []string{"source-0", "source-1", "app", "other"}

func line(id string, t int64) *env {
	return &env{SourceId: id, Timestamp: t, Message: &loggregator_v2.Envelope_Log{Log: &loggregator_v2.Log{Payload: []byte("line")}}}
}

// same tells whether what was read is what was sent; no two messages are one.
func same(got, sent *env) bool {
	return got.Message == sent.Message && got.SourceId == sent.SourceId && got.Timestamp == sent.Timestamp
}

// L01_Cluster sends to some nodes and asks all.
func L01_Cluster() {
	sym.Expect("read", "another node", "replicated")
	n := sym.Int("nodes", 1, 3)
	rep := sym.Int("replicas", 1, n)
	ranges := sym.Int("ranges", 1, sym.Bound("ranges", 2, 4))
	c := up(n)
	c.schedule(scheduler.WithSchedulerCount(ranges), scheduler.WithSchedulerReplicationFactor(rep))
	if rep > 1 {
		sym.Cover("replicated")
	}
	k := sym.Bound("envelopes", 2, 3)
	want := map[string][]*env{}
	for i := 0; i < k; i++ {
		id := ids[sym.Choice("source", 2)]
		e := line(id, sym.Int64Range("timestamp", 1, 946684800000000000))
		for _, o := range want[id] {
			sym.Assume(o.Timestamp != e.Timestamp)
		}
		want[id] = append(want[id], e)
		at := sym.Choice("sent to", n)
		c.send(at, e)
	}
	time.Sleep(300 * time.Millisecond)
	c.check(want)
	for _, id := range ids[:2] {
		held := 0
		for i := range c.addrs {
			m, err := logcache_v1.NewEgressClient(c.conn(i)).Meta(context.Background(), &logcache_v1.MetaRequest{LocalOnly: true})
			sym.Assert(err == nil, "a node that is asked for its own sources fails")
			if m.Meta[id] != nil {
				held++
				sym.Assert(m.Meta[id].Count == int64(len(want[id])), "a replica has another number of envelopes than were sent")
			}
		}
		sym.Assert(held == 0 && want[id] == nil || held == rep && want[id] != nil, "another number of nodes than the replication factor holds a source")
	}
}

func (c *cluster) check(want map[string][]*env) {
	for i := range c.addrs {
		if c.ms[c.addrs[i]].down {
			continue
		}
		for _, id := range ids[:2] {
			got, err := c.read(i, id)
			sym.Assert(err == nil, "a node that is asked for a source fails")
			sym.Assert(len(got) == len(want[id]), "a node shows another number of envelopes than were sent")
			for j, e := range got {
				found := false
				for _, w := range want[id] {
					found = found || same(e, w)
				}
				sym.Assert(found, "a node shows an envelope that was not sent for the source")
				sym.Assert(j == 0 || got[j-1].Timestamp < e.Timestamp, "envelopes are out of order, or shown twice")
				sym.Cover("read")
				if i > 0 {
					sym.Cover("another node")
				}
			}
		}
		m, err := logcache_v1.NewEgressClient(c.conn(i)).Meta(context.Background(), &logcache_v1.MetaRequest{})
		sym.Assert(err == nil, "a node that is asked for the sources fails")
		sym.Assert(len(m.Meta) == len(want), "a node lists another number of sources than were sent")
		for id, es := range want {
			i := m.Meta[id]
			sym.Assert(i != nil, "a node does not list a source")
			sym.Assert(i.Count == int64(len(es)), "a node lists another number of envelopes than it has")
		}
	}
}

// L01_Down takes a node away, for good or for a while.
func L01_Down() {
	sym.Expect("lost", "kept", "taken over", "back")
	n := sym.Int("nodes", 2, 3)
	c := up(n)
	c.schedule(scheduler.WithSchedulerCount(sym.Int("ranges", 2, sym.Bound("ranges", 3, 4))))
	old := map[string][]*env{}
	for _, id := range ids[:2] {
		old[id] = []*env{line(id, 10)}
	}
	c.send(sym.Choice("sent to", n), old[ids[0]][0], old[ids[1]][0])
	time.Sleep(300 * time.Millisecond)
	c.check(old)
	gone := sym.Choice("gone", n)
	m := c.ms[addrs[gone]]
	m.down = true
	kept := map[string]bool{}
	asked := -1
	for i := range c.addrs {
		if i == gone {
			continue
		}
		for _, id := range ids[:2] {
			got, err := c.read(i, id)
			if err != nil {
				sym.Cover("lost")
				sym.Assert(status.Code(err) == codes.Unavailable, "a source on a node that is gone is refused as something else than unavailable")
				sym.Assert(asked < 0 || !kept[id], "a source is there for one node and lost for another")
			} else {
				sym.Cover("kept")
				sym.Assert(len(got) == 1 && same(got[0], old[id][0]), "a node shows other envelopes than were sent once another node is gone")
				sym.Assert(asked < 0 || kept[id], "a source is there for one node and lost for another")
				kept[id] = true
			}
		}
		asked = i
	}
	e := line(ids[sym.Choice("source", 2)], sym.Int64Range("timestamp", 11, 1000))
	if kept[e.SourceId] {
		c.send(asked, e)
		time.Sleep(300 * time.Millisecond)
		got, err := c.read(asked, e.SourceId)
		sym.Assert(err == nil && len(got) == 2 && same(got[1], e), "an envelope for a node that is there is lost with the other node")
	}
	time.Sleep(12 * time.Second)
	back := sym.Flag("back")
	if back {
		sym.Cover("back")
		m.down = false
		time.Sleep(12 * time.Second)
	}
	for i, a := range c.addrs {
		if c.ms[a].down {
			continue
		}
		for _, id := range ids[:2] {
			got, err := c.read(i, id)
			sym.Assert(err == nil, "nobody takes over from a node that is gone")
			before := len(got)
			late := line(id, 2000+int64(i))
			c.send(i, late)
			time.Sleep(300 * time.Millisecond)
			for j, a := range c.addrs {
				if c.ms[a].down {
					continue
				}
				got, err := c.read(j, id)
				sym.Assert(err == nil, "nobody takes over from a node that is gone")
				sym.Assert(len(got) == before+1 && same(got[len(got)-1], late), "an envelope is lost after a node went away")
				sym.Cover("taken over")
			}
		}
	}
}

func gauge(id string, t int64, v float64) *env {
	return &env{SourceId: id, Timestamp: t, Message: &loggregator_v2.Envelope_Gauge{Gauge: &loggregator_v2.Gauge{
		Metrics: map[string]*loggregator_v2.GaugeValue{"cpu": {Unit: "percent", Value: v}},
	}}}
}

// L01_Query asks every node for a metric that one of them holds.
func L01_Query() {
	sym.Expect("found", "none", "range", "gone")
	n := sym.Int("nodes", 1, 3)
	c := up(n, cache.WithQueryTimeout(5*time.Second))
	c.schedule(scheduler.WithSchedulerCount(3))
	id := ids[sym.Choice("source", 2)]
	v := sym.Float64("value")
	sym.Assume(v == v) // one of the others means that a series ends
	now := time.Now()
	c.send(sym.Choice("sent to", n), gauge(id, now.Add(-time.Second).UnixNano(), v))
	time.Sleep(300 * time.Millisecond)
	gone := sym.Int("gone", -1, n-1)
	if gone >= 0 {
		c.ms[c.addrs[gone]].down = true
	}
	for i := range c.addrs {
		if i == gone {
			continue
		}
		q := logcache_v1.NewPromQLQuerierClient(c.conn(i))
		for _, o := range ids[:2] {
			query := `cpu{source_id="` + o + `"}`
			if _, err := c.read(i, o); err != nil {
				sym.Cover("gone")
				_, err := q.InstantQuery(context.Background(), &logcache_v1.PromQL_InstantQueryRequest{Query: query})
				sym.Assert(err != nil, "a query about a source that cannot be reached succeeds")
				continue
			}
			if sym.Flag("range") {
				sym.Cover("range")
				s := fmt.Sprint(now.Unix())
				r, err := q.RangeQuery(context.Background(), &logcache_v1.PromQL_RangeQueryRequest{Query: query, Start: s, End: s, Step: "1s"})
				sym.Assert(err == nil, "a range query fails")
				ss := r.GetMatrix().GetSeries()
				if o != id {
					sym.Assert(len(ss) == 0, "a metric is found for a source that has none")
					continue
				}
				sym.Assert(len(ss) == 1 && len(ss[0].Points) == 1, "a node does not find the metric of a source")
				sym.Assert(sym.SameFloat(ss[0].Points[0].Value, v), "a node finds another value than was sent")
				continue
			}
			r, err := q.InstantQuery(context.Background(), &logcache_v1.PromQL_InstantQueryRequest{Query: query})
			sym.Assert(err == nil, "an instant query fails")
			ss := r.GetVector().GetSamples()
			if o != id {
				sym.Cover("none")
				sym.Assert(len(ss) == 0, "a metric is found for a source that has none")
				continue
			}
			sym.Cover("found")
			sym.Assert(len(ss) == 1, "a node does not find the metric of a source")
			sym.Assert(sym.SameFloat(ss[0].Point.Value, v), "a node finds another value than was sent")
			sym.Assert(ss[0].Metric["source_id"] == id && ss[0].Metric["__name__"] == "", "a node finds the metric under another source")
		}
	}
}

// L01_Timeout asks for a source whose node takes requests and never answers.
func L01_Timeout() {
	sym.Expect("ends", "default")
	var opts []cache.LogCacheOption
	limit := 10 * time.Second
	if sym.Flag("limited") {
		limit = time.Duration(sym.Int("seconds", 1, 3)) * time.Second
		opts = append(opts, cache.WithQueryTimeout(limit))
	} else {
		sym.Cover("default")
	}
	c := up(2, opts...)
	_, err := logcache_v1.NewOrchestrationClient(c.conn(0)).SetRanges(context.Background(), &logcache_v1.SetRangesRequest{
		Ranges: map[string]*logcache_v1.Ranges{c.addrs[1]: {Ranges: []*logcache_v1.Range{{Start: 0, End: 1<<64 - 1}}}},
	})
	sym.Assert(err == nil, "a node does not take an assignment")
	c.ms[c.addrs[1]].slow = true
	q := logcache_v1.NewPromQLQuerierClient(c.conn(0))
	t := time.Now()
	if sym.Flag("range") {
		_, err = q.RangeQuery(context.Background(), &logcache_v1.PromQL_RangeQueryRequest{Query: `cpu{source_id="app"}`, Start: "1", End: "2", Step: "1s"})
	} else {
		_, err = q.InstantQuery(context.Background(), &logcache_v1.PromQL_InstantQueryRequest{Query: `cpu{source_id="app"}`})
	}
	sym.Assert(err != nil, "a query that cannot read its source succeeds")
	sym.Assert(time.Since(t) <= limit+time.Second, "a query takes longer than the time limit")
	sym.Cover("ends")
}

// L01_Limits fills a node past what it may hold.
func L01_Limits() {
	sym.Expect("full", "small machine", "large machine", "generous")
	old := sigar.ZZMem
	defer func() { sigar.ZZMem = old }()
	max := sym.Int("max", 1, 3)
	opts := []cache.LogCacheOption{cache.WithMaxPerSource(max)}
	kept := max
	switch sym.Choice("machine", 3) {
	case 0: // the heap is many times what the machine has
		sigar.ZZMem = sigar.Mem{Total: 1, ActualFree: 1 << 60, Free: 1 << 60}
		sym.Cover("small machine")
		kept = 1
	case 1:
		sigar.ZZMem = sigar.Mem{Total: 1 << 60, ActualFree: 1, Free: 1, ActualUsed: 1 << 60}
		sym.Cover("large machine")
	case 2:
		sigar.ZZMem = sigar.Mem{Total: 1, ActualFree: 1 << 60, Free: 1 << 60}
		opts = append(opts, cache.WithMemoryLimit(1e18))
		sym.Cover("generous")
	}
	c := up(1, opts...)
	c.schedule()
	meta := func() *logcache_v1.MetaInfo {
		m, err := logcache_v1.NewEgressClient(c.conn(0)).Meta(context.Background(), &logcache_v1.MetaRequest{})
		sym.Assert(err == nil, "a node that is asked for the sources fails")
		return m.Meta[ids[0]]
	}
	sym.Assert(meta() == nil, "an empty node lists a source")
	n := sym.Int("envelopes", 0, sym.Bound("envelopes", 4, 6))
	var sent []*env
	for i := 0; i < n; i++ {
		e := line(ids[0], int64(i+1))
		sent = append(sent, e)
		c.send(0, e)
	}
	time.Sleep(2 * time.Second)
	if n > kept {
		sym.Cover("full")
	} else {
		kept = n
	}
	got, err := c.read(0, ids[0])
	sym.Assert(err == nil && len(got) == kept, "a node holds another number of envelopes than its limits say")
	for i, e := range got {
		sym.Assert(same(e, sent[n-kept+i]), "a node does not keep the newest envelopes")
	}
	m := meta()
	sym.Assert(m.GetCount() == int64(kept) && m.GetExpired() == int64(n-kept), "a node lists other numbers of envelopes than it has and had")
	r := c.ms[c.addrs[0]].reg
	sym.Assert(r.get("log_cache_total_system_memory").n == float64(sigar.ZZMem.Total), "the memory of the machine is reported wrong")
	sym.Assert(r.get("log_cache_available_system_memory").n == float64(sigar.ZZMem.ActualFree), "the free memory of the machine is reported wrong")
	sym.Assert(r.get("log_cache_heap_in_use_memory").n > 0, "the heap is reported wrong")
}

// L01_Memory reads the figures of the machine.
func L01_Memory() {
	old := sigar.ZZMem
	defer func() { sigar.ZZMem = old }()
	sigar.ZZMem = sigar.Mem{Total: sym.Uint64("total"), ActualFree: sym.Uint64("actual free"), Free: sym.Uint64("free"), Used: sym.Uint64("used"), ActualUsed: sym.Uint64("actual used")}
	heap, avail, total := cache.NewMemoryAnalyzer(registry{}).Memory()
	sym.Assert(total == sigar.ZZMem.Total, "the memory of the machine is taken wrong")
	sym.Assert(avail == sigar.ZZMem.ActualFree, "the free memory of the machine is taken wrong")
	sym.Assert(heap > 0, "the heap is taken wrong")
}

// L01_Close closes a node.
func L01_Close() {
	sym.Expect("closed", "at once")
	c := &cluster{addrs: addrs[:2], ms: map[string]*machine{}}
	c.start(0)
	c.start(1)
	if sym.Flag("settled") {
		sym.Wait()
		c.schedule()
		c.send(0, line(ids[0], 1), line(ids[1], 2))
	} else {
		sym.Cover("at once")
	}
	i := sym.Choice("closed", 2)
	done := make(chan error)
	go func() { done <- c.ms[c.addrs[i]].lc.Close() }()
	select {
	case err := <-done:
		sym.Assert(err == nil, "closing a node fails")
	case <-time.After(10 * time.Second):
		sym.Fail("closing a node does not end")
	}
	_, err := logcache_v1.NewEgressClient(c.conn(i)).Meta(context.Background(), &logcache_v1.MetaRequest{})
	sym.Assert(err != nil, "a node answers after it was closed")
	sym.Wait()
	_, err = logcache_v1.NewEgressClient(c.conn(1-i)).Meta(context.Background(), &logcache_v1.MetaRequest{})
	sym.Assert(err == nil, "a node does not answer once another was closed")
	sym.Cover("closed")
}

// L01_Concurrent has a node asked by several at once, while the assignment changes.
//
//sym:race
func L01_Concurrent() {
	sym.Expect("done")
	sym.Races()
	sym.Preemptions(sym.Bound("preemptions", 2, 3))
	n := 1
	c := up(n)
	all := &logcache_v1.Ranges{Ranges: []*logcache_v1.Range{{Start: 0, End: 1<<64 - 1}}}
	ranges := map[string]*logcache_v1.Ranges{}
	for _, a := range c.addrs {
		ranges[a] = all
	}
	set := func() {
		for i := range c.addrs {
			_, err := logcache_v1.NewOrchestrationClient(c.conn(i)).SetRanges(context.Background(), &logcache_v1.SetRangesRequest{
				Ranges: ranges,
			})
			sym.Assert(err == nil, "a node does not take an assignment")
		}
	}
	set()
	e, first := line(ids[0], 1), line(ids[0], 2)
	c.send(0, first)
	time.Sleep(300 * time.Millisecond)
	var wg sync.WaitGroup
	run := func(f func()) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			f()
		}()
	}
	run(func() { c.send(0, e) })
	switch sym.Choice("also", 4) {
	case 0:
		run(set)
	case 1:
		run(func() {
			got, err := c.read(0, ids[0])
			sym.Assert(err == nil && len(got) >= 1 && len(got) <= 2 && same(got[len(got)-1], first), "a read shows other envelopes than were sent")
		})
	case 2:
		run(func() {
			m, err := logcache_v1.NewEgressClient(c.conn(n-1)).Meta(context.Background(), &logcache_v1.MetaRequest{})
			sym.Assert(err == nil && len(m.Meta) == 1 && m.Meta[ids[0]] != nil, "a node lists other sources than were sent")
		})
	case 3:
		run(func() { c.send(n-1, line(ids[1], 5)) })
	}
	wg.Wait()
	time.Sleep(300 * time.Millisecond)
	for i := range c.addrs {
		got, err := c.read(i, ids[0])
		sym.Assert(err == nil && len(got) == 2 && same(got[0], e) && same(got[1], first), "a node shows other envelopes than were sent, after several sent at once")
	}
	sym.Cover("done")
}
