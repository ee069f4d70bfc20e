package rout

import (
	"context"
	"regexp"
	"sync"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/routing"
	"code.cloudfoundry.org/log-cache/internal/zzverif/sym"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"google.golang.org/grpc"
)

// shelf is a store that records what it is asked.
type shelf struct {
	calls      int
	id         string
	start, end time.Time
	types      []logcache_v1.EnvelopeType
	filter     *regexp.Regexp
	limit      int
	desc       bool
	out        []*env
	meta       map[string]logcache_v1.MetaInfo
}

func (s *shelf) Get(id string, start, end time.Time, types []logcache_v1.EnvelopeType, filter *regexp.Regexp, limit int, desc bool) []*env {
	s.calls++
	s.id, s.start, s.end, s.types, s.filter, s.limit, s.desc = id, start, end, types, filter, limit, desc
	return s.out
}

func (s *shelf) Meta() map[string]logcache_v1.MetaInfo {
	s.calls++
	return s.meta
}

// R03_Read reads with any parameters.
func R03_Read() {
	sym.Expect("refused order", "refused limit", "refused filter", "default limit", "default end", "filter", "types", "any type")
	s := &shelf{}
	for i := sym.Int("answers", 0, 2); i > 0; i-- {
		s.out = append(s.out, &env{})
	}
	r := routing.NewLocalStoreReader(s)
	time.Sleep(time.Duration(sym.Int64Range("clock", 0, 1<<60)))
	now := time.Now().UnixNano()
	filters := []string{"", "^cpu.*$", "(", "a|b", "[z-a]"}
	f := sym.Choice("filter", len(filters))
	req := &logcache_v1.ReadRequest{SourceId: sym.Str("id", 2), StartTime: sym.Int64("start"), EndTime: sym.Int64("end"), Limit: sym.Int64("limit"),
		Descending: sym.Bool("descending"), NameFilter: filters[f]}
	var want []logcache_v1.EnvelopeType
	for i := sym.Int("types", 0, sym.Bound("types", 2, 3)); i > 0; i-- {
		t := logcache_v1.EnvelopeType(sym.Int64Range("type", 0, 5))
		req.EnvelopeTypes = append(req.EnvelopeTypes, t)
		if t != logcache_v1.EnvelopeType_ANY {
			want = append(want, t)
		}
	}
	was := *req
	res, err := r.Read(context.Background(), req)
	refused := false
	if was.EndTime != 0 && was.StartTime > was.EndTime {
		sym.Cover("refused order")
		refused = true
	}
	if was.Limit > 1000 || was.Limit < 0 {
		sym.Cover("refused limit")
		refused = true
	}
	if f == 2 || f == 4 {
		sym.Cover("refused filter")
		refused = true
	}
	if refused {
		sym.Assert(err != nil && res == nil, "a read that makes no sense is answered")
		sym.Assert(s.calls == 0, "a read that makes no sense reaches the store")
		return
	}
	sym.Assert(err == nil, "a read fails")
	sym.Assert(s.calls == 1, "the store is not read once")
	sym.Assert(sym.EqStr(s.id, was.SourceId), "another source is read")
	sym.Assert(s.start.UnixNano() == was.StartTime, "the read starts elsewhere")
	if was.EndTime == 0 {
		sym.Cover("default end")
		sym.Assert(s.end.UnixNano() == now, "a read without an end does not end now")
	} else {
		sym.Assert(s.end.UnixNano() == was.EndTime, "the read ends elsewhere")
	}
	if was.Limit == 0 {
		sym.Cover("default limit")
		sym.Assert(s.limit == 100, "a read without a limit is not limited to 100")
	} else {
		sym.Assert(int64(s.limit) == was.Limit, "the limit is another")
	}
	sym.Assert(s.desc == was.Descending, "the order is another")
	if f == 0 {
		sym.Assert(s.filter == nil, "a filter out of nowhere")
	} else {
		sym.Cover("filter")
		sym.Assert(s.filter != nil && s.filter.String() == filters[f], "the filter is another")
	}
	if len(was.EnvelopeTypes) > 0 && len(want) == 0 {
		sym.Cover("any type")
	}
	if len(want) > 0 {
		sym.Cover("types")
	}
	sym.Assert(len(s.types) == len(want), "the types are not those asked for")
	for i := range want {
		sym.Assert(s.types[i] == want[i], "the types are not those asked for")
	}
	got := res.GetEnvelopes().GetBatch()
	sym.Assert(len(got) == len(s.out), "the answer is not what the store gave")
	for i := range got {
		sym.Assert(got[i] == s.out[i], "the answer is not what the store gave")
	}
}

// R03_Meta gives the store's meta information.
func R03_Meta() {
	sym.Expect("several")
	s := &shelf{meta: map[string]logcache_v1.MetaInfo{}}
	n := sym.Int("sources", 0, 3)
	for i := 0; i < n; i++ {
		s.meta[addrs[i]] = logcache_v1.MetaInfo{Count: sym.Int64("count"), Expired: sym.Int64("expired"), OldestTimestamp: sym.Int64("oldest"), NewestTimestamp: sym.Int64("newest")}
	}
	sym.MapOrder()
	res, err := routing.NewLocalStoreReader(s).Meta(context.Background(), &logcache_v1.MetaRequest{LocalOnly: sym.Flag("local")})
	sym.Assert(err == nil && len(res.GetMeta()) == n, "meta information is not what the store gave")
	for i := 0; i < n; i++ {
		m, w := res.Meta[addrs[i]], s.meta[addrs[i]]
		sym.Assert(m != nil && m.Count == w.Count && m.Expired == w.Expired && m.OldestTimestamp == w.OldestTimestamp && m.NewestTimestamp == w.NewestTimestamp,
			"meta information is not what the store gave")
	}
	if n > 1 {
		sym.Cover("several")
	}
}

type setter struct {
	got []*logcache_v1.SetRangesRequest
	res *logcache_v1.SetRangesResponse
	err error
}

func (s *setter) SetRanges(ctx context.Context, in *logcache_v1.SetRangesRequest) (*logcache_v1.SetRangesResponse, error) {
	s.got = append(s.got, in)
	return s.res, s.err
}

// R06_History applies any changes to a node's ranges.
func R06_History() {
	sym.Expect("removed", "nothing to remove", "added")
	o := routing.NewOrchestratorAgent(&setter{})
	ctx := context.Background()
	type rng struct{ s, e uint64 }
	var want []rng
	steps := sym.Bound("changes", 3, 4)
	var lists [][]*logcache_v1.Range
	var was [][]rng
	for k := 0; k < steps; k++ {
		r := rng{sym.Uint64("start"), sym.Uint64("end")}
		if sym.Flag("remove") {
			_, err := o.RemoveRange(ctx, &logcache_v1.RemoveRangeRequest{Range: &logcache_v1.Range{Start: r.s, End: r.e}})
			sym.Assert(err == nil, "a removal fails")
			at := -1
			for i, w := range want {
				if w == r {
					at = i
					break
				}
			}
			if at >= 0 {
				sym.Cover("removed")
				want = append(append([]rng(nil), want[:at]...), want[at+1:]...)
			} else {
				sym.Cover("nothing to remove")
			}
		} else {
			sym.Cover("added")
			_, err := o.AddRange(ctx, &logcache_v1.AddRangeRequest{Range: &logcache_v1.Range{Start: r.s, End: r.e}})
			sym.Assert(err == nil, "an addition fails")
			want = append(append([]rng(nil), want...), r)
		}
		res, err := o.ListRanges(ctx, &logcache_v1.ListRangesRequest{})
		sym.Assert(err == nil, "a listing fails")
		lists, was = append(lists, res.Ranges), append(was, want)
		sym.Assert(len(res.Ranges) == len(want), "the ranges listed are not those added and not removed")
		for i, w := range want {
			n, m := 0, 0
			for j := range want {
				if res.Ranges[j].Start == w.s && res.Ranges[j].End == w.e {
					n++
				}
				if want[j] == w {
					m++
				}
			}
			sym.Assert(n == m, "the ranges listed are not those added and not removed")
			_ = i
		}
	}
}

// R06_Set passes assignments on.
func R06_Set() {
	s := &setter{res: &logcache_v1.SetRangesResponse{}}
	if sym.Flag("fails") {
		s.res, s.err = nil, errNode
	}
	req := &logcache_v1.SetRangesRequest{}
	res, err := routing.NewOrchestratorAgent(s).SetRanges(context.Background(), req)
	sym.Assert(len(s.got) == 1 && s.got[0] == req, "an assignment is not passed on")
	sym.Assert(res == s.res && err == s.err, "the answer to an assignment is changed")
}

// R06_Concurrent lists ranges while one is removed.
//
//sym:race
func R06_Concurrent() {
	sym.Expect("before", "after")
	sym.Races()
	sym.Preemptions(sym.Bound("preemptions", 2, 3))
	o := routing.NewOrchestratorAgent(&setter{})
	ctx := context.Background()
	for i := uint64(0); i < 3; i++ {
		o.AddRange(ctx, &logcache_v1.AddRangeRequest{Range: &logcache_v1.Range{Start: i, End: i}})
	}
	gone := uint64(sym.Int("gone", 0, 2))
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		time.Sleep(time.Second)
		o.RemoveRange(ctx, &logcache_v1.RemoveRangeRequest{Range: &logcache_v1.Range{Start: gone, End: gone}})
	}()
	var got []uint64
	go func() {
		defer wg.Done()
		time.Sleep(time.Second)
		res, err := o.ListRanges(ctx, &logcache_v1.ListRangesRequest{})
		sym.Assert(err == nil, "a listing fails")
		for _, r := range res.Ranges {
			got = append(got, r.Start)
		}
	}()
	wg.Wait()
	if len(got) == 3 {
		sym.Cover("before")
		for i := range got {
			sym.Assert(got[i] == uint64(i), "a listing mixes the ranges before and after a removal")
		}
		return
	}
	sym.Cover("after")
	sym.Assert(len(got) == 2, "a listing has too few ranges")
	for i := range got {
		sym.Assert(got[i] != gone, "a listing mixes the ranges before and after a removal")
	}
	sym.Assert(got[0] != got[1], "a listing mixes the ranges before and after a removal")
}

// peer is a remote node behind a batching client.
type peer struct {
	mu    sync.Mutex
	sizes []int
	got   []*env
	at    []time.Time
	fails []bool
	lost  int
	slow  time.Duration
}

func (p *peer) Send(ctx context.Context, r *logcache_v1.SendRequest, opts ...grpc.CallOption) (*logcache_v1.SendResponse, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	_, ok := ctx.Deadline()
	sym.Assert(ok, "a batch is sent without a time limit")
	sym.Assert(r.LocalOnly, "a forwarded batch may be forwarded again")
	b := r.GetEnvelopes().GetBatch()
	sym.Assert(len(b) > 0, "an empty batch is sent")
	p.sizes = append(p.sizes, len(b))
	for _, e := range b {
		p.got = append(p.got, e)
		p.at = append(p.at, time.Now())
	}
	if p.slow > 0 {
		time.Sleep(p.slow)
	}
	if len(p.fails) > 0 {
		f := p.fails[0]
		p.fails = p.fails[1:]
		if f {
			return nil, errNode
		}
	}
	return &logcache_v1.SendResponse{}, nil
}

type counter struct {
	mu sync.Mutex
	n  float64
}

func (c *counter) Add(d float64) {
	c.mu.Lock()
	c.n += d
	c.mu.Unlock()
}

// R05_Batches sends envelopes through a batching client.
func R05_Batches() {
	sym.Expect("full batch", "partial batch", "a send fails")
	size := sym.Int("size", 1, sym.Bound("size", 3, 4))
	interval := time.Duration(sym.Int("interval", 0, 2)) * 100 * time.Millisecond
	p, c := &peer{}, &counter{}
	for i := 0; i < 2; i++ {
		p.fails = append(p.fails, sym.Flag("fails"))
	}
	b := routing.NewBatchedIngressClient(size, interval, p, c, silent)
	var sent []*env
	var at []time.Time
	n := sym.Bound("requests", 2, 3)
	for i := 0; i < n; i++ {
		req := &logcache_v1.SendRequest{Envelopes: &loggregator_v2.EnvelopeBatch{}}
		for k := sym.Int("envelopes", 0, sym.Bound("envelopes", 3, 3)); k > 0; k-- {
			e := &env{Timestamp: int64(len(sent))}
			req.Envelopes.Batch = append(req.Envelopes.Batch, e)
			sent = append(sent, e)
			at = append(at, time.Now())
		}
		res, err := b.Send(context.Background(), req)
		sym.Assert(err == nil && res != nil, "a send is not accepted")
		if i+1 < n {
			time.Sleep(time.Duration([]int{0, 30, 400}[sym.Choice("pause", 3)]) * time.Millisecond)
		}
	}
	time.Sleep(time.Second)
	p.mu.Lock()
	defer p.mu.Unlock()
	sym.Assert(c.n == 0, "envelopes are dropped")
	sym.Assert(len(p.got) == len(sent), "an envelope is lost or sent twice")
	for i := range sent {
		sym.Assert(p.got[i] == sent[i], "envelopes are sent out of order")
		sym.Assert(p.at[i].Sub(at[i]) <= interval+150*time.Millisecond, "an envelope waits too long")
	}
	for i, s := range p.sizes {
		sym.Assert(s <= size, "a batch is too large")
		if s == size {
			sym.Cover("full batch")
		} else {
			sym.Cover("partial batch")
		}
		if len(p.fails)+i < 2 && len(p.fails) < 2 {
			sym.Cover("a send fails")
		}
	}
}

// R05_Concurrent lets two callers send at once.
//
//sym:race
func R05_Concurrent() {
	sym.Expect("both")
	sym.Races()
	sym.Preemptions(sym.Bound("preemptions", 1, 2))
	p, c := &peer{}, &counter{}
	b := routing.NewBatchedIngressClient(10, 0, p, c, silent)
	time.Sleep(10 * time.Millisecond)
	var wg sync.WaitGroup
	var es []*env
	for g := 0; g < 2; g++ {
		e := &env{Timestamp: int64(g)}
		es = append(es, e)
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(500 * time.Millisecond)
			b.Send(context.Background(), &logcache_v1.SendRequest{Envelopes: &loggregator_v2.EnvelopeBatch{Batch: []*env{e}}})
		}()
	}
	wg.Wait()
	time.Sleep(time.Second)
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, e := range es {
		n := 0
		for _, g := range p.got {
			if g == e {
				n++
			}
		}
		sym.Assert(n == 1, "an envelope of one of two callers is lost or sent twice")
	}
	sym.Cover("both")
}
