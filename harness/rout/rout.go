// Package rout holds the harnesses for the routing of envelopes and reads between nodes.
package rout

import (
	"context"
	"errors"
	"io"
	"log"
	"sync"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/routing"
	"code.cloudfoundry.org/log-cache/internal/zzverif/sym"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

type env = loggregator_v2.Envelope

var silent = log.New(io.Discard, "", 0)

var addrs = []string{"node-a:1", "node-b:2", "node-c:3", "node-d:4"}

func within(h uint64, r *logcache_v1.Range) bool { return sym.And(r.Start <= h, h <= r.End) }

func count(is []int, i int) int {
	n := 0
	for _, j := range is {
		if j == i {
			n++
		}
	}
	return n
}

// assignment gives each of n nodes up to max ranges; those of one node do not overlap.
func assignment(n, max int) map[string]*logcache_v1.Ranges {
	m := map[string]*logcache_v1.Ranges{}
	for i := 0; i < n; i++ {
		k := sym.Int("ranges", -1, max)
		if k < 0 {
			continue
		}
		rs := &logcache_v1.Ranges{}
		for j := 0; j < k; j++ {
			r := &logcache_v1.Range{Start: sym.Uint64("start"), End: sym.Uint64("end")}
			for _, o := range rs.Ranges {
				sym.Assume(sym.Or(r.End < o.Start, o.End < r.Start, r.End < r.Start, o.End < o.Start))
			}
			rs.Ranges = append(rs.Ranges, r)
		}
		m[addrs[i]] = rs
	}
	return m
}

func owns(m map[string]*logcache_v1.Ranges, i int, h uint64) bool {
	own := false
	if m[addrs[i]] != nil {
		for _, r := range m[addrs[i]].Ranges {
			own = sym.Or(own, within(h, r))
		}
	}
	return own
}

func checkOwners(got []int, m map[string]*logcache_v1.Ranges, n int, h uint64) {
	for i := 0; i < n; i++ {
		c := count(got, i)
		sym.Assert(c <= 1, "a node is named twice")
		if owns(m, i, h) {
			sym.Cover("owner")
			sym.Assert(c == 1, "a node that owns the hash is left out")
		} else {
			sym.Cover("no owner")
			sym.Assert(c == 0, "a node that does not own the hash is named")
		}
	}
	for _, i := range got {
		sym.Assert(i >= 0 && i < n, "a node that does not exist is named")
	}
	if len(got) == 0 {
		sym.Cover("nobody")
	}
	if len(got) > 1 {
		sym.Cover("several")
	}
}

// R01_Lookup asks for owners before and after two assignments.
func R01_Lookup() {
	sym.Expect("owner", "no owner", "nobody", "several")
	n := sym.Int("nodes", 1, sym.Bound("nodes", 3, 3))
	h := sym.Uint64("hash")
	asked := ""
	t := routing.NewRoutingTable(addrs[:n], func(s string) uint64 { asked = s; return h })
	all := sym.Flag("all")
	look := func() []int {
		asked = ""
		var got []int
		if all {
			got = t.LookupAll("an id")
		} else {
			got = t.Lookup("an id")
		}
		sym.Assert(asked == "an id", "something else is hashed")
		return got
	}
	sym.Assert(len(look()) == 0, "a table without ranges names a node")
	times, max := 1, 2
	if n == 3 && !sym.Thorough() {
		max = 1
	}
	if sym.Flag("again") {
		times, max = 2, 1
	}
	for k := 0; k < times; k++ {
		if n == 3 && k == 1 && !sym.Thorough() {
			break
		}
		m := assignment(n, max)
		_, err := t.SetRanges(context.Background(), &logcache_v1.SetRangesRequest{Ranges: m})
		sym.Assert(err == nil, "an assignment fails")
		checkOwners(look(), m, n, h)
	}
}

// R01_Concurrent asks while the assignment is replaced.
//
//sym:race
func R01_Concurrent() {
	sym.Expect("old", "new")
	sym.Races()
	sym.Preemptions(sym.Bound("preemptions", 2, 3))
	h := sym.Uint64("hash")
	t := routing.NewRoutingTable(addrs[:2], func(s string) uint64 { return h })
	set := func(a, b []*logcache_v1.Range) {
		t.SetRanges(context.Background(), &logcache_v1.SetRangesRequest{Ranges: map[string]*logcache_v1.Ranges{addrs[0]: {Ranges: a}, addrs[1]: {Ranges: b}}})
	}
	cut := sym.Uint64("cut")
	sym.Assume(sym.And(cut > 0, cut < 1<<64-1))
	low, high := []*logcache_v1.Range{{Start: 0, End: cut}}, []*logcache_v1.Range{{Start: cut + 1, End: 1<<64 - 1}}
	set(low, high)
	var wg sync.WaitGroup
	wg.Add(2)
	var got []int
	go func() {
		defer wg.Done()
		time.Sleep(time.Second)
		set(high, low)
	}()
	go func() {
		defer wg.Done()
		time.Sleep(time.Second)
		if sym.Flag("all") {
			got = t.LookupAll("id")
		} else {
			got = t.Lookup("id")
		}
	}()
	wg.Wait()
	sym.Assert(len(got) == 1, "an id has no owner, or two, while the assignment changes")
	if (got[0] == 0) == (h <= cut) {
		sym.Cover("old")
	} else {
		sym.Cover("new")
	}
	again := t.Lookup("id")
	sym.Assert(len(again) == 1 && (again[0] == 1) == (h <= cut), "the new assignment is not in effect")
}

// R01_Static divides the hash space among a fixed number of routes.
func R01_Static() {
	sym.Expect("first", "last", "inner")
	n := sym.Int("routes", 1, sym.Bound("routes", 10, 40))
	h := sym.Uint64("hash")
	l := routing.NewStaticLookup(n, func(string) uint64 { return h })
	i := l.Lookup("id")
	sym.Assert(i >= 0 && i < n, "a route that does not exist")
	w := uint64(1<<64-1) / uint64(n)
	switch i {
	case 0:
		sym.Cover("first")
	case n - 1:
		sym.Cover("last")
	default:
		sym.Cover("inner")
	}
	sym.Assert(h >= uint64(i)*w, "the hash lies before its route's part")
	if i < n-1 {
		sym.Assert(h < uint64(i+1)*w, "the hash lies after its route's part")
	}
}

// node records what it is asked.
type node struct {
	sends []*logcache_v1.SendRequest
	reads []*logcache_v1.ReadRequest
	metas []*logcache_v1.MetaRequest
	err   error
	sent  *logcache_v1.SendResponse
	read  *logcache_v1.ReadResponse
	meta  *logcache_v1.MetaResponse
}

func (n *node) Send(ctx context.Context, r *logcache_v1.SendRequest, opts ...grpc.CallOption) (*logcache_v1.SendResponse, error) {
	n.sends = append(n.sends, r)
	if n.err != nil {
		return nil, n.err
	}
	return n.sent, nil
}

func (n *node) Read(ctx context.Context, r *logcache_v1.ReadRequest, opts ...grpc.CallOption) (*logcache_v1.ReadResponse, error) {
	n.reads = append(n.reads, r)
	if n.err != nil {
		return nil, n.err
	}
	return n.read, nil
}

func (n *node) Meta(ctx context.Context, r *logcache_v1.MetaRequest, opts ...grpc.CallOption) (*logcache_v1.MetaResponse, error) {
	n.metas = append(n.metas, r)
	if n.err != nil {
		return nil, n.err
	}
	return n.meta, nil
}

var errNode = errors.New("node is down")

// R02_Ingress splits a batch.
func R02_Ingress() {
	sym.Expect("nobody owns it", "several own it", "a node fails", "local only")
	n := sym.Int("nodes", 1, sym.Bound("nodes", 3, 4))
	ids := []string{"a", "b"}
	own := map[string][]int{}
	for _, id := range ids {
		for i := 0; i < n; i++ {
			if sym.Flag("owns") {
				own[id] = append(own[id], i)
			}
		}
	}
	nodes := make([]*node, n)
	var clients []logcache_v1.IngressClient
	for i := range nodes {
		nodes[i] = &node{sent: &logcache_v1.SendResponse{}}
		if sym.Flag("fails") {
			nodes[i].err = errNode
		}
		clients = append(clients, nodes[i])
	}
	most, least := sym.Bound("envelopes", 2, 3), 0
	local, localOnly := 1, false
	if n < sym.Bound("nodes of batches of all sizes", 3, 4) {
		local, localOnly = sym.Int("local", 0, n-1), sym.Flag("local only")
	} else {
		least = most
	}
	p := routing.NewIngressReverseProxy(func(id string) []int { return own[id] }, clients, local, silent)
	req := &logcache_v1.SendRequest{LocalOnly: localOnly, Envelopes: &loggregator_v2.EnvelopeBatch{}}
	k := sym.Int("envelopes", least, most)
	for i := 0; i < k; i++ {
		req.Envelopes.Batch = append(req.Envelopes.Batch, &env{SourceId: ids[sym.Choice("id", 2)], Timestamp: int64(i)})
	}
	sym.MapOrder()
	res, err := p.Send(context.Background(), req)
	if req.LocalOnly {
		sym.Cover("local only")
		for i, c := range nodes {
			if i == local {
				sym.Assert(len(c.sends) == 1 && c.sends[0] == req, "a local request does not reach the local node as it is")
				sym.Assert(err == c.err, "the local node's failure is not reported")
				if err == nil {
					sym.Assert(res == c.sent, "the local node's answer is not given")
				}
			} else {
				sym.Assert(len(c.sends) == 0, "a local request reaches another node")
			}
		}
		return
	}
	sym.Assert(err == nil && res != nil, "a send fails")
	for i, c := range nodes {
		if c.err != nil {
			sym.Cover("a node fails")
		}
		var got []*env
		for _, r := range c.sends {
			sym.Assert(r.LocalOnly, "a forwarded request may be forwarded again")
			sym.Assert(len(r.GetEnvelopes().GetBatch()) > 0, "an empty batch is forwarded")
			got = append(got, r.Envelopes.Batch...)
		}
		for _, e := range req.Envelopes.Batch {
			times := 0
			for _, g := range got {
				if g == e {
					times++
				}
			}
			sym.Assert(times == count(own[e.SourceId], i), "an envelope reaches a node that does not own it, misses one that does, or reaches it twice")
			switch len(own[e.SourceId]) {
			case 0:
				sym.Cover("nobody owns it")
			case 2, 3:
				sym.Cover("several own it")
			}
		}
		for _, g := range got {
			known := false
			for _, e := range req.Envelopes.Batch {
				known = known || g == e
			}
			sym.Assert(known, "a node receives an envelope that was not sent")
		}
	}
}

// R02_Read answers a read from an owner.
func R02_Read() {
	sym.Expect("no route", "local", "remote", "fails")
	n := sym.Int("nodes", 1, sym.Bound("nodes", 3, 4))
	var own []int
	for i := 0; i < n; i++ {
		if sym.Flag("owns") {
			own = append(own, i)
		}
	}
	if len(own) > 1 && sym.Flag("backwards") {
		for i, j := 0, len(own)-1; i < j; i, j = i+1, j-1 {
			own[i], own[j] = own[j], own[i]
		}
	}
	local := sym.Int("local", 0, n-1)
	fails := sym.Flag("fails")
	nodes := make([]*node, n)
	var clients []logcache_v1.EgressClient
	for i := range nodes {
		nodes[i] = &node{read: &logcache_v1.ReadResponse{}}
		if fails {
			nodes[i].err = errNode
		}
		clients = append(clients, nodes[i])
	}
	p := routing.NewEgressReverseProxy(func(id string) []int {
		sym.Assert(id == "a", "another source is looked up")
		return own
	}, clients, local, silent)
	req := &logcache_v1.ReadRequest{SourceId: "a", StartTime: sym.Int64("start"), EndTime: sym.Int64("end"), Limit: sym.Int64("limit"),
		Descending: sym.Flag("descending"), NameFilter: "f", EnvelopeTypes: []logcache_v1.EnvelopeType{logcache_v1.EnvelopeType_GAUGE}}
	was := *req
	res, err := p.Read(context.Background(), req)
	at := -1
	for i, c := range nodes {
		if len(c.reads) > 0 {
			sym.Assert(len(c.reads) == 1 && at < 0, "a read is sent twice")
			at = i
		}
	}
	if len(own) == 0 {
		sym.Cover("no route")
		sym.Assert(at < 0 && res == nil && err != nil, "a read without a route is answered")
		sym.Assert(status.Code(err) == codes.Unavailable, "a read without a route is not reported as unavailable")
		return
	}
	sym.Assert(at >= 0 && count(own, at) == 1, "a read is not answered by an owner")
	if count(own, local) > 0 {
		sym.Cover("local")
		sym.Assert(at == local, "a read of what this node owns goes to another")
	} else {
		sym.Cover("remote")
	}
	got := nodes[at].reads[0]
	sym.Assert(got.SourceId == "a" && got.StartTime == was.StartTime && got.EndTime == was.EndTime && got.Limit == was.Limit && got.Descending == was.Descending &&
		got.NameFilter == "f" && len(got.EnvelopeTypes) == 1 && got.EnvelopeTypes[0] == logcache_v1.EnvelopeType_GAUGE, "a read is changed on its way")
	if fails {
		sym.Cover("fails")
		sym.Assert(err == errNode, "a failed read is not reported")
	} else {
		sym.Assert(err == nil && res == nodes[at].read, "an answer is changed")
	}
}

// R02_Meta gathers and keeps meta information.
func R02_Meta() {
	sym.Expect("fresh", "kept", "local", "union", "some fail", "all fail")
	n := sym.Int("nodes", 1, sym.Bound("nodes", 2, 3))
	local := sym.Int("local", 0, n-1)
	keep := time.Second
	var opts []routing.EgressReverseProxyOption
	if sym.Flag("kept for another time") {
		keep = time.Duration(sym.Int64Range("kept for", 0, int64(time.Hour)))
		opts = append(opts, routing.WithMetaCacheDuration(keep))
	}
	nodes := make([]*node, n)
	var clients []logcache_v1.EgressClient
	for i := range nodes {
		nodes[i] = &node{}
		clients = append(clients, nodes[i])
	}
	p := routing.NewEgressReverseProxy(func(id string) []int { return nil }, clients, local, silent, opts...)
	type answer struct {
		at   time.Time
		meta map[string]*logcache_v1.MetaInfo
	}
	last := map[bool]*answer{}
	steps := sym.Bound("meta requests", 2, 3)
	for s := 0; s < steps; s++ {
		shared := &logcache_v1.MetaInfo{Count: 9}
		for i, c := range nodes {
			c.metas = nil
			c.err = nil
			if sym.Flag("fails") {
				c.err = errNode
				continue
			}
			c.meta = &logcache_v1.MetaResponse{Meta: map[string]*logcache_v1.MetaInfo{}}
			if sym.Flag("shared") {
				c.meta.Meta["everywhere"] = shared
			}
			c.meta.Meta[addrs[i]] = &logcache_v1.MetaInfo{Count: int64(10*s + i)}
		}
		lo := sym.Flag("local only")
		res, err := p.Meta(context.Background(), &logcache_v1.MetaRequest{LocalOnly: lo})
		calls := 0
		for i, c := range nodes {
			calls += len(c.metas)
			sym.Assert(len(c.metas) <= 1, "a node is asked twice")
			for _, r := range c.metas {
				sym.Assert(r.LocalOnly, "a node is asked for more than its own")
			}
			if lo && i != local {
				sym.Assert(len(c.metas) == 0, "another node is asked for this node's meta information")
			}
		}
		now := time.Now()
		if calls == 0 {
			sym.Cover("kept")
			l := last[lo]
			sym.Assert(l != nil, "an answer comes from nowhere")
			sym.Assert(!now.After(l.at.Add(keep)), "an answer is kept too long")
			sym.Assert(err == nil && same(res.GetMeta(), l.meta), "an answer that was kept is another")
		} else {
			sym.Cover("fresh")
			want := map[string]*logcache_v1.MetaInfo{}
			ok := 0
			for i, c := range nodes {
				if c.err != nil || lo && i != local {
					continue
				}
				ok++
				for k, v := range c.meta.Meta {
					want[k] = v
				}
			}
			if lo {
				sym.Cover("local")
			} else if ok > 1 {
				sym.Cover("union")
			}
			if ok == 0 {
				sym.Cover("all fail")
				sym.Assert(err != nil, "a failure of every node is not reported")
			} else {
				if !lo && ok < n {
					sym.Cover("some fail")
				}
				sym.Assert(err == nil && same(res.GetMeta(), want), "meta information is not what the nodes gave")
				m := map[string]*logcache_v1.MetaInfo{}
				for k, v := range want {
					m[k] = v
				}
				last[lo] = &answer{at: now, meta: m}
			}
		}
		if s+1 < steps {
			time.Sleep(time.Duration(sym.Int64Range("pause", 0, int64(2*time.Hour))))
		}
	}
}

func same(a, b map[string]*logcache_v1.MetaInfo) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}
