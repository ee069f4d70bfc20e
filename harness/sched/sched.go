// Package sched holds the harnesses for the scheduler of hash ranges.
package sched

import (
	"context"
	"errors"
	"sort"
	"time"

	"code.cloudfoundry.org/log-cache/internal/scheduler"
	"code.cloudfoundry.org/log-cache/internal/zzverif/sym"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"google.golang.org/grpc"
)

var addrs = []string{"127.0.0.1:11", "127.0.0.1:12", "127.0.0.1:13"}

type rng struct{ start, end uint64 }

// node is a Log Cache as the scheduler sees it.
type node struct {
	holds   []rng
	down    bool
	tables  []map[string]*logcache_v1.Ranges
	changes int
	lists   int
}

type cluster map[string]*node

var errDown = errors.New("node is down")

func (c cluster) call(ctx context.Context, method string, req, reply interface{}, cc *grpc.ClientConn, invoker grpc.UnaryInvoker, opts ...grpc.CallOption) error {
	n := c[cc.Target()]
	if _, ok := ctx.Deadline(); !ok {
		sym.Fail("a node is called without a time limit")
	}
	if n == nil {
		sym.Fail("a node that does not exist is called")
	}
	switch r := req.(type) {
	case *logcache_v1.ListRangesRequest:
		n.lists++
		if n.down {
			return errDown
		}
		for _, h := range n.holds {
			out := reply.(*logcache_v1.ListRangesResponse)
			out.Ranges = append(out.Ranges, &logcache_v1.Range{Start: h.start, End: h.end})
		}
	case *logcache_v1.AddRangeRequest:
		n.changes++
		if n.down {
			return errDown
		}
		n.holds = append(n.holds, rng{r.Range.Start, r.Range.End})
	case *logcache_v1.RemoveRangeRequest:
		n.changes++
		if n.down {
			return errDown
		}
		for i, h := range n.holds {
			if h.start == r.Range.Start && h.end == r.Range.End {
				n.holds = append(append([]rng(nil), n.holds[:i]...), n.holds[i+1:]...)
				break
			}
		}
	case *logcache_v1.SetRangesRequest:
		n.changes++
		if n.down {
			return errDown
		}
		m := map[string]*logcache_v1.Ranges{}
		for a, rs := range r.Ranges {
			m[a] = &logcache_v1.Ranges{Ranges: append([]*logcache_v1.Range(nil), rs.Ranges...)}
		}
		n.tables = append(n.tables, m)
	default:
		sym.Fail("a call that nodes do not know")
	}
	return nil
}

func setup(n int, opts ...scheduler.SchedulerOption) (cluster, *scheduler.Scheduler) {
	c := cluster{}
	for _, a := range addrs[:n] {
		c[a] = &node{}
	}
	opts = append(opts, scheduler.WithSchedulerDialOpts(grpc.WithInsecure(), grpc.WithUnaryInterceptor(c.call)))
	return c, scheduler.NewScheduler(addrs[:n], opts...)
}

// holders counts the nodes with a range that has h in it, and the ranges.
func holders(c cluster, h uint64) (nodes, ranges int64) {
	for _, n := range c {
		k := int64(0)
		for _, r := range n.holds {
			k += sym.IteInt64(sym.And(r.start <= h, h <= r.end), 1, 0)
		}
		nodes += sym.IteInt64(k > 0, 1, 0)
		ranges += k
	}
	return nodes, ranges
}

func checkTables(c cluster) {
	for _, n := range c {
		if n.down {
			continue
		}
		sym.Assert(len(n.tables) > 0, "a node is not told who holds what")
		t := n.tables[len(n.tables)-1]
		for a, o := range c {
			if o.down {
				sym.Assert(t[a] == nil || len(t[a].Ranges) == 0, "a node that cannot be reached is named in the table")
				continue
			}
			sym.Assert(t[a] != nil && len(t[a].Ranges) == len(o.holds), "a node is told another assignment than the one in effect")
			for i, r := range t[a].Ranges { // in the order the node lists them
				sym.Assert(r.Start == o.holds[i].start && r.End == o.holds[i].end, "a node is told another assignment than the one in effect")
			}
		}
		for a := range t {
			sym.Assert(c[a] != nil, "a node that does not exist is in the table")
		}
	}
}

// R04_Cover divides the hash space into any number of ranges.
func R04_Cover() {
	sym.Expect("one range", "many ranges", "replicated", "more nodes than ranges")
	n := sym.Int("nodes", 1, 3)
	k := sym.Int("ranges", 1, sym.Bound("ranges", 9, 33))
	if k == sym.Bound("ranges", 9, 33) {
		k = 100
	}
	rf := sym.Int("replication", 1, n)
	interval := time.Minute
	opts := []scheduler.SchedulerOption{scheduler.WithSchedulerCount(k), scheduler.WithSchedulerReplicationFactor(rf)}
	if k == 100 {
		opts = opts[1:] // the default
	}
	if rf == 1 && n == 1 {
		opts = opts[:len(opts)-1]
	}
	if sym.Flag("interval") {
		interval = time.Second
		opts = append(opts, scheduler.WithSchedulerInterval(interval))
	}
	c, s := setup(n, opts...)
	s.Start()
	time.Sleep(time.Millisecond)
	h := sym.Uint64("hash")
	check := func() {
		if k <= 16 {
			nodes, ranges := holders(c, h)
			sym.Assert(nodes >= 1, "a hash lies in no range")
			sym.Assert(ranges == nodes, "a hash lies in two ranges of a node")
			sym.Assert(nodes == int64(rf), "a hash is not on as many nodes as asked for")
			return
		}
		in := false
		seen := map[rng]int{}
		for _, d := range c {
			for _, r := range d.holds {
				if seen[r] == 0 {
					in = sym.Or(in, sym.And(r.start <= h, h <= r.end))
				}
				seen[r]++
			}
		}
		sym.Assert(in, "a hash lies in no range")
		var all []rng
		for r, times := range seen {
			all = append(all, r)
			sym.Assert(times == rf, "a hash is not on as many nodes as asked for")
		}
		sort.Slice(all, func(i, j int) bool { return all[i].start < all[j].start })
		for i, r := range all {
			sym.Assert(r.start <= r.end && (i == 0 || all[i-1].end < r.start), "a hash lies in two ranges")
		}
	}
	check()
	total := 0
	for _, d := range c {
		total += len(d.holds)
	}
	sym.Assert(total == k*rf, "the number of ranges is not the one asked for")
	checkTables(c)
	switch {
	case k == 1:
		sym.Cover("one range")
	default:
		sym.Cover("many ranges")
	}
	if rf > 1 {
		sym.Cover("replicated")
	}
	if n > k {
		sym.Cover("more nodes than ranges")
	}
	lists := c[addrs[0]].lists
	time.Sleep(interval - 2*time.Millisecond)
	sym.Assert(c[addrs[0]].lists == lists, "a term comes too early")
	time.Sleep(2 * time.Millisecond)
	sym.Assert(c[addrs[0]].lists > lists, "no term after the interval")
	check()
	checkTables(c)
}

// R04_Change meets nodes that hold something already, go down and come back.
func R04_Change() {
	sym.Expect("stale range removed", "a node is down", "a node is back")
	n := sym.Int("nodes", 2, sym.Bound("nodes", 2, 3))
	k := sym.Int("ranges", 1, 3)
	c, s := setup(n, scheduler.WithSchedulerCount(k), scheduler.WithSchedulerInterval(time.Second))
	stale := sym.Flag("stale")
	var old rng
	if stale {
		old = rng{sym.Uint64("start"), sym.Uint64("end")}
		sym.Assume(sym.Not(sym.Or(old.start == 0, old.end == 1<<64-1)))
		if k == 3 {
			sym.Assume(sym.Not(sym.And(old.start == 6148914691236517206, old.end == 6148914691236517206+6148914691236517205)))
		}
		c[addrs[sym.Choice("holder", n)]].holds = []rng{old}
	}
	down := c[addrs[sym.Choice("down", n)]]
	down.down = sym.Flag("is down")
	s.Start()
	time.Sleep(time.Millisecond)
	h := sym.Uint64("hash")
	check := func() {
		up := cluster{}
		for a, d := range c {
			if !d.down {
				up[a] = d
			}
		}
		nodes, ranges := holders(up, h)
		sym.Assert(nodes == 1 && ranges == 1, "a hash does not lie in one range of one node")
		checkTables(c)
	}
	check()
	if stale {
		sym.Cover("stale range removed")
	}
	if down.down {
		sym.Cover("a node is down")
		down.down = false
		sym.Cover("a node is back")
	} else {
		down.down = true
	}
	time.Sleep(time.Second)
	check()
}

// R04_Follower only watches.
func R04_Follower() {
	sym.Expect("takes over", "steps down", "one node", "something to remove")
	leads := sym.Flag("leads")
	n := sym.Int("nodes", 1, sym.Bound("nodes", 2, 3))
	if n == 1 {
		sym.Cover("one node")
	}
	c, s := setup(n, scheduler.WithSchedulerCount(3), scheduler.WithSchedulerInterval(time.Second), scheduler.WithSchedulerLeadership(func() bool { return leads }))
	// What a leader would remove: ranges that are none, or held twice.
	var has []rng
	switch sym.Choice("holds", 3) {
	case 1:
		sym.Cover("something to remove")
		has = []rng{{uint64(sym.Int64Range("start", 1, 1000)), sym.Uint64("end")}}
	case 2:
		has = []rng{{6148914691236517206, 12297829382473034411}}
	}
	hold := func() {
		for _, d := range c {
			d.holds = append([]rng(nil), has...)
		}
	}
	if !leads {
		hold()
	}
	s.Start()
	time.Sleep(time.Millisecond)
	changes := func() int {
		k := 0
		for _, d := range c {
			k += d.changes
		}
		return k
	}
	if leads {
		checkTables(c)
		was := changes()
		leads = false
		sym.Cover("steps down")
		hold()
		time.Sleep(3 * time.Second)
		sym.Assert(changes() == was, "a scheduler that does not lead changes something")
		return
	}
	sym.Assert(changes() == 0, "a scheduler that does not lead changes something")
	leads = true
	time.Sleep(time.Second)
	sym.Cover("takes over")
	nodes, ranges := holders(c, sym.Uint64("hash"))
	sym.Assert(nodes == 1 && ranges == 1, "a hash does not lie in one range of one node")
	checkTables(c)
}
