// Package dread holds the harnesses for the PromQL data reader.
package dread

import (
	"context"
	"errors"
	"net/url"
	"strconv"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/promql/data_reader"
	"code.cloudfoundry.org/log-cache/internal/zzverif/sym"
	"code.cloudfoundry.org/log-cache/pkg/client"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
)

type env = loggregator_v2.Envelope

var errRead = errors.New("read failed")

var typeSets = [][]logcache_v1.EnvelopeType{nil, {logcache_v1.EnvelopeType_GAUGE}, {logcache_v1.EnvelopeType_COUNTER, logcache_v1.EnvelopeType_TIMER}}

// server answers reads of a source a page at a time.
type server struct {
	in    *logcache_v1.ReadRequest
	src   []*env
	page  int
	reads []time.Time
	fail  []int // failures in a row, before each successful read
	done  int   // successful reads
	left  int   // failures left before the next
	last  int64 // the last envelope handed out
	now   int64 // time of the last successful read
	out   []*env
}

func newServer() *server {
	s := &server{}
	n := sym.Int("envelopes", 0, sym.Bound("envelopes", 3, 4))
	for i := 0; i < n; i++ {
		ts := sym.Int64("timestamp")
		sym.Assume(ts < 1<<63-1)
		if i > 0 {
			sym.Assume(s.src[i-1].Timestamp < ts)
		}
		s.src = append(s.src, &env{Timestamp: ts, SourceId: "src"})
	}
	s.page = sym.Int("page", 1, n+1)
	s.in = &logcache_v1.ReadRequest{SourceId: "src", StartTime: sym.Int64("start"), EndTime: sym.Int64("end"), Limit: sym.Int64Range("limit", 0, 1<<40)}
	sym.Assume(s.in.StartTime > -1<<63)
	s.in.EnvelopeTypes = typeSets[sym.Choice("types", len(typeSets))]
	s.last = s.in.StartTime - 1
	return s
}

// asked checks what a read asks for.
func (s *server) asked(id string, start time.Time, opts []client.ReadOption) {
	sym.Assert(id == "src", "another source is read")
	sym.Assert(start.UnixNano() == s.last+1, "a page is asked for from another time than one nanosecond after the last envelope (or the start)")
	q := url.Values{}
	for _, o := range opts {
		o(&url.URL{}, q)
	}
	sym.Assert(q.Get("end_time") == strconv.FormatInt(s.in.EndTime, 10), "another end time is asked for")
	sym.Assert(q.Get("limit") == strconv.FormatInt(s.in.Limit, 10), "another limit is asked for")
	sym.Assert(len(q["envelope_types"]) == len(s.in.EnvelopeTypes), "other envelope types are asked for")
	for i, t := range s.in.EnvelopeTypes {
		sym.Assert(q["envelope_types"][i] == t.String(), "other envelope types are asked for")
	}
	sym.Assert(q.Get("descending") == "" && q.Get("name_filter") == "", "more is asked for than the request says")
}

func (s *server) next(start time.Time) []*env {
	s.now = time.Now().UnixNano()
	var p []*env
	for _, e := range s.src {
		if len(p) < s.page && e.Timestamp >= start.UnixNano() && e.Timestamp < s.in.EndTime {
			p = append(p, e)
		}
	}
	for _, e := range p {
		if e.Timestamp <= s.now-int64(time.Second) {
			s.last = e.Timestamp
		}
	}
	s.done++
	return p
}

// whole checks that a result is what the source holds.
func (s *server) whole(res *logcache_v1.ReadResponse) {
	sym.Assert(res != nil, "a read gives neither a result nor an error")
	got := res.GetEnvelopes().GetBatch()
	k := 0
	for _, e := range s.src {
		if !(e.Timestamp >= s.in.StartTime && e.Timestamp < s.in.EndTime) {
			continue
		}
		if k < len(got) && got[k] == e {
			k++
			continue
		}
		sym.Assert(e.Timestamp > s.now-int64(time.Second), "a settled envelope in the window is missing, or the order is another one")
		sym.Cover("too new")
	}
	sym.Assert(k == len(got), "the result holds more than the window, or repeats envelopes")
}

// C22_Window reads a window, with failures that may be too many.
func C22_Window() {
	s := newServer()
	most := 0
	total := sym.Bound("runs of failures", 1, 2)
	s.left = -1
	reader := func(ctx context.Context, id string, start time.Time, opts ...client.ReadOption) ([]*env, error) {
		now := time.Now()
		if s.left < 0 {
			s.left = 0
			if total > 0 {
				if s.left = []int{0, 1, 4, 5}[sym.Choice("failures in a row", 4)]; s.left > 0 {
					total--
				}
			}
			if s.left > most {
				most = s.left
			}
		} else {
			sym.Assert(now.Sub(s.reads[len(s.reads)-1]) == time.Second, "a failed read is not retried after one second")
		}
		s.reads = append(s.reads, now)
		s.asked(id, start, opts)
		if s.left > 0 {
			s.left--
			if sym.Flag("data next to an error") {
				return s.src, errRead
			}
			return nil, errRead
		}
		s.left = -1
		return s.next(start), nil
	}
	res, err := data_reader.NewWalkingDataReader(reader).Read(context.Background(), s.in)
	if most > 4 {
		sym.Assert(err != nil, "a read that gave up gives no error")
		sym.Assert(res == nil, "a read that gave up gives data")
		sym.Cover("gave up")
		return
	}
	sym.Assert(err == nil, "a read whose failures were retried gives an error")
	s.whole(res)
	if s.done > 2 {
		sym.Cover("several pages")
	}
	if most > 0 {
		sym.Cover("retried")
	}
	sym.Expect("several pages", "retried", "gave up", "too new")
}

// C22_Long reads a window of many pages.
func C22_Long() {
	sym.Expect("many pages")
	n := []int{40, 150}[sym.Choice("envelopes", 2)]
	limit := sym.Int("limit", 1, 3)
	base := sym.Int64Range("base", 0, 1<<59)
	s := &server{last: base - 1, page: limit, in: &logcache_v1.ReadRequest{SourceId: "src", StartTime: base, EndTime: base + int64(n) + 10, Limit: int64(limit)}}
	for i := 0; i < n; i++ {
		s.src = append(s.src, &env{Timestamp: base + int64(i), SourceId: "src"})
	}
	r := data_reader.NewWalkingDataReader(func(ctx context.Context, id string, start time.Time, opts ...client.ReadOption) ([]*env, error) {
		s.asked(id, start, opts)
		from := int(sym.Concrete(s.last + 1 - base))
		to := from + limit
		if to > n {
			to = n
		}
		s.done++
		if to > from {
			s.last = s.src[to-1].Timestamp
		}
		return s.src[from:to], nil
	})
	res, err := r.Read(context.Background(), s.in)
	sym.Assert(err == nil, "a read gives an error without a failure")
	got := res.GetEnvelopes().GetBatch()
	sym.Assert(len(got) == n, "a settled envelope in the window is missing, or the order is another one")
	for i, e := range got {
		sym.Assert(e == s.src[i], "a settled envelope in the window is missing, or the order is another one")
	}
	if s.done > 12 {
		sym.Cover("many pages")
	}
}

// C22_Two reads two sources at a time with one reader, one of which fails.
//
//sym:race
func C22_Two() {
	sym.Races()
	sym.Preemptions(sym.Bound("preemptions", 1, 2))
	bad, good := []*env{{Timestamp: 5}}, []*env{{Timestamp: 7}, {Timestamp: 8}}
	fails := sym.Flag("one fails")
	r := data_reader.NewWalkingDataReader(func(ctx context.Context, id string, start time.Time, opts ...client.ReadOption) ([]*env, error) {
		src := good
		if id == "a" {
			if fails {
				return nil, errRead
			}
			src = bad
		}
		for i, e := range src {
			if e.Timestamp >= start.UnixNano() {
				return src[i : i+1], nil
			}
		}
		return nil, nil
	})
	var resA, resB *logcache_v1.ReadResponse
	var errA, errB error
	done := make(chan struct{})
	go func() {
		resA, errA = r.Read(context.Background(), &logcache_v1.ReadRequest{SourceId: "a", EndTime: 100})
		close(done)
	}()
	resB, errB = r.Read(context.Background(), &logcache_v1.ReadRequest{SourceId: "b", EndTime: 100})
	<-done
	sym.Assert(errB == nil && len(resB.GetEnvelopes().GetBatch()) == 2, "a read at the same time as another gives the other's result")
	if fails {
		sym.Assert(errA == errRead && resA == nil, "a read that gave up gives data")
	} else {
		sym.Assert(errA == nil && len(resA.GetEnvelopes().GetBatch()) == 1, "a read at the same time as another gives the other's result")
	}
}

// C22_Context ends the context while a window is read.
func C22_Context() {
	s := newServer()
	type key struct{}
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), key{}, 1))
	defer cancel()
	deadline := sym.Flag("deadline")
	if deadline {
		ctx, cancel = context.WithTimeout(ctx, 1500*time.Millisecond)
		defer cancel()
	}
	n := 0
	ended := sym.Int("reads before the end", 0, 2)
	late := 0
	if ended == 0 && !deadline {
		cancel()
	}
	reader := func(c context.Context, id string, start time.Time, opts ...client.ReadOption) ([]*env, error) {
		sym.Assert(c.Value(key{}) != nil, "a read is made with another context")
		if ctx.Err() != nil {
			late++
		}
		sym.Assert(late <= 1+len(s.src), "reading goes on after the context has ended")
		s.asked(id, start, opts)
		if n++; n == ended && !deadline {
			cancel()
		}
		switch sym.Choice("answer", 3) {
		case 0:
			return s.next(start), nil
		case 1:
			if ctx.Err() != nil {
				return nil, ctx.Err()
			}
		case 2:
			if ctx.Err() != nil {
				return nil, errRead
			}
			sym.Assume(deadline)
			return nil, errRead
		}
		return s.next(start), nil
	}
	res, err := data_reader.NewWalkingDataReader(reader).Read(ctx, s.in)
	if e := ctx.Err(); e != nil {
		sym.Assert(err == e, "a read whose context ended does not give the context's error")
		sym.Assert(res == nil, "a read whose context ended gives data")
		sym.Cover("context ended")
		return
	}
	sym.Assert(err == nil, "a read gives an error without a failure")
	s.whole(res)
	sym.Cover("read")
	sym.Expect("context ended", "read")
}
