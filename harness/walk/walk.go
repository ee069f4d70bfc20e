// Package walk holds the harnesses for client.Walk and client.Window.
package walk

import (
	"context"
	"errors"
	"io"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/zzverif/sym"
	"code.cloudfoundry.org/log-cache/pkg/client"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
)

type env = loggregator_v2.Envelope

// source makes n envelopes with strictly increasing timestamps.
func source(n int) []*env {
	var es []*env
	for i := 0; i < n; i++ {
		ts := sym.Int64("ts")
		sym.Assume(ts < 1<<63-1)
		if i > 0 {
			sym.Assume(es[i-1].Timestamp < ts)
		}
		es = append(es, &env{Timestamp: ts, SourceId: "src"})
	}
	return es
}

var errRead = errors.New("read failed")

// retry is a backoff that gives up after n consecutive calls and lets time pass.
type retry struct {
	left, n int
	sleep   time.Duration
}

func (r *retry) again() bool {
	if r.left == 0 {
		return false
	}
	r.left--
	time.Sleep(r.sleep)
	return true
}
func (r *retry) OnErr(error) bool { return r.again() }
func (r *retry) OnEmpty() bool    { return r.again() }
func (r *retry) Reset()           { r.left = r.n }

// C01_Source walks a server that holds a fixed set of envelopes, answers
// each read with the first page of those in range, and fails or answers
// emptily at will.
func C01_Source() {
	sym.Expect("several pages", "failed read retried", "false empty retried", "too new at first", "end reached", "all handed over")
	n := sym.Int("n", 0, sym.Bound("envelopes", 3, 4))
	src := source(n)
	held := append([]*env{}, src...)
	start := sym.Int64("start")
	sym.Assume(start > -1<<62)
	opts := []client.WalkOption{client.WithWalkStartTime(time.Unix(0, start))}
	hasEnd := sym.Flag("hasEnd")
	end := int64(1<<63 - 1)
	if hasEnd {
		end = sym.Int64("end")
		opts = append(opts, client.WithWalkEndTime(time.Unix(0, end)))
	}
	delay := int64(time.Second)
	if sym.Flag("hasDelay") {
		delay = sym.Int64Range("delay", 0, int64(time.Hour))
		opts = append(opts, client.WithWalkDelay(time.Duration(delay)))
	}
	b := &retry{n: sym.Bound("consecutive retries", 1, 2), sleep: time.Minute}
	b.left = b.n
	opts = append(opts, client.WithWalkBackoff(b))
	page := sym.Int("page", 1, n+1)
	if sym.Flag("hasLimit") {
		// the server may cap the limit asked for
		limit := sym.Int64Range("limit", int64(page), 1<<40)
		opts = append(opts, client.WithWalkLimit(int(limit)), client.WithWalkNameFilter("f"), client.WithWalkEnvelopeTypes(logcache_v1.EnvelopeType_LOG))
	}

	var handed []*env
	faults := sym.Bound("injected failures", 2, 2)
	reads, failed := 0, 0
	honestEmpty := false // the last read was answered truthfully, nothing was handed over since
	var nowAtRead int64
	last := start - 1
	reader := func(ctx context.Context, id string, s time.Time, ro ...client.ReadOption) ([]*env, error) {
		reads++
		sym.Assert(id == "src", "every read asks for the walked source")
		sym.Assert(s.UnixNano() == last+1, "a page is requested from one nanosecond after the last envelope handed over (or the start)")
		if faults > 0 {
			switch sym.Choice("fault", 3) {
			case 1:
				faults--
				failed++
				honestEmpty = false
				if sym.Flag("errWithData") {
					return src, errRead
				}
				return nil, errRead
			case 2:
				faults--
				failed++
				honestEmpty = false
				return nil, nil
			}
		}
		honestEmpty = true
		nowAtRead = time.Now().UnixNano()
		// the page is a part of what the server holds, not a copy
		from, to := 0, 0
		for i, e := range held {
			if to-from == page {
				break
			}
			if e.Timestamp >= s.UnixNano() && (!hasEnd || e.Timestamp < end) {
				if from == to {
					from = i
				}
				to = i + 1
			}
		}
		return held[from:to], nil
	}
	pages := 0
	client.Walk(context.Background(), "src", func(es []*env) bool {
		pages++
		sym.Assert(len(es) > 0, "no empty page is handed over")
		for _, e := range es {
			sym.Assert(e.Timestamp > last, "envelopes are handed over once and in order")
			last = e.Timestamp
			sym.Assert(!hasEnd || e.Timestamp < end, "no envelope at or after the end is handed over")
			handed = append(handed, e)
		}
		honestEmpty = false
		return true
	}, reader, opts...)

	// handed over is exactly a prefix of what lies in the range
	k := 0
	for _, e := range src {
		in := e.Timestamp >= start && (!hasEnd || e.Timestamp < end)
		if !in {
			continue
		}
		if k < len(handed) {
			sym.Assert(handed[k] == e, "no envelope in the range is skipped")
			k++
			continue
		}
		// the rest was not handed over: the walk gave up, or they are too new
		if honestEmpty {
			sym.Assert(e.Timestamp > nowAtRead-delay, "a settled envelope in the range was not handed over")
			sym.Cover("too new at first")
		} else {
			sym.Assert(failed > 0, "a walk without failures ended before the last settled envelope")
		}
	}
	sym.Assert(k == len(handed), "nothing but the source's envelopes is handed over")
	if pages > 1 {
		sym.Cover("several pages")
	}
	if failed > 0 && len(handed) > 0 {
		sym.Cover("failed read retried")
		sym.Cover("false empty retried")
	}
	if hasEnd && len(handed) > 0 {
		sym.Cover("end reached")
	}
	if n > 0 && len(handed) == n {
		sym.Cover("all handed over")
	}
}

// C01_Large walks a source in pages as large as a server gives them.
func C01_Large() {
	sym.Expect("several pages")
	page := []int{100, 1000}[sym.Choice("page", 2)]
	n := page + sym.Int("more", 0, 2)
	base := sym.Int64Range("base", -1<<60, 1<<59)
	src := make([]*env, n)
	for i := range src {
		src[i] = &env{Timestamp: base + int64(i)}
	}
	opts := []client.WalkOption{client.WithWalkStartTime(time.Unix(0, base))}
	if sym.Flag("hasEnd") {
		opts = append(opts, client.WithWalkEndTime(time.Unix(0, base+int64(n)+5)))
	}
	if sym.Flag("hasLimit") {
		opts = append(opts, client.WithWalkLimit(page))
	}
	k, pages := 0, 0
	client.Walk(context.Background(), "src", func(es []*env) bool {
		pages++
		for _, e := range es {
			sym.Assert(k < n && src[k] == e, "a page of many envelopes is handed over once and in order")
			k++
		}
		return true
	}, func(ctx context.Context, id string, s time.Time, ro ...client.ReadOption) ([]*env, error) {
		sym.Assert(s.UnixNano() == base+int64(k), "a page is requested from one nanosecond after the last envelope handed over (or the start)")
		to := k + page
		if to > n {
			to = n
		}
		return src[k:to], nil
	}, opts...)
	sym.Assert(k == n, "every envelope of a large source is handed over")
	if pages > 1 {
		sym.Cover("several pages")
	}
}

// sortedPage is any page of up to n envelopes in timestamp order.
func sortedPage(n int) []*env {
	var es []*env
	k := sym.Int("page", 0, n)
	for i := 0; i < k; i++ {
		ts := sym.Int64("ts")
		if i > 0 {
			sym.Assume(es[i-1].Timestamp <= ts)
		}
		es = append(es, &env{Timestamp: ts})
	}
	return es
}

// C02_Limits lets a reader answer with any ordered pages.
func C02_Limits() {
	sym.Expect("too new dropped", "end dropped", "end reached stops", "after empty")
	var opts []client.WalkOption
	hasEnd := sym.Flag("hasEnd")
	var end int64
	if hasEnd {
		end = sym.Int64("end")
		opts = append(opts, client.WithWalkEndTime(time.Unix(0, end)))
	}
	delay := int64(time.Second)
	if sym.Flag("hasDelay") {
		delay = sym.Int64Range("delay", -int64(time.Hour), int64(time.Hour))
		opts = append(opts, client.WithWalkDelay(time.Duration(delay)))
	}
	opts = append(opts, client.WithWalkBackoff(client.NewAlwaysRetryBackoff(time.Minute)))
	maxReads := sym.Bound("reads", 3, 4)
	size := sym.Bound("envelopes per page", 2, 3)
	reads := 0
	emptyBefore := false // an empty page came since the last page with envelopes
	done := false
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var given []*env
	visited := false
	reader := func(context.Context, string, time.Time, ...client.ReadOption) ([]*env, error) {
		sym.Assert(!done, "the walk stops by itself once it has reached its end")
		if reads > 0 && given != nil && !visited {
			emptyBefore = true
		}
		visited = false
		reads++
		if reads > maxReads {
			cancel()
			return nil, errRead
		}
		given = sortedPage(size)
		if given == nil {
			given = []*env{}
		}
		return append([]*env{}, given...), nil
	}
	client.Walk(ctx, "src", func(es []*env) bool {
		visited = true
		now := time.Now().UnixNano()
		exempt := hasEnd && emptyBefore
		for _, e := range es {
			if hasEnd {
				sym.Assert(e.Timestamp < end, "no envelope at or after the end time is handed over")
			}
			if !exempt {
				sym.Assert(e.Timestamp <= now-delay, "no envelope newer than the walk delay is handed over")
			}
		}
		// and nothing else is held back
		for i, g := range given {
			if i < len(es) {
				sym.Assert(es[i] == g, "a page is handed over from its beginning")
				continue
			}
			out := hasEnd && g.Timestamp >= end
			late := !exempt && g.Timestamp > now-delay
			sym.Assert(out || late, "an envelope was held back without reason")
			if out {
				sym.Cover("end dropped")
			} else {
				sym.Cover("too new dropped")
			}
		}
		if exempt {
			sym.Cover("after empty")
		}
		emptyBefore = false
		if hasEnd {
			l := es[len(es)-1].Timestamp
			if l == end-1 {
				done = true
				sym.Cover("end reached stops")
			}
		}
		return true
	}, reader, opts...)
}

type event struct {
	kind byte // r read, e OnErr, m OnEmpty, x Reset, v visit
}

// script is a backoff whose answers are inputs and that logs its calls.
type script struct {
	h *protocol
}

// protocol follows a walk and says what may come next.
type protocol struct {
	next   byte // what has to come next: r, e, m, x, v, or 0 for nothing
	err    error
	ctx    context.Context
	cancel func()
	es     []*env
	left   int
}

func (p *protocol) step(k byte, msg string) {
	sym.Assert(p.next == k, msg)
	if p.left > 0 && sym.Flag("cancel here") {
		p.left--
		p.cancel()
	}
}

func (p *protocol) OnErr(err error) bool {
	p.step('e', "the backoff is consulted about an error exactly once per failed read")
	sym.Assert(err == p.err, "the backoff gets the read's error")
	if sym.Flag("backoff") {
		p.next = 'r'
		return true
	}
	p.next = 0
	return false
}

func (p *protocol) OnEmpty() bool {
	p.step('m', "the backoff is consulted about an empty page exactly once per page left empty")
	if sym.Flag("backoff") {
		p.next = 'r'
		return true
	}
	p.next = 0
	return false
}

func (p *protocol) Reset() {
	p.step('x', "the backoff is reset exactly once per page handed over, before the visitor")
	p.next = 'v'
}

// C03_Protocol lets reads, backoff, visitor and context behave in any way.
func C03_Protocol() {
	sym.Expect("cancelled", "stopped by visitor", "stopped by backoff", "pruned empty", "visited", "continued after error")
	p := &protocol{next: 'r'}
	p.ctx, p.cancel = context.WithCancel(context.Background())
	defer p.cancel()
	p.left = 1
	maxReads := sym.Bound("reads", 3, 4)
	reads := 0
	cut := false
	hasEnd := sym.Flag("hasEnd")
	opts := []client.WalkOption{client.WithWalkBackoff(p)}
	var end int64
	if hasEnd {
		end = sym.Int64("end")
		opts = append(opts, client.WithWalkEndTime(time.Unix(0, end)))
	}
	now := time.Now().UnixNano() // no time passes in this harness
	emptySeen := false
	reader := func(ctx context.Context, id string, s time.Time, ro ...client.ReadOption) ([]*env, error) {
		if cut {
			sym.Fail("a read follows the end of the walk")
		}
		p.step('r', "no read after the walk has to stop")
		sym.Assert(ctx == p.ctx, "reads get the walk's context")
		reads++
		if reads > maxReads {
			// a failed read after the context has ended is the end
			p.cancel()
			p.next = 0
			cut = true
			return nil, errRead
		}
		if sym.Flag("read fails") {
			p.err = errRead
			if reads == 1 {
				// a reader may fail by its own context while the walk's lives
				p.err = []error{errRead, context.Canceled, context.DeadlineExceeded, io.EOF}[sym.Choice("error", 4)]
			}
			if p.ctx.Err() != nil {
				p.next = 0
				sym.Cover("cancelled")
			} else {
				p.next = 'e'
				if reads > 1 {
					sym.Cover("continued after error")
				}
			}
			if sym.Flag("error with data") {
				return []*env{{Timestamp: 1}}, p.err
			}
			return nil, p.err
		}
		p.es = nil
		k := sym.Int("page", 0, 1)
		empty := true
		for i := 0; i < k; i++ {
			ts := sym.Int64("ts")
			sym.Assume(ts < 1<<63-1)
			p.es = append(p.es, &env{Timestamp: ts})
			tooNew := ts > now-int64(time.Second)
			if hasEnd && emptySeen {
				tooNew = false
			}
			if tooNew || hasEnd && ts >= end {
				sym.Cover("pruned empty")
			} else {
				empty = false
			}
		}
		if empty {
			p.next = 'm'
			emptySeen = true
		} else {
			p.next = 'x'
			emptySeen = false
		}
		return p.es, nil
	}
	client.Walk(p.ctx, "src", func(es []*env) bool {
		p.step('v', "the visitor gets each page exactly once, after the reset")
		sym.Cover("visited")
		l := es[len(es)-1].Timestamp
		p.next = 'r'
		if hasEnd && l+1 >= end {
			p.next = 0
		}
		if sym.Flag("visitor stops") {
			p.next = 0
			sym.Cover("stopped by visitor")
			return false
		}
		return true
	}, reader, opts...)
	sym.Assert(p.next == 0, "the walk ended although nothing told it to")
	if !cut {
		sym.Cover("stopped by backoff")
	}
}

// C03_Backoffs drives the supplied backoffs with any sequence of calls.
func C03_Backoffs() {
	sym.Expect("gave up", "slept", "only errors", "forever", "default")
	iv := sym.Int64Range("interval", 0, int64(time.Hour))
	maxN := sym.Int64Range("max", -3, int64(sym.Bound("maximum", 6, 9)))
	kind := sym.Choice("kind", 4)
	var b client.Backoff
	switch kind {
	case 0:
		b = client.AlwaysDoneBackoff{}
	case 1:
		b = client.NewAlwaysRetryBackoff(time.Duration(iv))
	case 2:
		b = client.NewRetryBackoff(time.Duration(iv), int(maxN))
	case 3:
		b = client.NewRetryBackoffOnErr(time.Duration(iv), int(maxN))
	}
	var failures int64
	steps := sym.Bound("calls", 5, 7)
	for i := 0; i < steps; i++ {
		op := sym.Choice("op", 3)
		t0 := time.Now()
		if op == 2 {
			b.Reset()
			failures = 0
			sym.Assert(time.Since(t0) == 0, "reset does not sleep")
			continue
		}
		var again bool
		if op == 0 {
			again = b.OnErr([]error{errRead, context.Canceled, context.DeadlineExceeded, io.EOF}[i%4])
		} else {
			again = b.OnEmpty()
		}
		took := int64(time.Since(t0))
		switch {
		case kind == 0:
			sym.Assert(!again && took == 0, "the default backoff never retries and never sleeps")
			sym.Cover("default")
		case kind == 1:
			sym.Assert(again, "the always-retry backoff always retries")
			sym.Assert(took == iv, "the always-retry backoff sleeps its interval")
			sym.Cover("forever")
		case kind == 3 && op == 1:
			sym.Assert(!again && took == 0, "the error-only backoff never retries an empty page")
			sym.Cover("only errors")
		default:
			failures++
			sym.Assert(again == (failures < maxN), "the backoff gives up at its maximum of consecutive failures and not before")
			if again {
				sym.Assert(took == iv, "the backoff sleeps its interval before a retry")
				sym.Cover("slept")
			} else {
				sym.Assert(took == 0, "the backoff does not sleep when it gives up")
				sym.Cover("gave up")
				return
			}
		}
	}
}

// C03_Patience has backoffs with a large maximum.
func C03_Patience() {
	sym.Expect("gave up")
	maxN := 1 + sym.Int("hundreds", 1, 3)*100
	b := client.NewRetryBackoff(time.Second, maxN)
	onlyErr := sym.Flag("only errors")
	if onlyErr {
		b = client.NewRetryBackoffOnErr(time.Second, maxN)
	}
	for i := 1; i < maxN; i++ {
		t0 := time.Now()
		var again bool
		if i%2 == 0 && !onlyErr {
			again = b.OnEmpty()
		} else {
			again = b.OnErr(errRead)
		}
		sym.Assert(again, "the backoff gives up at its maximum of consecutive failures and not before")
		sym.Assert(time.Since(t0) == time.Second, "the backoff sleeps its interval before a retry")
	}
	sym.Assert(!b.OnErr(errRead), "the backoff gives up at its maximum of consecutive failures and not before")
	sym.Cover("gave up")
}
