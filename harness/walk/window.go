package walk

import (
	"context"
	"time"

	"code.cloudfoundry.org/log-cache/internal/zzverif/sym"
	"code.cloudfoundry.org/log-cache/pkg/client"
)

type ctxKey struct{}

// C04_Window slides over any start, width and interval.
func C04_Window() {
	sym.Expect("default start", "given start", "default width", "default interval", "stopped", "slow walker", "context expired")
	width, interval := int64(time.Hour), int64(time.Minute)
	var opts []client.WindowOption
	t0 := time.Now()
	hasWidth := sym.Flag("hasWidth")
	if hasWidth {
		width = sym.Int64Range("width", -int64(24*time.Hour), 1000*int64(24*time.Hour))
		opts = append(opts, client.WithWindowWidth(time.Duration(width)))
	} else {
		sym.Cover("default width")
	}
	if sym.Flag("hasInterval") {
		interval = sym.Int64Range("interval", 1, int64(24*time.Hour))
		opts = append(opts, client.WithWindowInterval(time.Duration(interval)))
	} else {
		sym.Cover("default interval")
	}
	start := t0.UnixNano() - width
	if sym.Flag("hasStart") {
		start = sym.Int64Range("start", -1<<61, 1<<61)
		opts = append(opts, client.WithWindowStartTime(time.Unix(0, start)))
		sym.Cover("given start")
	} else {
		sym.Cover("default start")
	}
	ticks := sym.Int("ticks", 1, sym.Bound("ticks", 3, 6))
	slow := sym.Choice("slow", 3) // the walker takes no time, some time, or waits for its context
	var took int64
	if slow == 1 {
		took = sym.Int64Range("took", 0, 24*int64(time.Hour))
		sym.Assume(took < interval)
		sym.Cover("slow walker")
	}
	parent := context.WithValue(context.Background(), ctxKey{}, "parent")
	walks, visits := 0, 0
	var result []*env
	client.Window(parent, func(es []*env) bool {
		visits++
		sym.Assert(visits == walks, "each result is handed to the visitor exactly once")
		sym.Assert(len(es) == len(result), "the visitor gets the walker's result unchanged")
		for i := range es {
			sym.Assert(es[i] == result[i], "the visitor gets the walker's result unchanged")
		}
		return visits < ticks
	}, func(ctx context.Context, s, e time.Time) []*env {
		sym.Assert(walks == visits, "a result is handed over before the next window is walked")
		now := time.Now().UnixNano()
		sym.Assert(visits < ticks, "no window is walked after the visitor returned false")
		if slow != 2 {
			sym.Assert(now == t0.UnixNano()+int64(walks+1)*interval, "the walker is called once per interval")
		}
		want := start + int64(walks)*interval
		sym.Assert(s.UnixNano() == want, "each window starts exactly one interval after the previous one")
		sym.Assert(e.UnixNano() == want+width, "each window is exactly the configured width wide")
		sym.Assert(ctx.Value(ctxKey{}) == "parent", "the walker's context derives from the caller's")
		sym.Assert(ctx.Err() == nil, "the walker starts with a live context")
		dl, ok := ctx.Deadline()
		sym.Assert(ok && dl.UnixNano() == now+interval, "the walker's context expires after one interval")
		walks++
		switch slow {
		case 1:
			time.Sleep(time.Duration(took))
			sym.Assert(ctx.Err() == nil, "the walker's context lives for the whole interval")
		case 2:
			<-ctx.Done()
			sym.Assert(time.Now().UnixNano() == now+interval, "the walker's context expires after one interval")
			sym.Cover("context expired")
		}
		result = nil
		for i := sym.Int("results", 0, 2); i > 0; i-- {
			result = append(result, &env{Timestamp: int64(i)})
		}
		return result
	}, opts...)
	sym.Assert(visits == ticks && walks == ticks, "the window stops as soon as the visitor returns false, not before")
	sym.Cover("stopped")
}

// C04_BuildWalker compares a built walker with the walk it stands for.
func C04_BuildWalker() {
	sym.Expect("results", "no results", "reader failed")
	n := sym.Int("n", 0, sym.Bound("envelopes", 3, 4))
	src := source(n)
	start, end := sym.Int64("start"), sym.Int64("end")
	page := sym.Int("page", 1, 2)
	failAt := sym.Int("failAt", 0, 2)
	var reads int
	mk := func() client.Reader {
		reads = 0
		return func(ctx context.Context, id string, s time.Time, ro ...client.ReadOption) ([]*env, error) {
			sym.Assert(id == "an id", "the walker reads its source")
			sym.Assert(ctx.Value(ctxKey{}) == "w", "the walker reads with its context")
			sym.Assert(len(ro) == 1, "the walker passes the end of its window and nothing else")
			reads++
			if reads == failAt {
				sym.Cover("reader failed")
				return nil, errRead
			}
			var out []*env
			for _, e := range src {
				if len(out) < page && e.Timestamp >= s.UnixNano() && e.Timestamp < end {
					out = append(out, e)
				}
			}
			return out, nil
		}
	}
	ctx := context.WithValue(context.Background(), ctxKey{}, "w")
	var want []*env
	client.Walk(ctx, "an id", func(es []*env) bool {
		want = append(want, es...)
		return true
	}, mk(), client.WithWalkStartTime(time.Unix(0, start)), client.WithWalkEndTime(time.Unix(0, end)))
	wantReads := reads
	walker := client.BuildWalker("an id", mk())
	got := walker(ctx, time.Unix(0, start), time.Unix(0, end))
	sym.Assert(reads == wantReads, "the walker reads exactly as a walk over its window does")
	sym.Assert(len(got) == len(want), "the walker returns exactly what a walk over its window yields")
	for i := range want {
		sym.Assert(got[i] == want[i], "the walker returns exactly what a walk over its window yields")
	}
	if failAt == 0 {
		// the next window leaves the result of this one alone
		other := []*env{{Timestamp: end - 1}}
		src = other
		again := walker(ctx, time.Unix(0, end-1), time.Unix(0, end))
		sym.Assert(len(again) == 0 || len(again) == 1 && again[0] == other[0], "a walker's next result holds only the envelopes of its own window")
		for i := range want {
			sym.Assert(got[i] == want[i], "a result stays as it is when the next window is walked")
		}
	}
	if len(got) > 0 {
		sym.Cover("results")
	} else {
		sym.Cover("no results")
	}
}
