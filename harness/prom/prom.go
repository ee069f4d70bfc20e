// Package prom holds the harnesses for PromQL queries over log cache data.
package prom

import (
	"context"
	"errors"
	"io"
	"log"
	"time"

	"code.cloudfoundry.org/go-loggregator/metrics"
	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/promql"
	"code.cloudfoundry.org/log-cache/internal/zzverif/sym"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	prom "github.com/prometheus/prometheus/promql"
)

type env = loggregator_v2.Envelope

var errRead = errors.New("read failed")

// meter counts what is measured.
type meter struct{ failures float64 }

type gauge struct{}

func (gauge) Set(float64) {}
func (gauge) Add(float64) {}

type counter struct{ m *meter }

func (c counter) Set(float64)   {}
func (c counter) Add(d float64) { c.m.failures += d }

func (m *meter) NewCounter(string, ...metrics.MetricOption) metrics.Counter { return counter{m} }
func (m *meter) NewGauge(string, ...metrics.MetricOption) metrics.Gauge     { return gauge{} }

// tape is a log cache that records what it is asked for.
type tape struct {
	reads []*logcache_v1.ReadRequest
	data  map[string][]*env
	fail  map[string]bool
}

func (t *tape) Read(ctx context.Context, in *logcache_v1.ReadRequest) (*logcache_v1.ReadResponse, error) {
	t.reads = append(t.reads, in)
	sym.Assert(ctx.Err() == nil, "a read is made with a context that has ended")
	if t.fail[in.SourceId] {
		return nil, errRead
	}
	var out []*env
	for _, e := range t.data[in.SourceId] {
		if sym.And(e.Timestamp >= in.StartTime, e.Timestamp < in.EndTime) {
			c := *e
			out = append(out, &c)
		}
	}
	return &logcache_v1.ReadResponse{Envelopes: &loggregator_v2.EnvelopeBatch{Batch: out}}, nil
}

func (t *tape) read(id string) bool {
	for _, r := range t.reads {
		if sym.EqStr(r.SourceId, id) {
			return true
		}
	}
	return false
}

func newPromQL(t *tape) (*promql.PromQL, *meter) {
	m := &meter{}
	return promql.New(t, m, log.New(io.Discard, "", 0), 10*time.Second), m
}

func has(ids []string, id string) bool {
	for _, x := range ids {
		if sym.EqStr(x, id) {
			return true
		}
	}
	return false
}

// shape is a query over the sources X and Y.
type shape struct {
	text    string // X and Y stand for source ids
	x, y    bool   // which it names
	refused bool   // it has a selector without a source, or is no query
}

const named = "{source_id=\"X\",__name__=\"m\"}"

var shapes = []shape{
	{"m{source_id=\"X\"}", true, false, false},
	{"m{source_id=~\"X|Y\"}", true, true, false},
	{"sum by (a) (m{source_id=\"X\",a=\"1\"})", true, false, false},
	{"rate(m{source_id=\"X\"}[1m])", true, false, false},
	{"m{source_id=\"X\"} / on(a) n{a!=\"Y\",source_id=\"Y\"}", true, true, false},
	{"-(m{source_id=\"Y\"} offset 5m)", false, true, false},
	{"avg_over_time(m{source_id=\"X\"}[5m]) > 2 or n{source_id=\"Y\"}", true, true, false},
	// The library visits no parameters of aggregations: X is not read.
	{"topk(scalar(m{source_id=\"X\"}), n{source_id=\"Y\"})", false, true, false},
	{"m{source_id=\"X\",source_id=\"Y\"}", true, true, false},
	{named, true, false, false},
	{"label_replace(m{source_id=\"X\"},\"source_id\",\"Y\",\"a\",\".*\")", true, false, false},
	{"m{source_id=\"X\"}[1m]", true, false, false},
	{"m{source_id='X'} + 1 # {source_id=\"Y\"}", true, false, false},
	{"1 + 2", false, false, false},
	{"m", false, false, true},
	{"m{a=\"X\"}", false, false, true},
	{"m{source_id!=\"X\"}", false, false, true},
	{"m{source_id!~\"X\"}", false, false, true},
	{"m{source_id=\"X\"} + m", true, false, true},
	{"sum(m{source_id=\"X\"}) + sum(rate(n{a=\"Y\"}[1m]))", true, false, true},
	{"m{source_id=\"X\"", false, false, true},
	{"m{source_id=X}", false, false, true},
	{"", false, false, true},
}

func (s shape) query(x, y string) string {
	q := ""
	for i := 0; i < len(s.text); i++ {
		switch s.text[i] {
		case 'X':
			q += x
		case 'Y':
			q += y
		default:
			q += s.text[i : i+1]
		}
	}
	return q
}

// Characters of source ids, with those that mean something to regular
// expressions or PromQL elsewhere.
const idChars = "abXY09-_./ :{}()[]*+?=,^$#'@%&;<>!~"

func ids() (x, y string) {
	n := sym.Int("length", 1, sym.Bound("length", 1, 2))
	return sym.StrOf("x", n, idChars), sym.StrOf("y", 1, idChars)
}

// Q01_Extract compares the sources found in a query with those the engine
// reads for it.
func Q01_Extract() {
	sym.Expect("none", "one", "two", "refused")
	s := shapes[sym.Choice("query", len(shapes))]
	x, y := ids()
	q := s.query(x, y)
	got, err := promql.ExtractSourceIds(q)
	t := &tape{}
	p, _ := newPromQL(t)
	var rerr error
	if sym.Flag("range") {
		_, rerr = p.RangeQuery(context.Background(), &logcache_v1.PromQL_RangeQueryRequest{Query: q, Start: "1000", End: "1001", Step: "1"})
	} else {
		_, rerr = p.InstantQuery(context.Background(), &logcache_v1.PromQL_InstantQueryRequest{Query: q, Time: "1000"})
	}
	if err != nil {
		sym.Assert(rerr != nil, "a query is run that no sources can be extracted from")
		sym.Assert(len(t.reads) == 0, "a query that does not parse reads something")
		return
	}
	for _, r := range t.reads {
		sym.Assert(has(got, r.SourceId), "the engine reads a source that was not extracted from the query")
	}
	if s.refused {
		sym.Cover("refused")
		sym.Assert(rerr != nil, "a query with a selector that names no source is answered")
		return
	}
	for _, id := range got {
		sym.Assert(t.read(id) || rerr != nil, "a source is extracted that the engine does not read")
	}
	if !sym.EqStr(x, y) {
		sym.Assert(has(got, x) == s.x, "the sources extracted are not those named")
		sym.Assert(has(got, y) == s.y, "the sources extracted are not those named")
	}
	switch len(got) {
	case 0:
		sym.Cover("none")
	case 1:
		sym.Cover("one")
	case 2:
		sym.Cover("two")
	}
}

// Q01_Replace replaces the sources of a query with the ones they stand for.
func Q01_Replace() {
	sym.Expect("equal", "set", "dropped", "kept", "refused")
	s := shapes[sym.Choice("query", len(shapes))]
	x, y := sym.StrOf("x", 1, "ab_- "), sym.StrOf("y", 1, "cdZ9")
	sets := map[string][]string{}
	want := map[string]bool{}
	named := 0
	add := func(id string, used bool, other string) {
		k := sym.Int("expansions", 0, sym.Bound("expansions", 2, 3))
		var set []string
		for i := 0; i < k; i++ {
			set = append(set, other+sym.StrOf("expansion", 1, "pqrs"))
		}
		sets[id] = set
		if !used {
			return
		}
		named++
		for _, e := range set {
			want[e] = true
		}
	}
	add(x, s.x, "X")
	add(y, s.y, "Y")
	q := s.query(x, y)
	got, err := promql.ReplaceSourceIdSets(q, sets)
	if _, perr := promql.ExtractSourceIds(q); perr != nil {
		sym.Cover("refused")
		sym.Assert(err != nil, "a query that does not parse is rewritten")
		return
	}
	sym.Assert(err == nil, "a query that parses is not rewritten")
	ids, err := promql.ExtractSourceIds(got)
	sym.Assert(err == nil, "a rewritten query does not parse")
	for _, id := range ids {
		// A source that stands for nothing leaves an empty id.
		sym.Assert(want[id] || id == "", "a rewritten query names a source that none of its sources stands for")
	}
	for id := range want {
		sym.Assert(has(ids, id), "a rewritten query misses a source that one of its sources stands for")
	}
	switch {
	case named == 1 && len(want) == 1:
		sym.Cover("equal")
	case named == 1 && len(want) > 1:
		sym.Cover("set")
	case named == 1 && len(want) == 0:
		sym.Cover("dropped")
	case named == 0:
		sym.Cover("kept")
	}
	// Sources that stand for themselves leave the meaning as it is.
	same, err := promql.ReplaceSourceIdSets(q, map[string][]string{x: {x}, y: {y}})
	sym.Assert(err == nil, "a query that parses is not rewritten")
	sym.Assert(same == canonical(s, x, y), "a query is changed beyond its sources")
}

// canonical is the query as the library writes it.
func canonical(s shape, x, y string) string {
	if s.text == named {
		// The library would leave out the name.
		s.text = "m{source_id=\"X\"}"
	}
	e, err := prom.ParseExpr(s.query(x, y))
	sym.Assert(err == nil, "a query does not parse that did before")
	return e.String()
}
