package prom

import (
	"context"

	"code.cloudfoundry.org/log-cache/internal/promql"
	"code.cloudfoundry.org/log-cache/internal/zzverif/sym"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	prom "github.com/prometheus/prometheus/promql"
)

// tree is an expression over the sources a and b.
type tree struct {
	text, replaced string // before and after a stands for p and q, and b for r
	a, b           bool   // which it names
	nameless       bool   // it has a selector without a source
}

// The labels of a selector, before and after.
var selectors = []struct {
	before, after  string
	a, b, nameless bool
}{
	{"source_id=\"a\"", "source_id=~\"p|q\"", true, false, false},
	{"k!=\"a\",source_id=~\"a|b\"", "k!=\"a\",source_id=~\"p|q|r\"", true, true, false},
	{"source_id=\"b\",k=\"v\"", "source_id=\"r\",k=\"v\"", false, true, false},
	{"k=~\"a\"", "k=~\"a\"", false, false, true},
	{"source_id!=\"a\",source_id=\"b\"", "source_id!=\"a\",source_id=\"r\"", false, true, false},
	{"source_id=~\"b|a|b\"", "source_id=~\"r|p|q|r\"", true, true, false},
	{"source_id=~\"b\"", "source_id=\"r\"", false, true, false},
}

// wraps are ways to write a selector S as a vector.
var wraps = []string{"m{S}", "m{S} offset 1m", "rate(n{S}[5m])", "max_over_time(m{S}[1m] offset 2m)"}

var unary = []string{"sum(E)", "-(E)", "count by (k) (E)", "topk(2, E)", "absent(E)", "clamp_max(E, 3)", "vector(scalar(E))", "E > bool 1", "histogram_quantile(0.9, E)", "sort_desc((E))", "stddev without (k) (E)", "label_replace(E, \"a\", \"$1\", \"b\", \"(.*)\")", "vector(1) + (E)"}

var binary = []string{"(E) + on (k) F", "(E) and (F)", "clamp_min(E, scalar(F))", "(E) unless (F)", "(E) * ignoring (k) group_left (j) (F)"}

func put(s, e, f string) string {
	out := ""
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case 'E', 'S':
			out += e
		case 'F':
			out += f
		default:
			out += s[i : i+1]
		}
	}
	return out
}

func grow(depth, sels, ways int) tree {
	k := 0
	if depth > 0 {
		k = sym.Choice("node", 3)
	}
	switch k {
	case 1:
		e := grow(depth-1, sels, ways)
		op := unary[sym.Choice("unary", len(unary))]
		return tree{put(op, e.text, ""), put(op, e.replaced, ""), e.a, e.b, e.nameless}
	case 2:
		e, f := grow(depth-1, sels, ways), grow(depth-1, sels, ways)
		op := binary[sym.Choice("binary", len(binary))]
		return tree{put(op, e.text, f.text), put(op, e.replaced, f.replaced), e.a || f.a, e.b || f.b, e.nameless || f.nameless}
	}
	s := selectors[sym.Choice("selector", sels)]
	w := wraps[sym.Choice("wrap", ways)]
	return tree{put(w, s.before, ""), put(w, s.after, ""), s.a, s.b, s.nameless}
}

// Q01_Tree takes the sources out of expressions of many forms, runs them, and
// replaces their sources.
func Q01_Tree() {
	sym.Expect("none", "one", "two", "refused")
	var e tree
	switch sym.Choice("form", 2) {
	case 0:
		e = grow(1, len(selectors), len(wraps))
	case 1:
		e = grow(2, sym.Bound("selectors of nested expressions", 1, 2), sym.Bound("wraps of nested expressions", 1, 2))
	}
	got, err := promql.ExtractSourceIds(e.text)
	sym.Assert(err == nil, "a query does not parse")
	sym.Assert(has(got, "a") == e.a && has(got, "b") == e.b, "the sources extracted are not those named")
	n := 0
	if e.a {
		n++
	}
	if e.b {
		n++
	}
	sym.Assert(len(got) == n, "a source is extracted twice, or one that is not named")
	t := &tape{}
	p, _ := newPromQL(t)
	_, err = p.InstantQuery(context.Background(), &logcache_v1.PromQL_InstantQueryRequest{Query: e.text, Time: "1000"})
	for _, r := range t.reads {
		sym.Assert(has(got, r.SourceId), "the engine reads a source that was not extracted from the query")
	}
	if e.nameless {
		sym.Cover("refused")
		sym.Assert(err != nil, "a query with a selector that names no source is answered")
	} else {
		sym.Assert(err == nil, "a query fails")
		sym.Assert(t.read("a") == e.a && t.read("b") == e.b, "the engine does not read the sources named")
		switch n {
		case 1:
			sym.Cover("one")
		case 2:
			sym.Cover("two")
		}
	}
	if n == 0 {
		sym.Cover("none")
	}
	out, err := promql.ReplaceSourceIdSets(e.text, map[string][]string{"a": {"p", "q"}, "b": {"r"}})
	sym.Assert(err == nil, "a query that parses is not rewritten")
	want, err := prom.ParseExpr(e.replaced)
	sym.Assert(err == nil, "the expected query does not parse")
	sym.Assert(out == want.String(), "a rewritten query is not the one that reads the replacements")
}
