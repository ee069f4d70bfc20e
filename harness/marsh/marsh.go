// Package marsh holds the harnesses for the PromQL marshaler.
package marsh

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"strconv"
	"strings"

	"code.cloudfoundry.org/log-cache/internal/zzverif/sym"
	"code.cloudfoundry.org/log-cache/pkg/marshaler"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"github.com/golang/protobuf/proto"
	"github.com/grpc-ecosystem/grpc-gateway/runtime"
)

type (
	instant = logcache_v1.PromQL_InstantQueryResult
	ranged  = logcache_v1.PromQL_RangeQueryResult
	point   = logcache_v1.PromQL_Point
)

// shape is a result to be rendered, kept apart from its message.
type shape struct {
	kind   string // scalar, vector, matrix
	ranged bool
	series []ser
}

type ser struct {
	metric map[string]string
	points []pt
}

type pt struct {
	time  string
	value float64
}

var goodTimes = []string{"1.9999", "1234567890.123456", "0", "1e3", "-0.0005", "1.0005"}

func anyTime() string {
	switch sym.Choice("time kind", 2) {
	case 0:
		f := sym.Float64("time")
		sym.Assume(sym.And(f > -1e12, f < 1e12))
		return strconv.FormatFloat(f, 'f', -1, 64)
	}
	return goodTimes[sym.Choice("time example", len(goodTimes))]
}

func anyMetric() map[string]string {
	switch sym.Choice("labels", 4) {
	case 0:
		return nil
	case 1:
		return map[string]string{}
	case 2:
		l := sym.Str("label", sym.Bound("label bytes", 1, 2))
		for i := range l {
			sym.Assume(l[i] < 0x80)
		}
		return map[string]string{"l": l}
	}
	return map[string]string{"b<": "é&\"", "a": "", "__name__": "", "le": "+Inf"}
}

// anyShape picks a result; only its first point has a time of any kind.
func anyShape(rng bool) *shape {
	s := &shape{ranged: rng, kind: "matrix"}
	if !rng {
		s.kind = []string{"scalar", "vector", "matrix"}[sym.Choice("kind", 3)]
	}
	first := true
	next := func() pt {
		p := pt{"7.25", sym.Float64("value")}
		if first {
			p.time = anyTime()
		}
		first = false
		return p
	}
	if s.kind == "scalar" {
		s.series = []ser{{nil, []pt{next()}}}
		return s
	}
	n := sym.Int("series", 0, sym.Bound("series", 3, 4))
	for i := 0; i < n; i++ {
		var sr ser
		if i == 0 {
			sr.metric = anyMetric()
		} else if i > 1 || !sym.Flag("later series without labels") {
			sr.metric = map[string]string{"z": "1"}
		}
		k := 1
		if s.kind == "matrix" {
			if i == 0 {
				k = sym.Int("points", 0, sym.Bound("points", 2, 3))
			} else {
				k = sym.Int("points", 0, 1)
			}
		}
		for j := 0; j < k; j++ {
			sr.points = append(sr.points, next())
		}
		s.series = append(s.series, sr)
	}
	return s
}

// manyShape is a result with many series and points, one of whose values is any
// float.
func manyShape() *shape {
	s := &shape{ranged: sym.Flag("range"), kind: "matrix"}
	if !s.ranged && sym.Flag("vector") {
		s.kind = "vector"
	}
	n := []int{1, 12, 101}[sym.Choice("series", sym.Bound("many series", 2, 3))]
	k := 1
	if s.kind == "matrix" {
		k = []int{1, 13, 120}[sym.Choice("points", sym.Bound("many points", 2, 3))]
	}
	last := sym.Flag("last")
	for i := 0; i < n; i++ {
		sr := ser{metric: map[string]string{"i": strconv.Itoa(i)}}
		for j := 0; j < k; j++ {
			p := pt{strconv.Itoa(1000000000 + j), float64(i*1000+j) + 0.25}
			if last && i == n-1 && j == k-1 || !last && i == 0 && j == 0 {
				p.value = sym.Float64("value")
			}
			sr.points = append(sr.points, p)
		}
		s.series = append(s.series, sr)
	}
	sym.Cover("many")
	return s
}

func (p pt) msg() *point { return &point{Time: p.time, Value: p.value} }

// msg builds the message for the result.
func (s *shape) msg() proto.Message {
	var vec *logcache_v1.PromQL_Vector
	var mat *logcache_v1.PromQL_Matrix
	switch s.kind {
	case "scalar":
		p := s.series[0].points[0]
		return &instant{Result: &logcache_v1.PromQL_InstantQueryResult_Scalar{Scalar: &logcache_v1.PromQL_Scalar{Time: p.time, Value: p.value}}}
	case "vector":
		vec = &logcache_v1.PromQL_Vector{}
		for _, sr := range s.series {
			vec.Samples = append(vec.Samples, &logcache_v1.PromQL_Sample{Metric: copied(sr.metric), Point: sr.points[0].msg()})
		}
		return &instant{Result: &logcache_v1.PromQL_InstantQueryResult_Vector{Vector: vec}}
	}
	mat = &logcache_v1.PromQL_Matrix{}
	for _, sr := range s.series {
		m := &logcache_v1.PromQL_Series{Metric: copied(sr.metric)}
		for _, p := range sr.points {
			m.Points = append(m.Points, p.msg())
		}
		mat.Series = append(mat.Series, m)
	}
	if s.ranged {
		return &ranged{Result: &logcache_v1.PromQL_RangeQueryResult_Matrix{Matrix: mat}}
	}
	return &instant{Result: &logcache_v1.PromQL_InstantQueryResult_Matrix{Matrix: mat}}
}

func copied(m map[string]string) map[string]string {
	if m == nil {
		return nil
	}
	c := map[string]string{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

// newMarshaler is the marshaler as the gateway has it.
func newMarshaler() *marshaler.PromqlMarshaler {
	return marshaler.NewPromqlMarshaler(&runtime.JSONPb{OrigName: true, EmitDefaults: true})
}

// render gives a rendering through one of the two ways.
func render(m proto.Message) ([]byte, error) {
	if sym.Flag("by encoder") {
		var b bytes.Buffer
		err := newMarshaler().NewEncoder(&b).Encode(m)
		return b.Bytes(), err
	}
	return newMarshaler().Marshal(m)
}

// decode reads through one of the two ways.
func decode(data []byte, m proto.Message) error {
	if sym.Flag("by decoder") {
		return newMarshaler().NewDecoder(bytes.NewReader(data)).Decode(m)
	}
	return newMarshaler().Unmarshal(data, m)
}

// document is the answer format of the Prometheus API.
type document struct {
	Status string `json:"status"`
	Data   struct {
		ResultType string          `json:"resultType"`
		Result     json.RawMessage `json:"result"`
	} `json:"data"`
	Error     *string `json:"error"`
	ErrorType *string `json:"errorType"`
}

type element struct {
	Metric json.RawMessage   `json:"metric"`
	Value  []json.RawMessage `json:"value"`
	Values json.RawMessage   `json:"values"`
}

func isPoint(raw []json.RawMessage, p pt) {
	sym.Assert(len(raw) == 2, "a point is a pair")
	t, err := strconv.ParseFloat(string(raw[0]), 64)
	want, _ := strconv.ParseFloat(p.time, 64)
	sym.Assert(err == nil && math.Abs(t-want) <= 0.00063, "a timestamp is the point's time to the millisecond")
	if sym.Native() {
		i := strings.IndexByte(string(raw[0]), '.')
		sym.Assert(i >= 0 && len(raw[0])-i == 4, "a timestamp has exactly three decimals")
	}
	var v string
	sym.Assert(json.Unmarshal(raw[1], &v) == nil, "a value is a string")
	f, err := strconv.ParseFloat(v, 64)
	sym.Assert(err == nil && sym.SameFloat(f, p.value), "a value parses back to the same float")
}

func isMetric(raw json.RawMessage, m map[string]string) {
	sym.Assert(len(raw) > 1 && raw[0] == '{', "labels are an object, never null")
	var got map[string]string
	sym.Assert(json.Unmarshal(raw, &got) == nil && len(got) == len(m), "every label is rendered")
	for k, v := range m {
		w, ok := got[k]
		sym.Assert(ok && w == v, "labels are rendered with their values")
	}
}

func isArray(raw json.RawMessage) {
	sym.Assert(len(raw) > 1 && raw[0] == '[', "a result without elements is an empty array, never null")
}

// C11_Render renders any result and reads it with a plain JSON reader.
func C11_Render() {
	sym.Expect("scalar", "vector", "matrix", "range", "empty", "no points")
	renders(anyShape(sym.Flag("range")))
}

// C11_Many renders large results.
func C11_Many() {
	sym.Expect("vector", "matrix", "range", "many")
	renders(manyShape())
}

func renders(s *shape) {
	out, err := render(s.msg())
	sym.Assert(err == nil, "a result whose times are numbers is rendered")
	sym.Assert(len(out) > 0 && out[len(out)-1] == '\n', "a rendering ends with a newline")
	var d document
	sym.Assert(json.Unmarshal(out, &d) == nil, "a rendering is JSON")
	sym.Assert(d.Status == "success" && d.Error == nil && d.ErrorType == nil, "a result is a success")
	sym.Assert(d.Data.ResultType == s.kind, "the result type is the result's")
	sym.Cover(s.kind)
	if s.ranged {
		sym.Cover("range")
	}
	if s.kind == "scalar" {
		var p []json.RawMessage
		sym.Assert(json.Unmarshal(d.Data.Result, &p) == nil, "a scalar is a point")
		isPoint(p, s.series[0].points[0])
		return
	}
	isArray(d.Data.Result)
	var es []element
	sym.Assert(json.Unmarshal(d.Data.Result, &es) == nil && len(es) == len(s.series), "every series is rendered")
	if len(es) == 0 {
		sym.Cover("empty")
	}
	for i, e := range es {
		isMetric(e.Metric, s.series[i].metric)
		if s.kind == "vector" {
			isPoint(e.Value, s.series[i].points[0])
			continue
		}
		isArray(e.Values)
		var ps [][]json.RawMessage
		sym.Assert(json.Unmarshal(e.Values, &ps) == nil && len(ps) == len(s.series[i].points), "every point is rendered")
		if len(ps) == 0 {
			sym.Cover("no points")
		}
		for j, p := range ps {
			isPoint(p, s.series[i].points[j])
		}
	}
}

var badTimes = []string{"", "abc", "1s", "1,5", "NaN", "Inf", "-Inf", "1 ", "--1", "1.5.2", "nan", "+inf", "infinity", "1e999"}

// C11_BadTime renders results one of whose points has a time that is no number.
func C11_BadTime() {
	sym.Expect("symbolic")
	bad := ""
	if sym.Flag("any text") {
		sym.Cover("symbolic")
		bad = sym.StrOf("time", sym.Bound("time characters", 2, 3), "x, ~")
	} else {
		bad = badTimes[sym.Choice("bad", len(badTimes))]
	}
	s := &shape{kind: []string{"scalar", "vector", "matrix", "matrix"}[sym.Choice("kind", 4)]}
	s.ranged = s.kind == "matrix" && sym.Flag("range")
	good := pt{"1.5", sym.Float64("value")}
	n := 1
	if s.kind != "scalar" {
		n = sym.Int("series", 1, 2)
	}
	at := sym.Int("which series", 0, n-1)
	for i := 0; i < n; i++ {
		sr := ser{points: []pt{good}}
		if s.kind == "matrix" {
			sr.points = append(sr.points, good)
		}
		if i == at {
			sr.points[sym.Int("which point", 0, len(sr.points)-1)].time = bad
		}
		s.series = append(s.series, sr)
	}
	if sym.Flag("by encoder") {
		var b bytes.Buffer
		err := newMarshaler().NewEncoder(&b).Encode(s.msg())
		sym.Assert(err != nil && b.Len() == 0, "a point whose time is not a number is an error and yields no output")
		return
	}
	out, err := newMarshaler().Marshal(s.msg())
	sym.Assert(err != nil && len(bytes.TrimSpace(out)) == 0, "a point whose time is not a number is an error and yields no output")
}

// C11_NoPoint renders results one of whose points is missing.
func C11_NoPoint() {
	good := &point{Time: "1.5", Value: 2}
	var m proto.Message
	at := sym.Int("at", 0, 1)
	points := []*point{good, good}
	points[at] = nil
	switch sym.Choice("kind", 3) {
	case 0:
		m = &instant{Result: &logcache_v1.PromQL_InstantQueryResult_Vector{Vector: &logcache_v1.PromQL_Vector{
			Samples: []*logcache_v1.PromQL_Sample{{Metric: anyMetric(), Point: points[0]}, {Point: points[1]}}}}}
	case 1:
		m = &instant{Result: &logcache_v1.PromQL_InstantQueryResult_Matrix{Matrix: &logcache_v1.PromQL_Matrix{
			Series: []*logcache_v1.PromQL_Series{{Points: points}}}}}
	case 2:
		m = &ranged{Result: &logcache_v1.PromQL_RangeQueryResult_Matrix{Matrix: &logcache_v1.PromQL_Matrix{
			Series: []*logcache_v1.PromQL_Series{{Points: points[:1]}, {Points: points[1:]}}}}}
	}
	if sym.Flag("by encoder") {
		var b bytes.Buffer
		err := newMarshaler().NewEncoder(&b).Encode(m)
		sym.Assert(err != nil && b.Len() == 0, "a point whose time is not a number is an error and yields no output")
		return
	}
	out, err := newMarshaler().Marshal(m)
	sym.Assert(err != nil && len(bytes.TrimSpace(out)) == 0, "a point whose time is not a number is an error and yields no output")
}

// times are equal after rounding to milliseconds.
func sameTime(a, b string) bool {
	x, err1 := strconv.ParseFloat(a, 64)
	y, err2 := strconv.ParseFloat(b, 64)
	if err1 != nil || err2 != nil {
		return false
	}
	r, err := strconv.ParseFloat(fmt.Sprintf("%.3f", x), 64)
	q, err2 := strconv.ParseFloat(fmt.Sprintf("%.3f", y), 64)
	return err == nil && err2 == nil && r == q
}

func (s *shape) isPoint(p *point, want pt) {
	sym.Assert(p != nil && sameTime(want.time, p.Time), "decoding gives the time back, rounded to milliseconds")
	sym.Assert(sym.SameFloat(p.Value, want.value), "decoding gives the value back")
}

func isLabels(got, want map[string]string) {
	sym.Assert(len(got) == len(want), "decoding gives exactly the labels back")
	for k, v := range want {
		w, ok := got[k]
		sym.Assert(ok && w == v, "decoding gives exactly the labels back")
	}
}

// is compares a decoded message with the shape.
func (s *shape) is(m proto.Message) {
	var mat *logcache_v1.PromQL_Matrix
	if s.ranged {
		mat = m.(*ranged).GetMatrix()
	} else {
		r := m.(*instant)
		switch s.kind {
		case "scalar":
			sc, ok := r.Result.(*logcache_v1.PromQL_InstantQueryResult_Scalar)
			sym.Assert(ok, "decoding gives the kind back")
			s.isPoint(&point{Time: sc.Scalar.Time, Value: sc.Scalar.Value}, s.series[0].points[0])
			return
		case "vector":
			v, ok := r.Result.(*logcache_v1.PromQL_InstantQueryResult_Vector)
			sym.Assert(ok && v.Vector != nil, "decoding gives the kind back")
			sym.Assert(len(v.Vector.Samples) == len(s.series), "decoding gives every sample back")
			for i, sm := range v.Vector.Samples {
				isLabels(sm.Metric, s.series[i].metric)
				s.isPoint(sm.Point, s.series[i].points[0])
			}
			return
		}
		mat = r.GetMatrix()
	}
	sym.Assert(mat != nil, "decoding gives the kind back")
	sym.Assert(len(mat.Series) == len(s.series), "decoding gives every series back")
	for i, sr := range mat.Series {
		isLabels(sr.Metric, s.series[i].metric)
		sym.Assert(len(sr.Points) == len(s.series[i].points), "decoding gives every point back")
		for j, p := range sr.Points {
			s.isPoint(p, s.series[i].points[j])
		}
	}
}

// oldInstant and oldRange are the previous contents of a target.
func oldInstant() *instant {
	switch sym.Choice("previous content", 3) {
	case 0:
		return &instant{}
	case 1:
		return &instant{Result: &logcache_v1.PromQL_InstantQueryResult_Scalar{Scalar: &logcache_v1.PromQL_Scalar{Time: "99", Value: 99}}}
	}
	return &instant{Result: &logcache_v1.PromQL_InstantQueryResult_Vector{Vector: &logcache_v1.PromQL_Vector{Samples: []*logcache_v1.PromQL_Sample{{Metric: map[string]string{"old": "1"}, Point: &point{Time: "9", Value: 9}}}}}}
}

func oldRange() *ranged {
	if sym.Flag("empty before") {
		return &ranged{}
	}
	return &ranged{Result: &logcache_v1.PromQL_RangeQueryResult_Matrix{Matrix: &logcache_v1.PromQL_Matrix{Series: []*logcache_v1.PromQL_Series{{Metric: map[string]string{"old": "1"}, Points: []*point{{Time: "9", Value: 9}}}}}}}
}

func target(rng bool) proto.Message {
	if rng {
		return oldRange()
	}
	return oldInstant()
}

// C12_RoundTrip decodes what was rendered.
func C12_RoundTrip() {
	sym.Expect("scalar", "vector", "matrix", "range")
	comesBack(anyShape(sym.Flag("range")))
}

// C12_Many decodes large results.
func C12_Many() {
	sym.Expect("vector", "matrix", "range", "many")
	comesBack(manyShape())
}

func comesBack(s *shape) {
	out, err := render(s.msg())
	sym.Assert(err == nil, "a result whose times are numbers is rendered")
	m := target(s.ranged)
	sym.Assert(decode(out, m) == nil, "what was rendered is decoded")
	s.is(m)
	sym.Cover(s.kind)
	if s.ranged {
		sym.Cover("range")
	}
}

// C12_Stream decodes a stream of results one by one.
func C12_Stream() {
	var b bytes.Buffer
	enc := newMarshaler().NewEncoder(&b)
	var ss []*shape
	for i := 0; i < 2; i++ {
		s := &shape{kind: []string{"scalar", "vector", "matrix"}[sym.Choice("kind", 3)]}
		s.ranged = s.kind == "matrix" && sym.Flag("range")
		s.series = []ser{{nil, []pt{{"1.5", sym.Float64("value")}}}}
		ss = append(ss, s)
		sym.Assert(enc.Encode(s.msg()) == nil, "results are encoded one after the other")
	}
	dec := newMarshaler().NewDecoder(&b)
	for _, s := range ss {
		m := target(s.ranged)
		sym.Assert(dec.Decode(m) == nil, "results are decoded one after the other")
		s.is(m)
	}
	sym.Assert(dec.Decode(&instant{}) == io.EOF, "a stream ends after its last result")
}

// keeps checks that decoding fails and leaves the target alone.
func refuses(rng bool, doc []byte) {
	m := target(rng)
	before := proto.Clone(m)
	err := decode(doc, m)
	sym.Assert(err != nil, "a malformed response is rejected")
	sym.Assert(proto.Equal(m, before), "a rejected response leaves the target as it was")
}

func wrap(kind, result string) []byte {
	return []byte(`{"status":"success","data":{"resultType":"` + kind + `","result":` + result + `}}`)
}

var others = []string{`null`, `true`, `"1"`, `[]`, `{}`, `[1]`}

// badPoint is a point that is none.
func badPoint() string {
	switch sym.Choice("bad point", 5) {
	case 0:
		return []string{`[]`, `[1]`, `[1,"2",3]`, `["1"]`, `[1,"2","3"]`, `null`, `[null,null]`}[sym.Choice("length", 7)]
	case 1: // a timestamp that is no number
		return `[` + others[sym.Choice("timestamp", len(others))] + `,"2"]`
	case 2: // a value that is no string
		return `[1.5,` + append([]string{`2`}, others[0], others[1], others[3], others[4])[sym.Choice("value", 5)] + `]`
	case 3: // a value that is no float
		v := sym.StrOf("text", sym.Bound("value characters", 2, 3), "0x- .")
		_, err := strconv.ParseFloat(v, 64)
		sym.Assume(err != nil)
		return `[1.5,"` + v + `"]`
	}
	return `[1.5,"` + []string{"", "abc", "1e999", "-1e999", "1.2.3", "0xg", "1,5"}[sym.Choice("text example", 7)] + `"]`
}

// C13_Points decodes a response with one bad point among good ones.
func C13_Points() {
	sym.Expect("scalar", "vector", "matrix", "range")
	bad := badPoint()
	rng := sym.Flag("range")
	kind := "matrix"
	if !rng {
		kind = []string{"scalar", "vector", "matrix"}[sym.Choice("kind", 3)]
	}
	sym.Cover(kind)
	if rng {
		sym.Cover("range")
	}
	good := `[1,"2"]`
	switch kind {
	case "scalar":
		if bad == "null" {
			return
		}
		refuses(rng, wrap(kind, bad))
	case "vector":
		pre, post := "", ""
		if sym.Flag("good sample before") {
			pre = `{"metric":{"a":"b"},"value":` + good + `},`
		}
		if sym.Flag("good sample after") {
			post = `,{"metric":{"a":"b"},"value":` + good + `}`
		}
		refuses(rng, wrap(kind, `[`+pre+`{"metric":{},"value":`+bad+`}`+post+`]`))
	case "matrix":
		pre, post := "", ""
		if sym.Flag("good series before") {
			pre = `{"metric":{"a":"b"},"values":[` + good + `]},`
		}
		if sym.Flag("good series after") {
			post = `,{"metric":{"a":"b"},"values":[` + good + `]}`
		}
		ps := bad
		switch sym.Choice("good point", 3) {
		case 1:
			ps = good + `,` + bad
		case 2:
			ps = bad + `,` + good
		}
		refuses(rng, wrap(kind, `[`+pre+`{"metric":{},"values":[`+ps+`]}`+post+`]`))
	}
}

// C13_Type decodes a response with any short result type or a usual other one.
func C13_Type() {
	rng := sym.Flag("range")
	kind := ""
	switch sym.Choice("type", 2) {
	case 0:
		kind = []string{"", "string", "streams", "Matrix", "matrix ", "none", "scalar", "vector", "vectors"}[sym.Choice("example", 9)]
		sym.Assume(rng || kind != "scalar" && kind != "vector")
	case 1:
		kind = sym.StrOf("type", 6, "matrixvecols")
		if rng {
			sym.Assume(kind != "matrix")
		} else {
			sym.Assume(sym.And(kind != "matrix", kind != "vector", kind != "scalar"))
		}
	}
	result := []string{`[]`, `[1,"2"]`, `[{"metric":{},"value":[1,"2"]}]`, `[{"metric":{},"values":[[1,"2"]]}]`}[sym.Choice("result", 4)]
	refuses(rng, wrap(kind, result))
}

// C13_Shape decodes responses whose parts have the wrong shape.
func C13_Shape() {
	docs := []string{
		``, ` `, `{`, `}`, `[]`, `"x"`, `5`, `true`, `{}`, `null`, `{"status":"success"}`, `{"data":null}`, `{"data":[]}`, `{"data":5}`, `{"status":5,"data":{"resultType":"matrix","result":[]}}`,
		`{"data":{"resultType":5,"result":[]}}`, `{"data":{"result":[]}}`, `{"data":{"resultType":"matrix"}}`, `{"data":{"resultType":"matrix","result":{}}}`, `{"data":{"resultType":"matrix","result":"x"}}`,
		`{"data":{"resultType":"matrix","result":5}}`, `{"data":{"resultType":"matrix","result":[5]}}`, `{"data":{"resultType":"matrix","result":[[]]}}`, `{"data":{"resultType":"matrix","result":[{"metric":[]}]}}`,
		`{"data":{"resultType":"matrix","result":[{"metric":{"a":5},"values":[]}]}}`, `{"data":{"resultType":"matrix","result":[{"metric":{},"values":{}}]}}`, `{"data":{"resultType":"matrix","result":[{"metric":{},"values":[5]}]}}`,
		`{"data":{"resultType":"matrix","result":[{"metric":{},"values":[{}]}]}}`, `{"data":{"resultType":"matrix","result":[{"metric":{},"values":["x"]}]}}`,
		`{"data":{"resultType":"vector","result":[{"metric":{}}]}}`, `{"data":{"resultType":"vector","result":[{"metric":{},"value":5}]}}`, `{"data":{"resultType":"vector","result":[null]}}`, `{"data":{"resultType":"vector","result":{}}}`,
		`{"data":{"resultType":"vector","result":[{"metric":{},"value":{}}]}}`, `{"data":{"resultType":"scalar","result":5}}`, `{"data":{"resultType":"scalar","result":{}}}`, `{"data":{"resultType":"scalar","result":"1"}}`, `{"data":{"resultType":"scalar"}}`,
		`{"data":{"resultType":"matrix","result":[]}`, `{"data":{"resultType":"matrix","result":[}}`, `<html>`,
	}
	refuses(sym.Flag("range"), []byte(docs[sym.Choice("document", len(docs))]))
}

var whole = []string{
	`{"status":"success","data":{"resultType":"scalar","result":[1.25,"-2e3"]}}`,
	`{"data":{"resultType":"vector","result":[{"metric":{"a":"b"},"value":[1,"2"]}]}}`,
	`{"data":{"resultType":"matrix","result":[{"metric":{},"values":[[1,"2"],[3,"4"]]}]}}`,
}

// C13_Truncated decodes every proper prefix of responses.
func C13_Truncated() {
	k := sym.Choice("document", len(whole))
	doc := whole[k]
	n := sym.Int("cut", 0, len(doc)-1)
	refuses(k == 2 && sym.Flag("range"), []byte(doc[:n]))
}

// partial are responses that lack something.
var partial = []string{`{}`, `null`, `{"data":{}}`, `{"data":null}`, `{"status":"success"}`, `{"data":{"result":[1,"2"]}}`, `{"data":{"result":[]}}`,
	`{"data":{"resultType":"vector"}}`, `{"data":{"resultType":"matrix"}}`, `{"data":{"resultType":"scalar"}}`,
	`{"data":{"resultType":"matrix","result":[{"metric":{},"values":[[]]}]}}`, `{"data":{"resultType":"vector","result":[{"metric":{"a":"b"}}]}}`,
	`{"data":{"resultType":null,"result":[1,"2"]}}`, `{"data":{"resultType":"","result":[1,"2"]}}`}

// C13_After decodes a response that lacks something after a whole one, with
// the same decoder or marshaler.
func C13_After() {
	sym.Expect("stream", "one by one")
	k := sym.Choice("document", len(whole))
	rng := k == 2 && sym.Flag("range")
	bad := partial[sym.Choice("partial", len(partial))]
	first, second := target(rng), target(rng)
	before := proto.Clone(second)
	var err1, err2 error
	if sym.Flag("stream") {
		dec := newMarshaler().NewDecoder(strings.NewReader(whole[k] + bad))
		err1, err2 = dec.Decode(first), dec.Decode(second)
		sym.Cover("stream")
	} else {
		m := newMarshaler()
		err1, err2 = m.Unmarshal([]byte(whole[k]), first), m.Unmarshal([]byte(bad), second)
		sym.Cover("one by one")
	}
	sym.Assert(err1 == nil, "a well-formed response is accepted")
	sym.Assert(err2 != nil, "a malformed response is rejected")
	sym.Assert(proto.Equal(second, before), "a rejected response leaves the target as it was")
}

// C13_Trailing decodes documents that go on after a response.
func C13_Trailing() {
	k := sym.Choice("document", len(whole))
	more := []string{"", whole[k], "{}", "null", "}", "]"}[sym.Choice("more", 6)]
	if more == "" {
		b := sym.Byte("byte")
		sym.Assume(sym.Not(sym.Or(b == ' ', b == '\n', b == '\t', b == '\r')))
		more = string([]byte{b})
	}
	m := target(k == 2 && sym.Flag("range"))
	before := proto.Clone(m)
	err := newMarshaler().Unmarshal([]byte(whole[k]+[]string{"", "\n"}[sym.Choice("line", 2)]+more), m)
	sym.Assert(err != nil, "a malformed response is rejected")
	sym.Assert(proto.Equal(m, before), "a rejected response leaves the target as it was")
}

// C13_Byte replaces one byte of a response by any other.
func C13_Byte() {
	sym.Expect("rejected", "still well formed")
	k := sym.Choice("document", len(whole))
	rng := k == 2 && sym.Flag("range")
	doc := []byte(whole[k])
	at := sym.Int("position", 0, len(doc)-1)
	doc[at] = sym.Byte("byte")
	if sym.Thorough() && at+1 < len(doc) {
		doc[at+1] = sym.Byte("next byte")
	}
	m := target(rng)
	before := proto.Clone(m)
	err := newMarshaler().Unmarshal(doc, m)
	want, ok := reference(doc, rng)
	if !ok {
		sym.Cover("rejected")
		sym.Assert(err != nil, "a malformed response is rejected")
		sym.Assert(proto.Equal(m, before), "a rejected response leaves the target as it was")
		return
	}
	sym.Cover("still well formed")
	if want == nil { // unspecified
		return
	}
	sym.Assert(err == nil, "a well-formed response is accepted")
	want.is(m)
}

// reference reads a response strictly; a nil shape says that the response is
// neither required to be accepted nor to be rejected.
func reference(doc []byte, rng bool) (*shape, bool) {
	var d document
	if json.Unmarshal(doc, &d) != nil {
		return nil, false
	}
	s := &shape{ranged: rng, kind: d.Data.ResultType}
	if s.kind != "matrix" && (rng || s.kind != "vector" && s.kind != "scalar") {
		return nil, false
	}
	if len(d.Data.Result) == 0 {
		return nil, false
	}
	if d.Data.Result[0] == 'n' {
		return nil, true
	}
	if s.kind == "scalar" {
		p, ok := refPoint(d.Data.Result)
		s.series = []ser{{nil, []pt{p}}}
		return s, ok
	}
	var es []*struct {
		Metric map[string]string `json:"metric"`
		Value  json.RawMessage   `json:"value"`
		Values []json.RawMessage `json:"values"`
	}
	if json.Unmarshal(d.Data.Result, &es) != nil {
		return nil, false
	}
	for _, e := range es {
		if e == nil {
			return nil, true
		}
		sr := ser{metric: e.Metric}
		raws := e.Values
		if s.kind == "vector" {
			raws = []json.RawMessage{e.Value}
		}
		for _, r := range raws {
			p, ok := refPoint(r)
			if !ok {
				return nil, false
			}
			sr.points = append(sr.points, p)
		}
		s.series = append(s.series, sr)
	}
	return s, true
}

func refPoint(raw json.RawMessage) (pt, bool) {
	var p []interface{}
	if len(raw) == 0 || json.Unmarshal(raw, &p) != nil || len(p) != 2 {
		return pt{}, false
	}
	t, ok := p[0].(float64)
	v, ok2 := p[1].(string)
	if !ok || !ok2 {
		return pt{}, false
	}
	f, err := strconv.ParseFloat(v, 64)
	if err != nil {
		return pt{}, false
	}
	return pt{strconv.FormatFloat(t, 'f', -1, 64), f}, true
}

// fallback records what it is asked for.
type fallback struct {
	calls []string
	last  interface{}
	out   []byte
	err   error
	r     io.Reader
	w     io.Writer
}

func (f *fallback) Marshal(v interface{}) ([]byte, error) {
	f.calls = append(f.calls, "marshal")
	f.last = v
	return f.out, f.err
}
func (f *fallback) Unmarshal(data []byte, v interface{}) error {
	f.calls = append(f.calls, "unmarshal")
	f.last = v
	f.out = data
	return f.err
}
func (f *fallback) NewDecoder(r io.Reader) runtime.Decoder {
	f.r = r
	return runtime.DecoderFunc(func(v interface{}) error {
		f.calls = append(f.calls, "decode")
		f.last = v
		f.out, _ = io.ReadAll(f.r)
		return f.err
	})
}
func (f *fallback) NewEncoder(w io.Writer) runtime.Encoder {
	f.w = w
	return runtime.EncoderFunc(func(v interface{}) error {
		f.calls = append(f.calls, "encode")
		f.last = v
		f.w.Write(f.out)
		return f.err
	})
}
func (f *fallback) ContentType() string { return "application/x-fallback" }

var fallbackErrors = []error{errors.New("fallback failed"), io.EOF, io.ErrUnexpectedEOF, context.Canceled}

// other is anything that is no PromQL result.
func other() interface{} {
	switch sym.Choice("other", 9) {
	case 0:
		return nil
	case 1:
		return "text"
	case 2:
		return &logcache_v1.ReadResponse{}
	case 3:
		return instant{}
	case 4:
		return ranged{}
	case 5:
		return &logcache_v1.PromQL_Matrix{}
	case 6:
		return map[string]string{"a": "b"}
	case 7:
		return &logcache_v1.PromQL_InstantQueryRequest{Query: "x"}
	}
	i := &instant{}
	return &i
}

// C14_Fallback passes everything else to the fallback marshaler.
func C14_Fallback() {
	sym.Expect("fails", "succeeds")
	f := &fallback{}
	m := marshaler.NewPromqlMarshaler(f)
	if sym.Flag("fails") {
		f.err = fallbackErrors[sym.Choice("error", len(fallbackErrors))]
		sym.Cover("fails")
	} else {
		sym.Cover("succeeds")
	}
	content := sym.Str("content", sym.Int("content bytes", 0, 2))
	v := other()
	same := func() bool {
		switch v.(type) {
		case map[string]string:
			return len(f.last.(map[string]string)) == 1
		case instant:
			_, ok := f.last.(instant)
			return ok
		case ranged:
			_, ok := f.last.(ranged)
			return ok
		}
		return f.last == v
	}
	switch sym.Choice("entry point", 4) {
	case 0:
		f.out = []byte(content)
		out, err := m.Marshal(v)
		sym.Assert(err == f.err, "the fallback's error is passed through")
		if err == nil {
			sym.Assert(string(out) == content+"\n", "the fallback's bytes are passed through with a newline")
		}
		sym.Assert(len(f.calls) == 1 && f.calls[0] == "marshal" && same(), "other messages are left to the fallback")
	case 1:
		f.out = []byte(content)
		var b bytes.Buffer
		err := m.NewEncoder(&b).Encode(v)
		sym.Assert(err == f.err, "the fallback's error is passed through")
		sym.Assert(b.String() == content, "the fallback's bytes are passed through")
		sym.Assert(len(f.calls) == 1 && f.calls[0] == "encode" && same(), "other messages are left to the fallback")
	case 2:
		err := m.Unmarshal([]byte(content), v)
		sym.Assert(err == f.err, "the fallback's error is passed through")
		sym.Assert(string(f.out) == content, "the fallback gets the bytes")
		sym.Assert(len(f.calls) == 1 && f.calls[0] == "unmarshal" && same(), "other messages are left to the fallback")
	case 3:
		err := m.NewDecoder(strings.NewReader(content)).Decode(v)
		sym.Assert(err == f.err, "the fallback's error is passed through")
		sym.Assert(string(f.out) == content, "the fallback gets the bytes")
		sym.Assert(len(f.calls) == 1 && f.calls[0] == "decode" && same(), "other messages are left to the fallback")
	}
}

// C14_Agree compares the entry points on PromQL results.
func C14_Agree() {
	sym.Expect("rendered", "error")
	f := &fallback{}
	m := marshaler.NewPromqlMarshaler(f)
	s := anyShape(sym.Flag("range"))
	if len(s.series) > 0 && len(s.series[0].points) > 0 && sym.Flag("bad time") {
		s.series[0].points[0].time = "x"
	}
	msg := s.msg()
	out, err := m.Marshal(msg)
	var b bytes.Buffer
	err2 := m.NewEncoder(&b).Encode(msg)
	sym.Assert((err == nil) == (err2 == nil), "both ways of rendering fail alike")
	if err != nil {
		sym.Cover("error")
		return
	}
	sym.Cover("rendered")
	sym.Assert(string(out) == b.String(), "both ways of rendering give the same bytes")
	var a, c proto.Message
	if s.ranged {
		a, c = &ranged{}, oldRange()
	} else {
		a, c = &instant{}, oldInstant()
	}
	sym.Assert(m.Unmarshal(out, a) == nil && m.NewDecoder(bytes.NewReader(out)).Decode(c) == nil, "both ways of decoding read it")
	for _, sr := range s.series {
		for _, p := range sr.points {
			sym.Assume(!math.IsNaN(p.value))
		}
	}
	sym.Assert(proto.Equal(a, c), "both ways of decoding give the same message")
	sym.Assert(len(f.calls) == 0, "PromQL results never reach the fallback")
}

// C14_AgreeMalformed compares the decoding entry points on anything.
func C14_AgreeMalformed() {
	k := sym.Choice("document", len(whole))
	rng := sym.Flag("range")
	doc := []byte(whole[k])
	at := sym.Int("position", 0, len(doc)-1)
	doc[at] = sym.Byte("byte")
	var a, c proto.Message
	if rng {
		a, c = &ranged{}, &ranged{}
	} else {
		a, c = &instant{}, &instant{}
	}
	err := newMarshaler().Unmarshal(doc, a)
	err2 := newMarshaler().NewDecoder(bytes.NewReader(doc)).Decode(c)
	if at < len(doc)-1 {
		if err == nil {
			sym.Assert(err2 == nil, "what one way decodes the other does")
			sym.Assert(proto.Equal(a, c), "both ways of decoding give the same message")
		}
	}
}

// C14_Stream writes and reads several messages through one stream.
func C14_Stream() {
	sym.Expect("several")
	var b bytes.Buffer
	enc := newMarshaler().NewEncoder(&b)
	n := sym.Int("messages", 1, sym.Bound("messages", 2, 3))
	var docs []string
	var msgs []proto.Message
	for i := 0; i < n; i++ {
		v := sym.Float64("value")
		sym.Assume(!math.IsNaN(v))
		var msg proto.Message
		if sym.Flag("range") {
			msg = &ranged{Result: &logcache_v1.PromQL_RangeQueryResult_Matrix{Matrix: &logcache_v1.PromQL_Matrix{Series: []*logcache_v1.PromQL_Series{
				{Metric: map[string]string{"a": "b"}, Points: []*point{{Time: "1.500", Value: v}}}}}}}
		} else {
			msg = &instant{Result: &logcache_v1.PromQL_InstantQueryResult_Scalar{Scalar: &logcache_v1.PromQL_Scalar{Time: "1.500", Value: v}}}
		}
		doc, err := newMarshaler().Marshal(msg)
		sym.Assert(err == nil && enc.Encode(msg) == nil, "a result is rendered")
		docs = append(docs, string(doc))
		msgs = append(msgs, msg)
	}
	if n > 1 {
		sym.Cover("several")
	}
	sym.Assert(b.String() == strings.Join(docs, ""), "a stream of results is rendered as the results one after the other")
	dec := newMarshaler().NewDecoder(strings.NewReader(b.String()))
	for _, msg := range msgs {
		var got proto.Message = &instant{}
		if _, ok := msg.(*ranged); ok {
			got = &ranged{}
		}
		sym.Assert(dec.Decode(got) == nil, "every result of a stream is decoded")
		sym.Assert(proto.Equal(msg, got), "every result of a stream is decoded in its turn")
	}
	sym.Assert(dec.Decode(&instant{}) == io.EOF, "a stream ends after its last result")
}
