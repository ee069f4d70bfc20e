package main

// Intrinsics: strings, bytealg, strconv, fmt, sort, net/url.

import (
	"fmt"
	"go/types"
	"math"
	"net/url"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

var bodyV = Value{p: useBody{}}

func (w *W) holeEq(a, b *Hole) *Term {
	if a == b {
		return w.tt.True
	}
	if a.kind != b.kind {
		// an integer in plain decimal, signed or not
		if (a.kind == "int" || a.kind == "uint") && (b.kind == "int" || b.kind == "uint") {
			at, bt := w.term(a.v, tiInt), w.term(b.v, tiInt)
			z := w.tt.BV(0, 64)
			return w.tt.And(w.tt.Eq(at, bt), w.tt.Bin(OSLe, SBool, z, at))
		}
		if (a.kind == "f64" && (b.kind == "int" || b.kind == "uint")) || (b.kind == "f64" && (a.kind == "int" || a.kind == "uint")) {
			h := a
			if h.kind != "f64" {
				h = b
			}
			if h.fmt == 'f' && h.prec > 0 {
				return w.tt.False // always has a decimal point
			}
			unsup("comparison of a formatted float with a formatted integer")
		}
		return w.tt.False
	}
	switch a.kind {
	case "int", "uint":
		return w.tt.Eq(w.term(a.v, tiInt), w.term(b.v, tiInt))
	case "f64":
		if a.fmt != b.fmt || a.prec != b.prec {
			if a.fmt == 'f' && b.fmt == 'f' && a.prec >= 0 && b.prec >= 0 {
				// different numbers of decimals: equal only for NaN/Inf
				unsup("comparison of floats formatted with different precisions")
			}
			unsup("comparison of differently formatted floats")
		}
		x, y := w.term(a.v, tiF64), w.term(b.v, tiF64)
		if a.prec == 3 {
			x, y = w.tt.Un(OR3, SF64, x), w.tt.Un(OR3, SF64, y)
		} else if a.prec >= 0 {
			unsup("comparison of floats with %d decimals", a.prec)
		}
		return w.tt.Eq(x, y)
	case "quote":
		return w.strEq(a.v, b.v)
	case "jstr", "b64":
		return w.strEq(elemsToStr(a.s), elemsToStr(b.s))
	}
	unsup("comparison of %s texts", a.kind)
	return nil
}

// holeIs gives the condition that h's text is txt.
func (w *W) holeIs(h *Hole, txt string) *Term {
	switch h.kind {
	case "int":
		v, err := strconv.ParseInt(txt, 10, 64)
		if err != nil || strconv.FormatInt(v, 10) != txt {
			return w.tt.False
		}
		return w.tt.Eq(w.term(h.v, tiInt), w.tt.BV(uint64(v), 64))
	case "uint":
		v, err := strconv.ParseUint(txt, 10, 64)
		if err != nil || strconv.FormatUint(v, 10) != txt {
			return w.tt.False
		}
		return w.tt.Eq(w.term(h.v, tiInt), w.tt.BV(v, 64))
	case "f64":
		v, err := strconv.ParseFloat(txt, 64)
		if err != nil || strconv.FormatFloat(v, h.fmt, h.prec, 64) != txt {
			return w.tt.False
		}
		if h.prec == 3 {
			return w.tt.Eq(w.tt.Un(OR3, SF64, w.term(h.v, tiF64)), w.tt.F64(v))
		}
		if h.prec < 0 {
			return w.tt.Eq(w.term(h.v, tiF64), w.tt.F64(v))
		}
		unsup("comparison of a float with %d decimals", h.prec)
	}
	unsup("comparison of %s text with %q", h.kind, txt)
	return nil
}

func holeStr(h *Hole) Value { return Value{p: &SymStr{[]Value{{p: h}}}} }

func soleHole(v Value) *Hole {
	s, ok := v.p.(*SymStr)
	if !ok || len(s.e) != 1 {
		return nil
	}
	h, _ := s.e[0].p.(*Hole)
	return h
}

func (w *W) fmtInt(v Value, signed bool) Value {
	if t, ok := v.p.(*Term); ok {
		if t.S < 64 {
			if signed {
				t = w.tt.SExt(64, t)
			} else {
				t = w.tt.ZExt(64, t)
			}
		}
		k := "int"
		if !signed {
			k = "uint"
		}
		return holeStr(&Hole{kind: k, v: Value{p: t}})
	}
	w.noPoison(v)
	if signed {
		return mkStr(strconv.FormatInt(int64(v.n), 10))
	}
	return mkStr(strconv.FormatUint(v.n, 10))
}

// telling are floats that read back as another one from any text that is not
// made to hold them.
var telling = []float64{0, 5e-324}

func init() { x := 0.1; telling[0] = x + 0.2 }

// tellingRound are floats that rounding in any direction, to any few digits,
// changes.
var tellingRound = []float64{1.99967, -2.5}

// known follows the given values of a float one by one, and says which of them
// it is on this path.
func (w *W) known(v Value, xs []float64) (float64, bool) {
	t, ok := v.p.(*Term)
	if !ok {
		return math.Float64frombits(v.n), true
	}
	for _, x := range xs {
		if w.branch(w.tt.Eq(t, w.tt.F64(x))) {
			return x, true
		}
	}
	return 0, false
}

// fmtFloat formats a float. Of formats that may lose some of it only what
// becomes of the telling floats is known.
func (w *W) fmtFloat(v Value, f byte, prec, bits int) Value {
	if t, ok := v.p.(*Term); ok {
		if bits != 64 || prec > 0 && !(f == 'f' && prec == 3) {
			if x, ok := w.known(v, telling); ok {
				return mkStr(strconv.FormatFloat(x, f, prec, bits))
			}
		}
		if bits != 64 {
			unsup("FormatFloat bit size")
		}
		return holeStr(&Hole{kind: "f64", fmt: f, prec: prec, v: Value{p: t}})
	}
	return mkStr(strconv.FormatFloat(math.Float64frombits(v.n), f, prec, bits))
}

func allCon(a ...Value) bool {
	for _, v := range a {
		switch p := v.p.(type) {
		case nil, string:
		case Slice:
			for i := range p {
				if p[i].p != nil {
					if _, ok := p[i].p.(string); !ok {
						return false
					}
				}
			}
		default:
			_ = p
			return false
		}
	}
	return true
}

func appendStr(w *W, dst Value, s Value) Value {
	d, _ := dst.p.(Slice)
	out := make(Slice, 0, len(d)+8)
	out = append(out, d...)
	out = append(out, strElems(s)...)
	return Value{p: out}
}

func (w *W) strconvErr(fn string, in Value, err error) Value {
	ne := err.(*strconv.NumError)
	which := "ErrSyntax"
	if ne.Err == strconv.ErrRange {
		which = "ErrRange"
	}
	return w.numError(fn, in, which)
}

func (w *W) numError(fn string, in Value, which string) Value {
	g := w.eng.ssaPkgs["strconv"].Var(which)
	e := *w.global(g)
	t := w.eng.typ("strconv", "NumError")
	return Value{p: &Iface{t: types.NewPointer(t), v: newObj(Value{p: Agg{mkStr(fn), in, e}})}}
}

func strSlice(ss []string) Value {
	if ss == nil {
		return Value{}
	}
	out := make(Slice, len(ss))
	for i, s := range ss {
		out[i] = mkStr(s)
	}
	return Value{p: out}
}

func (w *W) indexByte(e []Value, c Value) Value {
	for i := range e {
		if w.branch(w.eq(e[i], c, types.Typ[types.Byte])) {
			return mkInt(int64(i))
		}
	}
	return mkInt(-1)
}

func (w *W) indexStr(h, n []Value) Value {
	for i := 0; i+len(n) <= len(h); i++ {
		if w.branch(w.strEq(elemsToStr(h[i:i+len(n)]), elemsToStr(n))) {
			return mkInt(int64(i))
		}
	}
	return mkInt(-1)
}

func init() {
	ib := func(w *W, a []Value) Value { return w.indexByte(sl(a[0]), a[1]) }
	regS("internal/bytealg.IndexByte", ib)
	regS("internal/bytealg.IndexByteString", func(w *W, a []Value) Value {
		if s, ok := conStr(a[0]); ok && a[1].p == nil {
			return mkInt(int64(strings.IndexByte(s, byte(a[1].n))))
		}
		return ib(w, a)
	})
	lib := func(w *W, a []Value) Value {
		e := sl(a[0])
		for i := len(e) - 1; i >= 0; i-- {
			if w.branch(w.eq(e[i], a[1], types.Typ[types.Byte])) {
				return mkInt(int64(i))
			}
		}
		return mkInt(-1)
	}
	regS("internal/bytealg.LastIndexByte", lib)
	regS("internal/bytealg.LastIndexByteString", lib)
	cnt := func(w *W, a []Value) Value {
		n := 0
		for _, x := range sl(a[0]) {
			if w.branch(w.eq(x, a[1], types.Typ[types.Byte])) {
				n++
			}
		}
		return mkInt(int64(n))
	}
	regS("internal/bytealg.Count", cnt)
	regS("internal/bytealg.CountString", cnt)
	regS("internal/bytealg.Equal", func(w *W, a []Value) Value { return w.bv(w.strEq(elemsToStr(sl(a[0])), elemsToStr(sl(a[1])))) })
	regS("bytes.Equal", func(w *W, a []Value) Value { return w.bv(w.strEq(elemsToStr(sl(a[0])), elemsToStr(sl(a[1])))) })
	cmp := func(w *W, a []Value) Value {
		x, y := elemsToStr(sl(a[0])), elemsToStr(sl(a[1]))
		if w.branch(w.strLess(x, y)) {
			return mkInt(-1)
		}
		if w.branch(w.strEq(x, y)) {
			return mkInt(0)
		}
		return mkInt(1)
	}
	regS("internal/bytealg.Compare", cmp)
	regS("internal/bytealg.CompareString", cmp)
	regS("internal/stringslite.Index", func(w *W, a []Value) Value { return w.indexStr(sl(a[0]), sl(a[1])) })
	regS("strings.Compare", cmp)
	idx := func(w *W, a []Value) Value {
		if s, ok := conStr(a[0]); ok {
			if t, ok := conStr(a[1]); ok {
				return mkInt(int64(strings.Index(s, t)))
			}
		}
		return w.indexStr(sl(a[0]), sl(a[1]))
	}
	regS("strings.Index", idx)
	regS("bytes.Index", idx)
	regS("internal/bytealg.Index", idx)
	regS("internal/bytealg.IndexString", idx)
	regS("internal/bytealg.MakeNoZero", func(w *W, a []Value) Value { return Value{p: make(Slice, int(a[0].n))} })
	regS("internal/bytealg.abigen_runtime_memequal", func(w *W, a []Value) Value { return bodyV })

	// fast paths for concrete strings
	s2 := func(name string, f func(string, string) Value) {
		regS("strings."+name, func(w *W, a []Value) Value {
			x, ok1 := conStr(a[0])
			y, ok2 := conStr(a[1])
			if !ok1 || !ok2 {
				return bodyV
			}
			return f(x, y)
		})
	}
	s2("Split", func(a, b string) Value { return strSlice(strings.Split(a, b)) })
	s2("Contains", func(a, b string) Value { return mkBool(strings.Contains(a, b)) })
	s2("HasPrefix", func(a, b string) Value { return mkBool(strings.HasPrefix(a, b)) })
	s2("HasSuffix", func(a, b string) Value { return mkBool(strings.HasSuffix(a, b)) })
	s2("EqualFold", func(a, b string) Value { return mkBool(strings.EqualFold(a, b)) })
	s2("TrimPrefix", func(a, b string) Value { return mkStr(strings.TrimPrefix(a, b)) })
	s2("TrimSuffix", func(a, b string) Value { return mkStr(strings.TrimSuffix(a, b)) })
	s2("Trim", func(a, b string) Value { return mkStr(strings.Trim(a, b)) })
	s2("ContainsAny", func(a, b string) Value { return mkBool(strings.ContainsAny(a, b)) })
	s1 := func(name string, f func(string) string) {
		regS("strings."+name, func(w *W, a []Value) Value {
			x, ok1 := conStr(a[0])
			if !ok1 {
				return bodyV
			}
			return mkStr(f(x))
		})
	}
	s1("ToLower", strings.ToLower)
	s1("ToUpper", strings.ToUpper)
	s1("TrimSpace", strings.TrimSpace)
	s1("Title", strings.Title)
	s1("Clone", func(s string) string { return s })

	regS("strings.Join", func(w *W, a []Value) Value {
		e := sl(a[0])
		r := mkStr("")
		for i, x := range e {
			if i > 0 {
				r = concatStr(r, a[1])
			}
			r = concatStr(r, x)
		}
		return r
	})

	// unicode/utf8
	regS("unicode/utf8.ValidString", func(w *W, a []Value) Value {
		if s, ok := conStr(a[0]); ok {
			return mkBool(utf8.ValidString(s))
		}
		return bodyV
	})

	// strconv
	regS("strconv.FormatInt", func(w *W, a []Value) Value {
		if a[0].p == nil && a[1].p == nil {
			return mkStr(strconv.FormatInt(int64(a[0].n), int(a[1].n)))
		}
		if w.concInt(a[1], "base") != 10 {
			unsup("FormatInt of a symbolic value in base %d", a[1].n)
		}
		return w.fmtInt(a[0], true)
	})
	regS("strconv.FormatUint", func(w *W, a []Value) Value {
		if a[0].p == nil && a[1].p == nil {
			return mkStr(strconv.FormatUint(a[0].n, int(a[1].n)))
		}
		if w.concInt(a[1], "base") != 10 {
			unsup("FormatUint of a symbolic value in base %d", a[1].n)
		}
		return w.fmtInt(a[0], false)
	})
	regS("strconv.Itoa", func(w *W, a []Value) Value { return w.fmtInt(a[0], true) })
	regS("strconv.AppendInt", func(w *W, a []Value) Value {
		if w.concInt(a[2], "base") != 10 {
			unsup("AppendInt base")
		}
		return appendStr(w, a[0], w.fmtInt(a[1], true))
	})
	regS("strconv.AppendUint", func(w *W, a []Value) Value {
		if w.concInt(a[2], "base") != 10 {
			unsup("AppendUint base")
		}
		return appendStr(w, a[0], w.fmtInt(a[1], false))
	})
	regS("strconv.FormatFloat", func(w *W, a []Value) Value {
		return w.fmtFloat(a[0], byte(a[1].n), int(a[2].n), int(a[3].n))
	})
	regS("strconv.AppendFloat", func(w *W, a []Value) Value {
		return appendStr(w, a[0], w.fmtFloat(a[1], byte(a[2].n), int(a[3].n), int(a[4].n)))
	})
	regS("strconv.FormatBool", func(w *W, a []Value) Value {
		if w.branchV(a[0]) {
			return mkStr("true")
		}
		return mkStr("false")
	})
	regS("strconv.Quote", func(w *W, a []Value) Value {
		if s, ok := conStr(a[0]); ok {
			return mkStr(strconv.Quote(s))
		}
		if q, ok := w.quote(a[0]); ok {
			return q
		}
		return opaque("quote", a[0])
	})
	parseInt := func(w *W, fn string, s Value, base, bits int, unsigned bool) Value {
		if c, ok := conStr(s); ok {
			if unsigned {
				v, err := strconv.ParseUint(c, base, bits)
				if err != nil {
					return tup(Value{n: v}, w.strconvErr(fn, s, err))
				}
				return tup(Value{n: v}, Value{})
			}
			v, err := strconv.ParseInt(c, base, bits)
			if err != nil {
				return tup(mkInt(v), w.strconvErr(fn, s, err))
			}
			return tup(mkInt(v), Value{})
		}
		e := strElems(s)
		if bits == 0 {
			bits = 64
		}
		if !hasHole(e) {
			if base != 10 && base != 0 || len(e) > 18 {
				unsup("%s of symbolic text in base %d or of %d characters", fn, base, len(e))
			}
			d, neg := e, false
			if !unsigned && len(d) > 0 {
				c := w.term(d[0], tiByte)
				if w.branch(w.tt.Eq(c, w.tt.BV('-', 8))) {
					d, neg = d[1:], true
				} else if w.branch(w.tt.Eq(c, w.tt.BV('+', 8))) {
					d = d[1:]
				}
			}
			if base == 0 && len(d) > 1 {
				und := w.tt.False
				for _, x := range d {
					und = w.tt.Or(und, w.tt.Eq(w.term(x, tiByte), w.tt.BV('_', 8)))
				}
				if w.branch(w.tt.Or(w.tt.Eq(w.term(d[0], tiByte), w.tt.BV('0', 8)), und)) {
					unsup("%s of symbolic text in base 0 with a leading zero or underscores", fn)
				}
			}
			ok := w.tt.Bool(len(d) > 0)
			n := w.tt.BV(0, 64)
			for _, x := range d {
				c := w.term(x, tiByte)
				ok = w.tt.And(ok, w.tt.And(w.tt.Bin(OULe, SBool, w.tt.BV('0', 8), c), w.tt.Bin(OULe, SBool, c, w.tt.BV('9', 8))))
				n = w.tt.Bin(OAdd, 64, w.tt.Bin(OMul, 64, n, w.tt.BV(10, 64)), w.tt.ZExt(64, w.tt.Bin(OSub, 8, c, w.tt.BV('0', 8))))
			}
			if !w.branch(ok) {
				return tup(Value{}, w.numError(fn, s, "ErrSyntax"))
			}
			if neg {
				n = w.tt.Bin(OSub, 64, w.tt.BV(0, 64), n)
			}
			ti := tiInt
			if bits < 64 {
				lo, hi := w.tt.BV(uint64(int64(-1)<<uint(bits-1)), 64), w.tt.BV(uint64(1)<<uint(bits-1)-1, 64)
				if unsigned {
					lo, hi = w.tt.BV(0, 64), w.tt.BV(uint64(1)<<uint(bits)-1, 64)
				}
				if !w.branch(w.tt.And(w.tt.Bin(OSLe, SBool, lo, n), w.tt.Bin(OSLe, SBool, n, hi))) {
					return tup(hiLo(neg, lo, hi), w.numError(fn, s, "ErrRange"))
				}
			}
			return tup(w.iv(n, ti), Value{})
		}
		h := soleHole(s)
		if h == nil {
			// decimals next to other text
			unsup("parsing an integer from %d text elements with formatted values", len(e))
		}
		switch h.kind {
		case "int", "uint":
			t := w.term(h.v, tiInt)
			z := w.tt.BV(0, 64)
			neg := w.tt.False
			if h.kind == "int" {
				neg = w.tt.Bin(OSLt, SBool, t, z)
			}
			if unsigned {
				if w.branch(neg) {
					return tup(Value{}, w.numError(fn, s, "ErrSyntax"))
				}
				if bits < 64 && !w.branch(w.tt.Bin(OULe, SBool, t, w.tt.BV(1<<uint(bits)-1, 64))) {
					return tup(Value{n: 1<<uint(bits) - 1}, w.numError(fn, s, "ErrRange"))
				}
				return tup(Value{p: t}, Value{})
			}
			if h.kind == "uint" {
				if !w.branch(w.tt.Bin(OSLe, SBool, z, t)) {
					return tup(mkInt(int64(1<<uint(bits-1)-1)), w.numError(fn, s, "ErrRange"))
				}
			}
			if bits < 64 {
				hi := int64(1)<<uint(bits-1) - 1
				if !w.branch(w.tt.Bin(OSLe, SBool, t, w.tt.BV(uint64(hi), 64))) {
					return tup(mkInt(hi), w.numError(fn, s, "ErrRange"))
				}
				if !w.branch(w.tt.Bin(OSLe, SBool, w.tt.BV(uint64(-hi-1), 64), t)) {
					return tup(mkInt(-hi-1), w.numError(fn, s, "ErrRange"))
				}
			}
			return tup(Value{p: t}, Value{})
		case "f64":
			if h.fmt == 'f' && h.prec > 0 {
				// always contains a decimal point or letters
				return tup(Value{}, w.numError(fn, s, "ErrSyntax"))
			}
		}
		unsup("parsing an integer from %s text", h.kind)
		return Value{}
	}
	regS("strconv.ParseInt", func(w *W, a []Value) Value {
		return parseInt(w, "ParseInt", a[0], int(a[1].n), int(a[2].n), false)
	})
	regS("strconv.ParseUint", func(w *W, a []Value) Value {
		return parseInt(w, "ParseUint", a[0], int(a[1].n), int(a[2].n), true)
	})
	regS("strconv.Atoi", func(w *W, a []Value) Value { return parseInt(w, "Atoi", a[0], 10, 0, false) })
	regS("strconv.ParseFloat", func(w *W, a []Value) Value {
		if c, ok := conStr(a[0]); ok {
			f, err := strconv.ParseFloat(c, int(a[1].n))
			if err != nil {
				return tup(Value{n: math.Float64bits(f)}, w.strconvErr("ParseFloat", a[0], err))
			}
			return tup(Value{n: math.Float64bits(f)}, Value{})
		}
		if e := strElems(a[0]); !hasHole(e) {
			// characters that can be part of a number are told apart
			txt := make([]byte, len(e))
		chars:
			for i, x := range e {
				if x.p == nil {
					txt[i] = byte(x.n)
					continue
				}
				for _, c := range "0123456789+-.eEiInNfFaAtTyYxXpP_" {
					if w.branch(w.tt.Eq(w.term(x, tiByte), w.tt.BV(uint64(c), 8))) {
						txt[i] = byte(c)
						continue chars
					}
				}
				return tup(Value{}, w.numError("ParseFloat", a[0], "ErrSyntax"))
			}
			f, err := strconv.ParseFloat(string(txt), int(a[1].n))
			if err != nil {
				return tup(Value{n: math.Float64bits(f)}, w.strconvErr("ParseFloat", a[0], err))
			}
			return tup(Value{n: math.Float64bits(f)}, Value{})
		}
		v, ok := w.holeFloat(a[0])
		if !ok {
			return tup(Value{}, w.numError("ParseFloat", a[0], "ErrSyntax"))
		}
		return tup(v, Value{})
	})
	regS("strconv.ParseBool", func(w *W, a []Value) Value {
		for _, c := range []string{"1", "t", "T", "true", "TRUE", "True", "0", "f", "F", "false", "FALSE", "False"} {
			if w.branch(w.strEq(a[0], mkStr(c))) {
				b, _ := strconv.ParseBool(c)
				return tup(mkBool(b), Value{})
			}
		}
		return tup(mkBool(false), w.numError("ParseBool", a[0], "ErrSyntax"))
	})

	// fmt
	regS("fmt.Sprintf", func(w *W, a []Value) Value { return w.sprintf(mustStr(a[0], "format"), sl(a[1])) })
	regS("fmt.Errorf", func(w *W, a []Value) Value { return w.errorf(mustStr(a[0], "format"), sl(a[1])) })
	regS("fmt.Sprint", func(w *W, a []Value) Value { return w.sprint(sl(a[0]), false) })
	regS("fmt.Sprintln", func(w *W, a []Value) Value { return w.sprint(sl(a[0]), true) })
	wr := func(w *W, wtr Value, s Value) Value {
		ifc := wtr.p.(*Iface)
		m := w.methodByName(ifc.t, "Write")
		return w.callSync(Value{p: m}, ifc.v, Value{p: append(Slice{}, strElems(s)...)})
	}
	regS("fmt.Fprintf", func(w *W, a []Value) Value { return wr(w, a[0], w.sprintf(mustStr(a[1], "format"), sl(a[2]))) })
	regS("fmt.Fprint", func(w *W, a []Value) Value { return wr(w, a[0], w.sprint(sl(a[1]), false)) })
	regS("fmt.Fprintln", func(w *W, a []Value) Value { return wr(w, a[0], w.sprint(sl(a[1]), true)) })
	np := func(w *W, a []Value) Value { return tup(Value{}, Value{}) }
	regS("fmt.Printf", np)
	regS("fmt.Println", np)
	regS("fmt.Print", np)
	regS("(*fmt.wrapError).Error", func(w *W, a []Value) Value { return w.ptr(a[0]).p.(Agg)[0] })
	regS("(*fmt.wrapError).Unwrap", func(w *W, a []Value) Value { return w.ptr(a[0]).p.(Agg)[1] })

	// sort
	srt := func(w *W, a []Value) Value {
		ifc, ok := a[0].p.(*Iface)
		if !ok {
			return Value{}
		}
		s, _ := ifc.v.p.(Slice)
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				if !w.branchV(w.callSync(a[1], mkInt(int64(j)), mkInt(int64(j-1)))) {
					break
				}
				x, y := copyVal(s[j]), copyVal(s[j-1])
				w.raceWrite(&s[j])
				w.raceWrite(&s[j-1])
				w.store(&s[j], y)
				w.store(&s[j-1], x)
			}
		}
		return Value{}
	}
	regS("sort.Slice", srt)
	regS("sort.SliceStable", srt)
	regS("sort.Strings", func(w *W, a []Value) Value {
		s := sl(a[0])
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				if !w.branch(w.strLess(s[j], s[j-1])) {
					break
				}
				x, y := s[j], s[j-1]
				w.store(&s[j], y)
				w.store(&s[j-1], x)
			}
		}
		return Value{}
	})
	_ = url.QueryEscape
	regURL()
}

func opaque(kind string, v Value) Value { return holeStr(&Hole{kind: kind, v: v}) }

// round3 is what a float written with three decimals reads back as. The solver
// knows of it what is true of every float: it is within half a thousandth (and
// the spacing of floats) of x up to 1e12, and keeps NaN and the infinities.
func (w *W) round3(x *Term) *Term {
	y := w.tt.Un(OR3, SF64, x)
	if y.IsConst() || y == x {
		return y
	}
	small := w.tt.Bin(OFLt, SBool, w.tt.Un(OFAbs, SF64, x), w.tt.F64(1e12))
	near := w.tt.Bin(OFLe, SBool, w.tt.Un(OFAbs, SF64, w.tt.Bin(OFSub, SF64, y, x)), w.tt.F64(0.00063))
	w.addPC(w.tt.Or(w.tt.Not(small), near))
	return y
}

// holeFloat parses text consisting of one formatted value (or integer hole
// followed by digits) as a float.
func (w *W) holeFloat(v Value) (Value, bool) {
	h := soleHole(v)
	if h == nil {
		return w.holeFloatComposite(strElems(v))
	}
	switch h.kind {
	case "f64":
		x := w.term(h.v, tiF64)
		switch {
		case h.prec < 0:
			return w.fromTerm(x, tiF64), true
		case h.prec == 3 && h.fmt == 'f':
			return w.fromTerm(w.round3(x), tiF64), true
		}
		unsup("parsing a float formatted with %%%d%c", h.prec, h.fmt)
	case "int":
		return w.fromTerm(w.tt.Un(OSToF, SF64, w.term(h.v, tiInt)), tiF64), true
	case "uint":
		return w.fromTerm(w.tt.Un(OUToF, SF64, w.term(h.v, tiInt)), tiF64), true
	}
	unsup("parsing a float from %s text", h.kind)
	return Value{}, false
}

func (w *W) holeFloatComposite(e []Value) (Value, bool) {
	unsup("parsing a float from %d text elements with formatted values", len(e))
	return Value{}, false
}

func hiLo(neg bool, lo, hi *Term) Value {
	if neg {
		return Value{n: lo.C}
	}
	return Value{n: hi.C}
}

// ---- fmt ----

func (w *W) conTime(v Value) (time.Time, bool) {
	a := v.p.(Agg)
	if a[1].p != nil {
		return time.Time{}, false
	}
	if a[0].n == 0 {
		return time.Time{}.Add(time.Duration(a[1].n)), true
	}
	return time.Unix(0, int64(a[1].n)).UTC(), true
}

func (w *W) fmtTime(v Value) Value {
	if t, ok := w.conTime(v); ok {
		return mkStr(t.String())
	}
	return opaque("time", v)
}

func (w *W) errorf(format string, args []Value) Value {
	s := w.sprintf(strings.ReplaceAll(format, "%w", "%v"), args)
	var wrapped []Value
	// positions of %w
	n := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && strings.IndexByte("+-# 0123456789.[]*", format[i]) >= 0 {
			i++
		}
		if i >= len(format) {
			break
		}
		if format[i] == '%' {
			continue
		}
		if format[i] == 'w' && n < len(args) {
			wrapped = append(wrapped, args[n])
		}
		n++
	}
	if len(wrapped) == 1 {
		ifc, ok := wrapped[0].p.(*Iface)
		if ok && w.methodByName(ifc.t, "Error") != nil {
			t := w.eng.typ("fmt", "wrapError")
			return Value{p: &Iface{t: types.NewPointer(t), v: newObj(Value{p: Agg{s, wrapped[0]}})}}
		}
	}
	if len(wrapped) > 1 {
		unsup("fmt.Errorf with several %%w")
	}
	return w.mkErr(s)
}

func (w *W) sprint(args []Value, ln bool) Value {
	r := mkStr("")
	prevString := false
	for i, a := range args {
		isStr := false
		if ifc, ok := a.p.(*Iface); ok {
			isStr = typeInfo(ifc.t).k == KString
		}
		if i > 0 && (ln || (!isStr && !prevString)) {
			r = concatStr(r, mkStr(" "))
		}
		r = concatStr(r, w.fmtValue("%v", 'v', a, 0))
		prevString = isStr
	}
	if ln {
		r = concatStr(r, mkStr("\n"))
	}
	return r
}

func (w *W) sprintf(format string, args []Value) Value {
	var out []Value
	lit := func(s string) { out = append(out, strElems(mkStr(s))...) }
	n := 0
	for i := 0; i < len(format); {
		if format[i] != '%' {
			j := strings.IndexByte(format[i:], '%')
			if j < 0 {
				j = len(format) - i
			}
			lit(format[i : i+j])
			i += j
			continue
		}
		j := i + 1
		for j < len(format) && strings.IndexByte("+-# 0123456789.", format[j]) >= 0 {
			j++
		}
		if j >= len(format) {
			lit("%!(NOVERB)")
			break
		}
		verb := format[j]
		spec := format[i : j+1]
		i = j + 1
		if verb == '%' {
			lit("%")
			continue
		}
		if verb == '[' || verb == '*' || verb >= 0x80 {
			unsup("format %q", format)
		}
		if n >= len(args) {
			lit("%!" + string(verb) + "(MISSING)")
			continue
		}
		a := args[n]
		n++
		out = append(out, strElems(w.fmtValue(spec, verb, a, 0))...)
	}
	if n < len(args) {
		lit("%!(EXTRA ")
		for k := n; k < len(args); k++ {
			if k > n {
				lit(", ")
			}
			lit(w.eng.tname(args[k]) + "=")
			out = append(out, strElems(w.fmtValue("%v", 'v', args[k], 0))...)
		}
		lit(")")
	}
	return elemsToStr(out)
}

func (e *Engine) tname(v Value) string {
	if i, ok := v.p.(*Iface); ok {
		return types.TypeString(i.t, func(p *types.Package) string { return p.Name() })
	}
	return "<nil>"
}

func (w *W) fmtValue(spec string, verb byte, a Value, depth int) Value {
	ifc, ok := a.p.(*Iface)
	if !ok {
		if po, isP := a.p.(*Poison); isP {
			unsup("format poison %s", po.why)
		}
		switch verb {
		case 'v', 's':
			if verb == 's' {
				return mkStr("%!s(<nil>)")
			}
			return mkStr("<nil>")
		case 'T':
			return mkStr("<nil>")
		}
		return mkStr("%!" + string(verb) + "(<nil>)")
	}
	if verb == 'T' {
		return mkStr(w.eng.tname(a))
	}
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'x' || verb == 'X' {
		if !strings.Contains(spec, "#") {
			for _, mn := range []string{"Error", "String"} {
				m := w.methodByName(ifc.t, mn)
				if m != nil && m.Signature.Params().Len() == 0 && m.Signature.Results().Len() == 1 && typeInfo(m.Signature.Results().At(0).Type()).k == KString {
					if ifc.v.p == nil && typeInfo(ifc.t).k == KPtr {
						return mkStr("<nil>")
					}
					s := w.callSync(Value{p: m}, ifc.v)
					return w.fmtStr(spec, verb, s)
				}
			}
		}
	}
	return w.fmtPlain(spec, verb, ifc.t, ifc.v, depth)
}

// quote runs strconv's quoting on symbolic text, where that is asked for.
func (w *W) quote(s Value) (Value, bool) {
	p := w.eng.ssaPkgs["strconv"]
	if !w.eng.quoteSym || p == nil || p.Func("quoteWith") == nil {
		return Value{}, false
	}
	return w.callSync(Value{p: p.Func("quoteWith")}, s, Value{n: '"'}, Value{}, Value{}), true
}

func (w *W) fmtStr(spec string, verb byte, s Value) Value {
	if c, ok := conStr(s); ok {
		return mkStr(fmt.Sprintf(spec, c))
	}
	if (verb == 's' || verb == 'v') && len(spec) == 2 {
		return s
	}
	if verb == 'q' && len(spec) == 2 {
		if q, ok := w.quote(s); ok {
			return q
		}
	}
	return opaque("fmt", s)
}

func (w *W) fmtPlain(spec string, verb byte, t types.Type, v Value, depth int) Value {
	ti := typeInfo(t)
	if po, isP := v.p.(*Poison); isP {
		unsup("format poison %s", po.why)
	}
	switch ti.k {
	case KBool:
		if tm, ok := v.p.(*Term); ok {
			return mkStr(fmt.Sprintf(spec, w.branch(tm)))
		}
		return mkStr(fmt.Sprintf(spec, v.n != 0))
	case KInt:
		if v.p == nil {
			if ti.signed {
				if ti.w == 32 {
					return mkStr(fmt.Sprintf(spec, int32(v.n)))
				}
				return mkStr(fmt.Sprintf(spec, int64(v.n)))
			}
			if ti.w == 8 {
				return mkStr(fmt.Sprintf(spec, uint8(v.n)))
			}
			return mkStr(fmt.Sprintf(spec, v.n))
		}
		if len(spec) == 2 && (verb == 'd' || verb == 'v') {
			return w.fmtInt(v, ti.signed)
		}
		return opaque("fmt", v)
	case KF64:
		if v.p == nil {
			return mkStr(fmt.Sprintf(spec, math.Float64frombits(v.n)))
		}
		switch {
		case spec == "%v" || spec == "%g":
			// %v uses %g with the shortest representation, exponent form at 21
			return holeStr(&Hole{kind: "f64", fmt: 'g', prec: -1, v: v})
		case verb == 'f':
			prec := 6
			if i := strings.IndexByte(spec, '.'); i >= 0 {
				prec, _ = strconv.Atoi(spec[i+1 : len(spec)-1])
				if i != 1 {
					return opaque("fmt", v)
				}
			} else if len(spec) != 2 {
				return opaque("fmt", v)
			}
			return w.fmtFloat(v, 'f', prec, 64)
		}
		if x, ok := w.known(v, telling); ok {
			return mkStr(fmt.Sprintf(spec, x))
		}
		return opaque("fmt", v)
	case KF32:
		return mkStr(fmt.Sprintf(spec, math.Float32frombits(uint32(v.n))))
	case KString:
		return w.fmtStr(spec, verb, v)
	case KSlice, KArray:
		var et types.Type
		var e []Value
		if st, ok := t.Underlying().(*types.Slice); ok {
			et = st.Elem()
			e, _ = v.p.(Slice)
		} else {
			et = t.Underlying().(*types.Array).Elem()
			e, _ = v.p.(Agg)
		}
		if eb := typeInfo(et); eb.k == KInt && eb.w == 8 && !eb.signed && (verb == 's' || verb == 'q' || verb == 'x') {
			return w.fmtStr(spec, verb, elemsToStr(e))
		}
		r := mkStr("[")
		for i := range e {
			if i > 0 {
				r = concatStr(r, mkStr(" "))
			}
			r = concatStr(r, w.fmtElem(spec, verb, et, e[i], depth+1))
		}
		return concatStr(r, mkStr("]"))
	case KMap:
		m, _ := v.p.(*MapV)
		mt := t.Underlying().(*types.Map)
		r := mkStr("map[")
		if m != nil {
			for i, e := range w.mapSorted(m) {
				if i > 0 {
					r = concatStr(r, mkStr(" "))
				}
				r = concatStr(r, w.fmtElem(spec, verb, mt.Key(), e.k, depth+1))
				r = concatStr(r, mkStr(":"))
				r = concatStr(r, w.fmtElem(spec, verb, mt.Elem(), e.v, depth+1))
			}
		}
		return concatStr(r, mkStr("]"))
	case KStruct:
		st := t.Underlying().(*types.Struct)
		a := v.p.(Agg)
		r := mkStr("{")
		for i := range a {
			if i > 0 {
				r = concatStr(r, mkStr(" "))
			}
			if strings.Contains(spec, "+") {
				r = concatStr(r, mkStr(st.Field(i).Name()+":"))
			}
			r = concatStr(r, w.fmtElem(spec, verb, st.Field(i).Type(), a[i], depth+1))
		}
		return concatStr(r, mkStr("}"))
	case KPtr:
		if v.p == nil {
			return mkStr("<nil>")
		}
		if pt, ok := t.Underlying().(*types.Pointer); ok && depth == 0 {
			if k := typeInfo(pt.Elem()).k; k == KStruct || k == KSlice || k == KMap || k == KArray {
				return concatStr(mkStr("&"), w.fmtPlain(spec, verb, pt.Elem(), *w.ptr(v), depth+1))
			}
		}
		return opaque("ptr", v)
	case KIface:
		return w.fmtValue(spec, verb, v, depth)
	}
	return opaque("fmt", v)
}

func (w *W) fmtElem(spec string, verb byte, t types.Type, v Value, depth int) Value {
	if typeInfo(t).k == KIface {
		if v.p == nil {
			return mkStr("<nil>")
		}
		return w.fmtValue(spec, verb, v, depth)
	}
	return w.fmtValue(spec, verb, Value{p: &Iface{t: t, v: v}}, depth)
}

// ---- net/url: text with formatted values ----

func regURL() {
	regS("net/url.escape", func(w *W, a []Value) Value {
		e := strElems(a[0])
		if s, ok := conStr(a[0]); ok {
			_ = s
			return bodyV
		}
		if !hasHole(e) {
			return bodyV
		}
		var out []Value
		for i := range e {
			if h, ok := e[i].p.(*Hole); ok {
				switch h.kind {
				case "int", "uint":
				case "f64":
					if h.fmt != 'f' || h.prec < 0 {
						unsup("escaping a float")
					}
					x := w.term(h.v, tiF64)
					if w.branch(w.tt.Or(w.tt.Un(OFIsInf, SBool, x), w.tt.False)) {
						unsup("escaping an infinite float")
					}
				default:
					unsup("escaping %s text", h.kind)
				}
				out = append(out, e[i])
				continue
			}
			f := w.eng.findFunc("net/url", "escape")
			r := w.callSync(Value{p: f}, elemsToStr(e[i:i+1]), a[1])
			out = append(out, strElems(r)...)
		}
		return elemsToStr(out)
	})
	regS("net/url.unescape", func(w *W, a []Value) Value {
		e := strElems(a[0])
		if !hasHole(e) {
			return bodyV
		}
		// unescape the runs between formatted values
		var out []Value
		f := w.eng.findFunc("net/url", "unescape")
		for i := 0; i < len(e); {
			if _, ok := e[i].p.(*Hole); ok {
				out = append(out, e[i])
				i++
				continue
			}
			j := i
			for j < len(e) {
				if _, ok := e[j].p.(*Hole); ok {
					break
				}
				j++
			}
			r := w.callSync(Value{p: f}, elemsToStr(e[i:j]), a[1])
			t := r.p.(Tuple)
			if t[1].p != nil {
				return r
			}
			out = append(out, strElems(t[0])...)
			i = j
		}
		return tup(elemsToStr(out), Value{})
	})
}
