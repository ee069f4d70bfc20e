package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// term converts a scalar value to a term of the sort of ti.
func (w *W) term(v Value, ti tinfo) *Term {
	if t, ok := v.p.(*Term); ok {
		return t
	}
	w.noPoison(v)
	switch ti.k {
	case KBool:
		return w.tt.Bool(v.n != 0)
	case KInt:
		return w.tt.BV(v.n, ti.w)
	case KF64:
		return w.tt.mk(OConst, SF64, v.n, "")
	}
	unsup("term of kind %d", ti.k)
	return nil
}

// bv wraps a Bool term.
func (w *W) bv(t *Term) Value {
	if t.Op == OConst {
		return Value{n: t.C}
	}
	return Value{p: t}
}

// iv wraps an int term.
func (w *W) iv(t *Term, ti tinfo) Value {
	if t.Op == OConst {
		return Value{n: normInt(t.C, ti)}
	}
	return Value{p: t}
}

func (w *W) fromTerm(t *Term, ti tinfo) Value {
	if t.Op == OConst {
		if ti.k == KInt {
			return Value{n: normInt(t.C, ti)}
		}
		return Value{n: t.C}
	}
	return Value{p: t}
}

// boolTerm gives the condition v as a term.
func (w *W) boolTerm(v Value) *Term { return w.term(v, tinfo{k: KBool}) }

func (w *W) concInt(v Value, what string) int64 {
	if t, ok := v.p.(*Term); ok {
		return sext(w.concretize(t, what), t.S)
	}
	w.noPoison(v)
	return int64(v.n)
}

func (w *W) binop(op token.Token, x, y Value, xt, yt, rt tinfo, T types.Type) Value {
	switch op {
	case token.EQL:
		return w.bv(w.eq(x, y, T))
	case token.NEQ:
		return w.bv(w.tt.Not(w.eq(x, y, T)))
	}
	switch xt.k {
	case KInt:
		_, sx := x.p.(*Term)
		_, sy := y.p.(*Term)
		if !sx && !sy {
			w.noPoison(x)
			w.noPoison(y)
			return w.intOp(op, x.n, y.n, xt, yt)
		}
		// hole bytes
		if h, ok := x.p.(*Hole); ok {
			return w.holeCmp(op, h, y, false)
		}
		if h, ok := y.p.(*Hole); ok {
			return w.holeCmp(op, h, x, true)
		}
		a := w.term(x, xt)
		if op == token.SHL || op == token.SHR {
			b := w.term(y, yt)
			if yt.signed {
				if !w.branch(w.tt.Bin(OSLe, SBool, w.tt.BV(0, b.S), b)) {
					panic(w.rtPanic("runtime error: negative shift amount"))
				}
			}
			// bring the shift count to the width of a, saturating
			if b.S > a.S {
				big := w.tt.Bin(OULe, SBool, w.tt.BV(uint64(a.S), b.S), b)
				b = w.tt.Ite(big, w.tt.BV(uint64(a.S), a.S), w.tt.Extract(int(a.S)-1, 0, b))
			} else {
				b = w.tt.ZExt(a.S, b)
			}
			switch {
			case op == token.SHL:
				return w.iv(w.tt.Bin(OShl, a.S, a, b), xt)
			case xt.signed:
				return w.iv(w.tt.Bin(OAShr, a.S, a, b), xt)
			}
			return w.iv(w.tt.Bin(OLShr, a.S, a, b), xt)
		}
		b := w.term(y, xt)
		cmp := func(s, u Op, p, q *Term) Value {
			if xt.signed {
				return w.bv(w.tt.Bin(s, SBool, p, q))
			}
			return w.bv(w.tt.Bin(u, SBool, p, q))
		}
		arith := func(o Op) Value { return w.iv(w.tt.Bin(o, a.S, a, b), xt) }
		switch op {
		case token.ADD:
			return arith(OAdd)
		case token.SUB:
			return arith(OSub)
		case token.MUL:
			return arith(OMul)
		case token.QUO, token.REM:
			if !w.branch(w.tt.Not(w.tt.Eq(b, w.tt.BV(0, b.S)))) {
				panic(w.rtPanic("runtime error: integer divide by zero"))
			}
			switch {
			case op == token.QUO && xt.signed:
				return arith(OSDiv)
			case op == token.QUO:
				return arith(OUDiv)
			case xt.signed:
				return arith(OSRem)
			}
			return arith(OURem)
		case token.AND:
			return arith(OBAnd)
		case token.OR:
			return arith(OBOr)
		case token.XOR:
			return arith(OBXor)
		case token.AND_NOT:
			return w.iv(w.tt.Bin(OBAnd, a.S, a, w.tt.Un(OBNot, a.S, b)), xt)
		case token.LSS:
			return cmp(OSLt, OULt, a, b)
		case token.LEQ:
			return cmp(OSLe, OULe, a, b)
		case token.GTR:
			return cmp(OSLt, OULt, b, a)
		case token.GEQ:
			return cmp(OSLe, OULe, b, a)
		}
	case KF64:
		_, sx := x.p.(*Term)
		_, sy := y.p.(*Term)
		if !sx && !sy {
			w.noPoison(x)
			w.noPoison(y)
			a, b := math.Float64frombits(x.n), math.Float64frombits(y.n)
			switch op {
			case token.ADD:
				return Value{n: math.Float64bits(a + b)}
			case token.SUB:
				return Value{n: math.Float64bits(a - b)}
			case token.MUL:
				return Value{n: math.Float64bits(a * b)}
			case token.QUO:
				return Value{n: math.Float64bits(a / b)}
			case token.LSS:
				return mkBool(a < b)
			case token.LEQ:
				return mkBool(a <= b)
			case token.GTR:
				return mkBool(a > b)
			case token.GEQ:
				return mkBool(a >= b)
			}
		}
		a, b := w.term(x, xt), w.term(y, xt)
		switch op {
		case token.ADD:
			return w.fromTerm(w.tt.Bin(OFAdd, SF64, a, b), xt)
		case token.SUB:
			return w.fromTerm(w.tt.Bin(OFSub, SF64, a, b), xt)
		case token.MUL:
			return w.fromTerm(w.tt.Bin(OFMul, SF64, a, b), xt)
		case token.QUO:
			return w.fromTerm(w.tt.Bin(OFDiv, SF64, a, b), xt)
		case token.LSS:
			return w.bv(w.tt.Bin(OFLt, SBool, a, b))
		case token.LEQ:
			return w.bv(w.tt.Bin(OFLe, SBool, a, b))
		case token.GTR:
			return w.bv(w.tt.Bin(OFLt, SBool, b, a))
		case token.GEQ:
			return w.bv(w.tt.Bin(OFLe, SBool, b, a))
		}
	case KF32:
		a, b := math.Float32frombits(uint32(x.n)), math.Float32frombits(uint32(y.n))
		if x.p != nil || y.p != nil {
			unsup("symbolic float32")
		}
		switch op {
		case token.ADD:
			return Value{n: uint64(math.Float32bits(a + b))}
		case token.SUB:
			return Value{n: uint64(math.Float32bits(a - b))}
		case token.MUL:
			return Value{n: uint64(math.Float32bits(a * b))}
		case token.QUO:
			return Value{n: uint64(math.Float32bits(a / b))}
		case token.LSS:
			return mkBool(a < b)
		case token.LEQ:
			return mkBool(a <= b)
		case token.GTR:
			return mkBool(a > b)
		case token.GEQ:
			return mkBool(a >= b)
		}
	case KString:
		switch op {
		case token.ADD:
			return concatStr(x, y)
		case token.LSS:
			return w.bv(w.strLess(x, y))
		case token.GTR:
			return w.bv(w.strLess(y, x))
		case token.LEQ:
			return w.bv(w.tt.Not(w.strLess(y, x)))
		case token.GEQ:
			return w.bv(w.tt.Not(w.strLess(x, y)))
		}
	case KBool:
		a, b := w.term(x, xt), w.term(y, xt)
		switch op {
		case token.AND, token.LAND:
			return w.bv(w.tt.And(a, b))
		case token.OR, token.LOR:
			return w.bv(w.tt.Or(a, b))
		}
	case KComplex:
		a, b := x.p.(complex128), y.p.(complex128)
		switch op {
		case token.ADD:
			return Value{p: a + b}
		case token.SUB:
			return Value{p: a - b}
		case token.MUL:
			return Value{p: a * b}
		}
	}
	unsup("binop %s on kind %d", op, xt.k)
	return Value{}
}

func (w *W) intOp(op token.Token, a, b uint64, xt, yt tinfo) Value {
	norm := func(n uint64) Value { return Value{n: normInt(n, xt)} }
	switch op {
	case token.ADD:
		return norm(a + b)
	case token.SUB:
		return norm(a - b)
	case token.MUL:
		return norm(a * b)
	case token.QUO:
		if b == 0 {
			panic(w.rtPanic("runtime error: integer divide by zero"))
		}
		if xt.signed {
			if int64(b) == -1 {
				return norm(-a)
			}
			return norm(uint64(int64(a) / int64(b)))
		}
		return norm(a / b)
	case token.REM:
		if b == 0 {
			panic(w.rtPanic("runtime error: integer divide by zero"))
		}
		if xt.signed {
			if int64(b) == -1 {
				return Value{}
			}
			return norm(uint64(int64(a) % int64(b)))
		}
		return norm(a % b)
	case token.AND:
		return norm(a & b)
	case token.OR:
		return norm(a | b)
	case token.XOR:
		return norm(a ^ b)
	case token.AND_NOT:
		return norm(a &^ b)
	case token.SHL, token.SHR:
		if yt.signed && int64(b) < 0 {
			panic(w.rtPanic("runtime error: negative shift amount"))
		}
		if op == token.SHL {
			if b >= 64 {
				return Value{}
			}
			return norm(a << b)
		}
		if xt.signed {
			if b > 63 {
				b = 63
			}
			return norm(uint64(int64(a) >> b))
		}
		if b >= 64 {
			return Value{}
		}
		return norm(a >> b)
	}
	var r bool
	if xt.signed {
		x, y := int64(a), int64(b)
		switch op {
		case token.LSS:
			r = x < y
		case token.LEQ:
			r = x <= y
		case token.GTR:
			r = x > y
		case token.GEQ:
			r = x >= y
		default:
			unsup("intop %s", op)
		}
	} else {
		switch op {
		case token.LSS:
			r = a < b
		case token.LEQ:
			r = a <= b
		case token.GTR:
			r = a > b
		case token.GEQ:
			r = a >= b
		default:
			unsup("intop %s", op)
		}
	}
	return mkBool(r)
}

// charset of a hole: which bytes it can contain
func (h *Hole) chars() string {
	switch h.kind {
	case "int":
		return "-0123456789"
	case "uint":
		return "0123456789"
	case "f64":
		return "+-.0123456789aefInN"
	case "b64":
		return "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=-_"
	}
	return ""
}

func (w *W) holeCmp(op token.Token, h *Hole, y Value, flip bool) Value {
	cs := h.chars()
	if cs == "" || y.p != nil {
		unsup("comparison of a formatted symbolic value (%s) byte", h.kind)
	}
	res := -1
	for i := 0; i < len(cs); i++ {
		a, b := uint64(cs[i]), y.n
		if flip {
			a, b = b, a
		}
		r := int(w.intOp2(op, a, b))
		if res == -1 {
			res = r
		} else if res != r {
			unsup("indeterminate comparison of a formatted symbolic value (%s) byte", h.kind)
		}
	}
	return Value{n: uint64(res)}
}

func (w *W) intOp2(op token.Token, a, b uint64) uint64 {
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return w.intOp(op, a, b, tinfo{KInt, 8, false}, tinfo{KInt, 8, false}).n
	}
	unsup("arithmetic on a formatted symbolic value byte")
	return 0
}

// eq builds the condition x == y for values of type T.
func (w *W) eq(x, y Value, T types.Type) *Term {
	if px, ok := x.p.(*Poison); ok {
		unsup("compare poison %s", px.why)
	}
	if px, ok := y.p.(*Poison); ok {
		unsup("compare poison %s", px.why)
	}
	ti := typeInfo(T)
	switch ti.k {
	case KBool:
		return w.tt.Eq(w.term(x, ti), w.term(y, ti))
	case KInt:
		if h, ok := x.p.(*Hole); ok {
			return w.holeByteEq(h, y)
		}
		if h, ok := y.p.(*Hole); ok {
			return w.holeByteEq(h, x)
		}
		if x.p == nil && y.p == nil {
			return w.tt.Bool(x.n == y.n)
		}
		return w.tt.Eq(w.term(x, ti), w.term(y, ti))
	case KF64:
		if x.p == nil && y.p == nil {
			return w.tt.Bool(math.Float64frombits(x.n) == math.Float64frombits(y.n))
		}
		return w.tt.Bin(OFEq, SBool, w.term(x, ti), w.term(y, ti))
	case KF32:
		return w.tt.Bool(math.Float32frombits(uint32(x.n)) == math.Float32frombits(uint32(y.n)))
	case KString:
		return w.strEq(x, y)
	case KIface:
		ix, ok1 := x.p.(*Iface)
		iy, ok2 := y.p.(*Iface)
		if !ok1 || !ok2 {
			return w.tt.Bool(!ok1 && !ok2)
		}
		if !w.identical(ix.t, iy.t) {
			return w.tt.False
		}
		if !types.Comparable(ix.t) {
			panic(w.rtPanic("runtime error: comparing uncomparable type " + ix.t.String()))
		}
		return w.eq(ix.v, iy.v, ix.t)
	case KStruct:
		st := T.Underlying().(*types.Struct)
		r := w.tt.True
		ax, ay := x.p.(Agg), y.p.(Agg)
		for i := range ax {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = w.tt.And(r, w.eq(ax[i], ay[i], st.Field(i).Type()))
			if r == w.tt.False {
				return r
			}
		}
		return r
	case KArray:
		at := T.Underlying().(*types.Array)
		r := w.tt.True
		ax, ay := x.p.(Agg), y.p.(Agg)
		for i := range ax {
			r = w.tt.And(r, w.eq(ax[i], ay[i], at.Elem()))
		}
		return r
	case KPtr:
		return w.tt.Bool(samePtr(x, y))
	case KChan, KMap:
		if x.p == nil || y.p == nil {
			return w.tt.Bool(x.p == nil && y.p == nil)
		}
		return w.tt.Bool(x.p == y.p)
	case KSlice, KFunc:
		// only comparison with nil
		return w.tt.Bool(x.p == nil && y.p == nil)
	case KComplex:
		return w.tt.Bool(x.p == y.p)
	}
	unsup("eq on %s", T)
	return nil
}

func samePtr(x, y Value) bool {
	a, ok1 := x.p.(*Value)
	b, ok2 := y.p.(*Value)
	if ok1 && ok2 {
		return a == b
	}
	if x.p == nil || y.p == nil {
		return x.p == nil && y.p == nil && x.n == y.n
	}
	return x.p == y.p
}

func (w *W) holeByteEq(h *Hole, y Value) *Term {
	if h2, ok := y.p.(*Hole); ok {
		if h == h2 {
			return w.tt.True
		}
		unsup("comparison of formatted bytes")
	}
	cs := h.chars()
	if y.p == nil && cs != "" {
		for i := 0; i < len(cs); i++ {
			if uint64(cs[i]) == y.n {
				unsup("indeterminate comparison of a formatted symbolic value (%s) byte with %q", h.kind, rune(y.n))
			}
		}
		return w.tt.False
	}
	unsup("comparison of a formatted symbolic value (%s) byte", h.kind)
	return nil
}

var tiByte = tinfo{KInt, 8, false}
var tiInt = tinfo{KInt, 64, true}
var tiBool = tinfo{k: KBool}
var tiF64 = tinfo{KF64, SF64, false}

func hasHole(e []Value) bool {
	for i := range e {
		if _, ok := e[i].p.(*Hole); ok {
			return true
		}
	}
	return false
}

func (w *W) strEq(x, y Value) *Term {
	if a, ok := x.p.(string); ok {
		if b, ok := y.p.(string); ok {
			return w.tt.Bool(a == b)
		}
	}
	ex, ey := strElems(x), strElems(y)
	if !hasHole(ex) && !hasHole(ey) {
		if len(ex) != len(ey) {
			return w.tt.False
		}
		r := w.tt.True
		for i := range ex {
			if ex[i].p == nil && ey[i].p == nil {
				if ex[i].n != ey[i].n {
					return w.tt.False
				}
				continue
			}
			r = w.tt.And(r, w.tt.Eq(w.term(ex[i], tiByte), w.term(ey[i], tiByte)))
		}
		return r
	}
	if len(ex) == 0 || len(ey) == 0 {
		return w.tt.Bool(len(ex) == len(ey)) // holes are never empty
	}
	return w.holeStrEq(ex, ey)
}

// holeStrEq compares strings with holes by aligning them.
func (w *W) holeStrEq(a, b []Value) *Term {
	r := w.tt.True
	for len(a) > 0 && len(b) > 0 {
		ha, okA := a[0].p.(*Hole)
		hb, okB := b[0].p.(*Hole)
		switch {
		case !okA && !okB:
			r = w.tt.And(r, w.eq(a[0], b[0], types.Typ[types.Byte]))
			a, b = a[1:], b[1:]
		case okA && okB:
			if ha == hb {
				a, b = a[1:], b[1:]
				continue
			}
			c := w.holeEq(ha, hb)
			r = w.tt.And(r, c)
			a, b = a[1:], b[1:]
		default:
			if okB {
				a, b = b, a
				ha = hb
			}
			// hole against concrete text: take the maximal run of its charset
			cs := ha.chars()
			if cs == "" {
				unsup("comparison of %s text", ha.kind)
			}
			n := 0
			txt := ""
			for n < len(b) && b[n].p == nil && indexByte(cs, byte(b[n].n)) {
				txt += string(rune(b[n].n))
				n++
			}
			if n < len(b) && b[n].p != nil {
				unsup("comparison of formatted text with symbolic text")
			}
			if n == 0 {
				return w.tt.False
			}
			c := w.holeIs(ha, txt)
			r = w.tt.And(r, c)
			a, b = a[1:], b[n:]
		}
		if r == w.tt.False {
			return r
		}
	}
	if len(a) != len(b) {
		return w.tt.False
	}
	return r
}

func indexByte(s string, c byte) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return true
		}
	}
	return false
}

func (w *W) strLess(x, y Value) *Term {
	if a, ok := conStr(x); ok {
		if b, ok := conStr(y); ok {
			return w.tt.Bool(a < b)
		}
	}
	ex, ey := strElems(x), strElems(y)
	n := len(ex)
	if len(ey) < n {
		n = len(ey)
	}
	r := w.tt.Bool(len(ex) < len(ey))
	for i := n - 1; i >= 0; i-- {
		if hasHole(ex[i:i+1]) || hasHole(ey[i:i+1]) {
			unsup("ordering of formatted symbolic text")
		}
		a, b := w.term(ex[i], tiByte), w.term(ey[i], tiByte)
		r = w.tt.Or(w.tt.Bin(OULt, SBool, a, b), w.tt.And(w.tt.Eq(a, b), r))
	}
	return r
}

func (w *W) convert(x Value, from, to types.Type, ft, tt tinfo) Value {
	if po, ok := x.p.(*Poison); ok {
		unsup("convert poison %s", po.why)
	}
	switch {
	case ft.k == KInt && tt.k == KInt:
		if t, ok := x.p.(*Term); ok {
			switch {
			case tt.w < t.S:
				return w.iv(w.tt.Extract(int(tt.w)-1, 0, t), tt)
			case tt.w > t.S:
				if ft.signed {
					return w.iv(w.tt.SExt(tt.w, t), tt)
				}
				return w.iv(w.tt.ZExt(tt.w, t), tt)
			}
			return x
		}
		if h, ok := x.p.(*Hole); ok {
			_ = h
			return x
		}
		if p, ok := x.p.(*Value); ok { // uintptr from pointer
			return Value{p: p}
		}
		return Value{n: normInt(x.n, tt)}
	case ft.k == KInt && tt.k == KF64:
		if t, ok := x.p.(*Term); ok {
			if ft.signed {
				return w.fromTerm(w.tt.Un(OSToF, SF64, t), tt)
			}
			return w.fromTerm(w.tt.Un(OUToF, SF64, t), tt)
		}
		w.noPoison(x)
		if ft.signed {
			return Value{n: math.Float64bits(float64(int64(x.n)))}
		}
		return Value{n: math.Float64bits(float64(x.n))}
	case ft.k == KF64 && tt.k == KInt:
		if t, ok := x.p.(*Term); ok {
			if tt.signed {
				r := w.tt.Un(OFToS, 64, t)
				if tt.w < 64 {
					r = w.tt.Extract(int(tt.w)-1, 0, r)
				}
				return w.iv(r, tt)
			}
			return w.iv(w.tt.Un(OFToU, tt.w, t), tt)
		}
		f := math.Float64frombits(x.n)
		if tt.signed {
			return Value{n: normInt(uint64(f2i(f)), tt)}
		}
		return Value{n: normInt(uint64(f), tt)}
	case ft.k == KF64 && tt.k == KF64:
		return x
	case ft.k == KF64 && tt.k == KF32:
		if x.p != nil {
			unsup("symbolic float32 conversion")
		}
		return Value{n: uint64(math.Float32bits(float32(math.Float64frombits(x.n))))}
	case ft.k == KF32 && tt.k == KF64:
		return Value{n: math.Float64bits(float64(math.Float32frombits(uint32(x.n))))}
	case ft.k == KF32 && tt.k == KF32:
		return x
	case ft.k == KInt && tt.k == KF32:
		if ft.signed {
			return Value{n: uint64(math.Float32bits(float32(int64(x.n))))}
		}
		return Value{n: uint64(math.Float32bits(float32(x.n)))}
	case ft.k == KF32 && tt.k == KInt:
		return Value{n: normInt(uint64(int64(math.Float32frombits(uint32(x.n)))), tt)}
	case tt.k == KString:
		switch ft.k {
		case KString:
			return x
		case KInt:
			if t, ok := x.p.(*Term); ok {
				ascii := w.tt.Bin(OULt, SBool, t, w.tt.BV(0x80, t.S))
				if w.branch(ascii) {
					return Value{p: &SymStr{[]Value{w.iv(w.tt.Extract(7, 0, t), tiByte)}}}
				}
				return mkStr(string(rune(sext(w.concretize(t, "rune to string"), t.S))))
			}
			return mkStr(string(rune(int64(x.n))))
		case KSlice:
			el := from.Underlying().(*types.Slice).Elem()
			if typeInfo(el).w == 8 {
				if x.p == nil {
					return mkStr("")
				}
				return elemsToStr(x.p.(Slice))
			}
			s, _ := x.p.(Slice)
			var e []Value
			for _, r := range s {
				e = append(e, strElems(w.convert(r, types.Typ[types.Int32], to, tinfo{KInt, 32, true}, tt))...)
			}
			return elemsToStr(e)
		}
	case ft.k == KString && tt.k == KSlice:
		el := to.Underlying().(*types.Slice).Elem()
		if typeInfo(el).w == 8 {
			src := strElems(x)
			s := make(Slice, len(src))
			copy(s, src)
			return Value{p: s}
		}
		if s, ok := conStr(x); ok {
			r := []rune(s)
			out := make(Slice, len(r))
			for i := range r {
				out[i] = mkInt(int64(r[i]))
			}
			return Value{p: out}
		}
		e := strElems(x)
		out := Slice{}
		for len(e) > 0 {
			r, n := w.decodeRune(e)
			out = append(out, r)
			e = e[n:]
		}
		return Value{p: out}
	case ft.k == KPtr && tt.k == KPtr:
		return x
	case ft.k == KPtr && tt.k == KInt: // unsafe.Pointer -> uintptr
		return x
	case ft.k == KInt && tt.k == KPtr:
		return x
	case ft.k == tt.k:
		return x
	}
	unsup("convert %s to %s", from, to)
	return Value{}
}

// ---- builtins ----

func (w *W) builtin(g *G, fr *Frame, b *ssa.Builtin, args []Value, cc *ssa.CallCommon) Value {
	for i := range args {
		if po, ok := args[i].p.(*Poison); ok {
			unsup("builtin %s on poison %s", b.Name(), po.why)
		}
	}
	switch b.Name() {
	case "len":
		switch x := args[0].p.(type) {
		case nil:
			return mkInt(0)
		case string:
			return mkInt(int64(len(x)))
		case *SymStr:
			return mkInt(int64(len(x.e)))
		case Slice:
			return mkInt(int64(len(x)))
		case *MapV:
			w.raceRead(&x.sh)
			return mkInt(int64(x.n))
		case *ChanV:
			if x.timer != nil {
				return mkInt(0) // since Go 1.23
			}
			return mkInt(int64(len(x.buf)))
		case Agg:
			return mkInt(int64(len(x)))
		case *Value:
			return mkInt(int64(len(x.p.(Agg))))
		}
	case "cap":
		switch x := args[0].p.(type) {
		case nil:
			return mkInt(0)
		case Slice:
			return mkInt(int64(cap(x)))
		case *ChanV:
			if x.timer != nil {
				return mkInt(0)
			}
			return mkInt(int64(x.cap))
		case Agg:
			return mkInt(int64(len(x)))
		case *Value:
			return mkInt(int64(len(x.p.(Agg))))
		}
	case "append":
		return w.appendSlice(args[0], args[1], cc)
	case "copy":
		dst, _ := args[0].p.(Slice)
		var src []Value
		switch s := args[1].p.(type) {
		case Slice:
			src = s
		case nil:
		default:
			src = strElems(args[1])
		}
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		if n > 0 {
			if &dst[0] != &src[0] {
				tmp := make([]Value, n)
				for i := 0; i < n; i++ {
					w.raceRead(&src[i])
					tmp[i] = copyVal(src[i])
				}
				for i := 0; i < n; i++ {
					w.raceWrite(&dst[i])
					w.store(&dst[i], tmp[i])
				}
			}
		}
		return mkInt(int64(n))
	case "delete":
		m, _ := args[0].p.(*MapV)
		if m == nil {
			return Value{}
		}
		w.raceWrite(&m.sh)
		w.mapDelete(m, args[1])
		return Value{}
	case "clear":
		switch x := args[0].p.(type) {
		case *MapV:
			w.raceWrite(&x.sh)
			w.mapClear(x)
		case Slice:
			et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				w.store(&x[i], zero(et))
			}
		}
		return Value{}
	case "close":
		c, _ := args[0].p.(*ChanV)
		if c == nil {
			panic(w.rtPanic("close of nil channel"))
		}
		w.chanClose(g, c)
		return Value{}
	case "panic":
		panic(goPanic{v: args[0]})
	case "recover":
		if fr.deferOf != nil && fr.deferOf.pan != nil && !fr.deferOf.pan.recovered && fr.deferOf.mode == 2 {
			fr.deferOf.pan.recovered = true
			return fr.deferOf.pan.v
		}
		return Value{}
	case "print", "println":
		return Value{}
	case "min", "max":
		r := args[0]
		t := cc.Args[0].Type()
		ti := typeInfo(t)
		for _, a := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			c := w.binop(op, a, r, ti, ti, tiBool, t)
			if ct, ok := c.p.(*Term); ok && (ti.k == KInt || ti.k == KF64) {
				r = w.fromTerm(w.tt.Ite(ct, w.term(a, ti), w.term(r, ti)), ti)
			} else if w.branchV(c) {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if args[0].p == nil {
			panic(w.rtPanic("value method called using nil pointer"))
		}
		return args[0]
	case "ssa:deferstack":
		return Value{}
	case "String": // unsafe.String
		n := int(w.concInt(args[1], "unsafe.String"))
		if n == 0 {
			return mkStr("")
		}
		if s, ok := args[0].p.(*unsafeBytes); ok {
			return elemsToStr(s.s[:n])
		}
	case "StringData":
		e := strElems(args[0])
		return Value{p: &unsafeBytes{append([]Value{}, e...)}}
	case "SliceData":
		if args[0].p == nil {
			return Value{}
		}
		return Value{p: &unsafeBytes{args[0].p.(Slice)}}
	case "Slice": // unsafe.Slice
		n := int(w.concInt(args[1], "unsafe.Slice"))
		switch s := args[0].p.(type) {
		case *unsafeBytes:
			return Value{p: Slice(s.s[:n:n])}
		case nil:
			return Value{}
		}
	case "real":
		return Value{n: math.Float64bits(real(args[0].p.(complex128)))}
	case "imag":
		return Value{n: math.Float64bits(imag(args[0].p.(complex128)))}
	case "complex":
		return Value{p: complex(math.Float64frombits(args[0].n), math.Float64frombits(args[1].n))}
	}
	unsup("builtin %s on %T", b.Name(), args[0].p)
	return Value{}
}

type unsafeBytes struct{ s []Value }

func (w *W) appendSlice(a, b Value, cc *ssa.CallCommon) Value {
	dst, _ := a.p.(Slice)
	var src []Value
	switch s := b.p.(type) {
	case nil:
	case Slice:
		src = s
	default:
		src = strElems(b)
	}
	if len(src) == 0 {
		if a.p == nil {
			return Value{}
		}
		return a
	}
	n := len(dst) + len(src)
	if n <= cap(dst) {
		old := len(dst)
		tmp := make([]Value, len(src))
		for i := range src {
			w.raceRead(&src[i])
			tmp[i] = copyVal(src[i])
		}
		dst = dst[:n]
		for i := range tmp {
			w.raceWrite(&dst[old+i])
			w.store(&dst[old+i], tmp[i])
		}
		return Value{p: dst}
	}
	var elemSz int64 = 8
	var et types.Type
	if cc != nil {
		if st, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
			et = st.Elem()
			elemSz = w.eng.sizes.Sizeof(et)
		}
	}
	newcap := growCap(cap(dst), n, elemSz)
	out := make(Slice, n, newcap)
	for i := range dst {
		out[i] = copyVal(dst[i])
	}
	for i := range src {
		w.raceRead(&src[i])
		out[len(dst)+i] = copyVal(src[i])
	}
	// zero the spare capacity
	if et != nil && newcap > n {
		z := zero(et)
		sp := out[n:newcap]
		_, agg := z.p.(Agg)
		for i := range sp {
			if agg {
				sp[i] = zero(et)
			} else {
				sp[i] = z
			}
		}
	}
	return Value{p: out}
}

var sizeClasses = []int64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192}

func growCap(old, n int, sz int64) int {
	c := old
	if n > 2*old {
		c = n
	} else if old < 256 {
		c = 2 * old
	} else {
		for c < n {
			c += (c + 3*256) / 4
		}
	}
	if sz <= 0 {
		return c
	}
	b := int64(c) * sz
	for _, s := range sizeClasses {
		if s >= b {
			return int(s / sz)
		}
	}
	return c
}

func (w *W) branchV(v Value) bool {
	if t, ok := v.p.(*Term); ok {
		return w.branch(t)
	}
	w.noPoison(v)
	return v.n != 0
}

var _ = fmt.Sprint
var _ = utf8.RuneError
