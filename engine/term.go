package main

// Terms: hash-consed SMT expressions over Bool, bit-vectors and Float64,
// with constant folding and native evaluation under a model.

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"strings"
)

type Sort int16

const (
	SBool Sort = 0
	SF64  Sort = 1000
)

// BV sorts are 1..64.

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLShr
	OAShr
	ONeg
	OBNot
	OULt
	OULe
	OSLt
	OSLe
	OExtract // C = hi<<8|lo
	OConcat
	OZExt
	OSExt
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFLt
	OFLe
	OFEq // IEEE equality
	OFIsNaN
	OFIsInf
	OSToF // signed BV -> F64, RNE
	OUToF
	OFToS // F64 -> signed BV (RTZ)
	OFToU
	OFFromBits // BV64 -> F64
	OR3        // uninterpreted: parse(format(x,"%.3f"))
	OSMulOvf   // signed multiplication overflows (Bool)
)

type Term struct {
	Op   Op
	S    Sort
	A    []*Term
	C    uint64
	Name string
	id   int
	h1   uint64 // structural hash, the same in every worker
	h2   uint64
	vs   []uint64 // sorted hashes of the variables below
	vsOK bool
	rg   *rng   // signed range
	vmax uint64 // largest value of a variable, if it has one
	// evaluation memo
	evGen uint64
	evVal uint64
	// solver definition generation
	defGen [2]int
	nvars  int8 // 0 unknown
}

type Model map[string]uint64

type termKey struct {
	op      Op
	s       Sort
	c       uint64
	a, b, d int
	name    string
}

type TermTab struct {
	tab   map[termKey]*Term
	next  int
	gen   uint64
	vars  map[string]*Term
	True  *Term
	False *Term
}

func NewTermTab() *TermTab {
	t := &TermTab{tab: map[termKey]*Term{}, vars: map[string]*Term{}}
	t.True = t.mk(OConst, SBool, 1, "")
	t.False = t.mk(OConst, SBool, 0, "")
	return t
}

func (t *TermTab) mk(op Op, s Sort, c uint64, name string, a ...*Term) *Term {
	k := termKey{op: op, s: s, c: c, name: name, a: -1, b: -1, d: -1}
	switch len(a) {
	case 0:
	case 1:
		k.a = a[0].id
	case 2:
		k.a, k.b = a[0].id, a[1].id
	case 3:
		k.a, k.b, k.d = a[0].id, a[1].id, a[2].id
	default:
		panic("arity")
	}
	if x, ok := t.tab[k]; ok {
		return x
	}
	x := &Term{Op: op, S: s, C: c, Name: name, A: a, id: t.next}
	h1, h2 := uint64(op)<<32^uint64(s)+0x9e3779b97f4a7c15, uint64(op)<<32^uint64(s)+0xc2b2ae3d27d4eb4f
	h1, h2 = mix64(h1^c), mix64(h2+c)
	for i := 0; i < len(name); i++ {
		h1, h2 = mix64(h1^uint64(name[i])), mix64(h2+uint64(name[i])*0x100000001b3)
	}
	for _, y := range a {
		h1, h2 = mix64(h1*3+y.h1), mix64(h2*5^y.h2)
	}
	x.h1, x.h2 = h1, h2
	t.next++
	t.tab[k] = x
	return x
}

func mask(w Sort) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func sext(c uint64, w Sort) int64 {
	if w >= 64 {
		return int64(c)
	}
	sh := uint(64 - w)
	return int64(c<<sh) >> sh
}

func (t *TermTab) BV(c uint64, w Sort) *Term { return t.mk(OConst, w, c&mask(w), "") }
func (t *TermTab) Bool(b bool) *Term {
	if b {
		return t.True
	}
	return t.False
}
func (t *TermTab) F64(f float64) *Term { return t.mk(OConst, SF64, math.Float64bits(f), "") }
func (t *TermTab) Var(name string, s Sort) *Term {
	x := t.mk(OVar, s, 0, name)
	t.vars[name] = x
	return x
}

func (x *Term) IsConst() bool { return x.Op == OConst }

func (t *TermTab) Not(a *Term) *Term {
	switch a.Op {
	case OConst:
		return t.Bool(a.C == 0)
	case ONot:
		return a.A[0]
	case OULt:
		return t.mk(OULe, SBool, 0, "", a.A[1], a.A[0])
	case OULe:
		return t.mk(OULt, SBool, 0, "", a.A[1], a.A[0])
	case OSLt:
		return t.mk(OSLe, SBool, 0, "", a.A[1], a.A[0])
	case OSLe:
		return t.mk(OSLt, SBool, 0, "", a.A[1], a.A[0])
	}
	return t.mk(ONot, SBool, 0, "", a)
}

func (t *TermTab) And(a, b *Term) *Term {
	if a.Op == OConst {
		if a.C == 0 {
			return a
		}
		return b
	}
	if b.Op == OConst {
		if b.C == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if t.Not(a) == b {
		return t.False
	}
	return t.mk(OAnd, SBool, 0, "", a, b)
}

func (t *TermTab) Or(a, b *Term) *Term {
	if a.Op == OConst {
		if a.C != 0 {
			return a
		}
		return b
	}
	if b.Op == OConst {
		if b.C != 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if t.Not(a) == b {
		return t.True
	}
	return t.mk(OOr, SBool, 0, "", a, b)
}

// Eq is structural equality (for F64: SMT "=", all NaNs equal, -0 != +0).
func (t *TermTab) Eq(a, b *Term) *Term {
	if a == b {
		return t.True
	}
	if a.S != b.S {
		panic(fmt.Sprintf("eq sorts %d %d", a.S, b.S))
	}
	if a.Op == OConst && b.Op == OConst {
		if a.S == SF64 {
			fa, fb := math.Float64frombits(a.C), math.Float64frombits(b.C)
			if fa != fa && fb != fb {
				return t.True
			}
		}
		return t.Bool(a.C == b.C)
	}
	if a.Op == OConst {
		a, b = b, a
	}
	if a.S == SBool {
		if b.Op == OConst {
			if b.C != 0 {
				return a
			}
			return t.Not(a)
		}
	}
	if b.Op == OConst && a.S != SF64 {
		switch a.Op {
		case OIte:
			// ite(c,k1,k2)==k
			if a.A[1].IsConst() && a.A[2].IsConst() {
				e1, e2 := a.A[1].C == b.C, a.A[2].C == b.C
				switch {
				case e1 && e2:
					return t.True
				case e1:
					return a.A[0]
				case e2:
					return t.Not(a.A[0])
				default:
					return t.False
				}
			}
		case OZExt:
			in := a.A[0]
			if b.C > mask(in.S) {
				return t.False
			}
			return t.Eq(in, t.BV(b.C, in.S))
		case OSExt:
			in := a.A[0]
			v := b.C & mask(in.S)
			if uint64(sext(v, in.S))&mask(a.S) != b.C {
				return t.False
			}
			return t.Eq(in, t.BV(v, in.S))
		case OAdd:
			if a.A[1].IsConst() {
				return t.Eq(a.A[0], t.BV(b.C-a.A[1].C, a.S))
			}
		}
	}
	if a.h1 > b.h1 && b.Op != OConst {
		a, b = b, a
	}
	if a.S == 64 {
		if ra, rb := t.rngOf(a), t.rngOf(b); ra.ok && rb.ok && (ra.hi < rb.lo || rb.hi < ra.lo) {
			return t.False
		}
	}
	// (x + c) == (x + d), x == x + c
	if a.S != SF64 && a.S != SBool {
		ba, ca := splitAdd(a)
		bb, cb := splitAdd(b)
		if ba == bb {
			return t.Bool((ca-cb)&mask(a.S) == 0)
		}
	}
	return t.mk(OEq, SBool, 0, "", a, b)
}

func splitAdd(a *Term) (*Term, uint64) {
	if a.Op == OAdd && a.A[1].IsConst() {
		return a.A[0], a.A[1].C
	}
	return a, 0
}

func (t *TermTab) Ite(c, a, b *Term) *Term {
	if c.Op == OConst {
		if c.C != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.S == SBool {
		if a.IsConst() && b.IsConst() {
			if a.C != 0 {
				return c
			}
			return t.Not(c)
		}
		if a.IsConst() {
			if a.C != 0 {
				return t.Or(c, b)
			}
			return t.And(t.Not(c), b)
		}
		if b.IsConst() {
			if b.C != 0 {
				return t.Or(t.Not(c), a)
			}
			return t.And(c, a)
		}
	}
	return t.mk(OIte, a.S, 0, "", c, a, b)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// evalOp computes an operator on concrete operands.
func evalOp(op Op, s Sort, c uint64, as Sort, a, b uint64) uint64 {
	m := mask(s)
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sext(a, s), sext(b, s)
		if y == 0 {
			if x >= 0 {
				return m
			}
			return 1
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sext(a, s), sext(b, s)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBXor:
		return a ^ b
	case OShl:
		if b >= uint64(s) {
			return 0
		}
		return (a << b) & m
	case OLShr:
		if b >= uint64(s) {
			return 0
		}
		return a >> b
	case OAShr:
		x := sext(a, s)
		if b >= uint64(s) {
			b = uint64(s) - 1
		}
		return uint64(x>>b) & m
	case ONeg:
		return (-a) & m
	case OBNot:
		return (^a) & m
	case OULt:
		return b2u(a < b)
	case OULe:
		return b2u(a <= b)
	case OSLt:
		return b2u(sext(a, as) < sext(b, as))
	case OSLe:
		return b2u(sext(a, as) <= sext(b, as))
	case OExtract:
		hi, lo := c>>8, c&0xff
		return (a >> lo) & mask(Sort(hi-lo+1))
	case OConcat:
		panic("concat")
	case OZExt:
		return a
	case OSExt:
		return uint64(sext(a, as)) & m
	case OFAdd, OFSub, OFMul, OFDiv, OFLt, OFLe, OFEq:
		x, y := math.Float64frombits(a), math.Float64frombits(b)
		switch op {
		case OFAdd:
			return math.Float64bits(x + y)
		case OFSub:
			return math.Float64bits(x - y)
		case OFMul:
			return math.Float64bits(x * y)
		case OFDiv:
			return math.Float64bits(x / y)
		case OFLt:
			return b2u(x < y)
		case OFLe:
			return b2u(x <= y)
		case OFEq:
			return b2u(x == y)
		}
	case OFNeg:
		return a ^ (1 << 63)
	case OFAbs:
		return a &^ (1 << 63)
	case OFIsNaN:
		x := math.Float64frombits(a)
		return b2u(x != x)
	case OFIsInf:
		return b2u(math.IsInf(math.Float64frombits(a), 0))
	case OSToF:
		return math.Float64bits(float64(sext(a, as)))
	case OUToF:
		return math.Float64bits(float64(a))
	case OFToS:
		return uint64(f2i(math.Float64frombits(a))) & m
	case OFToU:
		x := math.Float64frombits(a)
		if x < 0 || x != x {
			return uint64(f2i(x)) & m
		}
		return uint64(x) & m
	case OFFromBits:
		return a
	case OR3:
		return math.Float64bits(r3(math.Float64frombits(a)))
	case OSMulOvf:
		hi, lo := bits.Mul64(a, b)
		x, y := sext(a, as), sext(b, as)
		_ = hi
		_ = lo
		p := new(big.Int).Mul(big.NewInt(x), big.NewInt(y))
		lim := new(big.Int).Lsh(big.NewInt(1), uint(as)-1)
		return b2u(p.Cmp(lim) >= 0 || p.Cmp(new(big.Int).Neg(lim)) < 0)
	}
	panic(fmt.Sprintf("evalOp %d", op))
}

func f2i(x float64) int64 {
	// amd64 semantics
	if x != x || x >= 9223372036854775808.0 || x < -9223372036854775808.0 {
		return math.MinInt64
	}
	return int64(x)
}

func isCommut(op Op) bool {
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		return true
	}
	return false
}

// Bin builds a binary operator over BV or F64 with folding.
func (t *TermTab) Bin(op Op, s Sort, a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		c := evalOp(op, s, 0, a.S, a.C, b.C)
		if s == SBool {
			return t.Bool(c != 0)
		}
		return t.mk(OConst, s, c, "")
	}
	if isCommut(op) && a.IsConst() {
		a, b = b, a
	}
	bc := b.IsConst()
	switch op {
	case OAdd:
		if bc && b.C == 0 {
			return a
		}
		if bc && a.Op == OAdd && a.A[1].IsConst() {
			return t.Bin(OAdd, s, a.A[0], t.BV(a.A[1].C+b.C, s))
		}
		if b.Op == OAdd && b.A[1].IsConst() {
			return t.Bin(OAdd, s, t.Bin(OAdd, s, a, b.A[0]), b.A[1])
		}
		if a.Op == OAdd && a.A[1].IsConst() {
			return t.Bin(OAdd, s, t.Bin(OAdd, s, a.A[0], b), a.A[1])
		}
		if b.Op == ONeg && b.A[0] == a || a.Op == ONeg && a.A[0] == b {
			return t.BV(0, s)
		}
		// a + (-(x)) where a == x + y
		if a.h1 > b.h1 && !bc {
			a, b = b, a
		}
	case OSub:
		if a == b {
			return t.BV(0, s)
		}
		if bc {
			return t.Bin(OAdd, s, a, t.BV(-b.C, s))
		}
		ba, ca := splitAdd(a)
		bb, cb := splitAdd(b)
		if ba == bb {
			return t.BV(ca-cb, s)
		}
		// (x+y)-x = y
		if ba.Op == OAdd {
			if ba.A[0] == bb {
				return t.Bin(OAdd, s, ba.A[1], t.BV(ca-cb, s))
			}
			if ba.A[1] == bb {
				return t.Bin(OAdd, s, ba.A[0], t.BV(ca-cb, s))
			}
		}
		if ca != 0 || cb != 0 {
			return t.Bin(OAdd, s, t.Bin(OSub, s, ba, bb), t.BV(ca-cb, s))
		}
	case OMul:
		if bc && b.C == 0 {
			return b
		}
		if bc && b.C == 1 {
			return a
		}
	case OUDiv, OSDiv:
		if bc && b.C == 1 {
			return a
		}
		if bc && s == 64 && int64(b.C) > 0 {
			if r := t.divRange(OSDiv, a, int64(b.C)); r != nil {
				return r
			}
		}
	case OURem, OSRem:
		if bc && op == OURem && b.C > 0 {
			if a.Op == OURem && a.A[1].IsConst() && a.A[1].C > 0 {
				if a.A[1].C <= b.C {
					return a
				}
				if a.A[1].C%b.C == 0 {
					return t.Bin(OURem, s, a.A[0], b)
				}
			}
			// x - x%c is a multiple of c
			if a.Op == OSub && a.A[1].Op == OURem && a.A[1].A[0] == a.A[0] && a.A[1].A[1].IsConst() && a.A[1].A[1].C > 0 && a.A[1].A[1].C%b.C == 0 {
				return t.BV(0, s)
			}
		}
		if bc && s == 64 && int64(b.C) > 0 {
			if r := t.divRange(OSRem, a, int64(b.C)); r != nil {
				return r
			}
		}
	case OBAnd:
		if bc && b.C == 0 {
			return b
		}
		if bc && b.C == mask(s) || a == b {
			return a
		}
	case OBOr:
		if bc && b.C == 0 || a == b {
			return a
		}
		if bc && b.C == mask(s) {
			return b
		}
	case OBXor:
		if bc && b.C == 0 {
			return a
		}
		if a == b {
			return t.BV(0, s)
		}
	case OShl, OLShr, OAShr:
		if bc && b.C == 0 {
			return a
		}
		if bc && b.C >= uint64(s) && op != OAShr {
			return t.BV(0, s)
		}
	case OULt:
		if a == b {
			return t.False
		}
		if bc && b.C == 0 {
			return t.False
		}
		if a.IsConst() && a.C == mask(a.S) {
			return t.False
		}
		if r := t.cmpRange(op, a, b); r != nil {
			return r
		}
		if r := t.cmpNarrow(op, a, b); r != nil {
			return r
		}
	case OULe:
		if a == b {
			return t.True
		}
		if a.IsConst() && a.C == 0 {
			return t.True
		}
		if bc && b.C == mask(b.S) {
			return t.True
		}
		if r := t.cmpRange(op, a, b); r != nil {
			return r
		}
		if r := t.cmpNarrow(op, a, b); r != nil {
			return r
		}
	case OSLt:
		if a == b {
			return t.False
		}
		if r := t.cmpRange(op, a, b); r != nil {
			return r
		}
		if r := t.cmpNarrow(op, a, b); r != nil {
			return r
		}
	case OSLe:
		if a == b {
			return t.True
		}
		if r := t.cmpRange(op, a, b); r != nil {
			return r
		}
		if r := t.cmpNarrow(op, a, b); r != nil {
			return r
		}
	}
	return t.mk(op, s, 0, "", a, b)
}

// cmpNarrow rewrites comparisons of zero-extended values to narrow widths.
func (t *TermTab) cmpNarrow(op Op, a, b *Term) *Term {
	nar := func(x *Term, w Sort) *Term {
		if x.Op == OZExt && x.A[0].S == w {
			return x.A[0]
		}
		if x.IsConst() && x.C <= mask(w) {
			return t.BV(x.C, w)
		}
		return nil
	}
	var w Sort
	if a.Op == OZExt {
		w = a.A[0].S
	} else if b.Op == OZExt {
		w = b.A[0].S
	} else {
		return nil
	}
	full := a.S
	na, nb := nar(a, w), nar(b, w)
	uop := op
	if op == OSLt {
		uop = OULt
	}
	if op == OSLe {
		uop = OULe
	}
	if na != nil && nb != nil {
		return t.Bin(uop, SBool, na, nb)
	}
	signed := op == OSLt || op == OSLe
	// one side constant out of range
	if na != nil && b.IsConst() {
		if signed && sext(b.C, full) < 0 {
			return t.False
		}
		return t.True
	}
	if nb != nil && a.IsConst() {
		if signed && sext(a.C, full) < 0 {
			return t.True
		}
		return t.False
	}
	return nil
}

func (t *TermTab) Un(op Op, s Sort, a *Term) *Term {
	if a.IsConst() {
		c := evalOp(op, s, 0, a.S, a.C, 0)
		if s == SBool {
			return t.Bool(c != 0)
		}
		return t.mk(OConst, s, c, "")
	}
	switch op {
	case ONeg, OBNot, OFNeg:
		if a.Op == op {
			return a.A[0]
		}
	case OR3:
		if a.Op == OR3 {
			return a
		}
	}
	return t.mk(op, s, 0, "", a)
}

func (t *TermTab) Extract(hi, lo int, a *Term) *Term {
	w := Sort(hi - lo + 1)
	if w == a.S {
		return a
	}
	if a.IsConst() {
		return t.BV(a.C>>uint(lo), w)
	}
	if (a.Op == OZExt || a.Op == OSExt) && lo == 0 {
		in := a.A[0]
		if w == in.S {
			return in
		}
		if w < in.S {
			return t.Extract(hi, lo, in)
		}
		if a.Op == OZExt {
			return t.ZExt(w, in)
		}
		return t.SExt(w, in)
	}
	if a.Op == OZExt && Sort(lo) >= a.A[0].S {
		return t.BV(0, w)
	}
	if a.Op == OIte && a.A[1].IsConst() && a.A[2].IsConst() {
		return t.Ite(a.A[0], t.Extract(hi, lo, a.A[1]), t.Extract(hi, lo, a.A[2]))
	}
	return t.mk(OExtract, w, uint64(hi)<<8|uint64(lo), "", a)
}

func (t *TermTab) ZExt(w Sort, a *Term) *Term {
	if w == a.S {
		return a
	}
	if a.IsConst() {
		return t.BV(a.C, w)
	}
	if a.Op == OZExt {
		return t.ZExt(w, a.A[0])
	}
	return t.mk(OZExt, w, 0, "", a)
}

func (t *TermTab) SExt(w Sort, a *Term) *Term {
	if w == a.S {
		return a
	}
	if a.IsConst() {
		return t.BV(uint64(sext(a.C, a.S)), w)
	}
	if a.Op == OZExt {
		return t.ZExt(w, a.A[0])
	}
	return t.mk(OSExt, w, 0, "", a)
}

// Eval evaluates x under m; unassigned variables are 0.
func (t *TermTab) NewEval() { t.gen++ }

func (t *TermTab) Eval(x *Term, m Model) uint64 {
	if x.Op == OConst {
		return x.C
	}
	if x.evGen == t.gen {
		return x.evVal
	}
	var v uint64
	switch x.Op {
	case OVar:
		v = m[x.Name]
	case ONot:
		v = 1 - t.Eval(x.A[0], m)
	case OAnd:
		v = 0
		if t.Eval(x.A[0], m) != 0 {
			v = t.Eval(x.A[1], m)
		}
	case OOr:
		v = 1
		if t.Eval(x.A[0], m) == 0 {
			v = t.Eval(x.A[1], m)
		}
	case OEq:
		a, b := t.Eval(x.A[0], m), t.Eval(x.A[1], m)
		v = b2u(a == b)
		if x.A[0].S == SF64 {
			fa, fb := math.Float64frombits(a), math.Float64frombits(b)
			if fa != fa && fb != fb {
				v = 1
			}
		}
	case OIte:
		if t.Eval(x.A[0], m) != 0 {
			v = t.Eval(x.A[1], m)
		} else {
			v = t.Eval(x.A[2], m)
		}
	default:
		var b uint64
		a := t.Eval(x.A[0], m)
		if len(x.A) > 1 {
			b = t.Eval(x.A[1], m)
		}
		v = evalOp(x.Op, x.S, x.C, x.A[0].S, a, b)
	}
	x.evGen, x.evVal = t.gen, v
	return v
}

var opSMT = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv",
	OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor",
	OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", ONeg: "bvneg", OBNot: "bvnot",
	OULt: "bvult", OULe: "bvule", OSLt: "bvslt", OSLe: "bvsle", OConcat: "concat",
	OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq", OFIsNaN: "fp.isNaN", OFIsInf: "fp.isInfinite",
	OFNeg: "fp.neg", OFAbs: "fp.abs",
	OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE",
	OSToF: "(_ to_fp 11 53) RNE", OUToF: "(_ to_fp_unsigned 11 53) RNE", OFFromBits: "(_ to_fp 11 53)",
	OR3: "R3",
}

func sortSMT(s Sort) string {
	switch s {
	case SBool:
		return "Bool"
	case SF64:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", s)
}

func constSMT(x *Term) string {
	switch x.S {
	case SBool:
		if x.C != 0 {
			return "true"
		}
		return "false"
	case SF64:
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", x.C)
	}
	if x.S%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(x.S)/4, x.C)
	}
	return fmt.Sprintf("#b%0*b", int(x.S), x.C)
}

// emit writes definitions needed for x (those not yet defined in gen) and
// returns the reference to x.
func (t *TermTab) emit(x *Term, slot, gen int, sb *strings.Builder) string {
	if x.Op == OConst {
		return constSMT(x)
	}
	if x.Op == OVar {
		if x.defGen[slot] != gen {
			x.defGen[slot] = gen
			if x.S == SF64 {
				// declared through its bits, so that models are exact
				fmt.Fprintf(sb, "(declare-const |%s| (_ BitVec 64))\n", x.Name)
			} else {
				fmt.Fprintf(sb, "(declare-const |%s| %s)\n", x.Name, sortSMT(x.S))
			}
		}
		if x.S == SF64 {
			return "((_ to_fp 11 53) |" + x.Name + "|)"
		}
		return "|" + x.Name + "|"
	}
	if x.defGen[slot] == gen {
		return fmt.Sprintf("t%d", x.id)
	}
	args := make([]string, len(x.A))
	for i, a := range x.A {
		args[i] = t.emit(a, slot, gen, sb)
	}
	var body string
	j := strings.Join(args, " ")
	switch x.Op {
	case OExtract:
		body = fmt.Sprintf("((_ extract %d %d) %s)", x.C>>8, x.C&0xff, j)
	case OZExt:
		body = fmt.Sprintf("((_ zero_extend %d) %s)", x.S-x.A[0].S, j)
	case OSExt:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", x.S-x.A[0].S, j)
	case OFToS:
		// amd64: out of range -> min int64
		f := args[0]
		body = fmt.Sprintf("(ite (or (fp.isNaN %s) (fp.geq %s ((_ to_fp 11 53) #x43e0000000000000)) (fp.lt %s ((_ to_fp 11 53) #xc3e0000000000000))) #x8000000000000000 ((_ fp.to_sbv 64) RTZ %s))", f, f, f, f)
		if x.S != 64 {
			body = fmt.Sprintf("((_ extract %d 0) %s)", x.S-1, body)
		}
	case OFToU:
		body = fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", x.S, j)
	case OSMulOvf:
		w := int(x.A[0].S)
		body = fmt.Sprintf("(not (= ((_ sign_extend %d) (bvmul %s %s)) (bvmul ((_ sign_extend %d) %s) ((_ sign_extend %d) %s))))", w, args[0], args[1], w, args[0], w, args[1])
	default:
		body = "(" + opSMT[x.Op] + " " + j + ")"
	}
	fmt.Fprintf(sb, "(define-fun t%d () %s %s)\n", x.id, sortSMT(x.S), body)
	x.defGen[slot] = gen
	return fmt.Sprintf("t%d", x.id)
}

// collectVars adds the variables of x to out.
func collectVars(x *Term, seen map[*Term]bool, out map[string]*Term) {
	if x.Op == OConst || seen[x] {
		return
	}
	seen[x] = true
	if x.Op == OVar {
		out[x.Name] = x
		return
	}
	for _, a := range x.A {
		collectVars(a, seen, out)
	}
}

func (x *Term) String() string {
	var f func(x *Term, d int) string
	f = func(x *Term, d int) string {
		switch x.Op {
		case OConst:
			if x.S == SF64 {
				return fmt.Sprint(math.Float64frombits(x.C))
			}
			if x.S == SBool {
				return fmt.Sprint(x.C != 0)
			}
			return fmt.Sprint(sext(x.C, x.S))
		case OVar:
			return x.Name
		}
		if d > 6 {
			return "…"
		}
		s := "(" + opSMT[x.Op]
		if opSMT[x.Op] == "" {
			s = fmt.Sprintf("(op%d", x.Op)
		}
		for _, a := range x.A {
			s += " " + f(a, d+1)
		}
		return s + ")"
	}
	return f(x, 0)
}

func mix64(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

// varSet gives the variables of x as sorted hashes.
func (x *Term) varSet() []uint64 {
	if x.vsOK {
		return x.vs
	}
	x.vsOK = true
	if x.Op == OVar {
		x.vs = []uint64{x.h1}
		return x.vs
	}
	for _, a := range x.A {
		x.vs = mergeU64(x.vs, a.varSet())
	}
	return x.vs
}

func mergeU64(a, b []uint64) []uint64 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	sub := true
	i := 0
	for _, y := range b {
		for i < len(a) && a[i] < y {
			i++
		}
		if i == len(a) || a[i] != y {
			sub = false
			break
		}
	}
	if sub {
		return a
	}
	out := make([]uint64, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j == len(b) || i < len(a) && a[i] < b[j]:
			out = append(out, a[i])
			i++
		case i == len(a) || b[j] < a[i]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	return out
}
