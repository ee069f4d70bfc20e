package main

import "math/bits"

// Signed ranges of 64-bit terms, from the bounds of the variables below them.
// They decide comparisons and turn divisions by constants into narrow ones.

type rng struct {
	lo, hi int64
	ok     bool
}

const (
	minI = -1 << 63
	maxI = 1<<63 - 1
)

func addOvf(a, b int64) (int64, bool) {
	s := a + b
	return s, (a >= 0) == (b >= 0) && (s >= 0) != (a >= 0)
}

func mulOvf(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, false
	}
	p := a * b
	return p, p/b != a || (a == -1 && b == minI) || (b == -1 && a == minI)
}

// RVar is a variable with values 0..max.
func (t *TermTab) RVar(name string, max uint64) *Term {
	x := t.Var(name, Sort(bits.Len64(max)))
	if x.rg == nil {
		x.vmax = max
	}
	return x
}

func (t *TermTab) rngOf(x *Term) rng {
	if x.rg != nil {
		return *x.rg
	}
	r := t.rng1(x)
	x.rg = &r
	return r
}

func (t *TermTab) rng1(x *Term) rng {
	if x.S != 64 {
		if x.S < 64 && x.S > 0 { // unsigned value of narrow terms
			if x.Op == OConst {
				return rng{int64(x.C), int64(x.C), true}
			}
			if x.Op == OVar && x.vmax != 0 {
				return rng{0, int64(x.vmax), true}
			}
			if x.Op == OIte {
				a, b := t.rngOf(x.A[1]), t.rngOf(x.A[2])
				return rng{min(a.lo, b.lo), max(a.hi, b.hi), a.ok && b.ok}
			}
			return rng{0, int64(mask(x.S)), true}
		}
		return rng{}
	}
	switch x.Op {
	case OConst:
		return rng{int64(x.C), int64(x.C), true}
	case OZExt:
		return t.rngOf(x.A[0])
	case OSExt:
		if w := x.A[0].S; w < 64 && w > 0 {
			return rng{-1 << (w - 1), 1<<(w-1) - 1, true}
		}
	case OAdd:
		a, b := t.rngOf(x.A[0]), t.rngOf(x.A[1])
		if !a.ok || !b.ok {
			return rng{}
		}
		lo, o1 := addOvf(a.lo, b.lo)
		hi, o2 := addOvf(a.hi, b.hi)
		return rng{lo, hi, !o1 && !o2}
	case OSub:
		a, b := t.rngOf(x.A[0]), t.rngOf(x.A[1])
		if !a.ok || !b.ok || b.lo == minI || b.hi == minI {
			return rng{}
		}
		lo, o1 := addOvf(a.lo, -b.hi)
		hi, o2 := addOvf(a.hi, -b.lo)
		return rng{lo, hi, !o1 && !o2}
	case ONeg:
		a := t.rngOf(x.A[0])
		if a.ok && a.lo != minI {
			return rng{-a.hi, -a.lo, true}
		}
	case OMul:
		a, b := t.rngOf(x.A[0]), t.rngOf(x.A[1])
		if a.ok && b.ok && b.lo == b.hi && b.lo > 0 {
			lo, o1 := mulOvf(a.lo, b.lo)
			hi, o2 := mulOvf(a.hi, b.lo)
			return rng{lo, hi, !o1 && !o2}
		}
	case OSDiv:
		a, b := t.rngOf(x.A[0]), t.rngOf(x.A[1])
		if a.ok && b.ok && b.lo == b.hi && b.lo > 0 {
			return rng{a.lo / b.lo, a.hi / b.lo, true}
		}
	case OSRem:
		a, b := t.rngOf(x.A[0]), t.rngOf(x.A[1])
		if b.ok && b.lo == b.hi && b.lo > 0 {
			r := rng{-(b.lo - 1), b.lo - 1, true}
			if a.ok && a.lo >= 0 {
				r.lo = 0
				r.hi = min(r.hi, a.hi)
			}
			return r
		}
	case OIte:
		a, b := t.rngOf(x.A[1]), t.rngOf(x.A[2])
		if a.ok && b.ok {
			return rng{min(a.lo, b.lo), max(a.hi, b.hi), true}
		}
	}
	return rng{}
}

// cmpRange decides or simplifies a signed comparison (64 bits) by ranges.
func (t *TermTab) cmpRange(op Op, a, b *Term) *Term {
	if a.S != 64 {
		return nil
	}
	ra, rb := t.rngOf(a), t.rngOf(b)
	if !ra.ok || !rb.ok {
		return nil
	}
	strict := op == OSLt || op == OULt
	if (op == OULt || op == OULe) && (ra.lo < 0 || rb.lo < 0) {
		return nil
	}
	if strict {
		if ra.hi < rb.lo {
			return t.True
		}
		if ra.lo >= rb.hi {
			return t.False
		}
	} else {
		if ra.hi <= rb.lo {
			return t.True
		}
		if ra.lo > rb.hi {
			return t.False
		}
	}
	// x + c < y + d as x < y + (d-c)
	xa, ca := splitAdd(a)
	xb, cb := splitAdd(b)
	if ca == 0 {
		return nil
	}
	if rx := t.rngOf(xa); !rx.ok {
		return nil
	}
	if b.IsConst() {
		xb, cb = t.BV(0, 64), b.C
	}
	ry := t.rngOf(xb)
	d, o := addOvf(int64(cb), -int64(ca))
	if o || int64(ca) == minI || !ry.ok {
		return nil
	}
	if _, o := addOvf(ry.lo, d); o {
		return nil
	}
	if _, o := addOvf(ry.hi, d); o {
		return nil
	}
	if op == OULt {
		op = OSLt
	} else if op == OULe {
		op = OSLe
	}
	return t.Bin(op, SBool, xa, t.Bin(OAdd, 64, xb, t.BV(uint64(d), 64)))
}

// narrow gives the low w bits of x, which hold its whole (non-negative) value.
func (t *TermTab) narrow(x *Term, w Sort) *Term {
	switch x.Op {
	case OAdd, OSub, OMul:
		return t.Bin(x.Op, w, t.narrow(x.A[0], w), t.narrow(x.A[1], w))
	case OIte:
		return t.Ite(x.A[0], t.narrow(x.A[1], w), t.narrow(x.A[2], w))
	}
	return t.Extract(int(w)-1, 0, x)
}

// divRange simplifies a/d or a%d for a constant d > 0 and a ≥ 0.
func (t *TermTab) divRange(op Op, a *Term, d int64) *Term {
	r := t.rngOf(a)
	if !r.ok || r.lo < 0 || d <= 0 {
		return nil
	}
	k := r.lo / d
	off := k * d
	x := a
	if off != 0 {
		x = t.Bin(OAdd, 64, a, t.BV(uint64(-off), 64))
	}
	rx := t.rngOf(x)
	if !rx.ok || rx.lo < 0 {
		return nil
	}
	var q *Term
	switch {
	case rx.hi < d:
		if op == OSRem {
			return x
		}
		return t.BV(uint64(k), 64)
	case rx.hi < 2*d && 2*d > 0:
		small := t.Bin(OSLt, SBool, x, t.BV(uint64(d), 64))
		if op == OSRem {
			return t.Ite(small, x, t.Bin(OAdd, 64, x, t.BV(uint64(-d), 64)))
		}
		return t.Ite(small, t.BV(uint64(k), 64), t.BV(uint64(k+1), 64))
	}
	w := Sort(bits.Len64(uint64(rx.hi)))
	if w >= 63 {
		return nil
	}
	uop := OURem
	if op == OSDiv {
		uop = OUDiv
	}
	q = t.ZExt(64, t.Bin(uop, w, t.narrow(x, w), t.BV(uint64(d), w)))
	if op == OSDiv && k != 0 {
		q = t.Bin(OAdd, 64, q, t.BV(uint64(k), 64))
	}
	return q
}
