package main

import (
	"fmt"
	"math"
)

// Floats that come from integers are heavy for a solver. A query is first
// decided with each of them replaced by a variable that may be any float of its
// range: when no such floats violate it, the real ones do not either.

// frange gives the range of a float computed from integers and constants.
func (t *TermTab) frange(x *Term) (lo, hi float64, ok bool) {
	switch x.Op {
	case OConst:
		f := math.Float64frombits(x.C)
		return f, f, f == f
	case OSToF:
		if x.A[0].S != 64 {
			return 0, 0, false
		}
		r := t.rngOf(x.A[0])
		return float64(r.lo), float64(r.hi), r.ok
	case OUToF:
		r := t.rngOf(x.A[0])
		return float64(r.lo), float64(r.hi), r.ok && r.lo >= 0
	case OFDiv, OFMul:
		if !x.A[1].IsConst() {
			return 0, 0, false
		}
		c := math.Float64frombits(x.A[1].C)
		lo, hi, ok = t.frange(x.A[0])
		if !ok || !(c > 0) || math.IsInf(c, 0) {
			return 0, 0, false
		}
		if x.Op == OFDiv {
			return lo / c, hi / c, true
		}
		return lo * c, hi * c, true
	case OFAdd, OFSub:
		l1, h1, ok1 := t.frange(x.A[0])
		l2, h2, ok2 := t.frange(x.A[1])
		if x.Op == OFSub {
			l2, h2 = -h2, -l2
		}
		return l1 + l2, h1 + h2, ok1 && ok2
	}
	return 0, 0, false
}

type absFP struct {
	t    *TermTab
	memo map[*Term]*Term
	vars map[*Term]*Term
	fact []*Term
	has  map[*Term]bool
}

// heavy says whether x has a float computed from integers below it.
func (a *absFP) heavy(x *Term) bool {
	if h, ok := a.has[x]; ok {
		return h
	}
	h := x.Op == OSToF || x.Op == OUToF
	for _, y := range x.A {
		h = h || a.heavy(y)
	}
	a.has[x] = h
	return h
}

func (a *absFP) abs(x *Term) *Term {
	if !a.heavy(x) {
		return x
	}
	if y, ok := a.memo[x]; ok {
		return y
	}
	var y *Term
	if x.S == SF64 {
		if lo, hi, ok := a.t.frange(x); ok && x.Op != OFAdd && x.Op != OFSub {
			y = a.t.Var(fmt.Sprintf("abs!%d", x.id), SF64)
			a.vars[y] = x
			a.fact = append(a.fact, a.t.Bin(OFLe, SBool, a.t.F64(lo), y), a.t.Bin(OFLe, SBool, y, a.t.F64(hi)))
		}
	}
	if y == nil {
		args := make([]*Term, len(x.A))
		for i := range x.A {
			args[i] = a.abs(x.A[i])
		}
		y = a.t.mk(x.Op, x.S, x.C, x.Name, args...)
	}
	a.memo[x] = y
	return y
}

// absUnsat says that pc and extra have no common model, when that shows without
// knowing what the floats from integers are.
func (t *TermTab) absUnsat(s *Solver, pc []*Term, extra *Term) bool {
	if extra == nil {
		return false
	}
	a := &absFP{t: t, memo: map[*Term]*Term{}, vars: map[*Term]*Term{}, has: map[*Term]bool{}}
	if !a.heavy(extra) {
		return false
	}
	x := a.abs(extra)
	if len(a.vars) == 0 {
		return false
	}
	var q []*Term
	for _, c := range pc {
		if a.heavy(c) {
			q = append(q, a.abs(c))
		}
	}
	q = append(q, a.fact...)
	keep := q[:0]
	for _, c := range q {
		if c != t.True {
			keep = append(keep, c)
		}
	}
	r, _ := s.Check(t, keep, x)
	return r == Unsat
}
