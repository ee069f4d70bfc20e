package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is a Go value of the interpreted program.
//
//	scalars:     p==nil, n holds the bits (signed ints sign-extended,
//	             unsigned zero-extended, bool 0/1, float64 bits, float32 bits)
//	symbolic:    p is *Term
//	string:      p is string or *SymStr (p==nil means "")
//	pointer:     p is *Value (nil: p==nil) or *SymPtr
//	slice:       p is Slice (nil: p==nil)
//	struct/array:p is Agg
//	map, chan:   *MapV, *ChanV
//	func:        *ssa.Function, *Closure, *Native, *ssa.Builtin
//	interface:   *Iface (nil: p==nil)
//	tuple:       Tuple
type Value struct {
	n uint64
	p any
}

type Slice []Value
type Agg []Value
type Tuple []Value

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
}

// Native is a function implemented by the engine.
type Native struct {
	name string
	f    func(w *W, args []Value) Value
}

type SymPtr struct {
	arr []Value
	idx *Term
}

// Poison is the value of something the engine could not compute during
// package initialisation; using it is unsupported.
type Poison struct{ why string }

// SymStr is a string with symbolic parts; each element is a byte (concrete
// n, or *Term of 8 bits) or a *Hole.
type SymStr struct{ e []Value }

// Hole stands for the textual rendering of symbolic data.
type Hole struct {
	kind string // int, uint, f64, json, pb, esc
	fmt  byte
	prec int
	v    Value
	t    types.Type
	s    []Value
}

type unsupported struct{ msg string }

func unsup(format string, a ...any) { panic(unsupported{fmt.Sprintf(format, a...)}) }

type goPanic struct {
	v   Value // interface value
	msg string
}

type pathEnd struct{ why string }

var tNil = Value{}

func mkBool(b bool) Value  { return Value{n: b2u(b)} }
func mkInt(i int64) Value  { return Value{n: uint64(i)} }
func mkStr(s string) Value { return Value{p: s} }

// kinds

type Kind uint8

const (
	KInvalid Kind = iota
	KBool
	KInt
	KF64
	KF32
	KString
	KPtr
	KSlice
	KMap
	KChan
	KFunc
	KIface
	KStruct
	KArray
	KTuple
	KComplex
)

type tinfo struct {
	k      Kind
	w      Sort
	signed bool
}

func typeInfo(t types.Type) tinfo {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return tinfo{k: KBool}
		case types.Int, types.Int64, types.UntypedInt:
			return tinfo{KInt, 64, true}
		case types.Int32, types.UntypedRune:
			return tinfo{KInt, 32, true}
		case types.Int16:
			return tinfo{KInt, 16, true}
		case types.Int8:
			return tinfo{KInt, 8, true}
		case types.Uint, types.Uint64, types.Uintptr:
			return tinfo{KInt, 64, false}
		case types.Uint32:
			return tinfo{KInt, 32, false}
		case types.Uint16:
			return tinfo{KInt, 16, false}
		case types.Uint8:
			return tinfo{KInt, 8, false}
		case types.Float64, types.UntypedFloat:
			return tinfo{KF64, SF64, false}
		case types.Float32:
			return tinfo{KF32, 32, false}
		case types.String, types.UntypedString:
			return tinfo{k: KString}
		case types.UnsafePointer, types.UntypedNil:
			return tinfo{k: KPtr}
		case types.Complex128, types.Complex64:
			return tinfo{k: KComplex}
		}
		return tinfo{}
	case *types.Pointer:
		return tinfo{k: KPtr}
	case *types.Slice:
		return tinfo{k: KSlice}
	case *types.Map:
		return tinfo{k: KMap}
	case *types.Chan:
		return tinfo{k: KChan}
	case *types.Signature:
		return tinfo{k: KFunc}
	case *types.Interface:
		return tinfo{k: KIface}
	case *types.Struct:
		return tinfo{k: KStruct}
	case *types.Array:
		return tinfo{k: KArray}
	case *types.Tuple:
		return tinfo{k: KTuple}
	}
	return tinfo{}
}

func normInt(n uint64, t tinfo) uint64 {
	if t.w >= 64 {
		return n
	}
	if t.signed {
		return uint64(sext(n, t.w))
	}
	return n & mask(t.w)
}

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a := make(Agg, u.NumFields())
		for i := range a {
			a[i] = zero(u.Field(i).Type())
		}
		return Value{p: a}
	case *types.Array:
		a := make(Agg, u.Len())
		if u.Len() > 0 {
			z := zero(u.Elem())
			if _, ok := z.p.(Agg); ok {
				for i := range a {
					a[i] = zero(u.Elem())
				}
			} else if z.p != nil {
				for i := range a {
					a[i] = z
				}
			}
		}
		return Value{p: a}
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return Value{p: ""}
		}
		if u.Info()&types.IsComplex != 0 {
			return Value{p: complex128(0)}
		}
	case *types.Tuple:
		a := make(Tuple, u.Len())
		for i := range a {
			a[i] = zero(u.At(i).Type())
		}
		return Value{p: a}
	}
	return Value{}
}

func copyVal(v Value) Value {
	if a, ok := v.p.(Agg); ok {
		b := make(Agg, len(a))
		for i := range a {
			if _, ok := a[i].p.(Agg); ok {
				b[i] = copyVal(a[i])
			} else {
				b[i] = a[i]
			}
		}
		return Value{p: b}
	}
	return v
}

// ---- memory ----

type undoEnt struct {
	slot *Value
	old  Value
	f    func()
}

func (w *W) set(addr *Value, v Value) {
	if w.logging {
		w.undo = append(w.undo, undoEnt{slot: addr, old: *addr})
	}
	*addr = v
}

func (w *W) logf(f func()) {
	if w.logging {
		w.undo = append(w.undo, undoEnt{f: f})
	}
}

func (w *W) store(addr *Value, v Value) {
	if src, ok := v.p.(Agg); ok {
		dst, ok := addr.p.(Agg)
		if ok && len(dst) == len(src) {
			for i := range src {
				w.store(&dst[i], src[i])
			}
			return
		}
		w.set(addr, copyVal(v))
		return
	}
	w.set(addr, v)
}

func (w *W) rollback() {
	for i := len(w.undo) - 1; i >= 0; i-- {
		u := &w.undo[i]
		if u.slot != nil {
			*u.slot = u.old
		} else {
			u.f()
		}
		*u = undoEnt{}
	}
	w.undo = w.undo[:0]
}

// ---- strings ----

func (s *SymStr) norm() Value {
	for i := range s.e {
		if s.e[i].p != nil {
			return Value{p: s}
		}
	}
	b := make([]byte, len(s.e))
	for i := range s.e {
		b[i] = byte(s.e[i].n)
	}
	return Value{p: string(b)}
}

func strElems(v Value) []Value {
	switch s := v.p.(type) {
	case nil:
		return nil
	case string:
		e := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			e[i].n = uint64(s[i])
		}
		return e
	case *SymStr:
		return s.e
	case Slice:
		return []Value(s)
	case *Poison:
		unsup("poisoned string: %s", s.why)
	}
	unsup("not a string: %T", v.p)
	return nil
}

func elemsToStr(e []Value) Value {
	for i := range e {
		if e[i].p != nil {
			c := make([]Value, len(e))
			copy(c, e)
			return Value{p: &SymStr{c}}
		}
	}
	b := make([]byte, len(e))
	for i := range e {
		b[i] = byte(e[i].n)
	}
	return Value{p: string(b)}
}

// conStr returns the concrete string, if v is one.
func conStr(v Value) (string, bool) {
	switch s := v.p.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	case Slice:
		b := make([]byte, len(s))
		for i := range s {
			if s[i].p != nil {
				return "", false
			}
			b[i] = byte(s[i].n)
		}
		return string(b), true
	}
	return "", false
}

func mustStr(v Value, what string) string {
	s, ok := conStr(v)
	if !ok {
		unsup("%s: symbolic string", what)
	}
	return s
}

func strLen(v Value) int {
	switch s := v.p.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.e)
	case Slice:
		return len(s)
	case *Poison:
		unsup("poisoned string: %s", s.why)
	}
	unsup("len of %T", v.p)
	return 0
}

func bytesVal(b []byte) Value {
	s := make(Slice, len(b))
	for i := range b {
		s[i].n = uint64(b[i])
	}
	return Value{p: s}
}

func concatStr(a, b Value) Value {
	x, ok1 := conStr(a)
	y, ok2 := conStr(b)
	if ok1 && ok2 {
		return Value{p: x + y}
	}
	ea, eb := strElems(a), strElems(b)
	e := make([]Value, 0, len(ea)+len(eb))
	e = append(e, ea...)
	e = append(e, eb...)
	return Value{p: &SymStr{e}}
}

// ---- maps ----

type mapEnt struct {
	k, v    Value
	deleted bool
}

type MapV struct {
	ents   []*mapEnt
	idx    map[string]*mapEnt // concrete keys only
	nsym   int                // live entries with symbolic keys
	n      int
	kt, vt types.Type
	// race detection
	sh Value
}

func newMap(t *types.Map) *MapV {
	return &MapV{idx: map[string]*mapEnt{}, kt: t.Key(), vt: t.Elem()}
}

// ckey gives a canonical string for a fully concrete key, ok=false if
// symbolic.
func (w *W) ckey(v Value, t types.Type) (string, bool) {
	switch typeInfo(t).k {
	case KString:
		s, ok := conStr(v)
		return s, ok
	case KIface:
		i, ok := v.p.(*Iface)
		if !ok {
			return "nil", true
		}
		if !types.Comparable(i.t) {
			panic(w.rtPanic("runtime error: hash of unhashable type " + i.t.String()))
		}
		s, ok := w.ckey(i.v, i.t)
		return w.typeID(i.t) + "\x00" + s, ok
	case KStruct:
		st := t.Underlying().(*types.Struct)
		var sb strings.Builder
		for i, f := range v.p.(Agg) {
			s, ok := w.ckey(f, st.Field(i).Type())
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s", len(s), s)
		}
		return sb.String(), true
	case KArray:
		at := t.Underlying().(*types.Array)
		var sb strings.Builder
		for _, f := range v.p.(Agg) {
			s, ok := w.ckey(f, at.Elem())
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s", len(s), s)
		}
		return sb.String(), true
	case KPtr, KChan, KFunc:
		return fmt.Sprintf("%p/%d", v.p, v.n), true
	case KF64:
		if v.p != nil {
			return "", false
		}
		if v.n == 1<<63 {
			v.n = 0
		}
		return fmt.Sprint(v.n), true
	default:
		if p, ok := v.p.(*Poison); ok {
			unsup("poison map key %s", p.why)
		}
		if v.p != nil {
			return "", false
		}
		return fmt.Sprint(v.n), true
	}
}

func (w *W) mapFind(m *MapV, k Value) *mapEnt {
	if m == nil {
		return nil
	}
	s, ok := w.ckey(k, m.kt)
	if ok {
		if e := m.idx[s]; e != nil {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
		for _, e := range m.ents {
			if e.deleted {
				continue
			}
			if _, c := w.ckey(e.k, m.kt); c {
				continue
			}
			if w.branch(w.eq(e.k, k, m.kt)) {
				return e
			}
		}
		return nil
	}
	for _, e := range m.ents {
		if e.deleted {
			continue
		}
		if w.branch(w.eq(e.k, k, m.kt)) {
			return e
		}
	}
	return nil
}

func (w *W) mapSet(m *MapV, k, v Value) {
	e := w.mapFind(m, k)
	if e != nil {
		w.store(&e.v, v)
		return
	}
	e = &mapEnt{k: copyVal(k), v: copyVal(v)}
	s, ok := w.ckey(k, m.kt)
	if ok {
		m.idx[s] = e
	} else {
		m.nsym++
	}
	m.ents = append(m.ents, e)
	m.n++
	w.logf(func() {
		// undone in reverse order: e is the last entry
		m.ents = m.ents[:len(m.ents)-1]
		m.n--
		if ok {
			delete(m.idx, s)
		} else {
			m.nsym--
		}
	})
}

func (w *W) mapDelete(m *MapV, k Value) {
	e := w.mapFind(m, k)
	if e == nil {
		return
	}
	s, ok := w.ckey(e.k, m.kt)
	e.deleted = true
	m.n--
	if ok {
		delete(m.idx, s)
	} else {
		m.nsym--
	}
	w.logf(func() {
		e.deleted = false
		m.n++
		if ok {
			m.idx[s] = e
		} else {
			m.nsym++
		}
	})
}

func (w *W) mapClear(m *MapV) {
	for _, e := range append([]*mapEnt{}, m.ents...) {
		if !e.deleted {
			e := e
			s, ok := w.ckey(e.k, m.kt)
			e.deleted = true
			m.n--
			if ok {
				delete(m.idx, s)
			} else {
				m.nsym--
			}
			w.logf(func() {
				e.deleted = false
				m.n++
				if ok {
					m.idx[s] = e
				} else {
					m.nsym++
				}
			})
		}
	}
}

// sorted live entries (by key) for printing
func (w *W) mapSorted(m *MapV) []*mapEnt {
	var es []*mapEnt
	for _, e := range m.ents {
		if !e.deleted {
			es = append(es, e)
		}
	}
	if typeInfo(m.kt).k == KString {
		// symbolic keys compare by forking
		sort.SliceStable(es, func(i, j int) bool {
			return w.branch(w.strLess(es[i].k, es[j].k))
		})
	} else if typeInfo(m.kt).k == KInt {
		ti := typeInfo(m.kt)
		sort.SliceStable(es, func(i, j int) bool {
			op := OULt
			if ti.signed {
				op = OSLt
			}
			return w.branch(w.tt.Bin(op, SBool, w.term(es[i].k, ti), w.term(es[j].k, ti)))
		})
	}
	return es
}

type mapIter struct {
	m    *MapV
	i    int
	perm []*mapEnt // remaining, for nondeterministic order
	nd   bool
}

type strIter struct {
	e []Value
	s string
	c bool
	i int
}

// ---- channels ----

type ChanV struct {
	buf    []Value
	cap    int
	closed bool
	et     types.Type
	id     int
	sendq  []*waiter
	recvq  []*waiter
	vc     VC // happens-before, buffered approximation
	vcs    []VC
	timer  *timer
}

type waiter struct {
	g    *G
	val  Value // value to send
	done bool
	// for receivers
	got   Value
	ok    bool
	sel   *selState
	which int
}

type selState struct {
	fired       bool
	which       int
	got         Value
	ok          bool
	panicClosed bool
}
