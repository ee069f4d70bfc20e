package main

// Intrinsics: harness API, sync, atomic, time, errors, runtime.

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Intrinsic func(w *W, g *G, fr *Frame, args []Value) (Value, bool)

type simpleI func(w *W, a []Value) Value

var intrTab = map[string]Intrinsic{}

func reg(name string, f Intrinsic) { intrTab[name] = f }

func regS(name string, f simpleI) {
	intrTab[name] = func(w *W, g *G, fr *Frame, a []Value) (Value, bool) { return f(w, a), false }
}

const modP = "code.cloudfoundry.org/log-cache"
const symP = modP + "/internal/zzverif/sym."

func lookupIntrinsic(name string) Intrinsic { return intrTab[name] }

var noopPrefixes = []string{
	"log.", "(*log.Logger).", "github.com/golang/protobuf/proto.Register", "google.golang.org/grpc/grpclog.",
	"golang.org/x/net/trace.", "expvar.", "runtime.SetFinalizer", "runtime.GC", "runtime.KeepAlive", "runtime.Gosched",
	"internal/race.", "internal/godebug.", "(*internal/godebug.Setting).",
	"runtime/debug.",
}

var noopFuncs = map[string]bool{
	"internal/poll.runtime_isPollServerDescriptor": true,
	"time.runtimeNano": true,
}

func tup(v ...Value) Value { return Value{p: Tuple(v)} }

// ---- small helpers ----

func (w *W) binopInt(op string, a, b Value) Value {
	if a.p == nil && b.p == nil {
		x, y := int64(a.n), int64(b.n)
		switch op {
		case "<":
			return mkBool(x < y)
		case "<=":
			return mkBool(x <= y)
		case "+":
			return mkInt(x + y)
		case "-":
			return mkInt(x - y)
		case "*":
			return mkInt(x * y)
		case "==":
			return mkBool(x == y)
		}
	}
	s, t := w.term(a, tiInt), w.term(b, tiInt)
	switch op {
	case "<":
		return w.bv(w.tt.Bin(OSLt, SBool, s, t))
	case "<=":
		return w.bv(w.tt.Bin(OSLe, SBool, s, t))
	case "+":
		return w.iv(w.tt.Bin(OAdd, 64, s, t), tiInt)
	case "-":
		return w.iv(w.tt.Bin(OSub, 64, s, t), tiInt)
	case "*":
		return w.iv(w.tt.Bin(OMul, 64, s, t), tiInt)
	case "==":
		return w.bv(w.tt.Eq(s, t))
	}
	panic("binopInt " + op)
}

func r3(x float64) float64 {
	y, _ := strconv.ParseFloat(strconv.FormatFloat(x, 'f', 3, 64), 64)
	return y
}

func (w *W) addInput(name, kind string, t *Term) {
	w.inputs = append(w.inputs, inputRec{Name: name, Kind: kind, t: t})
}

func (w *W) mkErr(msg Value) Value {
	t := w.eng.typ("errors", "errorString")
	p := &Value{p: Agg{msg}}
	return Value{p: &Iface{t: types.NewPointer(t), v: Value{p: p}}}
}

func (w *W) errStr(s string) Value { return w.mkErr(mkStr(s)) }

func newObj(v Value) Value { return Value{p: &v} }

func fieldIdx(t types.Type, name string) int {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	panic(unsupported{"no field " + name + " in " + t.String()})
}

func (w *W) symInput(name, kind string, s Sort, ti tinfo) Value {
	n := w.fresh(name)
	t := w.tt.Var(n, s)
	w.addInput(n, kind, t)
	return Value{p: t}
}

func (w *W) symStr(name string, n int, alphabet string) Value {
	nm := w.fresh(name)
	rec := inputRec{Name: nm, Kind: "str"}
	e := make([]Value, n)
	for i := 0; i < n; i++ {
		t := w.tt.Var(fmt.Sprintf("%s[%d]", nm, i), 8)
		rec.sub = append(rec.sub, t)
		e[i] = Value{p: t}
	}
	w.inputs = append(w.inputs, rec)
	for _, t := range rec.sub {
		if alphabet != "" {
			c := w.tt.False
			// ranges of consecutive characters
			for i := 0; i < len(alphabet); {
				j := i
				for j+1 < len(alphabet) && alphabet[j+1] == alphabet[j]+1 {
					j++
				}
				var r *Term
				if i == j {
					r = w.tt.Eq(t, w.tt.BV(uint64(alphabet[i]), 8))
				} else {
					r = w.tt.And(w.tt.Bin(OULe, SBool, w.tt.BV(uint64(alphabet[i]), 8), t), w.tt.Bin(OULe, SBool, t, w.tt.BV(uint64(alphabet[j]), 8)))
				}
				c = w.tt.Or(c, r)
				i = j + 1
			}
			w.assume(c)
		}
	}
	if n == 0 {
		return mkStr("")
	}
	return Value{p: &SymStr{e}}
}

func (w *W) symChoice(name string, n int) int {
	nm := w.fresh(name)
	k := w.choose(n, nm)
	w.inputs = append(w.inputs, inputRec{Name: nm, Kind: "choice", n: uint64(k)})
	return k
}

func init() {
	regS(symP+"Int64", func(w *W, a []Value) Value {
		return w.symInput(mustStr(a[0], "name"), "i64", 64, tiInt)
	})
	regS(symP+"Uint64", func(w *W, a []Value) Value {
		return w.symInput(mustStr(a[0], "name"), "u64", 64, tiInt)
	})
	regS(symP+"Byte", func(w *W, a []Value) Value {
		return w.symInput(mustStr(a[0], "name"), "u64", 8, tiByte)
	})
	regS(symP+"Int64Range", func(w *W, a []Value) Value {
		if a[1].p == nil && a[2].p == nil {
			lo, hi := int64(a[1].n), int64(a[2].n)
			if span := uint64(hi) - uint64(lo); lo < hi && span < 1<<62 {
				n := w.fresh(mustStr(a[0], "name"))
				v := w.tt.RVar(fmt.Sprintf("%s~%x", n, span), span)
				t := w.tt.Bin(OAdd, 64, w.tt.ZExt(64, v), w.tt.BV(uint64(lo), 64))
				w.addInput(n, "i64", t)
				if span&(span+1) != 0 {
					w.addPC(w.tt.Bin(OULe, SBool, v, w.tt.BV(span, v.S)))
				}
				return Value{p: t}
			}
		}
		v := w.symInput(mustStr(a[0], "name"), "i64", 64, tiInt)
		t := v.p.(*Term)
		w.assume(w.tt.And(w.tt.Bin(OSLe, SBool, w.term(a[1], tiInt), t), w.tt.Bin(OSLe, SBool, t, w.term(a[2], tiInt))))
		return v
	})
	regS(symP+"Int", func(w *W, a []Value) Value { // concrete, enumerated
		lo, hi := int64(a[1].n), int64(a[2].n)
		return mkInt(lo + int64(w.symChoice(mustStr(a[0], "name"), int(hi-lo+1))))
	})
	regS(symP+"Choice", func(w *W, a []Value) Value {
		return mkInt(int64(w.symChoice(mustStr(a[0], "name"), int(a[1].n))))
	})
	regS(symP+"Flag", func(w *W, a []Value) Value { // concrete bool, enumerated
		return mkBool(w.symChoice(mustStr(a[0], "name"), 2) == 1)
	})
	regS(symP+"Bool", func(w *W, a []Value) Value {
		n := w.fresh(mustStr(a[0], "name"))
		t := w.tt.Var(n, SBool)
		w.addInput(n, "bool", t)
		return Value{p: t}
	})
	regS(symP+"Float64", func(w *W, a []Value) Value {
		n := w.fresh(mustStr(a[0], "name"))
		// made of its bits, so that these can be taken
		t := w.tt.Un(OFFromBits, SF64, w.tt.Var(n, 64))
		w.addInput(n, "f64", t)
		return Value{p: t}
	})
	regS(symP+"Str", func(w *W, a []Value) Value {
		return w.symStr(mustStr(a[0], "name"), int(a[1].n), "")
	})
	regS(symP+"StrOf", func(w *W, a []Value) Value {
		return w.symStr(mustStr(a[0], "name"), int(a[1].n), mustStr(a[2], "alphabet"))
	})
	regS(symP+"Assume", func(w *W, a []Value) Value { w.assume(w.boolTerm(a[0])); return Value{} })
	regS(symP+"Assert", func(w *W, a []Value) Value { w.check(w.boolTerm(a[0]), mustStr(a[1], "msg")); return Value{} })
	regS(symP+"Fail", func(w *W, a []Value) Value { w.check(w.tt.False, mustStr(a[0], "msg")); return Value{} })
	regS(symP+"Cover", func(w *W, a []Value) Value {
		w.covers = append(w.covers, mustStr(a[0], "label"))
		return Value{}
	})
	regS(symP+"Expect", func(w *W, a []Value) Value {
		w.h.mu.Lock()
		for _, v := range a[0].p.(Slice) {
			s, _ := conStr(v)
			w.h.expect[s] = true
		}
		w.h.mu.Unlock()
		return Value{}
	})
	regS(symP+"And", func(w *W, a []Value) Value {
		r := w.tt.True
		for _, v := range variadic(a[0]) {
			r = w.tt.And(r, w.boolTerm(v))
		}
		return w.bv(r)
	})
	regS(symP+"Or", func(w *W, a []Value) Value {
		r := w.tt.False
		for _, v := range variadic(a[0]) {
			r = w.tt.Or(r, w.boolTerm(v))
		}
		return w.bv(r)
	})
	regS(symP+"Not", func(w *W, a []Value) Value { return w.bv(w.tt.Not(w.boolTerm(a[0]))) })
	regS(symP+"Implies", func(w *W, a []Value) Value {
		return w.bv(w.tt.Or(w.tt.Not(w.boolTerm(a[0])), w.boolTerm(a[1])))
	})
	regS(symP+"Iff", func(w *W, a []Value) Value { return w.bv(w.tt.Eq(w.boolTerm(a[0]), w.boolTerm(a[1]))) })
	regS(symP+"IteInt64", func(w *W, a []Value) Value {
		return w.iv(w.tt.Ite(w.boolTerm(a[0]), w.term(a[1], tiInt), w.term(a[2], tiInt)), tiInt)
	})
	regS(symP+"SameFloat", func(w *W, a []Value) Value {
		return w.bv(w.tt.Eq(w.term(a[0], tiF64), w.term(a[1], tiF64)))
	})
	regS(symP+"EqStr", func(w *W, a []Value) Value { return w.bv(w.strEq(a[0], a[1])) })
	regS(symP+"EqBytes", func(w *W, a []Value) Value { return w.bv(w.strEq(elemsToStr(sl(a[0])), elemsToStr(sl(a[1])))) })
	regS(symP+"Native", func(w *W, a []Value) Value { return mkBool(false) })
	regS(symP+"Thorough", func(w *W, a []Value) Value { return mkBool(w.eng.tier == "thorough") })
	regS(symP+"Bound", func(w *W, a []Value) Value {
		v := a[1]
		if w.eng.tier == "thorough" {
			v = a[2]
		}
		w.h.bound(mustStr(a[0], "bound"), int(v.n))
		return v
	})
	regS(symP+"Preemptions", func(w *W, a []Value) Value {
		w.conc = int(a[0].n)
		w.concOn = true
		return Value{}
	})
	regS(symP+"Races", func(w *W, a []Value) Value {
		w.race = true
		w.tick(w.cur)
		return Value{}
	})
	regS(symP+"MapOrder", func(w *W, a []Value) Value { w.mapND = true; return Value{} })
	reg(symP+"Yield", func(w *W, g *G, fr *Frame, a []Value) (Value, bool) {
		return Value{}, w.schedPoint(g)
	})
	reg(symP+"Wait", func(w *W, g *G, fr *Frame, a []Value) (Value, bool) {
		if g.wake {
			g.wake = false
			return Value{}, false
		}
		w.block(g, symWaitKey, "sym.Wait")
		return Value{}, true
	})
	regS(symP+"Concrete", func(w *W, a []Value) Value { return mkInt(w.concInt(a[0], "sym.Concrete")) })

	// runtime and friends
	regS("internal/abi.NoEscape", func(w *W, a []Value) Value { return a[0] })
	regS("internal/abi.Escape", func(w *W, a []Value) Value { return a[0] })
	regS("strings.noescape", func(w *W, a []Value) Value { return a[0] })
	regS("runtime.Caller", func(w *W, a []Value) Value { return tup(Value{}, mkStr("?"), Value{}, mkBool(false)) })
	regS("runtime.Stack", func(w *W, a []Value) Value { return mkInt(0) })
	regS("runtime.ReadMemStats", func(w *W, a []Value) Value {
		st := w.eng.typ("runtime", "MemStats")
		w.ptr(a[0]).p.(Agg)[fieldIdx(st, "HeapInuse")] = mkInt(1 << 20)
		return Value{}
	})
	regS("google.golang.org/grpc/internal/channelz.IsOn", func(w *W, a []Value) Value { return mkBool(false) })
	regS("runtime.NumGoroutine", func(w *W, a []Value) Value { return mkInt(1) })
	regS("runtime.NumCPU", func(w *W, a []Value) Value { return mkInt(8) })
	// math/rand: any value
	for _, p := range []string{"math/rand.", "(*math/rand.Rand).", "math/rand/v2.", "(*math/rand/v2.Rand)."} {
		recv := 0
		if p[0] == '(' {
			recv = 1
		}
		for _, f := range []string{"Intn", "Int31n", "Int63n", "IntN", "Int32N", "Int64N", "Uint64N", "Uint32N", "UintN", "N"} {
			regS(p+f, func(w *W, a []Value) Value {
				w.random = true
				n := a[recv]
				if n.p != nil {
					unsup("random number below a symbolic bound")
				}
				if int64(n.n) <= 0 {
					unsup("random number below nothing")
				}
				if n.n <= 16 {
					return mkInt(int64(w.choose(int(n.n), "random")))
				}
				v := w.tt.RVar(fmt.Sprintf("%s~%x", w.fresh("random"), n.n-1), n.n-1)
				if n.n&(n.n-1) != 0 {
					w.addPC(w.tt.Bin(OULe, SBool, v, w.tt.BV(n.n-1, v.S)))
				}
				return Value{p: w.tt.ZExt(64, v)}
			})
		}
	}
	for _, f := range []string{"math/rand.runtime_rand", "math/rand/v2.runtime_rand"} {
		regS(f, func(w *W, a []Value) Value {
			w.random = true
			return Value{p: w.tt.Var(w.fresh("random"), 64)}
		})
	}
	reg("runtime.Gosched", func(w *W, g *G, fr *Frame, a []Value) (Value, bool) { return Value{}, w.schedPoint(g) })
	regS("os.Getenv", func(w *W, a []Value) Value { return mkStr("") })
	regS("os.Getpid", func(w *W, a []Value) Value { return mkInt(4242) })
	regS("math.Float64bits", func(w *W, a []Value) Value {
		if t, ok := a[0].p.(*Term); ok {
			if t.Op == OFFromBits {
				return w.iv(t.A[0], tinfo{KInt, 64, false})
			}
			b := w.tt.Var(w.fresh("bits"), 64)
			w.assume(w.tt.Eq(w.tt.Un(OFFromBits, SF64, b), t))
			return Value{p: b}
		}
		return a[0]
	})
	regS("math.Float64frombits", func(w *W, a []Value) Value {
		if t, ok := a[0].p.(*Term); ok {
			return Value{p: w.tt.Un(OFFromBits, SF64, t)}
		}
		return a[0]
	})
	regS("math.Float32bits", func(w *W, a []Value) Value { return a[0] })
	regS("math.Float32frombits", func(w *W, a []Value) Value { return a[0] })
	regS("math.IsNaN", func(w *W, a []Value) Value {
		return w.bv(w.tt.Un(OFIsNaN, SBool, w.term(a[0], tiF64)))
	})
	regS("math.IsInf", func(w *W, a []Value) Value {
		x := w.term(a[0], tiF64)
		s := w.concInt(a[1], "IsInf sign")
		r := w.tt.Un(OFIsInf, SBool, x)
		if s > 0 {
			r = w.tt.And(r, w.tt.Bin(OFLt, SBool, w.tt.F64(0), x))
		} else if s < 0 {
			r = w.tt.And(r, w.tt.Bin(OFLt, SBool, x, w.tt.F64(0)))
		}
		return w.bv(r)
	})
	regS("math.Abs", func(w *W, a []Value) Value { return w.fromTerm(w.tt.Un(OFAbs, SF64, w.term(a[0], tiF64)), tiF64) })
	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Sqrt": math.Sqrt, "Log": math.Log, "Exp": math.Exp, "Round": math.Round} {
		n, f := n, f
		regS("math."+n, func(w *W, a []Value) Value {
			x, ok := w.known(a[0], tellingRound)
			if !ok {
				unsup("math.%s of a symbolic float", n)
			}
			return Value{n: math.Float64bits(f(x))}
		})
	}
	for n, f := range map[string]func(a, b float64) float64{"Max": math.Max, "Min": math.Min} {
		n, f := n, f
		regS("math."+n, func(w *W, a []Value) Value {
			x, ok := w.known(a[0], tellingRound)
			y, ok2 := w.known(a[1], tellingRound)
			if !ok || !ok2 {
				unsup("math.%s of a symbolic float", n)
			}
			return Value{n: math.Float64bits(f(x, y))}
		})
	}
	regS("math.Pow", func(w *W, a []Value) Value {
		if a[0].p != nil || a[1].p != nil {
			unsup("math.Pow of a symbolic float")
		}
		return Value{n: math.Float64bits(math.Pow(math.Float64frombits(a[0].n), math.Float64frombits(a[1].n)))}
	})
	regS("math.Modf", func(w *W, a []Value) Value {
		if a[0].p != nil {
			unsup("math.Modf of a symbolic float")
		}
		i, f := math.Modf(math.Float64frombits(a[0].n))
		return tup(Value{n: math.Float64bits(i)}, Value{n: math.Float64bits(f)})
	})
	regS("context.WithValue", func(w *W, a []Value) Value {
		if a[0].p == nil {
			panic(w.rtPanic("cannot create context from nil parent"))
		}
		if a[1].p == nil {
			panic(w.rtPanic("nil key"))
		}
		if !types.Comparable(a[1].p.(*Iface).t) {
			panic(w.rtPanic("key is not comparable"))
		}
		t := w.eng.typ("context", "valueCtx")
		return Value{p: &Iface{t: types.NewPointer(t), v: newObj(Value{p: Agg{a[0], a[1], a[2]}})}}
	})
	regErrors()
	regSync()
	regCrypto()
	regAtomic()
	regTime()
}

type keyT struct{ s string }

var symWaitKey = &keyT{"symwait"}

func variadic(v Value) []Value {
	s, _ := v.p.(Slice)
	return s
}

func sl(v Value) []Value {
	switch s := v.p.(type) {
	case Slice:
		return s
	case nil:
		return nil
	}
	return strElems(v)
}

// ---- errors ----

func (w *W) unwrapErr(e Value) []Value {
	ifc, ok := e.p.(*Iface)
	if !ok {
		return nil
	}
	m := w.methodByName(ifc.t, "Unwrap")
	if m == nil {
		return nil
	}
	r := w.callSync(Value{p: m}, ifc.v)
	if s, ok := r.p.(Slice); ok {
		return s
	}
	if r.p == nil {
		return nil
	}
	return []Value{r}
}

func (w *W) errorsIs(e, target Value) bool {
	if e.p == nil || target.p == nil {
		return e.p == nil && target.p == nil
	}
	ie, it := e.p.(*Iface), target.p.(*Iface)
	if types.Comparable(it.t) && w.identical(ie.t, it.t) && w.branch(w.eq(ie.v, it.v, ie.t)) {
		return true
	}
	if m := w.methodByName(ie.t, "Is"); m != nil && m.Signature.Params().Len() == 1 {
		if w.branchV(w.callSync(Value{p: m}, ie.v, target)) {
			return true
		}
	}
	for _, u := range w.unwrapErr(e) {
		if u.p != nil && w.errorsIs(u, target) {
			return true
		}
	}
	return false
}

func (w *W) errorsAs(e, target Value) bool {
	if e.p == nil {
		return false
	}
	tp := target.p.(*Iface)
	el := tp.t.Underlying().(*types.Pointer).Elem()
	for e.p != nil {
		ie := e.p.(*Iface)
		if it, ok := el.Underlying().(*types.Interface); ok {
			if w.implements(ie.t, it) {
				w.store(w.ptr(tp.v), e)
				return true
			}
		} else if w.identical(ie.t, el) {
			w.store(w.ptr(tp.v), ie.v)
			return true
		}
		if m := w.methodByName(ie.t, "As"); m != nil && m.Signature.Params().Len() == 1 {
			if w.branchV(w.callSync(Value{p: m}, ie.v, target)) {
				return true
			}
		}
		us := w.unwrapErr(e)
		if len(us) == 0 {
			return false
		}
		if len(us) > 1 {
			for _, u := range us {
				if w.errorsAs(u, target) {
					return true
				}
			}
			return false
		}
		e = us[0]
	}
	return false
}

func regErrors() {
	regS("errors.Is", func(w *W, a []Value) Value { return mkBool(w.errorsIs(a[0], a[1])) })
	regS("errors.As", func(w *W, a []Value) Value { return mkBool(w.errorsAs(a[0], a[1])) })
	regS("errors.Unwrap", func(w *W, a []Value) Value {
		u := w.unwrapErr(a[0])
		if len(u) != 1 {
			return Value{}
		}
		return u[0]
	})
	// run-time errors
	regS("(runtime.errorString).Error", func(w *W, a []Value) Value { return a[0] })
	regS("(runtime.plainError).Error", func(w *W, a []Value) Value { return a[0] })
	regS("(runtime.errorString).RuntimeError", func(w *W, a []Value) Value { return Value{} })
}

// ---- sync ----

type mutexSt struct {
	locked  bool
	readers int
	wwait   int
}

type onceSt struct {
	done, running bool
}

type wgSt struct{ n int64 }

func sideOf[T any](w *W, key any, mk func() T) T {
	if v, ok := w.side[key]; ok {
		return v.(T)
	}
	v := mk()
	w.side[key] = v
	return v
}

type sideKey struct {
	p    *Value
	kind string
}

func (w *W) mutexOf(v Value) (*mutexSt, *Value) {
	p := w.ptr(v)
	return sideOf(w, sideKey{p, "mu"}, func() *mutexSt { return &mutexSt{} }), p
}

func regSync() {
	lock := func(w *W, g *G, fr *Frame, a []Value) (Value, bool) {
		if w.schedPoint(g) {
			return Value{}, true
		}
		m, p := w.mutexOf(a[0])
		if m.locked || m.readers > 0 {
			if !m.locked && m.readers > 0 {
				m.wwait++
			}
			w.block(g, p, "mutex lock")
			return Value{}, true
		}
		m.locked = true
		w.acquire(g, p)
		return Value{}, false
	}
	unlock := func(w *W, g *G, fr *Frame, a []Value) (Value, bool) {
		if w.schedPoint(g) {
			return Value{}, true
		}
		m, p := w.mutexOf(a[0])
		if !m.locked {
			w.violation("fatal error: unlock of unlocked mutex", "fatal")
			panic(pathEnd{"fatal"})
		}
		m.locked = false
		m.wwait = 0
		w.release(g, p)
		w.wakeAll(p)
		return Value{}, false
	}
	reg("(*sync.Mutex).Lock", lock)
	reg("(*sync.Mutex).Unlock", unlock)
	reg("(*sync.Mutex).TryLock", func(w *W, g *G, fr *Frame, a []Value) (Value, bool) {
		if w.schedPoint(g) {
			return Value{}, true
		}
		m, p := w.mutexOf(a[0])
		if m.locked || m.readers > 0 {
			return mkBool(false), false
		}
		m.locked = true
		w.acquire(g, p)
		return mkBool(true), false
	})
	reg("(*sync.RWMutex).Lock", lock)
	reg("(*sync.RWMutex).Unlock", unlock)
	reg("(*sync.RWMutex).RLock", func(w *W, g *G, fr *Frame, a []Value) (Value, bool) {
		if w.schedPoint(g) {
			return Value{}, true
		}
		m, p := w.mutexOf(a[0])
		if m.locked || m.wwait > 0 {
			w.block(g, p, "rwmutex rlock")
			return Value{}, true
		}
		m.readers++
		w.acquire(g, p)
		return Value{}, false
	})
	reg("(*sync.RWMutex).RUnlock", func(w *W, g *G, fr *Frame, a []Value) (Value, bool) {
		if w.schedPoint(g) {
			return Value{}, true
		}
		m, p := w.mutexOf(a[0])
		if m.readers <= 0 {
			w.violation("fatal error: RUnlock of unlocked RWMutex", "fatal")
			panic(pathEnd{"fatal"})
		}
		m.readers--
		w.release(g, p)
		if m.readers == 0 {
			m.wwait = 0
			w.wakeAll(p)
		}
		return Value{}, false
	})
	// WaitGroup
	wgOf := func(w *W, v Value) (*wgSt, *Value) {
		p := w.ptr(v)
		return sideOf(w, sideKey{p, "wg"}, func() *wgSt { return &wgSt{} }), p
	}
	add := func(w *W, g *G, v Value, d int64) {
		s, p := wgOf(w, v)
		s.n += d
		if s.n < 0 {
			panic(goPanic{v: Value{p: &Iface{t: types.Typ[types.String], v: mkStr("sync: negative WaitGroup counter")}}})
		}
		w.release(g, p)
		if s.n == 0 {
			w.wakeAll(p)
		}
	}
	reg("(*sync.WaitGroup).Add", func(w *W, g *G, fr *Frame, a []Value) (Value, bool) {
		add(w, g, a[0], int64(a[1].n))
		return Value{}, false
	})
	reg("(*sync.WaitGroup).Done", func(w *W, g *G, fr *Frame, a []Value) (Value, bool) {
		if w.schedPoint(g) {
			return Value{}, true
		}
		add(w, g, a[0], -1)
		return Value{}, false
	})
	reg("(*sync.WaitGroup).Wait", func(w *W, g *G, fr *Frame, a []Value) (Value, bool) {
		if w.schedPoint(g) {
			return Value{}, true
		}
		s, p := wgOf(w, a[0])
		if s.n > 0 {
			w.block(g, p, "WaitGroup.Wait")
			return Value{}, true
		}
		w.acquire(g, p)
		return Value{}, false
	})
	// Once: the callback runs as a tail call of a model function in the sym
	// package (see harness/sym), so that it may block.
	reg("(*sync.Once).Do", func(w *W, g *G, fr *Frame, a []Value) (Value, bool) {
		if w.schedPoint(g) {
			return Value{}, true
		}
		p := w.ptr(a[0])
		s := sideOf(w, sideKey{p, "once"}, func() *onceSt { return &onceSt{} })
		if w.initing {
			// persistent
			ps := w.onceInit(p)
			if *ps {
				return Value{}, false
			}
			*ps = true
			w.callSync(a[1])
			return Value{}, false
		}
		if *w.onceInit(p) {
			return Value{}, false
		}
		if s.done {
			w.acquire(g, p)
			return Value{}, false
		}
		if s.running {
			w.block(g, p, "Once.Do")
			return Value{}, true
		}
		s.running = true
		fin := &Native{name: "once.finish", f: func(w *W, _ []Value) Value {
			s.done, s.running = true, false
			w.release(w.cur, p)
			w.wakeAll(p)
			return Value{}
		}}
		f := w.eng.findFunc(modP+"/internal/zzverif/sym", "OnceModel")
		return Value{p: tailcall{f: Value{p: f}, args: []Value{a[1], {p: fin}}}}, false
	})
	regS("(*sync.Pool).Get", func(w *W, a []Value) Value {
		p := w.ptr(a[0])
		agg := p.p.(Agg)
		t := w.eng.typ("sync", "Pool")
		nf := agg[fieldIdx(t, "New")]
		if nf.p == nil {
			return Value{}
		}
		return w.callSync(nf)
	})
	regS("(*sync.Pool).Put", func(w *W, a []Value) Value { return Value{} })
	// sync.Map
	mOf := func(w *W, v Value) (*MapV, *Value) {
		p := w.ptr(v)
		return sideOf(w, sideKey{p, "map"}, func() *MapV {
			e := types.NewInterfaceType(nil, nil)
			return newMap(types.NewMap(e, e))
		}), p
	}
	type mf func(w *W, g *G, m *MapV, p *Value, a []Value) Value
	regM := func(n string, f mf) {
		reg("(*sync.Map)."+n, func(w *W, g *G, fr *Frame, a []Value) (Value, bool) {
			if w.schedPoint(g) {
				return Value{}, true
			}
			m, p := mOf(w, a[0])
			w.acquire(g, p)
			r := f(w, g, m, p, a[1:])
			w.release(g, p)
			return r, false
		})
	}
	regM("Load", func(w *W, g *G, m *MapV, p *Value, a []Value) Value {
		if e := w.mapFind(m, a[0]); e != nil {
			return tup(e.v, mkBool(true))
		}
		return tup(Value{}, mkBool(false))
	})
	regM("Store", func(w *W, g *G, m *MapV, p *Value, a []Value) Value { w.mapSet(m, a[0], a[1]); return Value{} })
	regM("LoadOrStore", func(w *W, g *G, m *MapV, p *Value, a []Value) Value {
		if e := w.mapFind(m, a[0]); e != nil {
			return tup(e.v, mkBool(true))
		}
		w.mapSet(m, a[0], a[1])
		return tup(a[1], mkBool(false))
	})
	regM("LoadAndDelete", func(w *W, g *G, m *MapV, p *Value, a []Value) Value {
		if e := w.mapFind(m, a[0]); e != nil {
			v := e.v
			w.mapDelete(m, a[0])
			return tup(v, mkBool(true))
		}
		return tup(Value{}, mkBool(false))
	})
	regM("Delete", func(w *W, g *G, m *MapV, p *Value, a []Value) Value { w.mapDelete(m, a[0]); return Value{} })
	reg("(*sync.Map).Range", func(w *W, g *G, fr *Frame, a []Value) (Value, bool) {
		if w.schedPoint(g) {
			return Value{}, true
		}
		m, p := mOf(w, a[0])
		w.acquire(g, p)
		keys, vals := Slice{}, Slice{}
		for _, e := range m.ents {
			if !e.deleted {
				keys = append(keys, e.k)
				vals = append(vals, e.v)
			}
		}
		live := &Native{name: "syncmap.live", f: func(w *W, b []Value) Value {
			e := w.mapFind(m, b[0])
			if e == nil {
				return tup(Value{}, mkBool(false))
			}
			return tup(e.v, mkBool(true))
		}}
		f := w.eng.findFunc(modP+"/internal/zzverif/sym", "RangeModel")
		return Value{p: tailcall{f: Value{p: f}, args: []Value{{p: keys}, {p: live}, a[1]}}}, false
	})
}

func (w *W) onceInit(p *Value) *bool {
	if w.onces == nil {
		w.onces = map[*Value]*bool{}
	}
	b := w.onces[p]
	if b == nil {
		b = new(bool)
		if w.initing {
			w.onces[p] = b
		}
	}
	return b
}

// ---- atomics ----

func regAtomic() {
	type af func(w *W, p *Value, ti tinfo, a []Value) Value
	add := func(name string, ti tinfo, f af) {
		reg("sync/atomic."+name, func(w *W, g *G, fr *Frame, a []Value) (Value, bool) {
			if w.schedPoint(g) {
				return Value{}, true
			}
			p := w.ptr(a[0])
			w.acquire(g, p)
			r := f(w, p, ti, a[1:])
			w.release(g, p)
			return r, false
		})
	}
	kinds := map[string]tinfo{"Int32": {KInt, 32, true}, "Int64": tiInt, "Uint32": {KInt, 32, false}, "Uint64": {KInt, 64, false}, "Uintptr": {KInt, 64, false}, "Pointer": {k: KPtr}}
	for k, ti := range kinds {
		add("Load"+k, ti, func(w *W, p *Value, ti tinfo, a []Value) Value { return *p })
		add("Store"+k, ti, func(w *W, p *Value, ti tinfo, a []Value) Value { w.store(p, a[0]); return Value{} })
		add("Swap"+k, ti, func(w *W, p *Value, ti tinfo, a []Value) Value { o := *p; w.store(p, a[0]); return o })
		add("CompareAndSwap"+k, ti, func(w *W, p *Value, ti tinfo, a []Value) Value {
			var c bool
			if ti.k == KPtr {
				c = samePtr(*p, a[0])
			} else {
				c = w.branch(w.tt.Eq(w.term(*p, ti), w.term(a[0], ti)))
			}
			if c {
				w.store(p, a[1])
			}
			return mkBool(c)
		})
		if ti.k == KInt {
			add("Add"+k, ti, func(w *W, p *Value, ti tinfo, a []Value) Value {
				r := w.iv(w.tt.Bin(OAdd, ti.w, w.term(*p, ti), w.term(a[0], ti)), ti)
				w.store(p, r)
				return r
			})
		}
	}
	vOf := func(w *W, v Value) *Value {
		p := w.ptr(v)
		return &p.p.(Agg)[0]
	}
	reg("(*sync/atomic.Value).Load", func(w *W, g *G, fr *Frame, a []Value) (Value, bool) {
		if w.schedPoint(g) {
			return Value{}, true
		}
		p := vOf(w, a[0])
		w.acquire(g, p)
		return *p, false
	})
	reg("(*sync/atomic.Value).Store", func(w *W, g *G, fr *Frame, a []Value) (Value, bool) {
		if w.schedPoint(g) {
			return Value{}, true
		}
		p := vOf(w, a[0])
		if a[1].p == nil {
			panic(goPanic{v: Value{p: &Iface{t: types.Typ[types.String], v: mkStr("sync/atomic: store of nil value into Value")}}})
		}
		w.store(p, a[1])
		w.release(g, p)
		return Value{}, false
	})
}

// ---- time ----

// time.Time is {wall, ext, loc}: wall 0 means ext counts nanoseconds from
// the zero time, 1 from the Unix epoch.

const zeroToUnix = int64(62135596800) // seconds

func mkTime(base uint64, ns Value) Value {
	return Value{p: Agg{{n: base}, ns, {}}}
}

func unixTime(ns Value) Value { return mkTime(1, ns) }

func (w *W) timeBase(t Value) uint64 {
	a := t.p.(Agg)
	if a[0].p != nil {
		unsup("symbolic time base")
	}
	return a[0].n
}

func (w *W) timeNS(t Value) Value { return t.p.(Agg)[1] }

// unixNano gives the (wrapping) Unix time in ns.
func (w *W) unixNano(t Value) Value {
	ns := w.timeNS(t)
	if w.timeBase(t) == 0 {
		z := zeroToUnix
		off := -z * 1000000000 // wraps like the run-time does
		return w.binopInt("+", ns, mkInt(off))
	}
	return ns
}

func (w *W) timeLess(a, b Value) Value {
	ba, bb := w.timeBase(a), w.timeBase(b)
	if ba != bb {
		return mkBool(ba < bb)
	}
	return w.binopInt("<", w.timeNS(a), w.timeNS(b))
}

func (w *W) nsec64(v Value, d int64, rem bool) Value {
	op := OSDiv
	if rem {
		op = OSRem
	}
	return w.iv(w.tt.Bin(op, 64, w.term(v, tiInt), w.tt.BV(uint64(d), 64)), tiInt)
}

// floorMod gives x mod d in [0,d) for d > 0.
func (w *W) floorMod(x Value, d Value) Value {
	if x.p == nil && d.p == nil {
		m := int64(x.n) % int64(d.n)
		if m < 0 {
			m += int64(d.n)
		}
		return mkInt(m)
	}
	dt := w.term(d, tiInt)
	m := w.tt.Bin(OSRem, 64, w.term(x, tiInt), dt)
	neg := w.tt.Bin(OSLt, SBool, m, w.tt.BV(0, 64))
	return w.iv(w.tt.Ite(neg, w.tt.Bin(OAdd, 64, m, dt), m), tiInt)
}

func (w *W) subDur(a, b Value) Value { // a-b saturating
	ba, bb := w.timeBase(a), w.timeBase(b)
	if ba != bb {
		// centuries apart: saturates
		if ba > bb {
			return mkInt(math.MaxInt64)
		}
		return mkInt(math.MinInt64)
	}
	x, y := w.timeNS(a), w.timeNS(b)
	d := w.binopInt("-", x, y)
	if d.p == nil && x.p == nil && y.p == nil {
		xi, yi := int64(x.n), int64(y.n)
		di := xi - yi
		if (di < xi) != (yi > 0) && yi != 0 {
			if xi > yi {
				return mkInt(math.MaxInt64)
			}
			return mkInt(math.MinInt64)
		}
		return d
	}
	// overflow: signs of x,y differ and sign of d differs from x
	xt, yt, dt := w.term(x, tiInt), w.term(y, tiInt), w.term(d, tiInt)
	z := w.tt.BV(0, 64)
	xn, yn, dn := w.tt.Bin(OSLt, SBool, xt, z), w.tt.Bin(OSLt, SBool, yt, z), w.tt.Bin(OSLt, SBool, dt, z)
	ov := w.tt.And(w.tt.Not(w.tt.Eq(xn, yn)), w.tt.Not(w.tt.Eq(dn, xn)))
	sat := w.tt.Ite(xn, w.tt.BV(1<<63, 64), w.tt.BV(math.MaxInt64, 64))
	return w.iv(w.tt.Ite(ov, sat, dt), tiInt)
}

func (w *W) addDur(t, d Value) Value {
	ns := w.timeNS(t)
	r := w.binopInt("+", ns, d)
	if ns.p != nil || d.p != nil {
		// outside the encodable range
		xt, yt, rt := w.term(ns, tiInt), w.term(d, tiInt), w.term(r, tiInt)
		z := w.tt.BV(0, 64)
		xn, yn, rn := w.tt.Bin(OSLt, SBool, xt, z), w.tt.Bin(OSLt, SBool, yt, z), w.tt.Bin(OSLt, SBool, rt, z)
		ov := w.tt.And(w.tt.Eq(xn, yn), w.tt.Not(w.tt.Eq(rn, xn)))
		if w.branch(ov) {
			unsup("time.Add leaves the 64-bit nanosecond range")
		}
	} else {
		x, y := int64(ns.n), int64(d.n)
		s := x + y
		if (x >= 0) == (y >= 0) && (s >= 0) != (x >= 0) {
			unsup("time.Add leaves the 64-bit nanosecond range")
		}
	}
	a := t.p.(Agg)
	return Value{p: Agg{a[0], r, a[2]}}
}

func (w *W) truncate(t, d Value) Value {
	pos := w.branchV(w.binopInt("<", mkInt(0), d))
	if !pos {
		return t
	}
	var r Value
	if w.timeBase(t) == 0 {
		r = w.floorMod(w.timeNS(t), d)
	} else {
		if d.p != nil {
			d = mkInt(w.concInt(d, "Truncate duration"))
		}
		dd := int64(d.n)
		// offset of the Unix epoch from the zero time, modulo d
		off := mulmod(zeroToUnix, 1000000000, dd)
		m := w.floorMod(w.timeNS(t), d)
		if dd > math.MaxInt64/2 {
			unsup("Truncate by a huge duration")
		}
		s := w.binopInt("+", m, mkInt(off))
		r = w.floorMod(s, d)
	}
	// t - r
	a := t.p.(Agg)
	return Value{p: Agg{a[0], w.binopInt("-", w.timeNS(t), r), a[2]}}
}

func mulmod(a, b, m int64) int64 {
	// a*b mod m without overflow
	r := int64(0)
	a %= m
	for b > 0 {
		if b&1 == 1 {
			r = int64((uint64(r) + uint64(a)) % uint64(m))
		}
		a = int64((uint64(a) + uint64(a)) % uint64(m))
		b >>= 1
	}
	return r
}

func regTime() {
	regS("time.Now", func(w *W, a []Value) Value {
		if w.initing {
			return unixTime(mkInt(clockStart))
		}
		return unixTime(w.now)
	})
	regS("time.Unix", func(w *W, a []Value) Value {
		s, n := a[0], a[1]
		if s.p != nil {
			lim := int64(9_200_000_000)
			in := w.tt.And(w.tt.Bin(OSLe, SBool, w.tt.BV(uint64(-lim), 64), w.term(s, tiInt)), w.tt.Bin(OSLe, SBool, w.term(s, tiInt), w.tt.BV(uint64(lim), 64)))
			if !w.branch(in) {
				unsup("time.Unix outside the 64-bit nanosecond range")
			}
		} else if int64(s.n) < -9_200_000_000 || int64(s.n) > 9_200_000_000 {
			if int64(s.n) == -zeroToUnix && n.p == nil && n.n == 0 {
				return mkTime(0, mkInt(0))
			}
			unsup("time.Unix outside the 64-bit nanosecond range")
		}
		if s.p == nil && s.n == 0 {
			return unixTime(n)
		}
		sum := w.binopInt("*", s, mkInt(1000000000))
		return w.addDur(unixTime(sum), n)
	})
	regS("time.Parse", func(w *W, a []Value) Value {
		layout := mustStr(a[0], "time layout")
		if s, ok := conStr(a[1]); ok {
			t, err := time.Parse(layout, s)
			if err != nil {
				return tup(mkTime(0, Value{}), w.errStr(err.Error()))
			}
			if y := t.Year(); y < 1678 || y > 2261 {
				unsup("time.Parse outside the 64-bit nanosecond range")
			}
			return tup(unixTime(mkInt(t.UnixNano())), Value{})
		}
		if (layout == time.RFC3339 || layout == time.RFC3339Nano) && strLen(a[1]) < len("2006-01-02T15:04:05Z") {
			return tup(mkTime(0, Value{}), w.errStr("parsing time: too short"))
		}
		unsup("time.Parse of symbolic text")
		return Value{}
	})
	regS("time.UnixMilli", func(w *W, a []Value) Value {
		if a[0].p != nil {
			unsup("time.UnixMilli symbolic")
		}
		return unixTime(mkInt(int64(a[0].n) * 1000000))
	})
	regS("time.Since", func(w *W, a []Value) Value { return w.subDur(unixTime(w.now), a[0]) })
	regS("time.Until", func(w *W, a []Value) Value { return w.subDur(a[0], unixTime(w.now)) })
	T := "(time.Time)."
	regS(T+"UnixNano", func(w *W, a []Value) Value { return w.unixNano(a[0]) })
	fl := func(d int64) simpleI {
		return func(w *W, a []Value) Value {
			x := w.unixNano(a[0])
			if w.timeBase(a[0]) == 0 {
				if w.timeNS(a[0]).p != nil {
					unsup("Unix of symbolic early time")
				}
				return mkInt(int64(w.timeNS(a[0]).n)/d - zeroToUnix*(1000000000/d))
			}
			m := w.floorMod(x, mkInt(d))
			return w.nsec64(w.binopInt("-", x, m), d, false)
		}
	}
	regS(T+"Unix", fl(1000000000))
	regS(T+"UnixMilli", fl(1000000))
	regS(T+"UnixMicro", fl(1000))
	regS(T+"Nanosecond", func(w *W, a []Value) Value { return w.floorMod(w.timeNS(a[0]), mkInt(1000000000)) })
	regS(T+"IsZero", func(w *W, a []Value) Value {
		if w.timeBase(a[0]) != 0 {
			return mkBool(false)
		}
		return w.binopInt("==", w.timeNS(a[0]), mkInt(0))
	})
	regS(T+"Before", func(w *W, a []Value) Value { return w.timeLess(a[0], a[1]) })
	regS(T+"After", func(w *W, a []Value) Value { return w.timeLess(a[1], a[0]) })
	regS(T+"Equal", func(w *W, a []Value) Value {
		if w.timeBase(a[0]) != w.timeBase(a[1]) {
			return mkBool(false)
		}
		return w.binopInt("==", w.timeNS(a[0]), w.timeNS(a[1]))
	})
	regS(T+"Compare", func(w *W, a []Value) Value {
		if w.branchV(w.timeLess(a[0], a[1])) {
			return mkInt(-1)
		}
		if w.branchV(w.timeLess(a[1], a[0])) {
			return mkInt(1)
		}
		return mkInt(0)
	})
	regS(T+"Add", func(w *W, a []Value) Value { return w.addDur(a[0], a[1]) })
	regS(T+"Sub", func(w *W, a []Value) Value { return w.subDur(a[0], a[1]) })
	regS(T+"Truncate", func(w *W, a []Value) Value { return w.truncate(a[0], a[1]) })
	regS(T+"Round", func(w *W, a []Value) Value {
		// Round(d): add half then truncate (concrete d)
		d := w.concInt(a[1], "Round")
		if d <= 0 {
			return a[0]
		}
		tr := w.truncate(a[0], mkInt(d))
		r := w.binopInt("-", w.timeNS(a[0]), w.timeNS(tr))
		less := w.binopInt("<", w.binopInt("+", r, r), mkInt(d))
		if w.branchV(less) {
			return tr
		}
		return w.addDur(tr, mkInt(d))
	})
	id := func(w *W, a []Value) Value { return a[0] }
	regS(T+"UTC", id)
	regS(T+"Local", id)
	regS(T+"In", id)
	regS(T+"String", func(w *W, a []Value) Value { return w.fmtTime(a[0]) })
	regS(T+"Format", func(w *W, a []Value) Value {
		if t, ok := w.conTime(a[0]); ok {
			return mkStr(t.Format(mustStr(a[1], "layout")))
		}
		unsup("Format of a symbolic time")
		return Value{}
	})

	regS("time.runtimeNano", func(w *W, a []Value) Value { return w.now })

	reg("time.Sleep", func(w *W, g *G, fr *Frame, a []Value) (Value, bool) {
		if g.wake {
			g.wake = false
			return Value{}, false
		}
		if w.schedPoint(g) {
			return Value{}, true
		}
		if !w.branchV(w.binopInt("<", mkInt(0), a[0])) {
			return Value{}, false
		}
		key := &keyT{"sleep"}
		w.addTimer(a[0], func(now Value) { g.wake = true; w.ready(g) })
		w.block(g, key, "time.Sleep")
		return Value{}, true
	})
	newTimer := func(w *W, d Value, period Value, fn Value) Value {
		tt := w.eng.typ("time", "Timer")
		obj := zero(tt)
		var c *ChanV
		if fn.p == nil {
			w.nchan++
			c = &ChanV{cap: 1, et: w.eng.typ("time", "Time"), id: w.nchan}
			obj.p.(Agg)[fieldIdx(tt, "C")] = Value{p: c}
		}
		p := &Value{p: obj.p}
		var tm *timer
		tm = w.addTimer(d, nil)
		tm.period = period
		g := w.cur
		tm.f = func(now Value) {
			if fn.p != nil {
				ng := w.spawn(nil, fn, nil)
				ng.vc = ng.vc.join(g.vc)
				return
			}
			if len(c.buf) == 0 {
				w.trySend(nil, c, unixTime(now))
			}
			if tm.period.p != nil || tm.period.n != 0 {
				// next tick keeps the period from the previous due time
				tm.active = true
				tm.when = w.binopInt("+", tm.when, tm.period)
				tm.seq = w.timerSeq
				w.timerSeq++
				w.timers = append(w.timers, tm)
			}
		}
		w.side[sideKey{p, "timer"}] = tm
		if c != nil {
			c.timer = tm
		}
		return Value{p: p}
	}
	regS("time.NewTimer", func(w *W, a []Value) Value { return newTimer(w, a[0], Value{}, Value{}) })
	regS("time.NewTicker", func(w *W, a []Value) Value {
		if !w.branchV(w.binopInt("<", mkInt(0), a[0])) {
			panic(goPanic{v: Value{p: &Iface{t: types.Typ[types.String], v: mkStr("non-positive interval for NewTicker")}}})
		}
		return newTimer(w, a[0], a[0], Value{})
	})
	regS("time.Tick", func(w *W, a []Value) Value {
		if !w.branchV(w.binopInt("<", mkInt(0), a[0])) {
			return Value{}
		}
		t := newTimer(w, a[0], a[0], Value{})
		return t.p.(*Value).p.(Agg)[fieldIdx(w.eng.typ("time", "Timer"), "C")]
	})
	regS("time.After", func(w *W, a []Value) Value {
		t := newTimer(w, a[0], Value{}, Value{})
		return t.p.(*Value).p.(Agg)[fieldIdx(w.eng.typ("time", "Timer"), "C")]
	})
	regS("time.AfterFunc", func(w *W, a []Value) Value { return newTimer(w, a[0], Value{}, a[1]) })
	tmOf := func(w *W, v Value) *timer {
		t, _ := w.side[sideKey{w.ptr(v), "timer"}].(*timer)
		if t == nil {
			unsup("unknown timer")
		}
		return t
	}
	drain := func(w *W, v Value) {
		agg := w.ptr(v).p.(Agg)
		if c, ok := agg[fieldIdx(w.eng.typ("time", "Timer"), "C")].p.(*ChanV); ok {
			c.buf = nil
		}
	}
	stop := func(w *W, a []Value) Value {
		t := tmOf(w, a[0])
		was := t.active
		t.active = false
		drain(w, a[0])
		return mkBool(was)
	}
	regS("(*time.Timer).Stop", stop)
	regS("(*time.Ticker).Stop", func(w *W, a []Value) Value { stop(w, a); return Value{} })
	regS("(*time.Timer).Reset", func(w *W, a []Value) Value {
		t := tmOf(w, a[0])
		was := t.active
		drain(w, a[0])
		if was {
			// drop the queued entry
			for i, o := range w.timers {
				if o == t {
					w.timers = append(append([]*timer{}, w.timers[:i]...), w.timers[i+1:]...)
					break
				}
			}
		}
		t.active = true
		w.armTimer(t, a[1])
		w.timers = append(w.timers, t)
		return mkBool(was)
	})
	regS("(*time.Ticker).Reset", func(w *W, a []Value) Value {
		t := tmOf(w, a[0])
		drain(w, a[0])
		for i, o := range w.timers {
			if o == t {
				w.timers = append(append([]*timer{}, w.timers[:i]...), w.timers[i+1:]...)
				break
			}
		}
		t.active = true
		t.period = a[1]
		w.armTimer(t, a[1])
		w.timers = append(w.timers, t)
		return Value{}
	})
}

var _ = strings.Contains
var _ *ssa.Function

// initStripped gives values to variables of packages that are not executed.
func (w *W) initStripped(p *ssa.Package) {
	set := func(name string, v Value) {
		if g, ok := p.Members[name].(*ssa.Global); ok {
			*w.globals[g] = v
		}
	}
	switch p.Pkg.Path() {
	case "os":
		for _, n := range []string{"Stdout", "Stderr", "Stdin"} {
			set(n, Value{p: &Value{p: &Poison{"os." + n}}})
		}
		for n, m := range map[string]string{"ErrNotExist": "file does not exist", "ErrExist": "file already exists", "ErrPermission": "permission denied", "ErrClosed": "file already closed"} {
			set(n, w.errStr(m))
		}
		set("Args", Value{p: Slice{mkStr("cmd")}})
	}
}
