package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"runtime/debug"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type deferRec struct {
	fnv    Value
	args   []Value
	invoke *types.Func
	instr  *ssa.CallCommon
}

type panicState struct {
	v         Value
	recovered bool
	trace     string
}

type Frame struct {
	c       *cfn
	regs    []Value
	env     []Value
	block   int
	prev    int
	pc      int
	dst     int
	defers  []deferRec
	mode    uint8 // 0 run, 1 running defers then continue, 2 unwinding
	pan     *panicState
	deferOf *Frame
	barrier *barrier
	isInit  bool
}

type barrier struct {
	done bool
	res  Value
	pan  *panicState
}

type gstatus uint8

const (
	gRunnable gstatus = iota
	gBlocked
	gDone
)

type G struct {
	id      int
	frames  []*Frame
	st      gstatus
	why     string
	key     any // what it waits for
	wait    *waiter
	sel     *selState
	vc      VC
	wake    bool // set when a timed sleep elapsed
	nosched int
	spoint  bool // scheduling point for the current instruction taken
	name    string
	nested  int
}

func (g *G) top() *Frame { return g.frames[len(g.frames)-1] }

// ---- operand access ----

func (w *W) get(fr *Frame, o *opnd) Value {
	switch o.k {
	case oReg:
		return fr.regs[o.i]
	case oConst:
		return o.v
	case oFree:
		return fr.env[o.i]
	default:
		return Value{p: w.global(o.g)}
	}
}

func (w *W) global(g *ssa.Global) *Value {
	if s, ok := w.globals[g]; ok {
		if !w.initing {
			w.ensureInit(g.Pkg)
		}
		return s
	}
	w.ensureInit(g.Pkg)
	if s, ok := w.globals[g]; ok {
		return s
	}
	s := new(Value)
	*s = zero(g.Type().Underlying().(*types.Pointer).Elem())
	w.globals[g] = s
	return s
}

const (
	pkgNone = iota
	pkgRunning
	pkgDone
)

func (w *W) ensureInit(p *ssa.Package) {
	if w.pkgSt[p] != pkgNone {
		return
	}
	w.pkgSt[p] = pkgRunning
	w.eng.buildPkg(p)
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			if _, ok := w.globals[g]; !ok {
				s := new(Value)
				*s = zero(g.Type().Underlying().(*types.Pointer).Elem())
				w.globals[g] = s
			}
		}
	}
	if !w.eng.noInit[p.Pkg.Path()] {
		w.runInit(p)
	} else {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				*w.globals[g] = Value{p: &Poison{"variable " + g.String() + " of a package that is not executed"}}
			}
		}
		w.initStripped(p)
	}
	w.pkgSt[p] = pkgDone
}

func (w *W) runInit(p *ssa.Package) {
	fn := p.Func("init")
	if fn == nil || fn.Blocks == nil {
		return
	}
	oldLog, oldInit, oldCur, oldRace, oldConc := w.logging, w.initing, w.cur, w.race, w.conc
	oldUndo := w.undo
	oldTouch := w.touchOn
	w.logging, w.initing, w.race, w.conc, w.touchOn = false, true, false, 0, false
	g := &G{id: -1, nosched: 1}
	w.cur = g
	defer func() {
		w.logging, w.initing, w.cur, w.race, w.conc = oldLog, oldInit, oldCur, oldRace, oldConc
		w.undo = oldUndo
		w.touchOn = oldTouch
	}()
	b := &barrier{}
	fr := w.newFrame(fn, nil, nil)
	fr.isInit = true
	fr.barrier = b
	fr.c = w.eng.cf(fn)
	g.frames = []*Frame{fr}
	steps := 0
	for !b.done {
		if !w.initStep(g, fr, &steps) {
			return
		}
	}
}

// initStep runs instructions of an init function, poisoning results that
// cannot be computed.
func (w *W) initStep(g *G, fr *Frame, steps *int) (ok bool) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		why := fmt.Sprint(r)
		if u, ok := r.(unsupported); ok {
			why = u.msg
		}
		// Unwind to the init frame, poison the result of its instruction.
		g.st = gRunnable
		fr.mode, fr.pan, fr.defers = 0, nil, nil
		for len(g.frames) > 0 && g.top() != fr {
			g.frames = g.frames[:len(g.frames)-1]
		}
		if len(g.frames) == 0 {
			ok = false
			return
		}
		cb := &fr.c.blocks[fr.block]
		if fr.pc > 0 && g.st == gRunnable && w.initAdvance {
			// a call had been entered: pc already advanced
			fr.pc--
		}
		if fr.pc >= len(cb.ins) {
			ok = false
			return
		}
		ci := &cb.ins[fr.pc]
		switch in := ci.in.(type) {
		case *ssa.If, *ssa.Jump, *ssa.Return:
			_ = in
			ok = false
			return
		}
		if ci.dst >= 0 {
			if tv, isT := ci.in.(ssa.Value).Type().(*types.Tuple); isT {
				tt := make(Tuple, tv.Len())
				for i := range tt {
					tt[i] = Value{p: &Poison{why}}
				}
				fr.regs[ci.dst] = Value{p: tt}
			} else {
				fr.regs[ci.dst] = Value{p: &Poison{why}}
			}
		}
		if st, isSt := ci.in.(*ssa.Store); isSt {
			_ = st
		}
		fr.pc++
		w.initAdvance = false
		ok = true
	}()
	for {
		if len(g.frames) == 0 || fr.barrier.done {
			return true
		}
		*steps++
		if *steps > 5_000_000 {
			unsup("init too long")
		}
		w.initAdvance = g.top() != fr
		w.safeStep(g)
		if g.st == gBlocked {
			g.st = gRunnable
			panic(unsupported{"blocked during init: " + g.why})
		}
	}
}

func (w *W) newFrame(fn *ssa.Function, env []Value, args []Value) *Frame {
	c := w.eng.cf(fn)
	fr := &Frame{c: c, env: env, dst: -1}
	fr.regs = make([]Value, c.nregs)
	copy(fr.regs, args)
	return fr
}

// ---- calling ----

// enter performs a call of fv with args from frame fr; the result goes to
// register dst of fr. It returns false if the goroutine must block and retry.
func (w *W) enter(g *G, fr *Frame, fv Value, args []Value, dst int) bool {
	switch f := fv.p.(type) {
	case nil:
		panic(w.nilPanic())
	case *ssa.Function:
		return w.enterFn(g, fr, f, nil, args, dst)
	case *Closure:
		return w.enterFn(g, fr, f.fn, f.env, args, dst)
	case *Native:
		r := f.f(w, args)
		if dst >= 0 {
			fr.regs[dst] = r
		}
		fr.pc++
		return true
	case *Poison:
		unsup("call of poisoned function: %s", f.why)
	case *ssa.Builtin:
		r := w.builtin(g, fr, f, args, nil)
		if dst >= 0 {
			fr.regs[dst] = r
		}
		fr.pc++
		return true
	}
	unsup("call of %T", fv.p)
	return false
}

func (w *W) enterFn(g *G, fr *Frame, fn *ssa.Function, env, args []Value, dst int) bool {
	c := w.eng.cf(fn)
	if c.intr != nil {
		r, blocked := c.intr(w, g, fr, args)
		if blocked {
			return false
		}
		switch tc := r.p.(type) {
		case tailcall:
			return w.enter(g, fr, tc.f, tc.args, dst)
		case useBody:
		default:
			if dst >= 0 {
				fr.regs[dst] = r
			}
			fr.pc++
			return true
		}
	}
	if c.model != nil {
		return w.enterFn(g, fr, c.model, nil, args, dst)
	}
	if c.nobody {
		if w.eng.noop(c.name) {
			if dst >= 0 {
				fr.regs[dst] = w.zeroResult(fn.Signature)
			}
			fr.pc++
			return true
		}
		unsup("no body for %s", c.name)
	}
	if w.initing && fn.Name() == "init" && fn.Synthetic == "package initializer" {
		fr.pc++
		return true
	}
	if fn.Pkg != nil && w.pkgSt[fn.Pkg] == pkgNone {
		w.ensureInit(fn.Pkg)
	}
	if len(g.frames) > 2000 {
		unsup("stack overflow in %s", c.name)
	}
	if c.repo && w.touchOn {
		w.touched[c.name] = true
	}
	nf := &Frame{c: c, env: env, dst: dst}
	nf.regs = make([]Value, c.nregs)
	copy(nf.regs, args)
	fr.pc++
	g.frames = append(g.frames, nf)
	return true
}

// useBody makes an intrinsic fall through to the function's own body.
type useBody struct{}

type tailcall struct {
	f    Value
	args []Value
}

func (w *W) zeroResult(sig *types.Signature) Value {
	r := sig.Results()
	switch r.Len() {
	case 0:
		return Value{}
	case 1:
		return zero(r.At(0).Type())
	}
	return zero(r)
}

// callSync calls fv from an intrinsic, running it to completion.
func (w *W) callSync(fv Value, args ...Value) Value {
	g := w.cur
	b := &barrier{}
	// synthetic frame to receive the result
	base := len(g.frames)
	hold := &Frame{c: &cfn{rec: -1, name: "callSync", fn: nil}, dst: -1, regs: make([]Value, 1), barrier: b}
	g.frames = append(g.frames, hold)
	if !w.enter(g, hold, fv, args, 0) {
		unsup("blocking call inside an intrinsic")
	}
	g.nested++
	defer func() { g.nested-- }()
	for len(g.frames) > base+1 {
		w.steps++
		if w.steps > w.maxSteps {
			panic(pathEnd{"step limit"})
		}
		w.safeStep(g)
		if b.pan != nil {
			g.frames = g.frames[:base]
			panic(goPanic{v: b.pan.v})
		}
		if g.st == gBlocked {
			g.frames = g.frames[:base]
			g.st = gRunnable
			unsup("blocking operation (%s) inside an intrinsic callback", g.why)
		}
	}
	g.frames = g.frames[:base]
	return hold.regs[0]
}

// method finds the implementation of method m for dynamic type t.
func (w *W) method(t types.Type, m *types.Func) *ssa.Function {
	k := mkey{t, m.Id()}
	if f, ok := w.mcache[k]; ok {
		return f
	}
	w.eng.ssaMu.Lock()
	sel := w.eng.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	var f *ssa.Function
	if sel != nil {
		f = w.eng.prog.MethodValue(sel)
	}
	w.eng.ssaMu.Unlock()
	w.mcache[k] = f
	return f
}

type mkey struct {
	t  types.Type
	id string
}

func (w *W) methodByName(t types.Type, name string) *ssa.Function {
	k := mkey{t, "." + name}
	if f, ok := w.mcache[k]; ok {
		return f
	}
	w.eng.ssaMu.Lock()
	var f *ssa.Function
	ms := w.eng.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			f = w.eng.prog.MethodValue(ms.At(i))
			break
		}
	}
	w.eng.ssaMu.Unlock()
	w.mcache[k] = f
	return f
}

// resolve evaluates the callee and arguments of a call instruction.
func (w *W) resolve(fr *Frame, ci *cin, cc *ssa.CallCommon) (Value, []Value) {
	v := w.get(fr, &ci.ops[0])
	n := len(cc.Args)
	if cc.IsInvoke() {
		ifc, ok := v.p.(*Iface)
		if !ok {
			if p, ok := v.p.(*Poison); ok {
				unsup("method %s on poison: %s", cc.Method, p.why)
			}
			panic(w.nilPanic())
		}
		f := w.method(ifc.t, cc.Method)
		if f == nil {
			unsup("no method %s on %s", cc.Method, ifc.t)
		}
		args := make([]Value, n+1)
		args[0] = ifc.v
		for i := 0; i < n; i++ {
			args[i+1] = w.get(fr, &ci.ops[i+1])
		}
		return Value{p: f}, args
	}
	args := make([]Value, n)
	for i := 0; i < n; i++ {
		args[i] = w.get(fr, &ci.ops[i+1])
	}
	return v, args
}

// ---- panics ----

func (w *W) rtError(msg string) Value {
	// runtime.Error value: use errors.errorString-like engine type
	return Value{p: &Iface{t: w.eng.rtErrType, v: Value{p: msg}}}
}

func (w *W) rtPanic(msg string) goPanic { return goPanic{v: w.rtError(msg), msg: msg} }

func (w *W) nilPanic() goPanic {
	return w.rtPanic("runtime error: invalid memory address or nil pointer dereference")
}

func (w *W) stackTrace(g *G) string {
	var sb strings.Builder
	for i := len(g.frames) - 1; i >= 0 && i > len(g.frames)-25; i-- {
		fr := g.frames[i]
		if fr.c.fn == nil {
			continue
		}
		pos := ""
		if fr.block < len(fr.c.blocks) {
			cb := &fr.c.blocks[fr.block]
			pc := fr.pc
			if i < len(g.frames)-1 {
				pc--
			}
			if pc >= 0 && pc < len(cb.ins) {
				p := w.eng.fset.Position(cb.ins[pc].in.Pos())
				for q := pc; !p.IsValid() && q >= 0; q-- {
					p = w.eng.fset.Position(cb.ins[q].in.Pos())
				}
				pos = fmt.Sprintf("%s:%d", p.Filename, p.Line)
			}
		}
		fmt.Fprintf(&sb, "  %s %s\n", fr.c.name, pos)
	}
	return sb.String()
}

// raise starts panicking with v in g's top frame.
func (w *W) raise(g *G, v Value) {
	ps := &panicState{v: v, trace: w.stackTrace(g)}
	w.unwind(g, ps)
}

// unwind propagates ps from g's top frame until a deferred call is started,
// or the goroutine dies.
func (w *W) unwind(g *G, ps *panicState) {
	for {
		if len(g.frames) == 0 {
			w.uncaught(g, ps)
			return
		}
		fr := g.top()
		if fr.c.fn == nil { // callSync holder
			fr.barrier.pan = ps
			return
		}
		// A panic inside a deferred call replaces the outer panic.
		fr.pan = ps
		fr.mode = 2
		if w.nextDefer(g, fr) {
			return
		}
		// no defers left
		if ps.recovered {
			w.finishRecovered(g, fr)
			return
		}
		if fr.isInit {
			panic(goPanic{v: ps.v, msg: w.panicString(ps.v)})
		}
		g.frames = g.frames[:len(g.frames)-1]
	}
}

// nextDefer starts fr's next deferred call; false if none is left.
func (w *W) nextDefer(g *G, fr *Frame) bool {
	if len(fr.defers) == 0 {
		return false
	}
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	w.callDeferred(g, fr, d)
	return true
}

func (w *W) callDeferred(g *G, fr *Frame, d deferRec) {
	savedPC := fr.pc
	n := len(g.frames)
	switch f := d.fnv.p.(type) {
	case *ssa.Builtin:
		if f.Name() == "recover" {
			// deferred directly: does not recover per spec… it does
			if fr.pan != nil {
				fr.pan.recovered = true
			}
		} else {
			w.builtin(g, fr, f, d.args, d.instr)
		}
	default:
		if !w.enter(g, fr, d.fnv, d.args, -1) {
			// blocking intrinsic: retry the defer
			fr.defers = append(fr.defers, d)
			fr.pc = savedPC
			return
		}
	}
	fr.pc = savedPC
	if len(g.frames) > n {
		g.top().deferOf = fr
	}
}

func (w *W) finishRecovered(g *G, fr *Frame) {
	fr.pan = nil
	fr.mode = 0
	if fr.c.rec >= 0 {
		fr.prev = fr.block
		fr.block = fr.c.rec
		fr.pc = 0
		return
	}
	w.ret(g, fr, w.zeroResult(fr.c.fn.Signature))
}

func (w *W) ret(g *G, fr *Frame, v Value) {
	g.frames = g.frames[:len(g.frames)-1]
	if fr.barrier != nil {
		fr.barrier.done = true
		fr.barrier.res = v
		return
	}
	if len(g.frames) == 0 {
		g.st = gDone
		w.onGDone(g)
		return
	}
	if fr.deferOf != nil {
		return // the frame below continues in its mode
	}
	caller := g.top()
	if fr.dst >= 0 {
		caller.regs[fr.dst] = v
	}
}

func (w *W) panicString(v Value) string {
	ifc, ok := v.p.(*Iface)
	if !ok {
		return "nil"
	}
	if s, ok := conStr(ifc.v); ok {
		return s
	}
	return "value of type " + ifc.t.String()
}

// ---- the step function ----

func (w *W) safeStep(g *G) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if gp, ok := r.(goPanic); ok {
			w.raise(g, gp.v)
			return
		}
		if e, ok := r.(error); ok && !w.initing {
			if re, ok := e.(interface{ RuntimeError() }); ok {
				_ = re
				panic(unsupported{fmt.Sprintf("engine: %v\n%s\n%s", e, w.stackTrace(g), debug.Stack())})
			}
		}
		panic(r)
	}()
	for w.stepN(g) {
	}
}

// stepN runs steps until the number of frames changes a lot or the budget is
// exhausted; it returns false when the caller's loop must check conditions.
func (w *W) stepN(g *G) bool {
	w.step(g)
	return false
}

func (w *W) step(g *G) {
	fr := g.top()
	if fr.mode != 0 {
		// returning from a deferred call
		if w.nextDefer(g, fr) {
			return
		}
		if fr.mode == 1 {
			fr.mode = 0
			return
		}
		ps := fr.pan
		if ps.recovered {
			w.finishRecovered(g, fr)
			return
		}
		if fr.isInit {
			panic(goPanic{v: ps.v, msg: w.panicString(ps.v)})
		}
		g.frames = g.frames[:len(g.frames)-1]
		w.unwind(g, ps)
		return
	}
	cb := &fr.c.blocks[fr.block]
	ci := &cb.ins[fr.pc]
	w.instrs++
	switch in := ci.in.(type) {
	case *ssa.Alloc:
		s := new(Value)
		*s = zero(in.Type().Underlying().(*types.Pointer).Elem())
		fr.regs[ci.dst] = Value{p: s}
	case *ssa.UnOp:
		if in.Op == token.ARROW {
			if w.schedPoint(g) {
				return
			}
			v, ok, done := w.chanRecv(g, w.get(fr, &ci.ops[0]))
			if !done {
				return
			}
			if in.CommaOk {
				fr.regs[ci.dst] = Value{p: Tuple{v, mkBool(ok)}}
			} else {
				fr.regs[ci.dst] = v
			}
			break
		}
		x := w.get(fr, &ci.ops[0])
		switch in.Op {
		case token.MUL:
			fr.regs[ci.dst] = w.load(x, ci.ti)
		case token.NOT:
			if t, ok := x.p.(*Term); ok {
				fr.regs[ci.dst] = w.bv(w.tt.Not(t))
			} else {
				w.noPoison(x)
				fr.regs[ci.dst] = Value{n: 1 - x.n}
			}
		case token.SUB:
			switch ci.ti.k {
			case KInt:
				if t, ok := x.p.(*Term); ok {
					fr.regs[ci.dst] = w.iv(w.tt.Un(ONeg, ci.ti.w, t), ci.ti)
				} else {
					w.noPoison(x)
					fr.regs[ci.dst] = Value{n: normInt(-x.n, ci.ti)}
				}
			case KF64:
				if t, ok := x.p.(*Term); ok {
					fr.regs[ci.dst] = Value{p: w.tt.Un(OFNeg, SF64, t)}
				} else {
					fr.regs[ci.dst] = Value{n: x.n ^ 1<<63}
				}
			case KF32:
				fr.regs[ci.dst] = Value{n: x.n ^ 1<<31}
			case KComplex:
				fr.regs[ci.dst] = Value{p: -x.p.(complex128)}
			default:
				unsup("neg")
			}
		case token.XOR:
			if t, ok := x.p.(*Term); ok {
				fr.regs[ci.dst] = w.iv(w.tt.Un(OBNot, ci.ti.w, t), ci.ti)
			} else {
				w.noPoison(x)
				fr.regs[ci.dst] = Value{n: normInt(^x.n, ci.ti)}
			}
		default:
			unsup("unop %s", in.Op)
		}
	case *ssa.BinOp:
		fr.regs[ci.dst] = w.binop(in.Op, w.get(fr, &ci.ops[0]), w.get(fr, &ci.ops[1]), ci.ti2, ci.x.(tinfo), ci.ti, in.X.Type())
	case *ssa.Store:
		addr := w.get(fr, &ci.ops[0])
		v := w.get(fr, &ci.ops[1])
		w.storePtr(addr, v)
	case *ssa.FieldAddr:
		x := w.get(fr, &ci.ops[0])
		p := w.ptr(x)
		a, ok := p.p.(Agg)
		if !ok {
			if po, ok := p.p.(*Poison); ok {
				unsup("field of poison %s", po.why)
			}
			unsup("FieldAddr of %T in %s", p.p, fr.c.name)
		}
		fr.regs[ci.dst] = Value{p: &a[in.Field]}
	case *ssa.Field:
		x := w.get(fr, &ci.ops[0])
		a, ok := x.p.(Agg)
		if !ok {
			if po, ok := x.p.(*Poison); ok {
				unsup("field of poison %s", po.why)
			}
			unsup("Field of %T", x.p)
		}
		fr.regs[ci.dst] = a[in.Field]
	case *ssa.IndexAddr:
		x := w.get(fr, &ci.ops[0])
		var arr []Value
		switch a := x.p.(type) {
		case Slice:
			arr = a
		case *Value:
			agg, ok := a.p.(Agg)
			if !ok {
				unsup("IndexAddr of %T", a.p)
			}
			arr = agg
		case nil:
			if ci.ti2.k == KPtr {
				panic(w.nilPanic())
			}
		case *Poison:
			unsup("index of poison %s", a.why)
		default:
			unsup("IndexAddr %T", x.p)
		}
		idx := w.get(fr, &ci.ops[1])
		if t, ok := idx.p.(*Term); ok {
			it := ci.x.(tinfo)
			t = w.boundsCheck(t, it, len(arr))
			if ci.flag {
				fr.regs[ci.dst] = Value{p: &SymPtr{arr, t}}
			} else {
				fr.regs[ci.dst] = Value{p: &arr[w.concretize(t, "index")]}
			}
		} else {
			w.noPoison(idx)
			if idx.n >= uint64(len(arr)) {
				panic(w.rtPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", int64(idx.n), len(arr))))
			}
			fr.regs[ci.dst] = Value{p: &arr[idx.n]}
		}
	case *ssa.Index:
		x := w.get(fr, &ci.ops[0])
		idx := w.get(fr, &ci.ops[1])
		fr.regs[ci.dst] = w.index(x, idx, ci.ti2, ci.x.(tinfo))
	case *ssa.Call:
		if b, ok := in.Call.Value.(*ssa.Builtin); ok && !in.Call.IsInvoke() {
			args := make([]Value, len(in.Call.Args))
			for i := range args {
				args[i] = w.get(fr, &ci.ops[i+1])
			}
			r := w.builtin(g, fr, b, args, &in.Call)
			if ci.dst >= 0 {
				fr.regs[ci.dst] = r
			}
			break
		}
		fv, args := w.resolve(fr, ci, &in.Call)
		if !w.enter(g, fr, fv, args, ci.dst) {
			return // blocked: retry
		}
		g.spoint = false
		return // pc advanced by enter
	case *ssa.If:
		c := w.get(fr, &ci.ops[0])
		var b bool
		if t, ok := c.p.(*Term); ok {
			b = w.branch(t)
		} else {
			w.noPoison(c)
			b = c.n != 0
		}
		s := 1
		if b {
			s = 0
		}
		w.jump(fr, fr.c.fn.Blocks[fr.block].Succs[s].Index)
		return
	case *ssa.Jump:
		w.jump(fr, fr.c.fn.Blocks[fr.block].Succs[0].Index)
		return
	case *ssa.Return:
		var v Value
		switch len(ci.ops) {
		case 0:
		case 1:
			v = w.get(fr, &ci.ops[0])
		default:
			t := make(Tuple, len(ci.ops))
			for i := range t {
				t[i] = w.get(fr, &ci.ops[i])
			}
			v = Value{p: t}
		}
		w.ret(g, fr, v)
		return
	case *ssa.Extract:
		x := w.get(fr, &ci.ops[0])
		t, ok := x.p.(Tuple)
		if !ok {
			if po, ok := x.p.(*Poison); ok {
				unsup("poison tuple %s", po.why)
			}
			unsup("extract from %T", x.p)
		}
		fr.regs[ci.dst] = t[in.Index]
	case *ssa.MakeInterface:
		v := w.get(fr, &ci.ops[0])
		if po, ok := v.p.(*Poison); ok {
			unsup("poison to interface: %s", po.why)
		}
		fr.regs[ci.dst] = Value{p: &Iface{t: in.X.Type(), v: v}}
	case *ssa.ChangeInterface, *ssa.ChangeType:
		fr.regs[ci.dst] = w.get(fr, &ci.ops[0])
	case *ssa.Convert:
		fr.regs[ci.dst] = w.convert(w.get(fr, &ci.ops[0]), in.X.Type(), in.Type(), ci.ti2, ci.ti)
	case *ssa.MultiConvert:
		fr.regs[ci.dst] = w.convert(w.get(fr, &ci.ops[0]), in.X.Type(), in.Type(), typeInfo(in.X.Type()), ci.ti)
	case *ssa.TypeAssert:
		fr.regs[ci.dst] = w.typeAssert(in, w.get(fr, &ci.ops[0]))
	case *ssa.MakeClosure:
		env := make([]Value, len(ci.ops)-1)
		for i := range env {
			env[i] = w.get(fr, &ci.ops[i+1])
		}
		fr.regs[ci.dst] = Value{p: &Closure{fn: in.Fn.(*ssa.Function), env: env}}
	case *ssa.MakeSlice:
		l := w.concInt(w.get(fr, &ci.ops[0]), "make len")
		c := w.concInt(w.get(fr, &ci.ops[1]), "make cap")
		if l < 0 || l > 1<<26 {
			panic(w.rtPanic("runtime error: makeslice: len out of range"))
		}
		if c > 1<<26 {
			unsup("allocation of %d elements at %s", c, w.stackTrace(g))
		}
		if c < l {
			panic(w.rtPanic("runtime error: makeslice: cap out of range"))
		}
		fr.regs[ci.dst] = Value{p: makeSlice(in.Type().Underlying().(*types.Slice).Elem(), int(l), int(c))}
	case *ssa.MakeMap:
		fr.regs[ci.dst] = Value{p: newMap(in.Type().Underlying().(*types.Map))}
	case *ssa.MakeChan:
		n := w.concInt(w.get(fr, &ci.ops[0]), "chan size")
		if n < 0 {
			panic(w.rtPanic("makechan: size out of range"))
		}
		w.nchan++
		fr.regs[ci.dst] = Value{p: &ChanV{cap: int(n), et: in.Type().Underlying().(*types.Chan).Elem(), id: w.nchan}}
	case *ssa.Slice:
		fr.regs[ci.dst] = w.slice(in, w.get(fr, &ci.ops[0]), w.get(fr, &ci.ops[1]), w.get(fr, &ci.ops[2]), w.get(fr, &ci.ops[3]), ci.ti2)
	case *ssa.Lookup:
		x := w.get(fr, &ci.ops[0])
		k := w.get(fr, &ci.ops[1])
		if ci.ti2.k == KString {
			fr.regs[ci.dst] = w.index(x, k, ci.ti2, ci.x.(tinfo))
			break
		}
		m, _ := x.p.(*MapV)
		if po, ok := x.p.(*Poison); ok {
			unsup("lookup in poison %s", po.why)
		}
		if m != nil {
			w.raceRead(&m.sh)
		}
		var v Value
		e := w.mapFind(m, k)
		if e != nil {
			v = copyVal(e.v)
		} else {
			v = zero(in.X.Type().Underlying().(*types.Map).Elem())
		}
		if in.CommaOk {
			v = Value{p: Tuple{v, mkBool(e != nil)}}
		}
		fr.regs[ci.dst] = v
	case *ssa.MapUpdate:
		x := w.get(fr, &ci.ops[0])
		m, _ := x.p.(*MapV)
		if po, ok := x.p.(*Poison); ok {
			unsup("update of poison map %s", po.why)
		}
		if m == nil {
			panic(w.rtPanic("assignment to entry in nil map"))
		}
		w.raceWrite(&m.sh)
		w.mapSet(m, w.get(fr, &ci.ops[1]), w.get(fr, &ci.ops[2]))
	case *ssa.Range:
		x := w.get(fr, &ci.ops[0])
		if ci.ti2.k == KString {
			if s, ok := conStr(x); ok {
				fr.regs[ci.dst] = Value{p: &strIter{s: s, c: true}}
			} else {
				fr.regs[ci.dst] = Value{p: &strIter{e: strElems(x)}}
			}
			break
		}
		m, _ := x.p.(*MapV)
		it := &mapIter{m: m}
		if m != nil {
			w.raceRead(&m.sh)
			if w.mapND && m.n > 1 && m.n <= 4 && !w.initing {
				it.nd = true
			}
		}
		fr.regs[ci.dst] = Value{p: it}
	case *ssa.Next:
		fr.regs[ci.dst] = w.next(in, w.get(fr, &ci.ops[0]))
	case *ssa.Send:
		if w.schedPoint(g) {
			return
		}
		if !w.chanSend(g, w.get(fr, &ci.ops[0]), w.get(fr, &ci.ops[1])) {
			return
		}
	case *ssa.Select:
		if w.schedPoint(g) {
			return
		}
		if !w.doSelect(g, fr, ci, in) {
			return
		}
	case *ssa.Go:
		fv, args := w.resolve(fr, ci, &in.Call)
		w.spawn(g, fv, args)
	case *ssa.Defer:
		if b, ok := in.Call.Value.(*ssa.Builtin); ok && !in.Call.IsInvoke() {
			args := make([]Value, len(in.Call.Args))
			for i := range args {
				args[i] = w.get(fr, &ci.ops[i+1])
			}
			fr.defers = append(fr.defers, deferRec{fnv: Value{p: b}, args: args, instr: &in.Call})
			break
		}
		fv, args := w.resolve(fr, ci, &in.Call)
		if fv.p == nil {
			unsup("defer of nil func")
		}
		fr.defers = append(fr.defers, deferRec{fnv: fv, args: args})
	case *ssa.RunDefers:
		fr.pc++
		fr.mode = 1
		return
	case *ssa.Panic:
		v := w.get(fr, &ci.ops[0])
		if v.p == nil {
			v = w.rtError("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
		}
		panic(goPanic{v: v})
	case *ssa.SliceToArrayPointer:
		x := w.get(fr, &ci.ops[0])
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		s, _ := x.p.(Slice)
		if len(s) < n {
			panic(w.rtPanic("runtime error: cannot convert slice to array pointer"))
		}
		if x.p == nil {
			fr.regs[ci.dst] = Value{}
		} else {
			fr.regs[ci.dst] = Value{p: &Value{p: Agg(s[:n:n])}}
		}
	default:
		unsup("instruction %T %s", ci.in, ci.in)
	}
	fr.pc++
	g.spoint = false
}

func (w *W) jump(fr *Frame, to int) {
	from := fr.block
	fr.prev = from
	fr.block = to
	fr.pc = 0
	cb := &fr.c.blocks[to]
	if len(cb.phis) == 0 {
		return
	}
	preds := fr.c.fn.Blocks[to].Preds
	k := -1
	for i, p := range preds {
		if p.Index == from {
			k = i
			break
		}
	}
	if len(cb.phis) == 1 {
		fr.regs[cb.phis[0].dst] = w.get(fr, &cb.phis[0].ops[k])
		return
	}
	var tmp [16]Value
	vals := tmp[:0]
	for i := range cb.phis {
		vals = append(vals, w.get(fr, &cb.phis[i].ops[k]))
	}
	for i := range cb.phis {
		fr.regs[cb.phis[i].dst] = vals[i]
	}
}

func (w *W) noPoison(v Value) {
	switch p := v.p.(type) {
	case *Poison:
		unsup("use of poisoned value: %s", p.why)
	case *Hole:
		unsup("use of a formatted symbolic value (%s) as a byte", p.kind)
	}
}

func makeSlice(et types.Type, l, c int) Slice {
	s := make(Slice, c)
	z := zero(et)
	if _, ok := z.p.(Agg); ok {
		for i := range s {
			s[i] = zero(et)
		}
	} else if z.p != nil {
		for i := range s {
			s[i] = z
		}
	}
	return s[:l]
}

// ptr dereferences a pointer value to its slot.
func (w *W) ptr(x Value) *Value {
	switch p := x.p.(type) {
	case *Value:
		return p
	case nil:
		panic(w.nilPanic())
	case *Poison:
		unsup("poisoned pointer: %s", p.why)
	case *SymPtr:
		return &p.arr[w.concretize(p.idx, "pointer")]
	}
	unsup("pointer %T", x.p)
	return nil
}

func (w *W) load(x Value, ti tinfo) Value {
	if sp, ok := x.p.(*SymPtr); ok {
		return w.selectElem(sp.arr, sp.idx, ti)
	}
	p := w.ptr(x)
	if w.race {
		w.raceRead(p)
	}
	v := *p
	switch a := v.p.(type) {
	case Agg:
		if w.race {
			w.raceAgg(a, false)
		}
		return copyVal(v)
	case Slice:
		if ti.k == KString { // *(*string)(unsafe.Pointer(&bytes))
			return elemsToStr(a)
		}
	}
	return v
}

func (w *W) storePtr(addr, v Value) {
	if sp, ok := addr.p.(*SymPtr); ok {
		addr = Value{p: &sp.arr[w.concretize(sp.idx, "store index")]}
	}
	p := w.ptr(addr)
	if w.race {
		w.raceWrite(p)
		if a, ok := p.p.(Agg); ok {
			w.raceAgg(a, true)
		}
	}
	w.store(p, v)
}

// selectElem builds an if-then-else over the elements of arr.
func (w *W) selectElem(arr []Value, idx *Term, ti tinfo) Value {
	scalar := ti.k == KBool || ti.k == KInt || ti.k == KF64
	n := len(arr)
	if !scalar || n > 1024 {
		return copyVal(arr[w.concretize(idx, "index")])
	}
	for i := range arr {
		if _, ok := arr[i].p.(*Hole); ok {
			return copyVal(arr[w.concretize(idx, "index")])
		}
	}
	// runs of equal values
	type run struct {
		lo, hi int
		t      *Term
	}
	var rs []run
	for i := 0; i < n; i++ {
		t := w.term(arr[i], ti)
		if len(rs) > 0 && rs[len(rs)-1].t == t {
			rs[len(rs)-1].hi = i
		} else {
			rs = append(rs, run{i, i, t})
		}
	}
	// default: most frequent value
	best, bestN := 0, -1
	cnt := map[*Term]int{}
	for i, r := range rs {
		cnt[r.t]++
		if cnt[r.t] > bestN {
			best, bestN = i, cnt[r.t]
		}
	}
	res := rs[best].t
	is := idx.S
	for _, r := range rs {
		if r.t == rs[best].t {
			continue
		}
		var c *Term
		if r.lo == r.hi {
			c = w.tt.Eq(idx, w.tt.BV(uint64(r.lo), is))
		} else {
			c = w.tt.And(w.tt.Bin(OULe, SBool, w.tt.BV(uint64(r.lo), is), idx), w.tt.Bin(OULe, SBool, idx, w.tt.BV(uint64(r.hi), is)))
		}
		res = w.tt.Ite(c, r.t, res)
	}
	return w.fromTerm(res, ti)
}

func (w *W) boundsCheck(t *Term, ti tinfo, n int) *Term {
	// signed negative values are large when taken unsigned at full width
	if ti.signed && t.S < 64 {
		t = w.tt.SExt(64, t)
	}
	var in *Term
	if t.S < 64 && uint64(n) > mask(t.S) {
		in = w.tt.True
	} else {
		in = w.tt.Bin(OULt, SBool, t, w.tt.BV(uint64(n), t.S))
	}
	if !w.branch(in) {
		panic(w.rtPanic(fmt.Sprintf("runtime error: index out of range with length %d", n)))
	}
	return t
}

func (w *W) index(x, idx Value, xt, it tinfo) Value {
	if xt.k == KString {
		n := strLen(x)
		if t, ok := idx.p.(*Term); ok {
			t = w.boundsCheck(t, it, n)
			return w.selectElem(strElems(x), t, tinfo{KInt, 8, false})
		}
		if idx.n >= uint64(n) {
			panic(w.rtPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", int64(idx.n), n)))
		}
		switch s := x.p.(type) {
		case string:
			return Value{n: uint64(s[idx.n])}
		case *SymStr:
			return s.e[idx.n]
		case Slice:
			return s[idx.n]
		}
	}
	a, ok := x.p.(Agg)
	if !ok {
		unsup("index of %T", x.p)
	}
	if t, ok := idx.p.(*Term); ok {
		t = w.boundsCheck(t, it, len(a))
		return copyVal(a[w.concretize(t, "index")])
	}
	if idx.n >= uint64(len(a)) {
		panic(w.rtPanic("runtime error: index out of range"))
	}
	return a[idx.n]
}

func (w *W) slice(in *ssa.Slice, x, lo, hi, max Value, xt tinfo) Value {
	get := func(v Value, has ssa.Value, def int) int {
		if has == nil {
			return def
		}
		i := w.concInt(v, "slice bound")
		if i > math.MaxInt32 || i < 0 {
			return -1
		}
		return int(i)
	}
	oob := func() {
		panic(w.rtPanic("runtime error: slice bounds out of range"))
	}
	if xt.k == KString {
		n := strLen(x)
		l, h := get(lo, in.Low, 0), get(hi, in.High, n)
		if l < 0 || h < l || h > n {
			oob()
		}
		switch s := x.p.(type) {
		case nil:
			return mkStr("")
		case string:
			return mkStr(s[l:h])
		case *SymStr:
			return (&SymStr{s.e[l:h]}).norm()
		}
		return elemsToStr(strElems(x)[l:h])
	}
	var arr []Value
	isNil := false
	switch a := x.p.(type) {
	case nil:
		if xt.k == KPtr {
			panic(w.nilPanic())
		}
		isNil = true
	case Slice:
		arr = a
	case *Value:
		agg, ok := a.p.(Agg)
		if !ok {
			unsup("slice of %T", a.p)
		}
		arr = agg
		arr = arr[:len(arr):len(arr)]
	case *Poison:
		unsup("slice of poison %s", a.why)
	default:
		unsup("slice of %T", x.p)
	}
	l, h, m := get(lo, in.Low, 0), get(hi, in.High, len(arr)), get(max, in.Max, cap(arr))
	if l < 0 || h < l || m < h || m > cap(arr) {
		oob()
	}
	if isNil {
		return Value{}
	}
	return Value{p: Slice(arr[l:h:m])}
}

func (w *W) next(in *ssa.Next, x Value) Value {
	switch it := x.p.(type) {
	case *strIter:
		if it.c {
			if it.i >= len(it.s) {
				return Value{p: Tuple{mkBool(false), Value{}, Value{}}}
			}
			r, n := utf8.DecodeRuneInString(it.s[it.i:])
			k := it.i
			it.i += n
			return Value{p: Tuple{mkBool(true), mkInt(int64(k)), mkInt(int64(r))}}
		}
		if it.i >= len(it.e) {
			return Value{p: Tuple{mkBool(false), Value{}, Value{}}}
		}
		k := it.i
		r, n := w.decodeRune(it.e[it.i:])
		it.i += n
		return Value{p: Tuple{mkBool(true), mkInt(int64(k)), r}}
	case *mapIter:
		kt, vt := in.Type().(*types.Tuple).At(1).Type(), in.Type().(*types.Tuple).At(2).Type()
		if it.m == nil {
			return Value{p: Tuple{mkBool(false), w.zeroT(kt), w.zeroT(vt)}}
		}
		if it.nd {
			if it.perm == nil {
				for _, e := range it.m.ents {
					if !e.deleted {
						it.perm = append(it.perm, e)
					}
				}
			}
			live := it.perm[:0:0]
			for _, e := range it.perm {
				if !e.deleted {
					live = append(live, e)
				}
			}
			it.perm = live
			if len(live) > 0 {
				k := w.choose(len(live), "maporder")
				e := live[k]
				it.perm = append(append([]*mapEnt{}, live[:k]...), live[k+1:]...)
				if len(it.perm) == 0 {
					it.perm = []*mapEnt{}
				}
				return Value{p: Tuple{mkBool(true), e.k, copyVal(e.v)}}
			}
			return Value{p: Tuple{mkBool(false), w.zeroT(kt), w.zeroT(vt)}}
		}
		for it.i < len(it.m.ents) {
			e := it.m.ents[it.i]
			it.i++
			if !e.deleted {
				return Value{p: Tuple{mkBool(true), e.k, copyVal(e.v)}}
			}
		}
		return Value{p: Tuple{mkBool(false), w.zeroT(kt), w.zeroT(vt)}}
	}
	if po, ok := x.p.(*Poison); ok {
		unsup("range over poison %s", po.why)
	}
	unsup("next on %T", x.p)
	return Value{}
}

func (w *W) zeroT(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return Value{}
	}
	return zero(t)
}

// decodeRune decodes the first rune of symbolic bytes e.
func (w *W) decodeRune(e []Value) (Value, int) {
	b0 := e[0]
	if h, ok := b0.p.(*Hole); ok {
		_ = h
		unsup("rune iteration over a formatted symbolic value")
	}
	if t, ok := b0.p.(*Term); ok {
		if w.branch(w.tt.Bin(OULt, SBool, t, w.tt.BV(0x80, 8))) {
			return w.iv(w.tt.ZExt(32, t), tinfo{KInt, 32, true}), 1
		}
	} else if b0.n < 0x80 {
		return Value{n: b0.n}, 1
	}
	// multi-byte: run the real decoder
	m := len(e)
	if m > 4 {
		m = 4
	}
	f := w.eng.findFunc("unicode/utf8", "DecodeRuneInString")
	r := w.callSync(Value{p: f}, elemsToStr(e[:m]))
	t := r.p.(Tuple)
	return t[0], int(w.concInt(t[1], "rune size"))
}

func (w *W) typeAssert(in *ssa.TypeAssert, x Value) Value {
	ifc, ok := x.p.(*Iface)
	if po, isP := x.p.(*Poison); isP {
		unsup("type assert on poison %s", po.why)
	}
	var v Value
	match := false
	if ok {
		if types.IsInterface(in.AssertedType) {
			match = w.implements(ifc.t, in.AssertedType.Underlying().(*types.Interface))
			v = x
		} else {
			match = w.identical(ifc.t, in.AssertedType)
			v = ifc.v
		}
	}
	if !match {
		if in.CommaOk {
			return Value{p: Tuple{zero(in.AssertedType), mkBool(false)}}
		}
		from := "nil"
		if ok {
			from = ifc.t.String()
		}
		panic(w.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", from, in.AssertedType)))
	}
	if in.CommaOk {
		return Value{p: Tuple{v, mkBool(true)}}
	}
	return v
}

func (w *W) identical(a, b types.Type) bool {
	return a == b || types.Identical(a, b)
}

func (w *W) implements(t types.Type, it *types.Interface) bool {
	k := ikey{t, it}
	if r, ok := w.icache[k]; ok {
		return r
	}
	w.eng.ssaMu.Lock()
	r := types.Implements(t, it)
	w.eng.ssaMu.Unlock()
	w.icache[k] = r
	return r
}

type ikey struct {
	t  types.Type
	it *types.Interface
}

func (w *W) typeID(t types.Type) string {
	if s, ok := w.tids[t]; ok {
		return s
	}
	s := types.TypeString(t, nil)
	w.tids[t] = s
	return s
}
