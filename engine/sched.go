package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- vector clocks ----

type VC []uint32

func (a VC) join(b VC) VC {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i := range b {
		if b[i] > a[i] {
			a[i] = b[i]
		}
	}
	return a
}

func (a VC) at(i int) uint32 {
	if i < len(a) {
		return a[i]
	}
	return 0
}

func (a VC) clone() VC { return append(VC{}, a...) }

type shadow struct {
	wg   int
	wclk uint32
	wpos string
	r    map[int]uint32
	rpos string
}

func (w *W) tick(g *G) {
	if !w.race || g.id < 0 {
		return
	}
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}

func (w *W) shadowOf(p *Value) *shadow {
	s := w.shadows[p]
	if s == nil {
		s = &shadow{wg: -1}
		w.shadows[p] = s
	}
	return s
}

func (w *W) raceRead(p *Value) {
	if !w.race || w.initing || w.cur.id < 0 {
		return
	}
	g := w.cur
	s := w.shadowOf(p)
	if s.wg >= 0 && s.wg != g.id && g.vc.at(s.wg) < s.wclk {
		w.reportRace("read", "write", s.wpos)
	}
	if s.r == nil {
		s.r = map[int]uint32{}
	}
	s.r[g.id] = g.vc.at(g.id)
	s.rpos = w.where(g)
}

func (w *W) raceWrite(p *Value) {
	if !w.race || w.initing || w.cur.id < 0 {
		return
	}
	g := w.cur
	s := w.shadowOf(p)
	if s.wg >= 0 && s.wg != g.id && g.vc.at(s.wg) < s.wclk {
		w.reportRace("write", "write", s.wpos)
	}
	for r, c := range s.r {
		if r != g.id && g.vc.at(r) < c {
			w.reportRace("write", "read", s.rpos)
		}
	}
	s.r = nil
	s.wg, s.wclk = g.id, g.vc.at(g.id)
	s.wpos = w.where(g)
}

func (w *W) raceAgg(a Agg, write bool) {
	for i := range a {
		if write {
			w.raceWrite(&a[i])
		} else {
			w.raceRead(&a[i])
		}
		if b, ok := a[i].p.(Agg); ok {
			w.raceAgg(b, write)
		}
	}
}

func (w *W) where(g *G) string {
	for i := len(g.frames) - 1; i >= 0; i-- {
		fr := g.frames[i]
		if fr.c.fn == nil || fr.block >= len(fr.c.blocks) {
			continue
		}
		cb := &fr.c.blocks[fr.block]
		pc := fr.pc
		if i < len(g.frames)-1 {
			pc--
		}
		if pc >= 0 && pc < len(cb.ins) {
			p := w.eng.fset.Position(cb.ins[pc].in.Pos())
			if p.IsValid() {
				return fmt.Sprintf("%s:%d", shortFile(p.Filename), p.Line)
			}
		}
	}
	return "?"
}

func shortFile(f string) string {
	if i := strings.LastIndex(f, "/repo/"); i >= 0 {
		return f[i+6:]
	}
	return f
}

func (w *W) reportRace(a, b, pos string) {
	here := w.where(w.cur)
	w.violation("data race: "+a+" at "+here+" is not ordered with an earlier "+b+" at "+pos, "race")
}

// sync objects carry a clock
func (w *W) release(g *G, key any) {
	if !w.race {
		return
	}
	w.syncVC[key] = w.syncVC[key].join(g.vc)
	w.tick(g)
}

func (w *W) acquire(g *G, key any) {
	if !w.race {
		return
	}
	g.vc = g.vc.join(w.syncVC[key])
}

// ---- goroutines ----

func (w *W) spawn(parent *G, fv Value, args []Value) *G {
	g := &G{id: len(w.gs), st: gRunnable}
	if w.race {
		if parent != nil {
			g.vc = parent.vc.clone()
			w.tick(parent)
		}
		w.tick(g)
	}
	w.gs = append(w.gs, g)
	hold := &Frame{c: &cfn{rec: -1, name: "go"}, dst: -1, regs: make([]Value, 1), barrier: &barrier{}}
	_ = hold
	// enter through a trampoline so that intrinsics work as goroutine bodies
	switch f := fv.p.(type) {
	case *ssa.Function, *Closure:
		var fn *ssa.Function
		var env []Value
		if c, ok := f.(*Closure); ok {
			fn, env = c.fn, c.env
		} else {
			fn = f.(*ssa.Function)
		}
		c := w.eng.cf(fn)
		for c.intr == nil && c.model != nil {
			fn, env = c.model, nil
			c = w.eng.cf(fn)
		}
		if c.nobody && w.eng.noop(c.name) {
			g.st = gDone
			return g
		}
		if c.intr != nil || c.nobody {
			unsup("go %s", c.name)
		}
		if c.repo && w.touchOn {
			w.touched[c.name] = true
		}
		if fn.Pkg != nil && w.pkgSt[fn.Pkg] == pkgNone {
			w.ensureInit(fn.Pkg)
		}
		fr := &Frame{c: c, env: env, dst: -1, regs: make([]Value, c.nregs)}
		copy(fr.regs, args)
		g.frames = []*Frame{fr}
	case nil:
		panic(w.rtPanic("go of nil func value"))
	default:
		unsup("go on %T", fv.p)
	}
	w.runq = append(w.runq, g)
	return g
}

// spawnNative runs f's interpreted function in a new goroutine.
func (w *W) onGDone(g *G) {
	if g.id == 0 {
		w.mainDone = true
	}
	w.release(g, g)
}

func (w *W) uncaught(g *G, ps *panicState) {
	g.st = gDone
	w.lastTrace = ps.trace
	w.violation("uncaught panic: "+w.panicString(ps.v)+"\n"+ps.trace, "panic")
	panic(pathEnd{"panic"})
}

func (w *W) block(g *G, key any, why string) {
	g.st = gBlocked
	g.key = key
	g.why = why
}

func (w *W) ready(g *G) {
	if g.st == gBlocked {
		g.st = gRunnable
		g.key = nil
		w.runq = append(w.runq, g)
	}
}

func (w *W) wakeAll(key any) {
	for _, g := range w.gs {
		if g.st == gBlocked && g.key == key {
			w.ready(g)
		}
	}
}

func (w *W) wakeOne(key any) {
	for _, g := range w.gs {
		if g.st == gBlocked && g.key == key {
			w.ready(g)
			return
		}
	}
}

// schedPoint may switch to another goroutine before a synchronisation
// operation; true means the current instruction must be retried later.
func (w *W) schedPoint(g *G) bool {
	if w.conc <= 0 || g.spoint || g.nested > 0 || w.initing {
		return false
	}
	g.spoint = true
	var others []*G
	for _, o := range w.gs {
		if o != g && o.st == gRunnable {
			others = append(others, o)
		}
	}
	if len(others) == 0 {
		return false
	}
	k := w.choose(1+len(others), "preempt")
	if k == 0 {
		return false
	}
	w.conc--
	w.switchTo = others[k-1]
	return true
}

func (w *W) run() {
	for !w.mainDone {
		g := w.pick()
		if g == nil {
			return
		}
		w.cur = g
		for g.st == gRunnable && w.switchTo == nil && !w.mainDone {
			w.steps++
			if w.steps > w.maxSteps {
				panic(pathEnd{"step limit"})
			}
			w.safeStep(g)
		}
		if g.st == gRunnable {
			// preempted: still in the queue
			w.runq = append(w.runq, g)
		}
	}
}

func (w *W) pick() *G {
	for {
		// compact run queue
		q := w.runq[:0]
		seen := map[*G]bool{}
		for _, g := range w.runq {
			if g.st == gRunnable && !seen[g] {
				seen[g] = true
				q = append(q, g)
			}
		}
		w.runq = q
		if w.switchTo != nil {
			g := w.switchTo
			w.switchTo = nil
			if g.st == gRunnable {
				w.dequeue(g)
				return g
			}
		}
		if len(w.runq) > 0 {
			k := 0
			if w.concOn && len(w.runq) > 1 {
				k = w.choose(len(w.runq), "run")
			}
			g := w.runq[k]
			w.dequeue(g)
			return g
		}
		if w.wakeWaiters() {
			continue
		}
		if !w.fireTimer() {
			w.deadlock()
			return nil
		}
	}
}

func (w *W) dequeue(g *G) {
	for i, o := range w.runq {
		if o == g {
			w.runq = append(w.runq[:i], w.runq[i+1:]...)
			return
		}
	}
}

func (w *W) deadlock() {
	var sb strings.Builder
	for _, g := range w.gs {
		if g.st == gBlocked {
			fmt.Fprintf(&sb, " goroutine %d: %s\n%s", g.id, g.why, w.stackTrace(g))
		}
	}
	w.violation("all goroutines are blocked forever\n"+sb.String(), "deadlock")
	panic(pathEnd{"deadlock"})
}

// ---- timers ----

type timer struct {
	when   Value // int64 ns
	period Value
	f      func(now Value)
	active bool
	seq    int
}

func (w *W) addTimer(d Value, f func(now Value)) *timer {
	t := &timer{f: f, active: true, seq: w.timerSeq}
	w.timerSeq++
	w.armTimer(t, d)
	w.timers = append(w.timers, t)
	return t
}

func (w *W) armTimer(t *timer, d Value) {
	// negative durations fire at once
	pos := w.branchV(w.binopInt("<", mkInt(0), d))
	if !pos {
		t.when = w.now
		return
	}
	t.when = w.binopInt("+", w.now, d)
	// saturate like the runtime does
	if !w.branchV(w.binopInt("<=", w.now, t.when)) {
		t.when = mkInt(1<<63 - 1)
	}
}

func (w *W) less(a, b Value) bool { return w.branchV(w.binopInt("<", a, b)) }

// wakeWaiters readies the goroutines in sym.Wait once all others block.
func (w *W) wakeWaiters() bool {
	for _, g := range w.gs {
		if g.st == gBlocked && g.key == symWaitKey {
			g.wake = true
			w.ready(g)
			return true
		}
	}
	return false
}

// fireTimer advances the clock to the earliest timer and fires it.
func (w *W) fireTimer() bool {
	live := w.timers[:0]
	for _, t := range w.timers {
		if t.active {
			live = append(live, t)
		}
	}
	w.timers = live
	if len(live) == 0 {
		return false
	}
	best := live[0]
	for _, t := range live[1:] {
		if w.less(t.when, best.when) {
			best = t
		}
	}
	if w.less(w.now, best.when) {
		w.now = best.when
	}
	w.nfired++
	if w.nfired > 40000 {
		panic(pathEnd{"timer limit"})
	}
	best.active = false
	for i, t := range w.timers {
		if t == best {
			w.timers = append(append([]*timer{}, w.timers[:i]...), w.timers[i+1:]...)
			break
		}
	}
	best.f(w.now)
	if w.concOn {
		// what is due at the same instant happens concurrently
		for {
			var next *timer
			for i, t := range w.timers {
				if t.active && t.when.p == nil && best.when.p == nil && t.when.n == best.when.n {
					next = t
					w.timers = append(append([]*timer{}, w.timers[:i]...), w.timers[i+1:]...)
					break
				}
			}
			if next == nil {
				break
			}
			next.active = false
			next.f(w.now)
		}
	}
	return true
}

// ---- channels ----

func liveWaiter(q []*waiter) ([]*waiter, *waiter) {
	for len(q) > 0 {
		x := q[0]
		if x.done || (x.sel != nil && x.sel.fired) {
			q = q[1:]
			continue
		}
		return q, x
	}
	return nil, nil
}

func (w *W) chanRecv(g *G, cv Value) (Value, bool, bool) {
	if g.wait != nil {
		if g.wait.done {
			x := g.wait
			g.wait = nil
			c := cv.p.(*ChanV)
			w.acquire(g, c)
			return x.got, x.ok, true
		}
		w.block(g, g.wait, "chan receive")
		return Value{}, false, false
	}
	c, _ := cv.p.(*ChanV)
	if c == nil {
		w.block(g, nil, "receive from nil channel")
		return Value{}, false, false
	}
	if v, ok, done := w.tryRecv(g, c); done {
		return v, ok, true
	}
	x := &waiter{g: g}
	c.recvq = append(c.recvq, x)
	g.wait = x
	w.release(g, c)
	w.block(g, x, "chan receive")
	return Value{}, false, false
}

func (w *W) tryRecv(g *G, c *ChanV) (Value, bool, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]Value{}, c.buf[1:]...)
		var x *waiter
		if c.sendq, x = liveWaiter(c.sendq); x != nil {
			c.buf = append(c.buf, x.val)
			w.complete(x, Value{}, true)
		}
		w.acquire(g, c)
		w.release(g, c)
		return v, true, true
	}
	var x *waiter
	if c.sendq, x = liveWaiter(c.sendq); x != nil {
		v := x.val
		w.release(g, c)
		w.acquire(g, c)
		w.complete(x, Value{}, true)
		return v, true, true
	}
	if c.closed {
		w.acquire(g, c)
		return zero(c.et), false, true
	}
	return Value{}, false, false
}

func (w *W) complete(x *waiter, v Value, ok bool) {
	x.done = true
	x.got, x.ok = v, ok
	if x.sel != nil {
		x.sel.fired = true
		x.sel.which = x.which
		x.sel.got, x.sel.ok = v, ok
	}
	w.ready(x.g)
}

func (w *W) chanSend(g *G, cv, v Value) bool {
	c, _ := cv.p.(*ChanV)
	if g.wait != nil {
		if g.wait.done {
			ok := g.wait.ok
			g.wait = nil
			if !ok {
				panic(w.rtPanic("send on closed channel"))
			}
			w.acquire(g, c)
			return true
		}
		w.block(g, g.wait, "chan send")
		return false
	}
	if c == nil {
		w.block(g, nil, "send to nil channel")
		return false
	}
	v = copyVal(v)
	if w.trySend(g, c, v) {
		return true
	}
	x := &waiter{g: g, val: v}
	c.sendq = append(c.sendq, x)
	g.wait = x
	w.release(g, c)
	w.block(g, x, "chan send")
	return false
}

func (w *W) trySend(g *G, c *ChanV, v Value) bool {
	if c.closed {
		panic(w.rtPanic("send on closed channel"))
	}
	var x *waiter
	if c.recvq, x = liveWaiter(c.recvq); x != nil {
		if g != nil {
			w.acquire(g, c)
			w.release(g, c)
		}
		w.complete(x, v, true)
		return true
	}
	if len(c.buf) < c.cap {
		if g != nil {
			w.release(g, c)
		}
		c.buf = append(c.buf, v)
		return true
	}
	return false
}

func (w *W) chanClose(g *G, c *ChanV) {
	if c.closed {
		panic(w.rtPanic("close of closed channel"))
	}
	c.closed = true
	if g != nil {
		w.release(g, c)
	}
	for {
		var x *waiter
		if c.recvq, x = liveWaiter(c.recvq); x == nil {
			break
		}
		w.complete(x, zero(c.et), false)
	}
	for {
		var x *waiter
		if c.sendq, x = liveWaiter(c.sendq); x == nil {
			break
		}
		x.ok = false
		if x.sel != nil {
			x.sel.panicClosed = true
		}
		w.complete(x, Value{}, false)
	}
}

func (w *W) doSelect(g *G, fr *Frame, ci *cin, in *ssa.Select) bool {
	result := func(idx int, ok bool, got Value) {
		t := Tuple{mkInt(int64(idx)), mkBool(ok)}
		for i, s := range in.States {
			if s.Dir == types.RecvOnly {
				if i == idx {
					t = append(t, got)
				} else {
					t = append(t, zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
				}
			}
		}
		fr.regs[ci.dst] = Value{p: t}
	}
	if g.sel != nil {
		if !g.sel.fired {
			w.block(g, g.sel, "select")
			return false
		}
		s := g.sel
		g.sel = nil
		if s.panicClosed {
			panic(w.rtPanic("send on closed channel"))
		}
		if c, ok := w.get(fr, &ci.ops[2*s.which]).p.(*ChanV); ok {
			w.acquire(g, c)
		}
		ok := s.ok
		if in.States[s.which].Dir == types.SendOnly {
			ok = false
		}
		result(s.which, ok, s.got)
		return true
	}
	var rdy []int
	chans := make([]*ChanV, len(in.States))
	for i, s := range in.States {
		c, _ := w.get(fr, &ci.ops[2*i]).p.(*ChanV)
		chans[i] = c
		if c == nil {
			continue
		}
		if s.Dir == types.RecvOnly {
			var x *waiter
			c.sendq, x = liveWaiter(c.sendq)
			if len(c.buf) > 0 || c.closed || x != nil {
				rdy = append(rdy, i)
			}
		} else {
			var x *waiter
			c.recvq, x = liveWaiter(c.recvq)
			if c.closed || len(c.buf) < c.cap || x != nil {
				rdy = append(rdy, i)
			}
		}
	}
	if len(rdy) > 0 {
		k := rdy[0]
		if len(rdy) > 1 {
			k = rdy[w.choose(len(rdy), "select")]
		}
		c := chans[k]
		if in.States[k].Dir == types.RecvOnly {
			v, ok, _ := w.tryRecv(g, c)
			result(k, ok, v)
		} else {
			w.trySend(g, c, copyVal(w.get(fr, &ci.ops[2*k+1])))
			result(k, false, Value{})
		}
		return true
	}
	if !in.Blocking {
		result(-1, false, Value{})
		return true
	}
	st := &selState{}
	for i, s := range in.States {
		c := chans[i]
		if c == nil {
			continue
		}
		x := &waiter{g: g, sel: st, which: i}
		if s.Dir == types.RecvOnly {
			c.recvq = append(c.recvq, x)
		} else {
			x.val = copyVal(w.get(fr, &ci.ops[2*i+1]))
			c.sendq = append(c.sendq, x)
		}
		w.release(g, c)
	}
	g.sel = st
	w.block(g, st, "select")
	return false
}
