package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// dec is one decision along a path.
type dec struct {
	k      int32
	n      int32
	forced bool
}

type workItem struct {
	prefix []dec
	model  Model
}

type inputRec struct {
	Name string
	Kind string // i64,u64,bool,f64,choice,str,...
	t    *Term
	n    uint64
	lenn int
	sub  []*Term
}

// W explores paths.
type W struct {
	eng     *Engine
	id      int
	tt      *TermTab
	solver  *Solver
	solver2 *Solver // asked when the first gives no answer

	globals map[*ssa.Global]*Value
	pkgSt   map[*ssa.Package]int
	mcache  map[mkey]*ssa.Function
	icache  map[ikey]bool
	tids    map[types.Type]string

	logging     bool
	undo        []undoEnt
	initing     bool
	initAdvance bool

	touched map[string]bool
	touchOn bool

	// per path
	h         *hrun
	prefix    []dec
	trace     []dec
	pc        []*Term
	model     Model
	gs        []*G
	runq      []*G
	cur       *G
	switchTo  *G
	mainDone  bool
	now       Value
	timers    []*timer
	timerSeq  int
	nfired    int
	nchan     int
	steps     int
	maxSteps  int
	instrs    int64
	inputs    []inputRec
	names     map[string]int
	conc      int
	concOn    bool
	random    bool // math/rand was asked
	race      bool
	mapND     bool
	shadows   map[*Value]*shadow
	syncVC    map[any]VC
	side      map[any]any // per-path side tables keyed by object
	lastTrace string
	covers    []string
	conMax    int
	uniq      int
	onces     map[*Value]*bool
	qhits     int
}

func (w *W) resetPath(it workItem) {
	w.rollback()
	w.prefix, w.trace, w.pc = it.prefix, w.trace[:0], w.pc[:0]
	w.model = Model{}
	for k, v := range it.model {
		w.model[k] = v
	}
	w.gs, w.runq, w.cur, w.switchTo, w.mainDone = nil, nil, nil, nil, false
	w.now = mkInt(clockStart)
	w.timers, w.timerSeq, w.nfired, w.nchan, w.steps = nil, 0, 0, 0, 0
	w.inputs = nil
	w.names = map[string]int{}
	w.random = false
	w.conc, w.concOn, w.race, w.mapND = 0, false, false, false
	w.shadows = map[*Value]*shadow{}
	w.syncVC = map[any]VC{}
	w.side = map[any]any{}
	w.covers = nil
	w.lastTrace = ""
	w.tt.NewEval()
}

const clockStart = int64(946684800) * 1e9 // 2000-01-01, as in testing/synctest

func (w *W) evalModel(t *Term) uint64 {
	return w.tt.Eval(t, w.model)
}

func (w *W) setModel(m Model) {
	// keep values of variables the solver did not mention
	for k, v := range m {
		w.model[k] = v
	}
	w.tt.NewEval()
}

func (w *W) pushAlt(d dec, m Model) {
	p := make([]dec, len(w.trace)+1)
	copy(p, w.trace)
	p[len(w.trace)] = d
	mm := Model{}
	for k, v := range w.model {
		mm[k] = v
	}
	for k, v := range m {
		mm[k] = v
	}
	w.h.push(w, workItem{p, mm})
}

// branch decides the condition c, forking if both outcomes are feasible.
func (w *W) branch(c *Term) bool {
	if c.Op == OConst {
		return c.C != 0
	}
	if w.initing {
		unsup("symbolic branch in package initialisation")
	}
	i := len(w.trace)
	if i < len(w.prefix) {
		d := w.prefix[i]
		w.trace = append(w.trace, d)
		b := d.k == 1
		if !d.forced {
			w.assumePC(c, b)
		}
		return b
	}
	if i > w.eng.maxDecisions {
		panic(pathEnd{"decision limit"})
	}
	b := w.evalModel(c) != 0
	other := c
	if b {
		other = w.tt.Not(c)
	}
	res, m := w.query(other)
	d := dec{k: int32(b2u(b)), n: 2}
	switch res {
	case Unsat:
		d.forced = true
		w.trace = append(w.trace, d)
		return b
	case Sat:
		w.pushAlt(dec{k: int32(b2u(!b)), n: 2}, m)
	case Unknown:
		w.h.note("solver gave no answer for a branch: " + w.where(w.cur))
	}
	w.trace = append(w.trace, d)
	w.assumePC(c, b)
	atomic.AddInt64(&w.h.decisions, 1)
	return b
}

func (w *W) assumePC(c *Term, b bool) {
	if !b {
		c = w.tt.Not(c)
	}
	w.addPC(c)
}

func (w *W) addPC(c *Term) {
	if c.Op == OConst {
		return
	}
	if c.Op == OAnd {
		w.addPC(c.A[0])
		w.addPC(c.A[1])
		return
	}
	w.pc = append(w.pc, c)
}

// choose picks one of n alternatives, exploring all of them.
func (w *W) choose(n int, what string) int {
	if n <= 1 {
		return 0
	}
	if w.initing {
		return 0
	}
	i := len(w.trace)
	if i < len(w.prefix) {
		d := w.prefix[i]
		w.trace = append(w.trace, d)
		if int(d.n) != n {
			unsup("engine: nondeterministic re-execution (%s: %d vs %d)", what, d.n, n)
		}
		return int(d.k)
	}
	if i > w.eng.maxDecisions {
		panic(pathEnd{"decision limit"})
	}
	for k := n - 1; k >= 1; k-- {
		w.pushAlt(dec{k: int32(k), n: int32(n)}, nil)
	}
	w.trace = append(w.trace, dec{k: 0, n: int32(n)})
	atomic.AddInt64(&w.h.decisions, 1)
	return 0
}

// assume restricts the path to c.
func (w *W) assume(c *Term) {
	if c.Op == OConst {
		if c.C == 0 {
			panic(pathEnd{"assume"})
		}
		return
	}
	if len(w.trace) < len(w.prefix) {
		w.addPC(c)
		return
	}
	if w.evalModel(c) != 0 {
		w.addPC(c)
		return
	}
	res, m := w.query(c)
	switch res {
	case Unsat:
		panic(pathEnd{"assume"})
	case Unknown:
		w.h.note("solver gave no answer for an assumption")
		panic(pathEnd{"unknown"})
	}
	w.addPC(c)
	w.setModel(m)
}

// concretize enumerates the values of t.
func (w *W) concretize(t *Term, what string) uint64 {
	if t.Op == OConst {
		return t.C
	}
	for i := 0; ; i++ {
		if i > w.conMax {
			unsup("too many values when enumerating %s", what)
		}
		// Both the value tested and the outcome are decisions, so that
		// re-execution does not depend on the model: the value goes into the
		// decision record.
		var v uint64
		j := len(w.trace)
		if j < len(w.prefix) {
			v = uint64(uint32(w.prefix[j].k)) | uint64(uint32(w.prefix[j].n))<<32
			w.trace = append(w.trace, w.prefix[j])
		} else {
			v = w.evalModel(t)
			w.trace = append(w.trace, dec{k: int32(uint32(v)), n: int32(uint32(v >> 32)), forced: true})
		}
		if w.branch(w.tt.Eq(t, w.tt.BV(v, t.S))) {
			return v
		}
	}
}

// check is an assertion; a failing one is reported and the path continues
// on the inputs that satisfy it.
func (w *W) check(c *Term, msg string) {
	if w.h.stop {
		panic(pathEnd{"stopped"})
	}
	atomic.AddInt64(&w.h.asserts, 1)
	if c.Op == OConst {
		if c.C == 0 {
			w.violation(msg, "assert")
			panic(pathEnd{"assert"})
		}
		atomic.AddInt64(&w.h.trivial, 1)
		return
	}
	if len(w.trace) < len(w.prefix) {
		// already decided when the prefix was explored
		w.addPC(c)
		return
	}
	neg := w.tt.Not(c)
	if w.evalModel(c) == 0 {
		w.violation(msg, "assert")
		w.assume(c)
		return
	}
	atomic.AddInt64(&w.h.obligations, 1)
	res, m := w.query(neg)
	switch res {
	case Unsat:
		atomic.AddInt64(&w.h.discharged, 1)
	case Unknown:
		w.h.note("solver gave no answer for the assertion: " + msg)
	case Sat:
		save := w.model
		w.model = Model{}
		for k, v := range save {
			w.model[k] = v
		}
		w.setModel(m)
		w.violation(msg, "assert")
		w.model = save
		w.tt.NewEval()
	}
	w.addPC(c)
}

type cex struct {
	Harness string     `json:"harness"`
	Msg     string     `json:"msg"`
	Kind    string     `json:"kind"`
	Inputs  []cexInput `json:"inputs"`
	Prefix  []dec      `json:"-"`
	Trace   string     `json:"trace,omitempty"`
	PCLen   int        `json:"constraints"`
	model   Model
}

type cexInput struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  string `json:"val"`
}

func (w *W) concreteInputs() []cexInput {
	var out []cexInput
	w.tt.NewEval()
	for _, in := range w.inputs {
		c := cexInput{Name: in.Name, Kind: in.Kind}
		switch in.Kind {
		case "str":
			b := make([]byte, len(in.sub))
			for i, t := range in.sub {
				b[i] = byte(w.evalModel(t))
			}
			c.Val = fmt.Sprintf("%x", b)
		case "choice":
			c.Val = fmt.Sprint(in.n)
		default:
			v := w.evalModel(in.t)
			if in.Kind == "i64" {
				c.Val = fmt.Sprint(int64(v))
			} else {
				c.Val = fmt.Sprint(v)
			}
		}
		out = append(out, c)
	}
	return out
}

func (w *W) violation(msg, kind string) {
	c := &cex{Harness: w.h.name, Msg: msg, Kind: kind, Inputs: w.concreteInputs(), PCLen: len(w.pc), Trace: w.lastTrace}
	c.Prefix = append([]dec{}, w.trace...)
	c.model = Model{}
	for k, v := range w.model {
		c.model[k] = v
	}
	w.h.report(c)
	if w.h.stop {
		panic(pathEnd{"stopped"})
	}
}

// runPath executes the harness once.
func (w *W) runPath(it workItem) (end string) {
	w.resetPath(it)
	w.logging = true
	w.touchOn = true
	start := time.Now()
	_ = start
	defer func() {
		r := recover()
		w.logging = false
		switch r := r.(type) {
		case nil:
		case pathEnd:
			end = r.why
		case unsupported:
			end = "unsupported"
			tr := ""
			if w.cur != nil {
				tr = w.stackTrace(w.cur)
			}
			w.h.unsupportedAt(r.msg, tr, w.concreteInputs())
		default:
			panic(r)
		}
	}()
	w.spawn(nil, Value{p: w.h.fn}, nil)
	w.run()
	return "done"
}

func (w *W) fresh(name string) string {
	k := w.names[name]
	w.names[name] = k + 1
	return fmt.Sprintf("%s#%d", name, k)
}

// ---- per-harness exploration state ----

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var _ = strings.Contains

type qkey struct{ a, b uint64 }

type qres struct {
	res SatRes
	m   Model
}

// query decides whether extra is consistent with the path condition. Only
// the constraints that share variables with it, directly or through others,
// matter (the path condition itself is satisfiable); answers are remembered
// by that set of constraints, for all workers.
func (w *W) query(extra *Term) (SatRes, Model) {
	vars := map[uint64]bool{}
	for _, v := range extra.varSet() {
		vars[v] = true
	}
	in := make([]bool, len(w.pc))
	k := qkey{mix64(extra.h1), mix64(extra.h2 + 1)}
	var slice []*Term
	for changed := true; changed; {
		changed = false
		for i, c := range w.pc {
			if in[i] {
				continue
			}
			hit := false
			vs := c.varSet()
			for _, v := range vs {
				if vars[v] {
					hit = true
					break
				}
			}
			if !hit {
				continue
			}
			in[i] = true
			for _, v := range vs {
				if !vars[v] {
					vars[v] = true
					changed = true
				}
			}
		}
	}
	seen := map[*Term]bool{}
	for i, c := range w.pc {
		if in[i] && !seen[c] {
			seen[c] = true
			slice = append(slice, c)
			k.a += mix64(c.h1)
			k.b += mix64(c.h2 ^ 0x5bd1e995)
		}
	}
	h := w.h
	h.qmu.Lock()
	r, ok := h.qcache[k]
	h.qmu.Unlock()
	if ok {
		w.qhits++
		return r.res, r.m
	}
	if w.tt.absUnsat(w.solver, slice, extra) {
		h.qmu.Lock()
		h.qcache[k] = qres{Unsat, nil}
		h.qmu.Unlock()
		return Unsat, nil
	}
	res, m := w.solver.Check(w.tt, slice, extra)
	if res == Unknown {
		if w.solver2 == nil {
			s, err := NewSolver("z3-new", w.solver.timeout)
			if err != nil {
				return res, nil
			}
			s.slot = 1
			w.solver2 = s
		}
		res, m = w.solver2.Check(w.tt, slice, extra)
	}
	if res != Unknown {
		h.qmu.Lock()
		h.qcache[k] = qres{res, m}
		h.qmu.Unlock()
	}
	return res, m
}
