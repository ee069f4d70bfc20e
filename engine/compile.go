package main

import (
	"go/constant"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type okind uint8

const (
	oReg okind = iota
	oConst
	oGlobal
	oFree
)

type opnd struct {
	k okind
	i int
	v Value
	g *ssa.Global
}

type cin struct {
	in   ssa.Instruction
	dst  int
	ops  []opnd
	ti   tinfo // type info of result or first operand, depending on instr
	ti2  tinfo
	flag bool
	x    any
}

type cblock struct {
	phis []cin
	ins  []cin
}

type cfn struct {
	fn     *ssa.Function
	nregs  int
	blocks []cblock
	nfree  int
	rec    int // index of recover block or -1
	intr   Intrinsic
	model  *ssa.Function // redirect
	resv   bool
	name   string
	repo   bool
	nobody bool
	slots  []int // param registers
}

var (
	cfnMu  sync.Mutex
	cfnTab = map[*ssa.Function]*cfn{}
)

func constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type()
	if tp, ok := t.Underlying().(*types.Interface); ok {
		_ = tp
		unsup("const of interface type %s", t)
	}
	ti := typeInfo(t)
	switch ti.k {
	case KBool:
		return mkBool(constant.BoolVal(c.Value))
	case KInt:
		if ti.signed {
			return Value{n: uint64(c.Int64())}
		}
		return Value{n: c.Uint64()}
	case KF64:
		return Value{n: math.Float64bits(c.Float64())}
	case KF32:
		return Value{n: uint64(math.Float32bits(float32(c.Float64())))}
	case KString:
		if c.Value.Kind() == constant.String {
			return mkStr(constant.StringVal(c.Value))
		}
		return mkStr(string(rune(c.Int64())))
	case KComplex:
		return Value{p: c.Complex128()}
	case KPtr: // uintptr-ish unsafe.Pointer constant
		return Value{}
	}
	unsup("const %s", c)
	return Value{}
}

// cf compiles fn (cached, shared between workers; the result is read-only).
func (e *Engine) cf(fn *ssa.Function) *cfn {
	cfnMu.Lock()
	c := cfnTab[fn]
	cfnMu.Unlock()
	if c != nil {
		return c
	}
	e.buildFor(fn)
	c = &cfn{fn: fn, rec: -1}
	c.name = fnName(fn)
	c.intr = lookupIntrinsic(c.name)
	c.repo = strings.Contains(c.name, e.modPath+"/") && !strings.Contains(c.name, "/zzverif/")
	if c.intr == nil {
		if m := e.redirect(c.name); m != nil {
			c.model = m
		}
	}
	if fn.Blocks == nil || (e.stripped(fn)) {
		c.nobody = true
	} else if c.model == nil {
		compileBody(c)
	}
	cfnMu.Lock()
	defer cfnMu.Unlock()
	if o := cfnTab[fn]; o != nil {
		return o
	}
	cfnTab[fn] = c
	return c
}

// fnName gives the name of fn, that of its generic origin for an instance.
func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil && o != fn {
		return o.String()
	}
	return fn.String()
}

func compileBody(c *cfn) {
	fn := c.fn
	reg := map[ssa.Value]int{}
	n := 0
	for _, p := range fn.Params {
		reg[p] = n
		n++
	}
	free := map[ssa.Value]int{}
	for i, f := range fn.FreeVars {
		free[f] = i
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				reg[v] = n
				n++
			}
		}
	}
	c.nregs = n
	op := func(v ssa.Value) opnd {
		switch v := v.(type) {
		case nil:
			return opnd{k: oConst}
		case *ssa.Const:
			return opnd{k: oConst, v: constVal(v)}
		case *ssa.Global:
			return opnd{k: oGlobal, g: v}
		case *ssa.Function:
			return opnd{k: oConst, v: Value{p: v}}
		case *ssa.Builtin:
			return opnd{k: oConst, v: Value{p: v}}
		case *ssa.FreeVar:
			return opnd{k: oFree, i: free[v]}
		}
		r, ok := reg[v]
		if !ok {
			unsup("operand %T %s in %s", v, v, fn)
		}
		return opnd{k: oReg, i: r}
	}
	c.blocks = make([]cblock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cb := &c.blocks[bi]
		for _, in := range b.Instrs {
			ci := cin{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = reg[v]
				ci.ti = typeInfo(v.Type())
			}
			switch in := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Phi:
				for _, e := range in.Edges {
					ci.ops = append(ci.ops, op(e))
				}
				cb.phis = append(cb.phis, ci)
				continue
			case *ssa.Call:
				callOps(&ci, &in.Call, op)
			case *ssa.Go:
				callOps(&ci, &in.Call, op)
			case *ssa.Defer:
				callOps(&ci, &in.Call, op)
				if in.DeferStack != nil {
					ci.flag = true
					ci.ops = append(ci.ops, op(in.DeferStack))
				}
			case *ssa.Select:
				for _, s := range in.States {
					ci.ops = append(ci.ops, op(s.Chan))
					ci.ops = append(ci.ops, op(s.Send))
				}
			case *ssa.MakeClosure:
				ci.ops = append(ci.ops, op(in.Fn))
				for _, b := range in.Bindings {
					ci.ops = append(ci.ops, op(b))
				}
			case *ssa.Slice:
				ci.ops = []opnd{op(in.X), op(in.Low), op(in.High), op(in.Max)}
				ci.ti2 = typeInfo(in.X.Type())
			case *ssa.Return:
				for _, r := range in.Results {
					ci.ops = append(ci.ops, op(r))
				}
			default:
				var rands [8]*ssa.Value
				for _, r := range in.Operands(rands[:0]) {
					if *r == nil {
						ci.ops = append(ci.ops, opnd{k: oConst})
					} else {
						ci.ops = append(ci.ops, op(*r))
					}
				}
			}
			switch in := in.(type) {
			case *ssa.BinOp:
				ci.ti2 = typeInfo(in.X.Type())
				ci.x = typeInfo(in.Y.Type())
			case *ssa.UnOp:
				ci.ti2 = typeInfo(in.X.Type())
			case *ssa.IndexAddr:
				ci.ti2 = typeInfo(in.X.Type())
				ci.x = typeInfo(in.Index.Type())
				ci.flag = onlyLoaded(in)
			case *ssa.Index:
				ci.ti2 = typeInfo(in.X.Type())
				ci.x = typeInfo(in.Index.Type())
			case *ssa.Lookup:
				ci.ti2 = typeInfo(in.X.Type())
				ci.x = typeInfo(in.Index.Type())
			case *ssa.Convert:
				ci.ti2 = typeInfo(in.X.Type())
			case *ssa.Range:
				ci.ti2 = typeInfo(in.X.Type())
			}
			cb.ins = append(cb.ins, ci)
		}
	}
	if fn.Recover != nil {
		c.rec = fn.Recover.Index
	}
}

func onlyLoaded(in *ssa.IndexAddr) bool {
	for _, r := range *in.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp:
		case *ssa.DebugRef:
		case *ssa.Store:
			if r.Val == in {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func callOps(ci *cin, c *ssa.CallCommon, op func(ssa.Value) opnd) {
	ci.ops = append(ci.ops, op(c.Value))
	for _, a := range c.Args {
		ci.ops = append(ci.ops, op(a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		_ = b
		if len(c.Args) > 0 {
			ci.ti2 = typeInfo(c.Args[0].Type())
		}
	}
}
