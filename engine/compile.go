package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

type opc uint8

const (
	iNop opc = iota
	iAlloc
	iBin
	iNot
	iNegate
	iCompl
	iLoad
	iMove
	iConvert
	iMakeIface
	iMakeClosure
	iMakeMap
	iMakeSlice
	iMakeChan
	iSlice
	iFieldAddr
	iField
	iIndexAddr
	iIndex
	iLookup
	iRange
	iNext
	iTypeAssert
	iExtract
	iJump
	iIf
	iReturn
	iRunDefers
	iPanic
	iDefer
	iStore
	iMapUpdate
	iCall    // static
	iCallV   // closure value
	iInvoke  // interface method
	iBuiltin // builtin
	iSliceToArrPtr
	iUnsupported
)

type move struct{ dst, src int32 }

type Instr struct {
	op      opc
	tok     token.Token
	dst     int32
	a, b, c int32
	d       int32
	n       int
	args    []int32
	rt, rt2 *RType
	callee  *Callee
	meth    *types.Func
	name    string
	moves   []move
	moves2  []move
	t1, t2  int
	flag    bool
	pos     token.Pos
	icache  map[*RType]*Callee
	x       any
}

type Code struct {
	fn     *ssa.Function
	name   string
	ins    []Instr
	consts []Value
	nreg   int
	nparam int
	nfree  int
	rec    int // pc of recover block, -1 if none
	res    []*RType
	inRepo bool
}

type Callee struct {
	ready  bool
	orig   *ssa.Function
	fn     *ssa.Function
	code   *Code
	native NativeFn
	name   string
	pure   int8 // 0 unknown, 1 pure scalar function, -1 not
	pure1v bool
	ptypes []*RType
	rtype  *RType
}

type NativeFn func(w *W, c *NCall) Value

// NCall carries the arguments of a natively modelled call.
type NCall struct {
	w    *W
	fr   *Frame
	in   *Instr
	args []Value
	fn   *ssa.Function
}

func (w *W) callee(fn *ssa.Function) *Callee {
	if c, ok := w.callees[fn]; ok {
		return c
	}
	c := &Callee{orig: fn, fn: fn, name: fn.String()}
	w.callees[fn] = c
	return c
}

func (c *Callee) resolve(w *W) {
	c.ready = true
	fn := c.orig
	target := fn
	org := fn
	if fn.Origin() != nil {
		org = fn.Origin()
	}
	if n := lookupNative(w.e, org); n != nil {
		c.native = n
	} else if r := w.e.replaced(org); r != nil {
		target = r
	}
	if c.native == nil {
		if len(target.Blocks) == 0 {
			name := c.name
			c.native = func(w *W, nc *NCall) Value {
				panic(inconclusive{"call of function without body: " + name})
			}
		} else {
			c.fn = target
			c.code = w.compile(target)
		}
	}
	for _, p := range fn.Params {
		c.ptypes = append(c.ptypes, w.e.types.get(p.Type()))
	}
	if fn.Signature.Results().Len() == 1 {
		c.rtype = w.e.types.get(fn.Signature.Results().At(0).Type())
	}
}

type compiler struct {
	w     *W
	fn    *ssa.Function
	code  *Code
	regs  map[ssa.Value]int32
	kmap  map[any]int32
	start map[*ssa.BasicBlock]int
}

func (w *W) compile(fn *ssa.Function) *Code {
	if c, ok := w.codes[fn]; ok {
		return c
	}
	code := &Code{fn: fn, name: fn.String(), rec: -1}
	w.codes[fn] = code
	c := &compiler{w: w, fn: fn, code: code, regs: map[ssa.Value]int32{}, kmap: map[any]int32{}, start: map[*ssa.BasicBlock]int{}}
	for _, p := range fn.Params {
		c.reg(p)
	}
	code.nparam = len(fn.Params)
	for _, f := range fn.FreeVars {
		c.reg(f)
	}
	code.nfree = len(fn.FreeVars)
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		code.res = append(code.res, w.e.types.get(fn.Signature.Results().At(i).Type()))
	}
	if fn.Pkg != nil {
		code.inRepo = w.e.isTarget(fn)
	} else if p := fn.Parent(); p != nil && p.Pkg != nil {
		code.inRepo = w.e.isTarget(p)
	}
	type fix struct {
		i    int
		b    *ssa.BasicBlock
		from *ssa.BasicBlock
		k    int
	}
	var fixes []fix
	for _, b := range fn.Blocks {
		c.start[b] = len(code.ins)
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			case *ssa.Jump:
				fixes = append(fixes, fix{len(code.ins), b.Succs[0], b, 0})
				code.ins = append(code.ins, Instr{op: iJump, pos: in.Pos()})
			case *ssa.If:
				fixes = append(fixes, fix{len(code.ins), b.Succs[0], b, 0}, fix{len(code.ins), b.Succs[1], b, 1})
				code.ins = append(code.ins, Instr{op: iIf, a: c.op(in.Cond), pos: in.Pos()})
			default:
				x := c.instr(in)
				x.pos = in.Pos()
				code.ins = append(code.ins, x)
			}
		}
	}
	for _, f := range fixes {
		mv := c.phiMoves(f.from, f.b)
		x := &code.ins[f.i]
		if f.k == 0 {
			x.t1, x.moves = c.start[f.b], mv
		} else {
			x.t2, x.moves2 = c.start[f.b], mv
		}
	}
	if fn.Recover != nil {
		code.rec = c.start[fn.Recover]
	}
	code.nreg = len(c.regs)
	return code
}

func (c *compiler) phiMoves(from, to *ssa.BasicBlock) []move {
	var mv []move
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		mv = append(mv, move{c.reg(phi), c.op(phi.Edges[pi])})
	}
	return mv
}

func (c *compiler) reg(v ssa.Value) int32 {
	if r, ok := c.regs[v]; ok {
		return r
	}
	r := int32(len(c.regs))
	c.regs[v] = r
	return r
}

func (c *compiler) konst(key any, v Value) int32 {
	if i, ok := c.kmap[key]; ok {
		return i
	}
	i := ^int32(len(c.code.consts))
	c.code.consts = append(c.code.consts, v)
	c.kmap[key] = i
	return i
}

func (c *compiler) op(v ssa.Value) int32 {
	if v == nil {
		return c.konst("nil-operand", Value{})
	}
	switch v := v.(type) {
	case *ssa.Const:
		return c.konst(v, c.w.constVal(v))
	case *ssa.Global:
		return c.konst(v, Value{p: c.w.global(v)})
	case *ssa.Function:
		return c.konst(v, Value{p: &Closure{fn: c.w.callee(v)}})
	case *ssa.Builtin:
		return c.konst(v, Value{p: "builtin " + v.Name()})
	}
	return c.reg(v)
}

func (w *W) constVal(k *ssa.Const) Value {
	rt := w.e.types.get(k.Type())
	if k.Value == nil {
		return zeroVal(rt)
	}
	switch rt.k {
	case KBool:
		return Value{n: b2u(constant.BoolVal(k.Value))}
	case KInt:
		if rt.signed {
			return Value{n: rt.norm(uint64(k.Int64()))}
		}
		return Value{n: rt.norm(k.Uint64())}
	case KF64:
		f, _ := constant.Float64Val(constant.ToFloat(k.Value))
		return Value{n: math.Float64bits(f)}
	case KF32:
		f, _ := constant.Float64Val(constant.ToFloat(k.Value))
		return Value{n: uint64(math.Float32bits(float32(f)))}
	case KString:
		if k.Value.Kind() == constant.String {
			return mkStr(constant.StringVal(k.Value))
		}
		return mkStr(string(rune(k.Int64())))
	case KIface:
		// untyped constant converted to interface does not occur in SSA
	case KComplex:
		return Value{p: k.Complex128()}
	}
	panic(inconclusive{"constant " + k.String()})
}

func (w *W) global(g *ssa.Global) *Value {
	if p, ok := w.globals[g]; ok {
		return p
	}
	p := new(Value)
	rt := w.e.types.get(g.Type().(*types.Pointer).Elem())
	*p = zeroVal(rt)
	if g.Pkg.Pkg.Path() == "os" { // set by the runtime before any initializer
		switch g.Name() {
		case "Stdin", "Stdout", "Stderr":
			f := new(Value)
			*f = zeroVal(rt.elem)
			*p = Value{p: f}
		case "Args":
			*p = Value{p: &Slice{[]Value{{p: &Str{s: "program"}}}}}
		}
	}
	w.globals[g] = p
	return p
}

func (c *compiler) ty(t types.Type) *RType { return c.w.e.types.get(t) }

func (c *compiler) instr(in ssa.Instruction) Instr {
	switch in := in.(type) {
	case *ssa.Alloc:
		return Instr{op: iAlloc, dst: c.reg(in), rt: c.ty(in.Type().Underlying().(*types.Pointer).Elem())}
	case *ssa.BinOp:
		x := Instr{op: iBin, tok: in.Op, dst: c.reg(in), a: c.op(in.X), b: c.op(in.Y), rt: c.ty(in.X.Type()), rt2: c.ty(in.Y.Type())}
		// comparison of interface with concrete
		return x
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			return Instr{op: iLoad, dst: c.reg(in), a: c.op(in.X), rt: c.ty(in.Type())}
		case token.NOT:
			return Instr{op: iNot, dst: c.reg(in), a: c.op(in.X)}
		case token.SUB:
			return Instr{op: iNegate, dst: c.reg(in), a: c.op(in.X), rt: c.ty(in.Type())}
		case token.XOR:
			return Instr{op: iCompl, dst: c.reg(in), a: c.op(in.X), rt: c.ty(in.Type())}
		}
		return Instr{op: iUnsupported, name: "unop " + in.Op.String()}
	case *ssa.ChangeType:
		return Instr{op: iMove, dst: c.reg(in), a: c.op(in.X)}
	case *ssa.ChangeInterface:
		return Instr{op: iMove, dst: c.reg(in), a: c.op(in.X)}
	case *ssa.Convert:
		return Instr{op: iConvert, dst: c.reg(in), a: c.op(in.X), rt: c.ty(in.X.Type()), rt2: c.ty(in.Type())}
	case *ssa.MultiConvert:
		return Instr{op: iConvert, dst: c.reg(in), a: c.op(in.X), rt: c.ty(in.X.Type()), rt2: c.ty(in.Type())}
	case *ssa.SliceToArrayPointer:
		return Instr{op: iSliceToArrPtr, dst: c.reg(in), a: c.op(in.X), rt: c.ty(in.Type().Underlying().(*types.Pointer).Elem())}
	case *ssa.MakeInterface:
		return Instr{op: iMakeIface, dst: c.reg(in), a: c.op(in.X), rt: c.ty(in.X.Type())}
	case *ssa.MakeClosure:
		x := Instr{op: iMakeClosure, dst: c.reg(in), callee: c.w.callee(in.Fn.(*ssa.Function))}
		for _, b := range in.Bindings {
			x.args = append(x.args, c.op(b))
		}
		return x
	case *ssa.MakeMap:
		return Instr{op: iMakeMap, dst: c.reg(in), rt: c.ty(in.Type())}
	case *ssa.MakeChan:
		return Instr{op: iMakeChan, dst: c.reg(in), rt: c.ty(in.Type())}
	case *ssa.MakeSlice:
		return Instr{op: iMakeSlice, dst: c.reg(in), a: c.op(in.Len), b: c.op(in.Cap), rt: c.ty(in.Type()), rt2: c.ty(in.Len.Type())}
	case *ssa.Slice:
		x := Instr{op: iSlice, dst: c.reg(in), a: c.op(in.X), rt: c.ty(in.X.Type()), args: []int32{-1 << 30, -1 << 30, -1 << 30}}
		if in.Low != nil {
			x.args[0] = c.op(in.Low)
		}
		if in.High != nil {
			x.args[1] = c.op(in.High)
		}
		if in.Max != nil {
			x.args[2] = c.op(in.Max)
		}
		return x
	case *ssa.FieldAddr:
		return Instr{op: iFieldAddr, dst: c.reg(in), a: c.op(in.X), n: in.Field}
	case *ssa.Field:
		return Instr{op: iField, dst: c.reg(in), a: c.op(in.X), n: in.Field}
	case *ssa.IndexAddr:
		x := Instr{op: iIndexAddr, dst: c.reg(in), a: c.op(in.X), b: c.op(in.Index), rt: c.ty(in.X.Type()), rt2: c.ty(in.Index.Type())}
		return x
	case *ssa.Index:
		return Instr{op: iIndex, dst: c.reg(in), a: c.op(in.X), b: c.op(in.Index), rt: c.ty(in.X.Type()), rt2: c.ty(in.Index.Type())}
	case *ssa.Lookup:
		return Instr{op: iLookup, dst: c.reg(in), a: c.op(in.X), b: c.op(in.Index), rt: c.ty(in.X.Type()), rt2: c.ty(in.Index.Type()), flag: in.CommaOk}
	case *ssa.Range:
		return Instr{op: iRange, dst: c.reg(in), a: c.op(in.X), rt: c.ty(in.X.Type())}
	case *ssa.Next:
		x := Instr{op: iNext, dst: c.reg(in), a: c.op(in.Iter), flag: in.IsString}
		if !in.IsString {
			x.rt = c.ty(in.Type())
		}
		return x
	case *ssa.TypeAssert:
		return Instr{op: iTypeAssert, dst: c.reg(in), a: c.op(in.X), rt: c.ty(in.AssertedType), flag: in.CommaOk}
	case *ssa.Extract:
		return Instr{op: iExtract, dst: c.reg(in), a: c.op(in.Tuple), n: in.Index}
	case *ssa.Return:
		x := Instr{op: iReturn}
		for _, r := range in.Results {
			x.args = append(x.args, c.op(r))
		}
		return x
	case *ssa.RunDefers:
		return Instr{op: iRunDefers}
	case *ssa.Panic:
		return Instr{op: iPanic, a: c.op(in.X)}
	case *ssa.Store:
		return Instr{op: iStore, a: c.op(in.Addr), b: c.op(in.Val)}
	case *ssa.MapUpdate:
		return Instr{op: iMapUpdate, a: c.op(in.Map), b: c.op(in.Key), c: c.op(in.Value)}
	case *ssa.Call:
		x := c.call(&in.Call)
		x.dst = c.reg(in)
		return x
	case *ssa.Defer:
		x := c.call(&in.Call)
		inner := x
		return Instr{op: iDefer, x: &inner}
	case *ssa.Go:
		return Instr{op: iUnsupported, name: "go statement"}
	case *ssa.Select:
		return Instr{op: iUnsupported, name: "select"}
	case *ssa.Send:
		return Instr{op: iUnsupported, name: "send"}
	}
	return Instr{op: iUnsupported, name: in.String()}
}

func (c *compiler) call(cc *ssa.CallCommon) Instr {
	x := Instr{dst: -1}
	if cc.IsInvoke() {
		x.op = iInvoke
		x.a = c.op(cc.Value)
		x.meth = cc.Method
		x.icache = map[*RType]*Callee{}
	} else {
		switch f := cc.Value.(type) {
		case *ssa.Function:
			x.op = iCall
			x.callee = nil
			x.x = f
		case *ssa.Builtin:
			x.op = iBuiltin
			x.name = f.Name()
			for _, a := range cc.Args {
				if x.rt == nil {
					x.rt = c.ty(a.Type())
				} else if x.rt2 == nil {
					x.rt2 = c.ty(a.Type())
				}
			}
			if f.Type() != nil {
				if sig, ok := f.Type().(*types.Signature); ok && sig.Results().Len() == 1 {
					x.x = c.ty(sig.Results().At(0).Type())
				}
			}
		default:
			x.op = iCallV
			x.a = c.op(cc.Value)
		}
	}
	for _, a := range cc.Args {
		x.args = append(x.args, c.op(a))
	}
	return x
}
