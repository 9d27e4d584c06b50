package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"os"
	"runtime"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type deferRec struct {
	in   *Instr
	args []Value
	fnv  Value // closure or interface receiver
}

type Frame struct {
	code      *Code
	pc        int
	regs      []Value
	defers    []*deferRec
	dst       int32
	frozen    bool
	isDefer   bool
	panicking bool
	unwinding bool
	pval      Value
}

func (f *Frame) clone() *Frame {
	g := *f
	g.frozen = false
	g.regs = append([]Value(nil), f.regs...)
	g.defers = append([]*deferRec(nil), f.defers...)
	return &g
}

type goPanic struct{ v Value }
type pathEnd struct{ reason string }
type mergeAbort struct{ why string }

func (w *W) newFrame(code *Code) *Frame {
	if n := len(w.freeFr); n > 0 {
		f := w.freeFr[n-1]
		w.freeFr = w.freeFr[:n-1]
		regs := f.regs
		if cap(regs) >= code.nreg {
			regs = regs[:code.nreg]
		} else {
			regs = make([]Value, code.nreg, code.nreg+8)
		}
		*f = Frame{code: code, regs: regs}
		return f
	}
	return &Frame{code: code, regs: make([]Value, code.nreg, code.nreg+16)}
}

func (w *W) recycle(f *Frame) {
	if f.frozen || len(w.freeFr) > 64 {
		return
	}
	clear(f.regs)
	w.freeFr = append(w.freeFr, f)
}

func (w *W) push(f *Frame) {
	if len(w.stack) >= w.maxDepth {
		panic(pathEnd{"stack-overflow"})
	}
	w.stack = append(w.stack, f)
	if f.code.inRepo {
		w.noteFn(f.code)
	}
}

func (w *W) noteFn(c *Code) {
	w.fnSeen[c]++
}

// thaw makes stack[i] writable.
func (w *W) thaw(i int) *Frame {
	f := w.stack[i]
	if f.frozen {
		f = f.clone()
		w.stack[i] = f
	}
	return f
}

func (w *W) throw(msg string) {
	if w.e.debug {
		fmt.Fprintln(os.Stderr, "runtime panic:", msg, "\n"+w.backtrace())
	}
	panic(goPanic{w.runtimeError(msg)})
}

func (w *W) runtimeError(msg string) Value {
	return Value{p: &Iface{t: w.e.rtErrType, v: mkStr(msg)}}
}

// run executes until the stack shrinks to base; the result is in w.ret.
func (w *W) run(base int) {
	for !w.runInner(base) {
	}
}

func (w *W) runInner(base int) (done bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case goPanic:
				w.raise(r.v, base)
				done = len(w.stack) <= base
			case runtime.Error:
				where := ""
				if len(w.stack) > 0 {
					f := w.stack[len(w.stack)-1]
					where = w.where(f)
				}
				if w.e.debug {
					panic(r)
				}
				panic(inconclusive{fmt.Sprintf("engine error: %v at %s", r, where)})
			default:
				panic(r)
			}
		}
	}()
	return w.loop(base)
}

func (w *W) where(f *Frame) string {
	pos := token.NoPos
	if f.pc < len(f.code.ins) {
		pos = f.code.ins[f.pc].pos
	}
	return f.code.name + " " + w.e.fset.Position(pos).String()
}

func (w *W) backtrace() string {
	var sb strings.Builder
	for i := len(w.stack) - 1; i >= 0 && i > len(w.stack)-25; i-- {
		sb.WriteString("  " + w.where(w.stack[i]) + "\n")
	}
	return sb.String()
}

// raise starts or continues panic unwinding from the top frame.
func (w *W) raise(v Value, base int) {
	for len(w.stack) > base {
		f := w.thaw(len(w.stack) - 1)
		f.panicking = true
		f.unwinding = true
		f.pval = v
		if w.continueDefers(f) {
			return // a deferred call was pushed
		}
		if !f.panicking { // recovered (by a native defer)
			w.afterUnwind(f, base)
			return
		}
		isDefer := f.isDefer
		_ = isDefer
		w.stack = w.stack[:len(w.stack)-1]
	}
	w.uncaught = true
	w.uncaughtVal = v
	if base > 0 {
		panic(mergeAbort{"panic"})
	}
}

// continueDefers runs the next deferred call of f; reports whether a frame was pushed.
func (w *W) continueDefers(f *Frame) bool {
	for len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		if w.invokeDefer(f, d) {
			return true
		}
	}
	return false
}

func (w *W) invokeDefer(f *Frame, d *deferRec) bool {
	in := d.in
	var callee *Callee
	args := d.args
	switch in.op {
	case iBuiltin:
		w.builtin(f, in, args)
		return false
	case iCall:
		callee = w.callee(in.x.(*ssa.Function))
	case iCallV:
		if d.fnv.p == nil {
			w.throw("invalid memory address or nil pointer dereference")
		}
		c := d.fnv.p.(*Closure)
		callee = c.fn
		return w.pushCall(f, callee, args, c.free, -1, true, in)
	case iInvoke:
		if d.fnv.p == nil {
			w.throw("invalid memory address or nil pointer dereference")
		}
		i := d.fnv.p.(*Iface)
		callee = w.method(in, i.t)
		args = append([]Value{i.v}, args...)
	}
	return w.pushCall(f, callee, args, nil, -1, true, in)
}

// pushCall starts a call; it reports whether a frame was pushed (false when a
// native model completed it, with the result in w.ret).
func (w *W) pushCall(f *Frame, callee *Callee, args, free []Value, dst int32, isDefer bool, in *Instr) bool {
	if !callee.ready {
		callee.resolve(w)
	}
	if callee.native != nil {
		nc := NCall{w: w, fr: f, in: in, args: args, fn: callee.orig}
		w.tail = nil
		w.ret = callee.native(w, &nc)
		if w.tail != nil {
			t := w.tail
			w.tail = nil
			return w.pushCall(f, t.callee, t.args, t.free, dst, isDefer, in)
		}
		return false
	}
	nf := w.newFrame(callee.code)
	copy(nf.regs, args)
	copy(nf.regs[callee.code.nparam:], free)
	nf.dst = dst
	nf.isDefer = isDefer
	w.push(nf)
	return true
}

// afterUnwind continues a frame whose panic was recovered and whose defers ran.
func (w *W) afterUnwind(f *Frame, base int) {
	f.unwinding = false
	if f.code.rec >= 0 {
		f.pc = f.code.rec
		return
	}
	// no recover block: return zero values
	var ret Value
	switch len(f.code.res) {
	case 0:
	case 1:
		ret = zeroVal(f.code.res[0])
	default:
		e := make([]Value, len(f.code.res))
		for i, r := range f.code.res {
			e[i] = zeroVal(r)
		}
		ret = Value{p: &Agg{e}}
	}
	w.doReturn(f, ret, base)
}

// doReturn pops f (the top frame) with result ret and continues the caller.
func (w *W) doReturn(f *Frame, ret Value, base int) {
	dst, isDefer := f.dst, f.isDefer
	w.stack = w.stack[:len(w.stack)-1]
	w.recycle(f)
	w.ret = ret
	if len(w.stack) <= base {
		return
	}
	p := w.thaw(len(w.stack) - 1)
	if isDefer {
		if p.unwinding {
			if w.continueDefers(p) {
				return
			}
			if p.panicking {
				v := p.pval
				w.stack = w.stack[:len(w.stack)-1]
				// propagate to the caller
				if p.isDefer && len(w.stack) > base {
					// a deferred function panicked: replaces the parent's panic
				}
				w.raise(v, base)
				return
			}
			w.afterUnwind(p, base)
			return
		}
		// in RunDefers
		if w.continueDefers(p) {
			return
		}
		p.pc++
		return
	}
	if dst >= 0 {
		p.regs[dst] = ret
	}
	p.pc++
}

func (w *W) get(f *Frame, o int32) Value {
	if o >= 0 {
		return f.regs[o]
	}
	return f.code.consts[^o]
}

func (w *W) loop(base int) bool {
outer:
	for len(w.stack) > base {
		f := w.stack[len(w.stack)-1]
		if f.frozen {
			f = f.clone()
			w.stack[len(w.stack)-1] = f
		}
		depth := len(w.stack)
		code := f.code
		for len(w.stack) == depth && w.stack[depth-1] == f {
			in := &code.ins[f.pc]
			w.steps++
			if w.steps > w.stepLimit {
				panic(pathEnd{"step-limit"})
			}
			w.st.journal = len(w.journal)
			w.st.ndec = len(w.ctx.dec)
			w.st.pc = len(w.ctx.pc)
			w.st.trail = len(w.ctx.trail)
			w.st.nvars = w.nvars
			w.st.nobs = len(w.obs)
			w.st.steps = w.steps - 1
			if w.steps&0xffff == 0 {
				w.checkTime()
			}
			switch in.op {
			case iJump:
				w.doMoves(f, in.moves)
				f.pc = in.t1
			case iIf:
				c := w.get(f, in.a)
				b := c.n != 0
				if t, ok := c.p.(*Term); ok {
					b = w.branch(t)
				}
				if b {
					w.doMoves(f, in.moves)
					f.pc = in.t1
				} else {
					w.doMoves(f, in.moves2)
					f.pc = in.t2
				}
			case iBin:
				x, y := w.get(f, in.a), w.get(f, in.b)
				if x.p == nil && y.p == nil && in.rt.k == KInt {
					f.regs[in.dst] = w.binInt(in, x.n, y.n)
				} else {
					f.regs[in.dst] = w.bin(in, x, y)
				}
				f.pc++
			case iLoad:
				f.regs[in.dst] = w.load(w.get(f, in.a), in.rt)
				f.pc++
			case iStore:
				p := w.get(f, in.a)
				pp, ok := p.p.(*Value)
				if !ok {
					pp = w.ptr(p)
				}
				v := w.get(f, in.b)
				if _, ok := pp.p.(*Agg); ok {
					w.store(pp, v)
				} else {
					w.journal = append(w.journal, jent{pp, *pp})
					*pp = v
				}
				f.pc++
			case iAlloc:
				c := new(Value)
				if in.rt.agg {
					*c = zeroVal(in.rt)
				}
				f.regs[in.dst] = Value{p: c}
				f.pc++
			case iMove:
				f.regs[in.dst] = w.get(f, in.a)
				f.pc++
			case iFieldAddr:
				p := w.get(f, in.a)
				pp, ok := p.p.(*Value)
				if !ok {
					pp = w.ptr(p)
				}
				f.regs[in.dst] = Value{p: &pp.p.(*Agg).e[in.n]}
				f.pc++
			case iField:
				f.regs[in.dst] = copyVal(w.get(f, in.a).p.(*Agg).e[in.n])
				f.pc++
			case iIndexAddr:
				w.indexAddr(f, in)
				f.pc++
			case iIndex:
				w.index(f, in)
				f.pc++
			case iExtract:
				f.regs[in.dst] = w.get(f, in.a).p.(*Agg).e[in.n]
				f.pc++
			case iCall:
				callee := in.callee
				if callee == nil {
					callee = w.callee(in.x.(*ssa.Function))
					in.callee = callee
				}
				w.call(f, in, callee, Value{}, false, nil)
			case iCallV:
				fv := w.get(f, in.a)
				if fv.p == nil {
					w.throw("invalid memory address or nil pointer dereference")
				}
				c, ok := fv.p.(*Closure)
				if !ok {
					panic(inconclusive{fmt.Sprintf("call of %T", fv.p)})
				}
				w.call(f, in, c.fn, Value{}, false, c.free)
			case iInvoke:
				iv := w.get(f, in.a)
				if iv.p == nil {
					w.throw("invalid memory address or nil pointer dereference")
				}
				i := iv.p.(*Iface)
				callee, ok := in.icache[i.t]
				if !ok {
					callee = w.method(in, i.t)
					in.icache[i.t] = callee
				}
				w.call(f, in, callee, i.v, true, nil)
			case iBuiltin:
				args := make([]Value, len(in.args))
				for i, a := range in.args {
					args[i] = w.get(f, a)
				}
				r := w.builtin(f, in, args)
				if in.dst >= 0 {
					f.regs[in.dst] = r
				}
				f.pc++
			case iReturn:
				var ret Value
				switch len(in.args) {
				case 0:
				case 1:
					ret = w.get(f, in.args[0])
				default:
					e := make([]Value, len(in.args))
					for i, a := range in.args {
						e[i] = w.get(f, a)
					}
					ret = Value{p: &Agg{e}}
				}
				w.doReturn(f, ret, base)
				continue outer
			case iRunDefers:
				if len(f.defers) == 0 {
					f.pc++
				} else if !w.continueDefers(f) {
					f.pc++
				}
			case iDefer:
				inner := in.x.(*Instr)
				d := &deferRec{in: inner}
				if inner.op == iCallV || inner.op == iInvoke {
					d.fnv = w.get(f, inner.a)
				}
				for _, a := range inner.args {
					d.args = append(d.args, w.get(f, a))
				}
				f.defers = append(f.defers, d)
				f.pc++
			case iPanic:
				v := w.get(f, in.a)
				if v.p == nil {
					w.throw("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
				}
				panic(goPanic{v})
			case iNot:
				x := w.get(f, in.a)
				if t, ok := x.p.(*Term); ok {
					f.regs[in.dst] = w.boolVal(w.tt.Not(t))
				} else {
					f.regs[in.dst] = Value{n: 1 - x.n}
				}
				f.pc++
			case iNegate:
				x := w.get(f, in.a)
				if t, ok := x.p.(*Term); ok {
					f.regs[in.dst] = w.val(w.tt.Neg(t), in.rt)
				} else if in.rt.k == KF64 {
					f.regs[in.dst] = Value{n: math.Float64bits(-math.Float64frombits(x.n))}
				} else if in.rt.k == KF32 {
					f.regs[in.dst] = Value{n: uint64(math.Float32bits(-math.Float32frombits(uint32(x.n))))}
				} else {
					f.regs[in.dst] = Value{n: in.rt.norm(-x.n)}
				}
				f.pc++
			case iCompl:
				x := w.get(f, in.a)
				if t, ok := x.p.(*Term); ok {
					f.regs[in.dst] = w.val(w.tt.BVNot(t), in.rt)
				} else {
					f.regs[in.dst] = Value{n: in.rt.norm(^x.n)}
				}
				f.pc++
			case iConvert:
				w.convert(f, in)
			case iMakeIface:
				f.regs[in.dst] = Value{p: &Iface{t: in.rt, v: w.get(f, in.a)}}
				f.pc++
			case iMakeClosure:
				c := &Closure{fn: in.callee}
				for _, a := range in.args {
					c.free = append(c.free, w.get(f, a))
				}
				f.regs[in.dst] = Value{p: c}
				f.pc++
			case iMakeMap:
				f.regs[in.dst] = Value{p: &MapObj{t: in.rt, index: map[any]int{}}}
				f.pc++
			case iMakeChan:
				f.regs[in.dst] = Value{p: new(struct{ x int })}
				f.pc++
			case iMakeSlice:
				n := w.concInt(w.get(f, in.a), in.rt2)
				cp := w.concInt(w.get(f, in.b), in.rt2)
				if int64(n) < 0 || n > 1<<32 {
					w.throw("makeslice: len out of range")
				}
				if int64(cp) < int64(n) || cp > 1<<32 {
					w.throw("makeslice: cap out of range")
				}
				a := make([]Value, n, cp)
				if in.rt.elem.agg {
					full := a[:cp]
					for i := range full {
						full[i] = zeroVal(in.rt.elem)
					}
				}
				f.regs[in.dst] = Value{p: &Slice{a}}
				f.pc++
			case iSlice:
				f.regs[in.dst] = w.slice(f, in)
				f.pc++
			case iLookup:
				w.lookup(f, in)
				f.pc++
			case iMapUpdate:
				m := w.get(f, in.a)
				if m.p == nil {
					w.throw("assignment to entry in nil map")
				}
				w.mapSet(m.p.(*MapObj), w.get(f, in.b), w.get(f, in.c))
				f.pc++
			case iRange:
				w.rangeStart(f, in)
				f.pc++
			case iNext:
				w.next(f, in)
			case iTypeAssert:
				w.typeAssert(f, in)
				f.pc++
			case iSliceToArrPtr:
				s := w.get(f, in.a)
				var a []Value
				if s.p != nil {
					a = s.p.(*Slice).a
				}
				if len(a) < in.rt.n {
					w.throw("cannot convert slice to array pointer: length too short")
				}
				if s.p == nil {
					f.regs[in.dst] = Value{}
				} else {
					c := &Value{p: &Agg{a[:in.rt.n:in.rt.n]}}
					f.regs[in.dst] = Value{p: c}
				}
				f.pc++
			case iNop:
				f.pc++
			default:
				panic(inconclusive{"unsupported instruction: " + in.name + " in " + code.name})
			}
		}
	}
	return true
}

func (w *W) doMoves(f *Frame, mv []move) {
	switch len(mv) {
	case 0:
	case 1:
		f.regs[mv[0].dst] = w.get(f, mv[0].src)
	default:
		var tmp [16]Value
		t := tmp[:]
		if len(mv) > 16 {
			t = make([]Value, len(mv))
		}
		for i, m := range mv {
			t[i] = w.get(f, m.src)
		}
		for i, m := range mv {
			f.regs[m.dst] = t[i]
		}
	}
}

func (w *W) call(f *Frame, in *Instr, callee *Callee, recv Value, hasRecv bool, free []Value) {
	if !callee.ready {
		callee.resolve(w)
	}
	if w.initMode && callee.native == nil && callee.orig.Pkg != nil && skipInit(callee.orig.Pkg.Pkg.Path()) && callee.orig.Signature.Results().Len() > 0 && initStub(callee.orig) {
		if in.dst >= 0 {
			f.regs[in.dst] = zeroResults(w, callee.orig.Signature.Results())
		}
		f.pc++
		return
	}
	if callee.native != nil {
		n := len(in.args)
		if hasRecv {
			n++
		}
		args := make([]Value, n)
		k := 0
		if hasRecv {
			args[0] = recv
			k = 1
		}
		for i, a := range in.args {
			args[k+i] = w.get(f, a)
		}
		nc := NCall{w: w, fr: f, in: in, args: args, fn: callee.orig}
		w.tail = nil
		r := callee.native(w, &nc)
		if w.tail != nil {
			t := w.tail
			w.tail = nil
			if w.pushCall(f, t.callee, t.args, t.free, in.dst, false, in) {
				return
			}
			r = w.ret
		}
		if in.dst >= 0 {
			f.regs[in.dst] = r
		}
		f.pc++
		return
	}
	code := callee.code
	nf := w.newFrame(code)
	k := 0
	if hasRecv {
		nf.regs[0] = recv
		k = 1
	}
	symArg := false
	for i, a := range in.args {
		v := w.get(f, a)
		if _, ok := v.p.(*Term); ok {
			symArg = true
		}
		nf.regs[k+i] = v
	}
	if symArg && !hasRecv && len(free) == 0 && w.isPure(callee) {
		if r, ok := w.mergeCall(callee, nf.regs[:len(in.args)]); ok {
			w.recycle(nf)
			if in.dst >= 0 {
				f.regs[in.dst] = r
			}
			f.pc++
			return
		}
	}
	copy(nf.regs[code.nparam:], free)
	nf.dst = in.dst
	w.push(nf)
}

func (w *W) method(in *Instr, t *RType) *Callee {
	fn := w.lookupMethod(t, in.meth)
	if fn == nil {
		panic(inconclusive{"method not found: " + in.meth.Name() + " on " + t.String()})
	}
	return w.callee(fn)
}

func (w *W) lookupMethod(t *RType, m *types.Func) *ssa.Function {
	key := m.Id()
	t.mu.Lock()
	defer t.mu.Unlock()
	if fn, ok := t.meths[key]; ok {
		return fn
	}
	if t.meths == nil {
		t.meths = map[string]*ssa.Function{}
	}
	var fn *ssa.Function
	ms := w.e.prog.MethodSets.MethodSet(t.t)
	if sel := ms.Lookup(m.Pkg(), m.Name()); sel != nil {
		fn = w.e.prog.MethodValue(sel)
	}
	t.meths[key] = fn
	return fn
}

func (w *W) implements(t, iface *RType) bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	if r, ok := t.impl[iface]; ok {
		return r
	}
	if t.impl == nil {
		t.impl = map[*RType]bool{}
	}
	w.e.implMu.Lock()
	r := types.Implements(t.t, iface.u.(*types.Interface))
	w.e.implMu.Unlock()
	t.impl[iface] = r
	return r
}

// ptr resolves a pointer value for writing or field access.
func (w *W) ptr(p Value) *Value {
	switch x := p.p.(type) {
	case *Value:
		return x
	case nil:
		w.throw("invalid memory address or nil pointer dereference")
	case *SymPtr:
		i := w.concretize(x.idx)
		return &x.elems[i]
	case *DataPtr:
		if len(x.a) > 0 {
			return &x.a[0]
		}
	}
	panic(inconclusive{fmt.Sprintf("dereference of %T", p.p)})
}

func (w *W) load(p Value, rt *RType) Value {
	if pp, ok := p.p.(*Value); ok {
		if rt.agg {
			return copyVal(*pp)
		}
		if t, ok := pp.p.(*Term); ok {
			// a float64 read as its bits through unsafe.Pointer, or the reverse
			if rt.k == KF64 && t.w == 64 {
				return w.val(w.tt.un(OFBits, wF64, t), rt)
			}
			if rt.k == KInt && t.w == wF64 {
				return w.val(w.tt.un(OFToBit, 64, t), rt)
			}
		}
		return *pp
	}
	if sp, ok := p.p.(*SymPtr); ok && (rt.k == KInt || rt.k == KBool || rt.k == KF64) {
		return w.symLoad(sp, rt)
	}
	return copyVal(*w.ptr(p))
}

func (w *W) symLoad(sp *SymPtr, rt *RType) Value {
	conc := true
	for _, e := range sp.elems {
		if e.p != nil {
			conc = false
			break
		}
	}
	tw := rt.w
	if conc {
		tbl := make([]uint64, len(sp.elems))
		for i, e := range sp.elems {
			tbl[i] = e.n
			if rt.k == KInt {
				tbl[i] &= mask(rt.w)
			}
		}
		return w.val(w.tt.Table(sp.idx, tbl, tw), rt)
	}
	lo, hi := sp.idx.lo, sp.idx.hi
	if hi >= uint64(len(sp.elems)) {
		hi = uint64(len(sp.elems)) - 1
	}
	r := w.term(sp.elems[hi], rt)
	for i := int64(hi) - 1; i >= int64(lo); i-- {
		r = w.tt.Ite(w.tt.Cmp(OEq, sp.idx, w.tt.Const(uint64(i), sp.idx.w)), w.term(sp.elems[i], rt), r)
	}
	return w.val(r, rt)
}

// boundsIdx checks idx against n, returning a concrete index or a term.
func (w *W) boundsIdx(iv Value, it *RType, n int) (int, *Term) {
	if t, ok := iv.p.(*Term); ok {
		// treat as unsigned comparison at 64 bits
		var t64 *Term
		if it.signed {
			t64 = w.tt.Sext(t, 64)
		} else {
			t64 = w.tt.Zext(t, 64)
		}
		if !w.branch(w.tt.Cmp(OUlt, t64, w.tt.Const(uint64(n), 64))) {
			w.throw(fmt.Sprintf("index out of range with length %d", n))
		}
		return -1, t64
	}
	if iv.n >= uint64(n) {
		w.throw(fmt.Sprintf("index out of range [%d] with length %d", int64(iv.n), n))
	}
	return int(iv.n), nil
}

func (w *W) indexAddr(f *Frame, in *Instr) {
	x := w.get(f, in.a)
	var elems []Value
	var et *RType
	if in.rt.k == KSlice {
		if x.p != nil {
			elems = x.p.(*Slice).a
		}
		et = in.rt.elem
	} else { // pointer to array
		pp, ok := x.p.(*Value)
		if !ok {
			pp = w.ptr(x)
		}
		elems = pp.p.(*Agg).e
		et = in.rt.elem.elem
	}
	iv := w.get(f, in.b)
	if iv.p == nil && iv.n < uint64(len(elems)) {
		f.regs[in.dst] = Value{p: &elems[iv.n]}
		return
	}
	i, t := w.boundsIdx(iv, in.rt2, len(elems))
	if t == nil {
		f.regs[in.dst] = Value{p: &elems[i]}
		return
	}
	if et.agg || et.k == KString || len(elems) > 1024 {
		f.regs[in.dst] = Value{p: &elems[w.concretize(t)]}
		return
	}
	f.regs[in.dst] = Value{p: &SymPtr{elems: elems, idx: t, et: et}}
}

func (w *W) index(f *Frame, in *Instr) {
	x := w.get(f, in.a)
	iv := w.get(f, in.b)
	if in.rt.k == KString {
		f.regs[in.dst] = w.strIndex(strOf(x), iv, in.rt2)
		return
	}
	elems := x.p.(*Agg).e
	i, t := w.boundsIdx(iv, in.rt2, len(elems))
	if t == nil {
		f.regs[in.dst] = copyVal(elems[i])
		return
	}
	f.regs[in.dst] = w.load(Value{p: &SymPtr{elems: elems, idx: t, et: in.rt.elem}}, in.rt.elem)
}

func (w *W) strIndex(s *Str, iv Value, it *RType) Value {
	i, t := w.boundsIdx(iv, it, len(s.s))
	if t == nil {
		return s.at(i)
	}
	elems := make([]Value, len(s.s))
	for i := range elems {
		elems[i] = s.at(i)
	}
	return w.symLoad(&SymPtr{elems: elems, idx: t, et: w.e.byteType}, w.e.byteType)
}

func (w *W) concInt(v Value, rt *RType) uint64 {
	if t, ok := v.p.(*Term); ok {
		return rt.norm(w.concretize(t))
	}
	return v.n
}

func (w *W) binInt(in *Instr, x, y uint64) Value {
	rt := in.rt
	var r uint64
	switch in.tok {
	case token.ADD:
		r = x + y
	case token.SUB:
		r = x - y
	case token.MUL:
		r = x * y
	case token.QUO:
		if y == 0 {
			w.throw("integer divide by zero")
		}
		if rt.signed {
			if int64(y) == -1 {
				r = -x
			} else {
				r = uint64(int64(x) / int64(y))
			}
		} else {
			r = x / y
		}
	case token.REM:
		if y == 0 {
			w.throw("integer divide by zero")
		}
		if rt.signed {
			if int64(y) == -1 {
				r = 0
			} else {
				r = uint64(int64(x) % int64(y))
			}
		} else {
			r = x % y
		}
	case token.AND:
		r = x & y
	case token.OR:
		r = x | y
	case token.XOR:
		r = x ^ y
	case token.AND_NOT:
		r = x &^ y
	case token.SHL:
		if in.rt2.signed && int64(y) < 0 {
			w.throw("negative shift amount")
		}
		if y < 64 {
			r = x << y
		}
	case token.SHR:
		if in.rt2.signed && int64(y) < 0 {
			w.throw("negative shift amount")
		}
		if rt.signed {
			if y > 63 {
				y = 63
			}
			r = uint64(int64(x) >> y)
		} else if y < 64 {
			r = x >> y
		}
	case token.EQL:
		return Value{n: b2u(x == y)}
	case token.NEQ:
		return Value{n: b2u(x != y)}
	case token.LSS:
		if rt.signed {
			return Value{n: b2u(int64(x) < int64(y))}
		}
		return Value{n: b2u(x < y)}
	case token.LEQ:
		if rt.signed {
			return Value{n: b2u(int64(x) <= int64(y))}
		}
		return Value{n: b2u(x <= y)}
	case token.GTR:
		if rt.signed {
			return Value{n: b2u(int64(x) > int64(y))}
		}
		return Value{n: b2u(x > y)}
	case token.GEQ:
		if rt.signed {
			return Value{n: b2u(int64(x) >= int64(y))}
		}
		return Value{n: b2u(x >= y)}
	}
	return Value{n: rt.norm(r)}
}

func (w *W) bin(in *Instr, x, y Value) Value {
	rt := in.rt
	switch in.tok {
	case token.EQL, token.NEQ:
		var t *Term
		if rt.k == KIface && in.rt2.k != KIface {
			y = Value{p: &Iface{t: in.rt2, v: y}}
		} else if rt.k != KIface && in.rt2.k == KIface {
			x = Value{p: &Iface{t: rt, v: x}}
			rt = in.rt2
		}
		t = w.eq(x, y, rt)
		if in.tok == token.NEQ {
			t = w.tt.Not(t)
		}
		return w.boolVal(t)
	}
	switch rt.k {
	case KString:
		a, b := strOf(x), strOf(y)
		switch in.tok {
		case token.ADD:
			return concatStr(a, b)
		case token.LSS:
			return w.boolVal(w.strLess(a, b, false))
		case token.LEQ:
			return w.boolVal(w.strLess(a, b, true))
		case token.GTR:
			return w.boolVal(w.strLess(b, a, false))
		case token.GEQ:
			return w.boolVal(w.strLess(b, a, true))
		}
	case KF64:
		_, s1 := x.p.(*Term)
		_, s2 := y.p.(*Term)
		if !s1 && !s2 {
			a, b := math.Float64frombits(x.n), math.Float64frombits(y.n)
			switch in.tok {
			case token.ADD:
				return Value{n: math.Float64bits(a + b)}
			case token.SUB:
				return Value{n: math.Float64bits(a - b)}
			case token.MUL:
				return Value{n: math.Float64bits(a * b)}
			case token.QUO:
				return Value{n: math.Float64bits(a / b)}
			case token.LSS:
				return Value{n: b2u(a < b)}
			case token.LEQ:
				return Value{n: b2u(a <= b)}
			case token.GTR:
				return Value{n: b2u(a > b)}
			case token.GEQ:
				return Value{n: b2u(a >= b)}
			}
		}
		a, b := w.term(x, rt), w.term(y, rt)
		switch in.tok {
		case token.ADD:
			return w.val(w.tt.Bin(OFAdd, a, b), rt)
		case token.SUB:
			return w.val(w.tt.Bin(OFSub, a, b), rt)
		case token.MUL:
			return w.val(w.tt.Bin(OFMul, a, b), rt)
		case token.QUO:
			return w.val(w.tt.Bin(OFDiv, a, b), rt)
		case token.LSS:
			return w.boolVal(w.tt.Bin(OFLt, a, b))
		case token.LEQ:
			return w.boolVal(w.tt.Bin(OFLe, a, b))
		case token.GTR:
			return w.boolVal(w.tt.Bin(OFLt, b, a))
		case token.GEQ:
			return w.boolVal(w.tt.Bin(OFLe, b, a))
		}
	case KF32:
		a, b := math.Float32frombits(uint32(x.n)), math.Float32frombits(uint32(y.n))
		var r float32
		switch in.tok {
		case token.ADD:
			r = a + b
		case token.SUB:
			r = a - b
		case token.MUL:
			r = a * b
		case token.QUO:
			r = a / b
		case token.LSS:
			return Value{n: b2u(a < b)}
		case token.LEQ:
			return Value{n: b2u(a <= b)}
		case token.GTR:
			return Value{n: b2u(a > b)}
		case token.GEQ:
			return Value{n: b2u(a >= b)}
		}
		return Value{n: uint64(math.Float32bits(r))}
	case KInt:
		return w.binSym(in, x, y)
	case KBool:
		a, b := w.term(x, rt), w.term(y, rt)
		switch in.tok {
		case token.AND, token.LAND:
			return w.boolVal(w.tt.And(a, b))
		case token.OR, token.LOR:
			return w.boolVal(w.tt.Or(a, b))
		}
	case KUnsafe, KPtr:
	}
	panic(inconclusive{"binop " + in.tok.String() + " on " + rt.String()})
}

func (w *W) binSym(in *Instr, x, y Value) Value {
	rt := in.rt
	_, okx := x.p.(*Term)
	_, oky := y.p.(*Term)
	if (x.p != nil && !okx) || (y.p != nil && !oky) {
		// pointer-carrying uintptr: only no-op arithmetic is modelled
		if (in.tok == token.XOR || in.tok == token.ADD || in.tok == token.OR) && y.p == nil && y.n == 0 {
			return x
		}
		panic(inconclusive{"arithmetic on pointer value"})
	}
	tt := w.tt
	a := w.term(x, rt)
	var b *Term
	if in.tok == token.SHL || in.tok == token.SHR {
		st := in.rt2
		b = w.term(y, st)
		if st.signed {
			if w.branch(tt.Cmp(OSlt, b, tt.Const(0, st.w))) {
				w.throw("negative shift amount")
			}
		}
		if st.w > rt.w {
			big := tt.Cmp(OUle, tt.Const(uint64(rt.w), st.w), b)
			b = tt.Ite(big, tt.Const(uint64(rt.w), rt.w), tt.Trunc(b, rt.w))
		} else {
			b = tt.Zext(b, rt.w)
		}
		if in.tok == token.SHL {
			return w.val(tt.Bin(OShl, a, b), rt)
		}
		if rt.signed {
			return w.val(tt.Bin(OAshr, a, b), rt)
		}
		return w.val(tt.Bin(OLshr, a, b), rt)
	}
	b = w.term(y, rt)
	switch in.tok {
	case token.ADD:
		return w.val(tt.Bin(OAdd, a, b), rt)
	case token.SUB:
		return w.val(tt.Bin(OSub, a, b), rt)
	case token.MUL:
		return w.val(tt.Bin(OMul, a, b), rt)
	case token.QUO, token.REM:
		if w.branch(tt.Cmp(OEq, b, tt.Const(0, rt.w))) {
			w.throw("integer divide by zero")
		}
		op := OUdiv
		switch {
		case rt.signed && in.tok == token.QUO:
			op = OSdiv
		case rt.signed:
			op = OSrem
		case in.tok == token.REM:
			op = OUrem
		}
		return w.val(tt.Bin(op, a, b), rt)
	case token.AND:
		return w.val(tt.Bin(OAnd, a, b), rt)
	case token.OR:
		return w.val(tt.Bin(OOr, a, b), rt)
	case token.XOR:
		return w.val(tt.Bin(OXor, a, b), rt)
	case token.AND_NOT:
		return w.val(tt.Bin(OAnd, a, tt.BVNot(b)), rt)
	}
	lt, le := OUlt, OUle
	if rt.signed {
		lt, le = OSlt, OSle
	}
	switch in.tok {
	case token.LSS:
		return w.boolVal(tt.Cmp(lt, a, b))
	case token.LEQ:
		return w.boolVal(tt.Cmp(le, a, b))
	case token.GTR:
		return w.boolVal(tt.Cmp(lt, b, a))
	case token.GEQ:
		return w.boolVal(tt.Cmp(le, b, a))
	}
	panic(inconclusive{"symbolic binop " + in.tok.String()})
}

type DataPtr struct {
	a   []Value
	str *Str
}

func (w *W) convert(f *Frame, in *Instr) {
	x := w.get(f, in.a)
	from, to := in.rt, in.rt2
	done := func(v Value) {
		f.regs[in.dst] = v
		f.pc++
	}
	switch {
	case from.k == KInt && to.k == KInt:
		if t, ok := x.p.(*Term); ok {
			switch {
			case to.w < from.w:
				t = w.tt.Trunc(t, to.w)
			case to.w > from.w && from.signed:
				t = w.tt.Sext(t, to.w)
			case to.w > from.w:
				t = w.tt.Zext(t, to.w)
			}
			done(w.val(t, to))
			return
		}
		if x.p != nil {
			done(x)
			return
		}
		done(Value{n: to.norm(x.n)})
		return
	case from.k == KInt && to.k == KF64:
		if t, ok := x.p.(*Term); ok {
			if from.signed {
				if t.hi <= mask(t.w)>>1 {
					done(w.val(w.tt.un(OFFromU, wF64, t), to))
					return
				}
				done(w.val(w.tt.un(OFFromS, wF64, t), to))
			} else {
				done(w.val(w.tt.un(OFFromU, wF64, t), to))
			}
			return
		}
		if from.signed {
			done(Value{n: math.Float64bits(float64(int64(x.n)))})
		} else {
			done(Value{n: math.Float64bits(float64(x.n))})
		}
		return
	case from.k == KInt && to.k == KF32:
		n := w.concInt(x, from)
		if from.signed {
			done(Value{n: uint64(math.Float32bits(float32(int64(n))))})
		} else {
			done(Value{n: uint64(math.Float32bits(float32(n)))})
		}
		return
	case from.k == KF64 && to.k == KF64:
		done(x)
		return
	case from.k == KF64 && to.k == KF32:
		n := w.concF(x)
		done(Value{n: uint64(math.Float32bits(float32(math.Float64frombits(n))))})
		return
	case from.k == KF32 && to.k == KF64:
		done(Value{n: math.Float64bits(float64(math.Float32frombits(uint32(x.n))))})
		return
	case from.k == KF32 && to.k == KF32:
		done(x)
		return
	case (from.k == KF64 || from.k == KF32) && to.k == KInt:
		var fl float64
		if from.k == KF64 {
			fl = math.Float64frombits(w.concF(x))
		} else {
			fl = float64(math.Float32frombits(uint32(x.n)))
		}
		if to.signed {
			done(Value{n: to.norm(uint64(int64(fl)))})
		} else {
			done(Value{n: to.norm(uint64(fl))})
		}
		return
	case from.k == KString && to.k == KString:
		done(x)
		return
	case from.k == KString && to.k == KSlice:
		s := strOf(x)
		if to.elem.w == 8 {
			a := make([]Value, len(s.s), roundCap(len(s.s)))
			for i := range a {
				a[i] = s.at(i)
			}
			done(Value{p: &Slice{a}})
			return
		}
		if s.sym == nil {
			rs := []rune(s.s)
			a := make([]Value, len(rs))
			for i, r := range rs {
				a[i] = Value{n: uint64(int64(r))}
			}
			done(Value{p: &Slice{a}})
			return
		}
		w.pushCall(f, w.rtFn("StringToRunes"), []Value{x}, nil, in.dst, false, in)
		return
	case from.k == KSlice && to.k == KString:
		var a []Value
		if x.p != nil {
			a = x.p.(*Slice).a
		}
		if from.elem.w == 8 {
			done(bytesToStr(a))
			return
		}
		conc := true
		rs := make([]rune, len(a))
		for i, v := range a {
			if v.p != nil {
				conc = false
			}
			rs[i] = rune(v.n)
		}
		if conc {
			done(mkStr(string(rs)))
			return
		}
		w.pushCall(f, w.rtFn("RunesToString"), []Value{x}, nil, in.dst, false, in)
		return
	case from.k == KInt && to.k == KString:
		if t, ok := x.p.(*Term); ok {
			var t64 *Term
			if from.signed {
				t64 = w.tt.Sext(t, 64)
			} else {
				t64 = w.tt.Zext(t, 64)
			}
			if w.branch(w.tt.Cmp(OUlt, t64, w.tt.Const(0x80, 64))) {
				b := w.tt.Trunc(t64, 8)
				done(mkStrSym([]byte{'?'}, []*Term{b}))
				return
			}
			w.pushCall(f, w.rtFn("RuneToString"), []Value{w.val(w.tt.Sext(t64, 64), w.e.intType)}, nil, in.dst, false, in)
			return
		}
		v := int64(x.n)
		if !from.signed && x.n > 0x10ffff {
			v = 0xfffd
		}
		if v < 0 || v > 0x10ffff {
			v = 0xfffd
		}
		done(mkStr(string(rune(v))))
		return
	case from.k == KUnsafe || to.k == KUnsafe || (from.k == KPtr && to.k == KPtr):
		done(x)
		return
	case from.k == KSlice && to.k == KSlice, from.k == KComplex && to.k == KComplex:
		done(x)
		return
	case from.k == KSlice && to.k == KArray:
		var a []Value
		if x.p != nil {
			a = x.p.(*Slice).a
		}
		if len(a) < to.n {
			w.throw("cannot convert slice to array: length too short")
		}
		done(copyVal(Value{p: &Agg{a[:to.n]}}))
		return
	}
	panic(inconclusive{"conversion " + from.String() + " -> " + to.String()})
}

func (w *W) concF(x Value) uint64 {
	if t, ok := x.p.(*Term); ok {
		b := w.tt.un(OFToBit, 64, t)
		return w.concretize(b)
	}
	return x.n
}

func bytesToStr(a []Value) Value {
	b := make([]byte, len(a))
	var sym []*Term
	for i, v := range a {
		if t, ok := v.p.(*Term); ok {
			if sym == nil {
				sym = make([]*Term, len(a))
			}
			sym[i] = t
			b[i] = '?'
		} else {
			b[i] = byte(v.n)
		}
	}
	if sym == nil {
		return mkStr(string(b))
	}
	return Value{p: &Str{string(b), sym}}
}

func (w *W) slice(f *Frame, in *Instr) Value {
	x := w.get(f, in.a)
	idx := func(i int, def int) int {
		if in.args[i] == -1<<30 {
			return def
		}
		v := w.get(f, in.args[i])
		n := v.n
		if t, ok := v.p.(*Term); ok {
			n = w.concretize(t)
		}
		if int64(n) < 0 || n > 1<<40 {
			return -1
		}
		return int(n)
	}
	switch in.rt.k {
	case KString:
		s := strOf(x)
		lo, hi := idx(0, 0), idx(1, len(s.s))
		if lo < 0 || hi < lo || hi > len(s.s) {
			w.throw(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, len(s.s)))
		}
		return s.slice(lo, hi)
	case KSlice:
		var a []Value
		if x.p != nil {
			a = x.p.(*Slice).a
		}
		lo, hi := idx(0, 0), idx(1, len(a))
		mx := idx(2, cap(a))
		if lo < 0 || hi < lo || mx < hi || mx > cap(a) {
			w.throw(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, cap(a)))
		}
		if x.p == nil {
			return Value{}
		}
		return Value{p: &Slice{a[lo:hi:mx]}}
	case KPtr: // pointer to array
		pp, ok := x.p.(*Value)
		if !ok {
			pp = w.ptr(x)
		}
		a := pp.p.(*Agg).e
		lo, hi := idx(0, 0), idx(1, len(a))
		mx := idx(2, len(a))
		if lo < 0 || hi < lo || mx < hi || mx > len(a) {
			w.throw(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with length %d", lo, hi, mx, len(a)))
		}
		return Value{p: &Slice{a[lo:hi:mx]}}
	}
	panic(inconclusive{"slice of " + in.rt.String()})
}

func (w *W) lookup(f *Frame, in *Instr) {
	x := w.get(f, in.a)
	k := w.get(f, in.b)
	if in.rt.k == KString {
		f.regs[in.dst] = w.strIndex(strOf(x), k, in.rt2)
		return
	}
	var e *MapEntry
	if x.p != nil {
		e = w.mapFind(x.p.(*MapObj), k)
	} else if in.rt.key.k == KIface {
		w.ckey(k, in.rt.key)
	}
	var v Value
	if e != nil {
		v = copyVal(*e.val)
	} else {
		v = zeroVal(in.rt.elem)
	}
	if in.flag {
		f.regs[in.dst] = Value{p: &Agg{[]Value{v, {n: b2u(e != nil)}}}}
	} else {
		f.regs[in.dst] = v
	}
}

func (w *W) rangeStart(f *Frame, in *Instr) {
	x := w.get(f, in.a)
	if in.rt.k == KString {
		// struct{ s string; pos int } as in rt.StrIter
		c := &Value{p: &Agg{[]Value{x, {}}}}
		f.regs[in.dst] = Value{p: c}
		return
	}
	it := &MapIter{}
	if x.p != nil {
		it.m = x.p.(*MapObj)
	}
	f.regs[in.dst] = Value{p: it}
	if it.m != nil && it.m.n > 1 && w.mapOrder {
		it.ord = w.choosePerm(it.m)
	}
}

func (w *W) next(f *Frame, in *Instr) {
	x := w.get(f, in.a)
	if in.flag {
		c := x.p.(*Value).p.(*Agg)
		s := strOf(c.e[0])
		pos := int(c.e[1].n)
		if pos >= len(s.s) {
			f.regs[in.dst] = Value{p: &Agg{[]Value{{}, {}, {}}}}
			f.pc++
			return
		}
		if s.sym == nil {
			r, n := decodeRune(s.s[pos:])
			w.set(&c.e[1], Value{n: uint64(pos + n)})
			f.regs[in.dst] = Value{p: &Agg{[]Value{{n: 1}, {n: uint64(pos)}, {n: uint64(int64(r))}}}}
			f.pc++
			return
		}
		b := w.byteTerm(s, pos)
		if w.branch(w.tt.Cmp(OUlt, b, w.tt.Const(0x80, 8))) {
			w.set(&c.e[1], Value{n: uint64(pos + 1)})
			f.regs[in.dst] = Value{p: &Agg{[]Value{{n: 1}, {n: uint64(pos)}, w.val(w.tt.Zext(b, 32), w.e.runeType)}}}
			f.pc++
			return
		}
		w.pushCall(f, w.rtFn("StrNext"), []Value{x}, nil, in.dst, false, in)
		return
	}
	it := x.p.(*MapIter)
	ktup := func(ok bool, k, v Value) {
		f.regs[in.dst] = Value{p: &Agg{[]Value{{n: b2u(ok)}, k, v}}}
		f.pc++
	}
	old := it.pos
	for it.m != nil && it.pos < len(it.m.entries) {
		i := it.pos
		if it.ord != nil && i < len(it.ord) {
			i = it.ord[i]
		}
		e := it.m.entries[i]
		it.pos++
		if e.dead {
			continue
		}
		w.undoFn(func() { it.pos = old })
		ktup(true, copyVal(e.key), copyVal(*e.val))
		return
	}
	w.undoFn(func() { it.pos = old })
	ktup(false, Value{}, Value{})
}

// choosePerm forks over iteration orders of a small map (identity or reversed or rotated).
func (w *W) choosePerm(m *MapObj) []int {
	n := len(m.entries)
	k := w.chooseInternal("map-order", 3)
	ord := make([]int, n)
	for i := range ord {
		switch k {
		case 0:
			ord[i] = i
		case 1:
			ord[i] = n - 1 - i
		default:
			ord[i] = (i + n/2) % n
		}
	}
	return ord
}

func (w *W) typeAssert(f *Frame, in *Instr) {
	x := w.get(f, in.a)
	ok := false
	var v Value
	if x.p != nil {
		i := x.p.(*Iface)
		if in.rt.k == KIface {
			if w.implements(i.t, in.rt) {
				ok = true
				v = x
			}
		} else if i.t == in.rt {
			ok = true
			v = copyVal(i.v)
		}
	}
	if in.flag {
		if !ok {
			v = zeroVal(in.rt)
		}
		f.regs[in.dst] = Value{p: &Agg{[]Value{v, {n: b2u(ok)}}}}
		return
	}
	if !ok {
		if x.p == nil {
			w.throw("interface conversion: interface is nil, not " + in.rt.String())
		}
		w.throw("interface conversion: interface is " + x.p.(*Iface).t.String() + ", not " + in.rt.String())
	}
	f.regs[in.dst] = v
}

// initStub: calls made by package initializers into the runtime or reflection
// that yield values no target code depends on.
func initStub(fn *ssa.Function) bool {
	switch fn.Pkg.Pkg.Path() {
	case "reflect", "internal/reflectlite", "internal/godebug", "os", "syscall", "time", "internal/poll", "internal/testlog":
		return true
	}
	return false
}

func zeroResults(w *W, t *types.Tuple) Value {
	if t.Len() == 1 {
		return zeroVal(w.e.types.get(t.At(0).Type()))
	}
	var vs []Value
	for i := 0; i < t.Len(); i++ {
		vs = append(vs, zeroVal(w.e.types.get(t.At(i).Type())))
	}
	return tuple(vs...)
}
