package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func str(v Value) *Str { return strOf(v) }

func (w *W) concStr(v Value) string {
	s := strOf(v)
	if s.sym == nil {
		return s.s
	}
	b := []byte(s.s)
	for i := range b {
		if s.sym[i] != nil {
			b[i] = byte(w.concretize(s.sym[i]))
		}
	}
	return string(b)
}

func sliceOf(v Value) []Value {
	if v.p == nil {
		return nil
	}
	return v.p.(*Slice).a
}

func (w *W) byteAt(v Value) *Term {
	if t, ok := v.p.(*Term); ok {
		return t
	}
	return w.tt.Const(v.n, 8)
}

func intVal(i int) Value     { return Value{n: uint64(int64(i))} }
func boolv(b bool) Value     { return Value{n: b2u(b)} }
func tuple(v ...Value) Value { return Value{p: &Agg{v}} }

// strOfSlice views a byte slice as a string value (copying).
func strOfSlice(v Value) *Str { return strOf(bytesToStr(sliceOf(v))) }

func (w *W) indexByte(s *Str, c Value) Value {
	ct := w.byteAt(c)
	for i := range s.s {
		if w.branch(w.tt.Cmp(OEq, w.byteTerm(s, i), ct)) {
			return intVal(i)
		}
	}
	return intVal(-1)
}

func (w *W) lastIndexByte(s *Str, c Value) Value {
	ct := w.byteAt(c)
	for i := len(s.s) - 1; i >= 0; i-- {
		if w.branch(w.tt.Cmp(OEq, w.byteTerm(s, i), ct)) {
			return intVal(i)
		}
	}
	return intVal(-1)
}

func (w *W) countByte(s *Str, c Value) Value {
	ct := w.byteAt(c)
	n := 0
	for i := range s.s {
		if w.branch(w.tt.Cmp(OEq, w.byteTerm(s, i), ct)) {
			n++
		}
	}
	return intVal(n)
}

func (w *W) indexStr(s, sub *Str) Value {
	n := len(sub.s)
	for i := 0; i+n <= len(s.s); i++ {
		if w.branch(w.strEq(strOf(s.slice(i, i+n)), sub)) {
			return intVal(i)
		}
	}
	return intVal(-1)
}

func (w *W) cmpStr(a, b *Str) Value {
	if w.branch(w.strEq(a, b)) {
		return intVal(0)
	}
	if w.branch(w.strLess(a, b, false)) {
		return intVal(-1)
	}
	return intVal(1)
}

func nop(w *W, c *NCall) Value { return Value{} }

func math1(f func(float64) float64) NativeFn {
	return func(w *W, c *NCall) Value {
		return Value{n: math.Float64bits(f(math.Float64frombits(w.concF(c.args[0]))))}
	}
}
func math2(f func(a, b float64) float64) NativeFn {
	return func(w *W, c *NCall) Value {
		return Value{n: math.Float64bits(f(math.Float64frombits(w.concF(c.args[0])), math.Float64frombits(w.concF(c.args[1]))))}
	}
}

func aLoad(w *W, c *NCall) Value { return copyVal(*w.ptr(c.args[0])) }
func aStore(w *W, c *NCall) Value {
	w.store(w.ptr(c.args[0]), c.args[1])
	return Value{}
}
func aSwap(w *W, c *NCall) Value {
	p := w.ptr(c.args[0])
	old := *p
	w.store(p, c.args[1])
	return old
}
func aAdd(rtIdx int) NativeFn {
	return func(w *W, c *NCall) Value {
		p := w.ptr(c.args[0])
		rt := w.e.types.get(c.fn.Signature.Results().At(0).Type())
		nv := Value{n: rt.norm(p.n + c.args[1].n)}
		w.store(p, nv)
		return nv
	}
}
func aCAS(w *W, c *NCall) Value {
	p := w.ptr(c.args[0])
	eq := p.n == c.args[1].n && (p.p == c.args[1].p)
	if eq {
		w.store(p, c.args[2])
	}
	return boolv(eq)
}

var natives map[string]NativeFn

func init() {
	natives = map[string]NativeFn{
		"internal/bytealg.IndexByteString": func(w *W, c *NCall) Value { return w.indexByte(str(c.args[0]), c.args[1]) },
		"internal/bytealg.IndexByte":       func(w *W, c *NCall) Value { return w.indexByte(strOfSlice(c.args[0]), c.args[1]) },
		"internal/bytealg.LastIndexByteString": func(w *W, c *NCall) Value {
			return w.lastIndexByte(str(c.args[0]), c.args[1])
		},
		"internal/bytealg.LastIndexByte": func(w *W, c *NCall) Value { return w.lastIndexByte(strOfSlice(c.args[0]), c.args[1]) },
		"internal/bytealg.CountString":   func(w *W, c *NCall) Value { return w.countByte(str(c.args[0]), c.args[1]) },
		"internal/bytealg.Count":         func(w *W, c *NCall) Value { return w.countByte(strOfSlice(c.args[0]), c.args[1]) },
		"internal/bytealg.IndexString":   func(w *W, c *NCall) Value { return w.indexStr(str(c.args[0]), str(c.args[1])) },
		"internal/bytealg.Index":         func(w *W, c *NCall) Value { return w.indexStr(strOfSlice(c.args[0]), strOfSlice(c.args[1])) },
		"internal/bytealg.Compare":       func(w *W, c *NCall) Value { return w.cmpStr(strOfSlice(c.args[0]), strOfSlice(c.args[1])) },
		"internal/bytealg.CompareString": func(w *W, c *NCall) Value { return w.cmpStr(str(c.args[0]), str(c.args[1])) },
		"internal/bytealg.Equal": func(w *W, c *NCall) Value {
			return w.boolVal(w.strEq(strOfSlice(c.args[0]), strOfSlice(c.args[1])))
		},
		"bytes.Equal": func(w *W, c *NCall) Value {
			return w.boolVal(w.strEq(strOfSlice(c.args[0]), strOfSlice(c.args[1])))
		},
		"bytes.Compare":   func(w *W, c *NCall) Value { return w.cmpStr(strOfSlice(c.args[0]), strOfSlice(c.args[1])) },
		"strings.Compare": func(w *W, c *NCall) Value { return w.cmpStr(str(c.args[0]), str(c.args[1])) },
		"strings.Index":   func(w *W, c *NCall) Value { return w.indexStr(str(c.args[0]), str(c.args[1])) },
		"internal/stringslite.Index": func(w *W, c *NCall) Value {
			return w.indexStr(str(c.args[0]), str(c.args[1]))
		},
		"bytes.Index": func(w *W, c *NCall) Value { return w.indexStr(strOfSlice(c.args[0]), strOfSlice(c.args[1])) },
		"strings.Count": func(w *W, c *NCall) Value {
			s, sub := str(c.args[0]), str(c.args[1])
			if len(sub.s) == 0 {
				return intVal(len([]rune(w.concStr(c.args[0]))) + 1)
			}
			n := 0
			for i := 0; i+len(sub.s) <= len(s.s); {
				if w.branch(w.strEq(strOf(s.slice(i, i+len(sub.s))), sub)) {
					n++
					i += len(sub.s)
				} else {
					i++
				}
			}
			return intVal(n)
		},
		"internal/bytealg.MakeNoZero": func(w *W, c *NCall) Value {
			n := int(w.concInt(c.args[0], w.e.intType))
			return Value{p: &Slice{make([]Value, n, roundCap(n))}}
		},
		"internal/abi.NoEscape": func(w *W, c *NCall) Value { return c.args[0] },
		"internal/abi.Escape":   func(w *W, c *NCall) Value { return c.args[0] },
		"strings.noescape":      func(w *W, c *NCall) Value { return c.args[0] },
		"math.Float64bits": func(w *W, c *NCall) Value {
			if t, ok := c.args[0].p.(*Term); ok {
				return w.val(w.tt.un(OFToBit, 64, t), w.e.uint64Type)
			}
			return c.args[0]
		},
		"math.Float64frombits": func(w *W, c *NCall) Value {
			if t, ok := c.args[0].p.(*Term); ok {
				return w.val(w.tt.un(OFBits, wF64, t), w.e.f64Type)
			}
			return c.args[0]
		},
		"math.Float32bits":     func(w *W, c *NCall) Value { return c.args[0] },
		"math.Float32frombits": func(w *W, c *NCall) Value { return c.args[0] },
		"math.archFloor":       math1(math.Floor),
		"math.archCeil":        math1(math.Ceil),
		"math.archTrunc":       math1(math.Trunc),
		"math.archSqrt":        math1(math.Sqrt),
		"math.archLog":         math1(math.Log),
		"math.archExp":         math1(math.Exp),
		"math.Log":             math1(math.Log),
		"math.Log10":           math1(math.Log10),
		"math.Log2":            math1(math.Log2),
		"math.Exp":             math1(math.Exp),
		"math.Floor":           math1(math.Floor),
		"math.Ceil":            math1(math.Ceil),
		"math.Trunc":           math1(math.Trunc),
		"math.Round":           math1(math.Round),
		"math.Sqrt":            math1(math.Sqrt),
		"math.sqrt":            math1(math.Sqrt),
		"math.Pow":             math2(math.Pow),
		"math.Mod":             math2(math.Mod),
		"math.archHypot":       math2(math.Hypot),
		"math.archMax":         math2(math.Max),
		"math.archMin":         math2(math.Min),
		"math.Abs": func(w *W, c *NCall) Value {
			return Value{n: math.Float64bits(math.Abs(math.Float64frombits(w.concF(c.args[0]))))}
		},

		"(*sync.Mutex).Lock":                        nop,
		"(*sync.Mutex).Unlock":                      nop,
		"(*sync.Mutex).TryLock":                     func(w *W, c *NCall) Value { return boolv(true) },
		"(*sync.RWMutex).Lock":                      nop,
		"(*sync.RWMutex).Unlock":                    nop,
		"(*sync.RWMutex).RLock":                     nop,
		"(*sync.RWMutex).RUnlock":                   nop,
		"(*sync.Pool).Put":                          nop,
		"internal/stringslite.Clone":                func(w *W, c *NCall) Value { return c.args[0] },
		"strings.Clone":                             func(w *W, c *NCall) Value { return c.args[0] },
		"runtime.KeepAlive":                         nop,
		"runtime.SetFinalizer":                      nop,
		"runtime.GC":                                nop,
		"runtime.Gosched":                           nop,
		"internal/godebug.New":                      func(w *W, c *NCall) Value { return Value{p: &Value{p: &Agg{make([]Value, 8)}}} },
		"(*internal/godebug.Setting).Value":         func(w *W, c *NCall) Value { return Value{} },
		"(*internal/godebug.Setting).IncNonDefault": nop,
		"(*internal/godebug.Setting).Name":          func(w *W, c *NCall) Value { return Value{} },
		"reflect.DeepEqual": func(w *W, c *NCall) Value {
			return w.boolVal(w.deepEqIface(c.args[0], c.args[1], 0))
		},
		"(*sync/atomic.Value).Load": func(w *W, c *NCall) Value {
			return w.ptr(c.args[0]).p.(*Agg).e[0]
		},
		"(*sync/atomic.Value).Store": func(w *W, c *NCall) Value {
			w.set(&w.ptr(c.args[0]).p.(*Agg).e[0], c.args[1])
			return Value{}
		},
		// a clock and a random source that never repeat along a path
		"time.runtimeNano":          func(w *W, c *NCall) Value { return Value{n: uint64(1000000 * (w.steps + 1))} },
		"time.runtimeNow":           clock,
		"time.now":                  clock,
		"math/rand.runtime_rand":    randSource,
		"math/rand/v2.runtime_rand": randSource,
		"os.runtime_args":           func(w *W, c *NCall) Value { return Value{} },
	}
	for _, pk := range []string{"sync/atomic", "internal/runtime/atomic"} {
		for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
			natives[pk+".Load"+t] = aLoad
			natives[pk+".Store"+t] = aStore
			natives[pk+".Swap"+t] = aSwap
			natives[pk+".CompareAndSwap"+t] = aCAS
			if t != "Pointer" {
				natives[pk+".Add"+t] = aAdd(0)
			}
		}
	}
	// intrinsics of the rt support package
	for n, f := range map[string]NativeFn{
		"Kind":     rtKind,
		"Len":      rtLen,
		"Index":    rtIndex,
		"FieldN":   rtFieldN,
		"TypeName": rtTypeName,
		"ToInt":    rtToInt,
		"ToUint":   rtToUint,
		"ToStr":    rtToStr,
		"ToFloat":  rtToFloat,
		"ToBool":   rtToBool,
		"IsNil":    rtIsNil,
		"Elem":     rtElem,
		"MapKV":    rtMapKV,
		"Swap":     rtSwap,
		"AsAssign": rtAsAssign,
		"Digits":   rtDigits,
		"CountDigits": func(w *W, c *NCall) Value {
			ut, ok := c.args[0].p.(*Term)
			n, lim := 1, uint64(10)
			for ; n < 20; n, lim = n+1, lim*10 {
				if !ok && c.args[0].n < lim || ok && w.branch(w.tt.Cmp(OUlt, ut, w.tt.Const(lim, 64))) {
					break
				}
			}
			return intVal(n)
		},
		"Unsupported": func(w *W, c *NCall) Value {
			panic(inconclusive{"rt: unsupported: " + w.strUnderModel(str(c.args[0]))})
		},
	} {
		natives["rt."+n] = f
	}
	shims()
}

func lookupNative(e *Engine, fn *ssa.Function) NativeFn {
	if fn.Pkg != nil && fn.Pkg == e.rtPkg {
		if n, ok := natives["rt."+fn.Name()]; ok && fn.Signature.Recv() == nil {
			return n
		}
		return nil
	}
	name := fn.String()
	if n, ok := natives[name]; ok {
		return n
	}
	if strings.HasPrefix(fn.Name(), "v") {
		if n, ok := natives["shim."+fn.Name()]; ok {
			f := e.fset.Position(fn.Pos()).Filename
			if strings.Contains(f, "zz_verif_shim") {
				return n
			}
		}
	}
	if fn.Pkg != nil {
		p := fn.Pkg.Pkg.Path()
		if p == "internal/race" || p == "internal/msan" || p == "internal/asan" {
			return nop
		}
		if fn.Name() == "init" && fn.Synthetic == "package initializer" {
			return nop // initializers are run explicitly, in dependency order
		}
	}
	return nil
}

// ---- rt intrinsics ----

func ifc(v Value) *Iface {
	if v.p == nil {
		return nil
	}
	return v.p.(*Iface)
}

// Kind codes shared with the rt package.
func rtKind(w *W, c *NCall) Value {
	i := ifc(c.args[0])
	if i == nil {
		return mkStr("nil")
	}
	switch i.t.k {
	case KInt:
		if i.t.signed {
			return mkStr("int")
		}
		return mkStr("uint")
	case KSlice:
		if i.t.elem.k == KInt && i.t.elem.w == 8 && !i.t.elem.signed {
			return mkStr("bytes")
		}
	}
	return mkStr(kindNames[i.t.k])
}

func rtLen(w *W, c *NCall) Value {
	i := ifc(c.args[0])
	switch i.t.k {
	case KSlice:
		return intVal(len(sliceOf(i.v)))
	case KArray:
		return intVal(i.t.n)
	case KStruct:
		return intVal(len(i.t.fields))
	case KMap:
		if i.v.p == nil {
			return intVal(0)
		}
		return intVal(i.v.p.(*MapObj).n)
	case KString:
		return intVal(len(str(i.v).s))
	}
	return intVal(0)
}

func mkIface(v Value, t *RType) Value {
	if t.k == KIface {
		return v
	}
	return Value{p: &Iface{t: t, v: v}}
}

func rtIndex(w *W, c *NCall) Value {
	i := ifc(c.args[0])
	n := int(c.args[1].n)
	switch i.t.k {
	case KSlice:
		return mkIface(copyVal(sliceOf(i.v)[n]), i.t.elem)
	case KArray:
		return mkIface(copyVal(i.v.p.(*Agg).e[n]), i.t.elem)
	case KStruct:
		return mkIface(copyVal(i.v.p.(*Agg).e[n]), i.t.fields[n])
	}
	panic(inconclusive{"rt.Index of " + i.t.String()})
}

func rtFieldN(w *W, c *NCall) Value {
	i := ifc(c.args[0])
	return mkStr(i.t.u.(*types.Struct).Field(int(c.args[1].n)).Name())
}

func goTypeString(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	s = strings.ReplaceAll(s, "interface{}", "interface {}")
	if s == "any" {
		return "interface {}"
	}
	return s
}

func rtTypeName(w *W, c *NCall) Value {
	i := ifc(c.args[0])
	if i == nil {
		return mkStr("<nil>")
	}
	return mkStr(goTypeString(i.t.t))
}

func rtToInt(w *W, c *NCall) Value {
	i := ifc(c.args[0])
	if t, ok := i.v.p.(*Term); ok {
		return w.val(w.tt.Sext(t, 64), w.e.intType)
	}
	return Value{n: i.v.n}
}
func rtToUint(w *W, c *NCall) Value {
	i := ifc(c.args[0])
	if t, ok := i.v.p.(*Term); ok {
		return w.val(w.tt.Zext(t, 64), w.e.uint64Type)
	}
	return Value{n: i.v.n}
}
func rtToStr(w *W, c *NCall) Value {
	i := ifc(c.args[0])
	if i.t.k == KSlice {
		return bytesToStr(sliceOf(i.v))
	}
	return i.v
}
func rtToFloat(w *W, c *NCall) Value {
	i := ifc(c.args[0])
	if i.t.k == KF32 {
		return Value{n: math.Float64bits(float64(math.Float32frombits(uint32(i.v.n))))}
	}
	return i.v
}
func rtToBool(w *W, c *NCall) Value { return ifc(c.args[0]).v }
func rtIsNil(w *W, c *NCall) Value {
	i := ifc(c.args[0])
	return boolv(i == nil || i.v.p == nil)
}
func rtElem(w *W, c *NCall) Value {
	i := ifc(c.args[0])
	return mkIface(copyVal(*w.ptr(i.v)), i.t.elem)
}

// MapKV returns the live keys and values as []any pairs in insertion order.
func rtMapKV(w *W, c *NCall) Value {
	i := ifc(c.args[0])
	var out []Value
	if i.v.p != nil {
		m := i.v.p.(*MapObj)
		for _, e := range m.entries {
			if !e.dead {
				out = append(out, mkIface(e.key, m.t.key), mkIface(copyVal(*e.val), m.t.elem))
			}
		}
	}
	return Value{p: &Slice{out}}
}

func rtSwap(w *W, c *NCall) Value {
	a := sliceOf(ifc(c.args[0]).v)
	x, y := int(c.args[1].n), int(c.args[2].n)
	vx, vy := copyVal(a[x]), copyVal(a[y])
	w.store(&a[x], vy)
	w.store(&a[y], vx)
	return Value{}
}

type digitsKey struct {
	t *Term
	n int
}

// rtDigits writes the decimal digits of a number that has len(a) of them. For
// a number that is no sum of digits itself, the digits are new variables
// defined by their weighted sum being the number.
func rtDigits(w *W, c *NCall) Value {
	a := sliceOf(c.args[0])
	ut, ok := c.args[1].p.(*Term)
	if !ok {
		u := c.args[1].n
		for i := len(a) - 1; i >= 0; i-- {
			w.store(&a[i], Value{n: '0' + u%10})
			u /= 10
		}
		return Value{}
	}
	put := func(ds []*Term) Value {
		for i, d := range ds {
			w.store(&a[i], w.val(w.tt.Bin(OAdd, d, w.tt.Const('0', 8)), w.e.byteType))
		}
		return Value{}
	}
	key := digitsKey{ut, len(a)}
	if ds := w.digits[key]; ds != nil {
		return put(ds)
	}
	ds := make([]*Term, len(a))
	ten := w.tt.Const(10, 64)
	direct := true
	u := ut
	for i := len(a) - 1; i >= 0 && direct; i-- {
		q, r := w.tt.Bin(OUdiv, u, ten), w.tt.Bin(OUrem, u, ten)
		if i > 0 {
			direct = r.op != OUrem
		} else {
			r = u
		}
		ds[i] = w.tt.Trunc(r, 8)
		u = q
	}
	if direct {
		return put(ds)
	}
	val := uint64(0)
	if w.ctx.mvalid {
		val = w.tt.eval(ut, w.modelVal)
	}
	pow := uint64(1)
	for range a[1:] {
		pow *= 10
	}
	sum := w.tt.Const(0, 64)
	for i := range a { // the shape in which programs read digits
		var d Set256
		for v := uint64(0); v < 10; v++ {
			if v > 0 || i > 0 || len(a) == 1 {
				d.add(v)
			}
		}
		ds[i] = w.newVar(8, d, d.first(), 9, "#digit")
		w.ctx.model[w.nvars-1] = val / pow % 10
		pow /= 10
		sum = w.tt.Bin(OAdd, w.tt.Bin(OMul, sum, ten), w.tt.Zext(ds[i], 64))
	}
	def := w.tt.Cmp(OEq, ut, sum)
	if ut.op == ONeg {
		def = w.tt.Cmp(OEq, ut.a, w.tt.Neg(sum))
	}
	w.addConstraint(def)
	w.digits[key] = ds
	w.undoFn(func() { delete(w.digits, key) })
	return put(ds)
}

func rtAsAssign(w *W, c *NCall) Value {
	err := c.args[0]
	tgt := ifc(c.args[1])
	et := tgt.t.elem
	e := ifc(err)
	if et.k == KIface {
		if w.implements(e.t, et) {
			w.store(w.ptr(tgt.v), err)
			return boolv(true)
		}
		return boolv(false)
	}
	if e.t == et {
		w.store(w.ptr(tgt.v), e.v)
		return boolv(true)
	}
	return boolv(false)
}

func (w *W) deepEqIface(a, b Value, d int) *Term {
	if a.p == nil || b.p == nil {
		return w.tt.Bool(a.p == nil && b.p == nil)
	}
	x, y := a.p.(*Iface), b.p.(*Iface)
	if x.t != y.t {
		return w.tt.fls
	}
	return w.deepEq(x.v, y.v, x.t, d+1)
}

func (w *W) deepEq(a, b Value, rt *RType, d int) *Term {
	if d > 200 {
		panic(inconclusive{"DeepEqual recursion"})
	}
	switch rt.k {
	case KIface:
		return w.deepEqIface(a, b, d)
	case KSlice:
		if (a.p == nil) != (b.p == nil) {
			return w.tt.fls
		}
		x, y := sliceOf(a), sliceOf(b)
		if len(x) != len(y) {
			return w.tt.fls
		}
		r := w.tt.tru
		for i := range x {
			r = w.tt.And(r, w.deepEq(x[i], y[i], rt.elem, d+1))
			if r == w.tt.fls {
				return r
			}
		}
		return r
	case KArray, KStruct:
		x, y := a.p.(*Agg), b.p.(*Agg)
		r := w.tt.tru
		for i := range x.e {
			ft := rt.elem
			if rt.k == KStruct {
				ft = rt.fields[i]
			}
			r = w.tt.And(r, w.deepEq(x.e[i], y.e[i], ft, d+1))
			if r == w.tt.fls {
				return r
			}
		}
		return r
	case KPtr:
		if a.p == nil || b.p == nil || a.p == b.p {
			return w.tt.Bool(a.p == b.p)
		}
		return w.deepEq(*w.ptr(a), *w.ptr(b), rt.elem, d+1)
	case KMap:
		if (a.p == nil) != (b.p == nil) {
			return w.tt.fls
		}
		if a.p == b.p {
			return w.tt.tru
		}
		x, y := a.p.(*MapObj), b.p.(*MapObj)
		if x.n != y.n {
			return w.tt.fls
		}
		r := w.tt.tru
		for _, e := range x.entries {
			if e.dead {
				continue
			}
			f := w.mapFind(y, e.key)
			if f == nil {
				return w.tt.fls
			}
			r = w.tt.And(r, w.deepEq(*e.val, *f.val, rt.elem, d+1))
		}
		return r
	case KFunc:
		return w.tt.Bool(a.p == nil && b.p == nil)
	}
	return w.eq(a, b, rt)
}

// ---- harness shims ----

func setOf(s string) Set256 {
	var r Set256
	for i := 0; i < len(s); i++ {
		if i+2 < len(s) && s[i+1] == '-' && s[i+2] > s[i] {
			for c := int(s[i]); c <= int(s[i+2]); c++ {
				r.add(uint64(c))
			}
			i += 2
			continue
		}
		r.add(uint64(s[i]))
	}
	return r
}

func shims() {
	sh := func(n string, f NativeFn) { natives["shim."+n] = f }
	sh("vEngine", func(w *W, c *NCall) Value { return boolv(true) })
	sh("vTier", func(w *W, c *NCall) Value { return intVal(w.e.tier) })
	sh("vExpectHang", nop)
	sh("vByte", func(w *W, c *NCall) Value {
		return Value{p: w.newVar(8, full256, 0, 255, w.concStr(c.args[0]))}
	})
	sh("vByteIn", func(w *W, c *NCall) Value {
		s := setOf(w.concStr(c.args[1]))
		if s.count() == 1 {
			// still a variable for the replay vector
			w.newVar(8, s, 0, 255, w.concStr(c.args[0]))
			return Value{n: s.first()}
		}
		return Value{p: w.newVar(8, s, 0, 255, w.concStr(c.args[0]))}
	})
	sh("vChoose", func(w *W, c *NCall) Value {
		n := int(c.args[1].n)
		if n <= 0 || n > 256 {
			panic(inconclusive{"vChoose bound"})
		}
		var d Set256
		for i := 0; i < n; i++ {
			d.add(uint64(i))
		}
		t := w.newVar(8, d, 0, uint64(n-1), w.concStr(c.args[0]))
		return Value{n: w.concretize(t)}
	})
	sh("vBool", func(w *W, c *NCall) Value {
		var d Set256
		d.add(0)
		d.add(1)
		t := w.newVar(8, d, 0, 1, w.concStr(c.args[0]))
		return w.boolVal(w.tt.Cmp(OEq, t, w.tt.Const(1, 8)))
	})
	sh("vInt", func(w *W, c *NCall) Value { // [lo,hi], both >= 0 or full signed range via offset
		lo, hi := int64(c.args[1].n), int64(c.args[2].n)
		if lo > hi {
			panic(inconclusive{"vInt range"})
		}
		if lo >= 0 {
			return Value{p: w.newVar(64, full256, uint64(lo), uint64(hi), w.concStr(c.args[0]))}
		}
		t := w.newVar(64, full256, 0, ^uint64(0), w.concStr(c.args[0]))
		if lo != math.MinInt64 || hi != math.MaxInt64 {
			cond := w.tt.And(w.tt.Cmp(OSle, w.tt.Const(uint64(lo), 64), t), w.tt.Cmp(OSle, t, w.tt.Const(uint64(hi), 64)))
			w.ctx.mvalid = false
			w.addConstraint(cond)
		}
		return Value{p: t}
	})
	sh("vAssume", func(w *W, c *NCall) Value {
		t, ok := c.args[0].p.(*Term)
		if !ok {
			if c.args[0].n == 0 {
				panic(pathEnd{"assume"})
			}
			return Value{}
		}
		ctx := w.ctx
		if ctx.fpos < len(ctx.forced) {
			w.addConstraint(t)
			return Value{}
		}
		switch w.absEval(t) {
		case 0:
			panic(pathEnd{"assume"})
		case 1:
			return Value{}
		}
		if t.op != OInSet || ctx.multi[t.a.vi.idx] > 0 {
			r, m := w.query(append(w.sliceFor(t.supp), t), true)
			if r != Sat {
				panic(pathEnd{"assume"})
			}
			if ctx.mvalid {
				ctx.model = w.mergeModel(m)
			}
		}
		w.addConstraint(t)
		return Value{}
	})
	sh("vAssert", func(w *W, c *NCall) Value {
		w.assert(c.args[0], w.concStr(c.args[1]), c)
		return Value{}
	})
	sh("vReach", func(w *W, c *NCall) Value {
		w.e.reach(w.concStr(c.args[0]))
		return Value{}
	})
	sh("vObserve", func(w *W, c *NCall) Value {
		i := ifc(c.args[1])
		if i == nil {
			w.obs = append(w.obs, obsEnt{w.concStr(c.args[0]), Value{}, nil})
			return Value{}
		}
		w.obs = append(w.obs, obsEnt{w.concStr(c.args[0]), i.v, i.t})
		return Value{}
	})
	logic := func(and bool) NativeFn {
		return func(w *W, c *NCall) Value {
			r := w.tt.Bool(and)
			for _, v := range sliceOf(c.args[0]) {
				t := w.term(v, w.e.boolType)
				if and {
					r = w.tt.And(r, t)
				} else {
					r = w.tt.Or(r, t)
				}
			}
			return w.boolVal(r)
		}
	}
	sh("vAnd", logic(true))
	sh("vOr", logic(false))
	sh("vIte", func(w *W, c *NCall) Value {
		return w.val(w.tt.Ite(w.term(c.args[0], w.e.boolType), w.term(c.args[1], w.e.intType), w.term(c.args[2], w.e.intType)), w.e.intType)
	})
	sh("vSame", func(w *W, c *NCall) Value { // whether two values are the same expression; decides nothing
		a, b := c.args[0], c.args[1]
		ta, _ := a.p.(*Term)
		tb, _ := b.p.(*Term)
		if ta != nil || tb != nil {
			return boolv(ta == tb)
		}
		return boolv(a.n == b.n)
	})
	sh("vConcrete", func(w *W, c *NCall) Value {
		return Value{n: w.concInt(c.args[0], w.e.intType)}
	})
	sh("vMapOrder", func(w *W, c *NCall) Value {
		w.undoBool(&w.mapOrder)
		w.mapOrder = c.args[0].n != 0
		return Value{}
	})
	sh("vDump", func(w *W, c *NCall) Value {
		fmt.Printf("DUMP %s %q\n", w.concStr(c.args[0]), w.strUnderModel(str(c.args[1])))
		return Value{}
	})
	sh("vStop", func(w *W, c *NCall) Value {
		panic(pathEnd{"stop"})
	})
}

func (w *W) undoBool(p *bool) {
	old := *p
	w.undoFn(func() { *p = old })
}

// assert checks a property assertion on the current path.
func (w *W) assert(v Value, msg string, c *NCall) {
	t, ok := v.p.(*Term)
	site := msg
	if !ok {
		w.stat.AssertFolded++
		w.e.assertReached(site)
		if v.n == 0 {
			w.stat.AssertFail++
			w.e.report(w, nil, "assert", msg, nil)
			panic(pathEnd{"violation-stop"})
		}
		return
	}
	ctx := w.ctx
	if ctx.fpos < len(ctx.forced) {
		// replaying a prefix: already checked by the worker that forked here
		w.addConstraint(t)
		return
	}
	w.e.assertReached(site)
	neg := w.tt.Not(t)
	w.stat.AssertSMT++
	sl := w.sliceFor(neg.supp)
	r, m := w.query(append(append([]*Term(nil), sl...), neg), true)
	if r == Sat {
		w.stat.AssertFail++
		if !ctx.mvalid {
			w.ensureModel()
		}
		w.e.report(w, nil, "assert", msg, w.mergeModel(m))
		// continue with the remaining inputs when some satisfy the assertion
		if r2, _ := w.query(append(append([]*Term(nil), sl...), t), true); r2 != Sat {
			panic(pathEnd{"violation-stop"})
		}
	}
	w.addConstraint(t)
}

func clock(w *W, c *NCall) Value {
	return Value{p: &Agg{[]Value{{n: uint64(1700000000 + w.steps)}, {}, {n: uint64(1000000 * (w.steps + 1))}}}}
}

func randSource(w *W, c *NCall) Value {
	x := uint64(w.steps+1) * 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	return Value{n: x ^ x>>31}
}
