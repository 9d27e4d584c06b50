package main

import (
	"fmt"
	"go/types"
	"math"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is one cell. Scalars: n (normalized: sign- or zero-extended to 64
// bits), or p=*Term when symbolic. Other kinds use p; nil p is the zero value.
type Value struct {
	n uint64
	p any
}

type Str struct {
	s   string
	sym []*Term // nil, or one entry per byte (nil entry = concrete byte)
}

type Slice struct{ a []Value }
type Agg struct{ e []Value }
type Iface struct {
	t *RType
	v Value
}
type Closure struct {
	fn   *Callee
	free []Value
}
type SymPtr struct {
	elems []Value
	idx   *Term
	et    *RType
}
type MapEntry struct {
	key  Value
	val  *Value
	dead bool
}
type MapObj struct {
	t       *RType
	entries []*MapEntry
	index   map[any]int
	nsym    int
	n       int
}
type MapIter struct {
	m   *MapObj
	pos int
	ord []int
}

type Kind uint8

const (
	KInvalid Kind = iota
	KBool
	KInt
	KF64
	KF32
	KComplex
	KString
	KPtr
	KSlice
	KArray
	KStruct
	KMap
	KFunc
	KIface
	KChan
	KUnsafe
	KTuple
)

var kindNames = []string{"invalid", "bool", "int", "float64", "float32", "complex", "string", "ptr", "slice", "array", "struct", "map", "func", "interface", "chan", "unsafe.Pointer", "tuple"}

type RType struct {
	t      types.Type
	u      types.Type
	k      Kind
	w      uint8
	signed bool
	id     int
	elem   *RType
	key    *RType
	fields []*RType
	n      int
	agg    bool
	name   string
	mu     sync.Mutex
	meths  map[string]*ssa.Function
	impl   map[*RType]bool
}

type TypeReg struct {
	mu sync.Mutex
	m  typeutil.Map
	n  int
}

func (r *TypeReg) get(t types.Type) *RType {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.get1(t)
}

func (r *TypeReg) get1(t types.Type) *RType {
	t = types.Unalias(t)
	if x := r.m.At(t); x != nil {
		return x.(*RType)
	}
	rt := &RType{t: t, u: t.Underlying(), id: r.n}
	r.n++
	r.m.Set(t, rt)
	switch u := rt.u.(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			rt.k = KBool
		case types.Int, types.Int64, types.UntypedInt:
			rt.k, rt.w, rt.signed = KInt, 64, true
		case types.Int8:
			rt.k, rt.w, rt.signed = KInt, 8, true
		case types.Int16:
			rt.k, rt.w, rt.signed = KInt, 16, true
		case types.Int32, types.UntypedRune:
			rt.k, rt.w, rt.signed = KInt, 32, true
		case types.Uint, types.Uint64, types.Uintptr:
			rt.k, rt.w = KInt, 64
		case types.Uint8:
			rt.k, rt.w = KInt, 8
		case types.Uint16:
			rt.k, rt.w = KInt, 16
		case types.Uint32:
			rt.k, rt.w = KInt, 32
		case types.Float64, types.UntypedFloat:
			rt.k, rt.w = KF64, wF64
		case types.Float32:
			rt.k, rt.w = KF32, 32
		case types.String, types.UntypedString:
			rt.k = KString
		case types.UnsafePointer:
			rt.k = KUnsafe
		case types.Complex128, types.Complex64, types.UntypedComplex:
			rt.k = KComplex
		case types.UntypedNil:
			rt.k = KPtr
		}
	case *types.Pointer:
		rt.k = KPtr
		rt.elem = r.get1(u.Elem())
	case *types.Slice:
		rt.k = KSlice
		rt.elem = r.get1(u.Elem())
	case *types.Array:
		rt.k = KArray
		rt.agg = true
		rt.n = int(u.Len())
		rt.elem = r.get1(u.Elem())
	case *types.Struct:
		rt.k = KStruct
		rt.agg = true
		for i := 0; i < u.NumFields(); i++ {
			rt.fields = append(rt.fields, r.get1(u.Field(i).Type()))
		}
	case *types.Tuple:
		rt.k = KTuple
		rt.agg = true
		for i := 0; i < u.Len(); i++ {
			rt.fields = append(rt.fields, r.get1(u.At(i).Type()))
		}
	case *types.Map:
		rt.k = KMap
		rt.key = r.get1(u.Key())
		rt.elem = r.get1(u.Elem())
	case *types.Signature:
		rt.k = KFunc
	case *types.Interface:
		rt.k = KIface
	case *types.Chan:
		rt.k = KChan
		rt.elem = r.get1(u.Elem())
	}
	return rt
}

func (rt *RType) String() string {
	return types.TypeString(rt.t, func(p *types.Package) string { return p.Name() })
}

// norm normalizes raw bits to the representation of kind rt.
func (rt *RType) norm(n uint64) uint64 {
	if rt.w >= 64 {
		return n
	}
	if rt.signed {
		return uint64(sext(n, rt.w))
	}
	return n & mask(rt.w)
}

func zeroVal(rt *RType) Value {
	switch rt.k {
	case KStruct, KTuple:
		e := make([]Value, len(rt.fields))
		for i, f := range rt.fields {
			if f.agg {
				e[i] = zeroVal(f)
			}
		}
		return Value{p: &Agg{e}}
	case KArray:
		e := make([]Value, rt.n)
		if rt.elem.agg {
			for i := range e {
				e[i] = zeroVal(rt.elem)
			}
		}
		return Value{p: &Agg{e}}
	}
	return Value{}
}

func copyVal(v Value) Value {
	if a, ok := v.p.(*Agg); ok {
		e := make([]Value, len(a.e))
		for i := range a.e {
			if _, ok := a.e[i].p.(*Agg); ok {
				e[i] = copyVal(a.e[i])
			} else {
				e[i] = a.e[i]
			}
		}
		return Value{p: &Agg{e}}
	}
	return v
}

var emptyStr = &Str{}

func mkStr(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{p: &Str{s: s}}
}

func strOf(v Value) *Str {
	if v.p == nil {
		return emptyStr
	}
	return v.p.(*Str)
}

func mkStrSym(b []byte, sym []*Term) Value {
	if len(b) == 0 {
		return Value{}
	}
	any := false
	for _, t := range sym {
		if t != nil {
			any = true
			break
		}
	}
	if !any {
		return mkStr(string(b))
	}
	return Value{p: &Str{string(b), sym}}
}

func (s *Str) slice(lo, hi int) Value {
	if lo == hi {
		return Value{}
	}
	if s.sym == nil {
		return Value{p: &Str{s: s.s[lo:hi]}}
	}
	sub := s.sym[lo:hi]
	for _, t := range sub {
		if t != nil {
			return Value{p: &Str{s.s[lo:hi], sub}}
		}
	}
	return Value{p: &Str{s: s.s[lo:hi]}}
}

func (s *Str) at(i int) Value {
	if s.sym != nil && s.sym[i] != nil {
		return Value{p: s.sym[i]}
	}
	return Value{n: uint64(s.s[i])}
}

func concatStr(a, b *Str) Value {
	if len(a.s) == 0 {
		return Value{p: b}
	}
	if len(b.s) == 0 {
		return Value{p: a}
	}
	r := &Str{s: a.s + b.s}
	if a.sym != nil || b.sym != nil {
		r.sym = make([]*Term, len(r.s))
		if a.sym != nil {
			copy(r.sym, a.sym)
		}
		if b.sym != nil {
			copy(r.sym[len(a.s):], b.sym)
		}
	}
	return Value{p: r}
}

// ---- journal ----

type jent struct {
	p   *Value
	old Value
}

func (w *W) set(p *Value, v Value) {
	w.journal = append(w.journal, jent{p, *p})
	*p = v
}

func (w *W) undoFn(f func()) {
	w.journal = append(w.journal, jent{nil, Value{p: f}})
}

func (w *W) undoTo(n int) {
	for i := len(w.journal) - 1; i >= n; i-- {
		e := &w.journal[i]
		if e.p != nil {
			*e.p = e.old
		} else {
			e.old.p.(func())()
		}
		e.old.p = nil
		e.p = nil
	}
	w.journal = w.journal[:n]
}

func (w *W) store(p *Value, v Value) {
	if d, ok := p.p.(*Agg); ok {
		if s, ok := v.p.(*Agg); ok {
			w.storeAgg(d, s)
			return
		}
		panic(inconclusive{"store of non-aggregate into aggregate cell"})
	}
	w.set(p, v)
}

func (w *W) storeAgg(d, s *Agg) {
	for i := range d.e {
		if da, ok := d.e[i].p.(*Agg); ok {
			w.storeAgg(da, s.e[i].p.(*Agg))
		} else {
			w.set(&d.e[i], s.e[i])
		}
	}
}

// ---- symbolic helpers ----

func isSym(v Value) (*Term, bool) {
	t, ok := v.p.(*Term)
	return t, ok
}

// term converts a scalar value to a term of kind rt.
func (w *W) term(v Value, rt *RType) *Term {
	if t, ok := v.p.(*Term); ok {
		return t
	}
	switch rt.k {
	case KBool:
		return w.tt.Bool(v.n != 0)
	case KInt:
		return w.tt.Const(v.n, rt.w)
	case KF64:
		return w.tt.Const(v.n, wF64)
	}
	panic(inconclusive{"term of kind " + kindNames[rt.k]})
}

// val converts a term to a value, folding constants.
func (w *W) val(t *Term, rt *RType) Value {
	if t.op == OConst {
		if rt.k == KInt {
			return Value{n: rt.norm(t.c)}
		}
		return Value{n: t.c}
	}
	return Value{p: t}
}

func (w *W) boolVal(t *Term) Value {
	if t.op == OConst {
		return Value{n: t.c}
	}
	return Value{p: t}
}

func (w *W) strEq(a, b *Str) *Term {
	if len(a.s) != len(b.s) {
		return w.tt.fls
	}
	if a == b {
		return w.tt.tru
	}
	if a.sym == nil && b.sym == nil {
		return w.tt.Bool(a.s == b.s)
	}
	// constants first
	for i := 0; i < len(a.s); i++ {
		sa := a.sym != nil && a.sym[i] != nil
		sb := b.sym != nil && b.sym[i] != nil
		if !sa && !sb && a.s[i] != b.s[i] {
			return w.tt.fls
		}
	}
	r := w.tt.tru
	for i := 0; i < len(a.s); i++ {
		r = w.tt.And(r, w.tt.Cmp(OEq, w.byteTerm(a, i), w.byteTerm(b, i)))
		if r == w.tt.fls {
			return r
		}
	}
	return r
}

func (w *W) byteTerm(s *Str, i int) *Term {
	if s.sym != nil && s.sym[i] != nil {
		return s.sym[i]
	}
	return w.tt.Const(uint64(s.s[i]), 8)
}

// strLess builds a < b (or <= when orEq).
func (w *W) strLess(a, b *Str, orEq bool) *Term {
	n := len(a.s)
	if len(b.s) < n {
		n = len(b.s)
	}
	var r *Term
	if len(a.s) < len(b.s) {
		r = w.tt.tru
	} else if len(a.s) == len(b.s) {
		r = w.tt.Bool(orEq)
	} else {
		r = w.tt.fls
	}
	for i := n - 1; i >= 0; i-- {
		x, y := w.byteTerm(a, i), w.byteTerm(b, i)
		r = w.tt.Or(w.tt.Cmp(OUlt, x, y), w.tt.And(w.tt.Cmp(OEq, x, y), r))
	}
	return r
}

// eq builds the equality of two values of type rt. It may raise a Go panic
// for uncomparable dynamic types.
func (w *W) eq(a, b Value, rt *RType) *Term {
	switch rt.k {
	case KBool, KInt:
		if _, ok := a.p.(*Term); !ok {
			if _, ok := b.p.(*Term); !ok {
				return w.tt.Bool(a.n == b.n)
			}
		}
		return w.tt.Cmp(OEq, w.term(a, rt), w.term(b, rt))
	case KF64:
		if _, ok := a.p.(*Term); !ok {
			if _, ok := b.p.(*Term); !ok {
				return w.tt.Bool(math.Float64frombits(a.n) == math.Float64frombits(b.n))
			}
		}
		return w.tt.Bin(OFEq, w.term(a, rt), w.term(b, rt))
	case KF32:
		return w.tt.Bool(math.Float32frombits(uint32(a.n)) == math.Float32frombits(uint32(b.n)))
	case KString:
		return w.strEq(strOf(a), strOf(b))
	case KPtr, KUnsafe:
		return w.tt.Bool(ptrEq(a, b))
	case KFunc, KSlice, KMap, KChan:
		if rt.k == KFunc || rt.k == KSlice {
			if a.p != nil && b.p != nil {
				panic(inconclusive{"comparison of func/slice"})
			}
			return w.tt.Bool(a.p == nil && b.p == nil)
		}
		return w.tt.Bool(a.p == b.p)
	case KIface:
		if a.p == nil || b.p == nil {
			return w.tt.Bool(a.p == nil && b.p == nil)
		}
		x, y := a.p.(*Iface), b.p.(*Iface)
		if x.t != y.t {
			return w.tt.fls
		}
		if !types.Comparable(x.t.t) {
			w.throw("comparing uncomparable type " + x.t.String())
		}
		return w.eq(x.v, y.v, x.t)
	case KStruct:
		x, y := a.p.(*Agg), b.p.(*Agg)
		r := w.tt.tru
		st := rt.u.(*types.Struct)
		for i, f := range rt.fields {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = w.tt.And(r, w.eq(x.e[i], y.e[i], f))
			if r == w.tt.fls {
				return r
			}
		}
		return r
	case KArray:
		x, y := a.p.(*Agg), b.p.(*Agg)
		r := w.tt.tru
		for i := range x.e {
			r = w.tt.And(r, w.eq(x.e[i], y.e[i], rt.elem))
			if r == w.tt.fls {
				return r
			}
		}
		return r
	}
	panic(inconclusive{"eq of kind " + kindNames[rt.k]})
}

func ptrEq(a, b Value) bool {
	if a.p == nil || b.p == nil {
		return a.p == nil && b.p == nil && a.n == b.n
	}
	x, ok1 := a.p.(*Value)
	y, ok2 := b.p.(*Value)
	if ok1 && ok2 {
		return x == y
	}
	return a.p == b.p
}

// ckey makes a comparable Go key for a fully concrete value, or ok=false.
func (w *W) ckey(v Value, rt *RType) (any, bool) {
	if _, ok := v.p.(*Term); ok {
		return nil, false
	}
	switch rt.k {
	case KBool, KInt:
		return v.n, true
	case KF64, KF32:
		return [2]uint64{v.n, 77}, true
	case KString:
		s := strOf(v)
		if s.sym != nil {
			return nil, false
		}
		return s.s, true
	case KPtr, KUnsafe, KChan, KMap:
		if v.p == nil {
			return "nil-ptr", true
		}
		if _, ok := v.p.(*SymPtr); ok {
			return nil, false
		}
		return v.p, true
	case KIface:
		if v.p == nil {
			return "nil-iface", true
		}
		i := v.p.(*Iface)
		if !types.Comparable(i.t.t) {
			w.throw("hash of unhashable type " + i.t.String())
		}
		k, ok := w.ckey(i.v, i.t)
		if !ok {
			return nil, false
		}
		return fmt.Sprintf("i%d:%s", i.t.id, keyStr(k)), true
	case KStruct:
		s := "s"
		for i, f := range rt.fields {
			k, ok := w.ckey(v.p.(*Agg).e[i], f)
			if !ok {
				return nil, false
			}
			ks := keyStr(k)
			s += fmt.Sprintf("%d:", len(ks)) + ks
		}
		return s, true
	case KArray:
		s := "a"
		for _, x := range v.p.(*Agg).e {
			k, ok := w.ckey(x, rt.elem)
			if !ok {
				return nil, false
			}
			ks := keyStr(k)
			s += fmt.Sprintf("%d:", len(ks)) + ks
		}
		return s, true
	}
	panic(inconclusive{"map key of kind " + kindNames[rt.k]})
}

func keyStr(k any) string {
	switch x := k.(type) {
	case string:
		return "S" + x
	case uint64:
		return fmt.Sprintf("U%d", x)
	case [2]uint64:
		return fmt.Sprintf("F%d", x[0])
	}
	return fmt.Sprintf("P%p", k)
}

func (w *W) mapFind(m *MapObj, key Value) *MapEntry {
	if m == nil {
		if m == nil {
			return nil
		}
	}
	k, ok := w.ckey(key, m.t.key)
	if ok {
		if i, found := m.index[k]; found {
			// A symbolic entry inserted earlier is known to differ from every key present then.
			return m.entries[i]
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.entries {
		if e.dead {
			continue
		}
		if ok {
			if _, conc := w.ckey(e.key, m.t.key); conc {
				continue
			}
		}
		if w.branch(w.eq(key, e.key, m.t.key)) {
			return e
		}
	}
	return nil
}

func (w *W) mapSet(m *MapObj, key, val Value) {
	if e := w.mapFind(m, key); e != nil {
		w.set(e.val, val)
		return
	}
	c := new(Value)
	*c = val
	e := &MapEntry{key: key, val: c}
	n := len(m.entries)
	k, ok := w.ckey(key, m.t.key)
	m.entries = append(m.entries, e)
	m.n++
	if ok {
		m.index[k] = n
	} else {
		m.nsym++
	}
	w.undoFn(func() {
		m.entries = m.entries[:n]
		m.n--
		if ok {
			delete(m.index, k)
		} else {
			m.nsym--
		}
	})
}

func (w *W) mapDelete(m *MapObj, key Value) {
	e := w.mapFind(m, key)
	if e == nil {
		return
	}
	k, ok := w.ckey(e.key, m.t.key)
	e.dead = true
	m.n--
	var idx int
	if ok {
		idx = m.index[k]
		delete(m.index, k)
	} else {
		m.nsym--
	}
	w.undoFn(func() {
		e.dead = false
		m.n++
		if ok {
			m.index[k] = idx
		} else {
			m.nsym++
		}
	})
}
