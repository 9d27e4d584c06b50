package main

// Hash-consed bit-vector / boolean / float terms, with constant folding,
// a canonical form for predicates over one 8-bit variable (a 256-bit set),
// and unsigned interval information derived from the static variable domains.

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OBVNot
	ONeg
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OShl
	OLshr
	OAshr
	OAnd
	OOr
	OXor
	OZext
	OSext
	OTrunc
	OIte
	OTable
	// bool
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBNot
	OBAnd
	OBOr
	OInSet
	// float64 (width wF64)
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFEq
	OFLt
	OFLe
	OFFromS
	OFFromU
	OFBits  // bv64 -> f64 reinterpret
	OFToBit // f64 -> bv64
)

const wF64 = 200

type Set256 [4]uint64

func (s *Set256) has(v uint64) bool { return s[v>>6]&(1<<(v&63)) != 0 }
func (s *Set256) add(v uint64)      { s[v>>6] |= 1 << (v & 63) }
func (s *Set256) empty() bool       { return s[0]|s[1]|s[2]|s[3] == 0 }
func (s *Set256) count() int {
	return bits.OnesCount64(s[0]) + bits.OnesCount64(s[1]) + bits.OnesCount64(s[2]) + bits.OnesCount64(s[3])
}
func (s *Set256) first() uint64 {
	for i := 0; i < 4; i++ {
		if s[i] != 0 {
			return uint64(i*64 + bits.TrailingZeros64(s[i]))
		}
	}
	return 0
}
func and256(a, b Set256) Set256 {
	return Set256{a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]}
}
func or256(a, b Set256) Set256 {
	return Set256{a[0] | b[0], a[1] | b[1], a[2] | b[2], a[3] | b[3]}
}
func andnot256(a, b Set256) Set256 {
	return Set256{a[0] &^ b[0], a[1] &^ b[1], a[2] &^ b[2], a[3] &^ b[3]}
}

var full256 = Set256{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}

type VarInfo struct {
	idx   int
	w     uint8
	dom   Set256 // static domain when w==8
	lo    uint64 // static unsigned range (for w>8), inclusive
	hi    uint64
	label string
}

type Term struct {
	op      Op
	w       uint8 // 0 = bool
	id      int32
	c       uint64
	a, b, d *Term
	vi      *VarInfo
	set     Set256
	tbl     []uint64
	supp    []int32 // sorted variable indices
	lo, hi  uint64  // unsigned interval, w>0
	stamp   uint32
	val     uint64
}

type tkey struct {
	op      Op
	w       uint8
	c       uint64
	a, b, d int32
	set     Set256
}

type TermTab struct {
	m     map[tkey]*Term
	tm    map[string]*Term // tables
	n     int32
	vars  []*Term // by var index; reused between paths when (w,dom,range,label) match
	stamp uint32
	tru   *Term
	fls   *Term
}

func newTermTab() *TermTab {
	t := &TermTab{m: map[tkey]*Term{}, tm: map[string]*Term{}}
	t.tru = t.mk(tkey{op: OConst, w: 0, c: 1}, nil, nil, nil)
	t.fls = t.mk(tkey{op: OConst, w: 0, c: 0}, nil, nil, nil)
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func mergeSupp(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// subset checks to share
	if len(a) >= len(b) && subsetI(b, a) {
		return a
	}
	if subsetI(a, b) {
		return b
	}
	r := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i] < b[j]):
			r = append(r, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	return r
}

func subsetI(a, b []int32) bool {
	j := 0
	for _, x := range a {
		for j < len(b) && b[j] < x {
			j++
		}
		if j >= len(b) || b[j] != x {
			return false
		}
	}
	return true
}

func (tt *TermTab) mk(k tkey, a, b, d *Term) *Term {
	if t, ok := tt.m[k]; ok {
		return t
	}
	t := &Term{op: k.op, w: k.w, c: k.c, a: a, b: b, d: d, set: k.set, id: tt.n}
	tt.n++
	if a != nil {
		t.supp = a.supp
	}
	if b != nil {
		t.supp = mergeSupp(t.supp, b.supp)
	}
	if d != nil {
		t.supp = mergeSupp(t.supp, d.supp)
	}
	if k.w > 0 {
		t.lo, t.hi = tt.interval(t)
	}
	tt.m[k] = t
	return t
}

func (tt *TermTab) interval(t *Term) (uint64, uint64) {
	m := mask(t.w)
	switch t.op {
	case OConst:
		return t.c, t.c
	case OZext:
		return t.a.lo, t.a.hi
	case OSext:
		if t.a.hi <= mask(t.a.w)>>1 {
			return t.a.lo, t.a.hi
		}
	case OTrunc:
		if t.a.hi <= m {
			return t.a.lo, t.a.hi
		}
	case OAdd:
		hi, c := bits.Add64(t.a.hi, t.b.hi, 0)
		if c == 0 && hi <= m {
			return t.a.lo + t.b.lo, hi
		}
		// adding a "negative" constant
		if t.b.op == OConst {
			neg := (-t.b.c) & m
			if t.a.lo >= neg && neg <= m>>1 {
				return t.a.lo - neg, t.a.hi - neg
			}
		}
	case OSub:
		if t.a.lo >= t.b.hi {
			return t.a.lo - t.b.hi, t.a.hi - t.b.lo
		}
	case OMul:
		h, l := bits.Mul64(t.a.hi, t.b.hi)
		if h == 0 && l <= m {
			return t.a.lo * t.b.lo, l
		}
	case OUdiv:
		if t.b.lo > 0 {
			return t.a.lo / t.b.hi, t.a.hi / t.b.lo
		}
	case OUrem:
		if t.b.lo > 0 {
			h := t.b.hi - 1
			if t.a.hi < h {
				h = t.a.hi
			}
			return 0, h
		}
	case OAnd:
		h := t.a.hi
		if t.b.hi < h {
			h = t.b.hi
		}
		return 0, h
	case OOr, OXor:
		l := bits.Len64(t.a.hi | t.b.hi)
		return 0, mask(uint8(l))
	case OLshr:
		if t.b.op == OConst && t.b.c < 64 {
			return t.a.lo >> t.b.c, t.a.hi >> t.b.c
		}
		return 0, t.a.hi
	case OShl:
		if t.b.op == OConst && t.b.c < 64 {
			if bits.Len64(t.a.hi)+int(t.b.c) <= int(t.w) {
				return t.a.lo << t.b.c, t.a.hi << t.b.c
			}
		}
	case OIte:
		lo, hi := t.b.lo, t.b.hi
		if t.d.lo < lo {
			lo = t.d.lo
		}
		if t.d.hi > hi {
			hi = t.d.hi
		}
		return lo, hi
	}
	return 0, m
}

func (tt *TermTab) Const(v uint64, w uint8) *Term {
	if w == wF64 {
		return tt.mk(tkey{op: OConst, w: w, c: v, a: -1, b: -1, d: -1}, nil, nil, nil)
	}
	return tt.mk(tkey{op: OConst, w: w, c: v & mask(w), a: -1, b: -1, d: -1}, nil, nil, nil)
}
func (tt *TermTab) Bool(b bool) *Term {
	if b {
		return tt.tru
	}
	return tt.fls
}

// Var returns the idx-th variable of a path.
func (tt *TermTab) Var(idx int, w uint8, dom Set256, lo, hi uint64, label string) *Term {
	for len(tt.vars) <= idx {
		tt.vars = append(tt.vars, nil)
	}
	if v := tt.vars[idx]; v != nil && v.w == w && v.vi.dom == dom && v.vi.lo == lo && v.vi.hi == hi && v.vi.label == label {
		return v
	}
	t := &Term{op: OVar, w: w, c: uint64(idx), id: tt.n, supp: []int32{int32(idx)}}
	tt.n++
	t.vi = &VarInfo{idx: idx, w: w, dom: dom, lo: lo, hi: hi, label: label}
	t.lo, t.hi = lo, hi
	if w == 8 {
		t.lo = dom.first()
		for v := 255; v >= 0; v-- {
			if dom.has(uint64(v)) {
				t.hi = uint64(v)
				break
			}
		}
	}
	tt.vars[idx] = t
	return t
}

func (tt *TermTab) varOf(idx int32) *Term { return tt.vars[idx] }

// single8 reports the variable when t depends on exactly one 8-bit variable.
func (tt *TermTab) single8(t *Term) *Term {
	if len(t.supp) == 1 {
		v := findVar(t, t.supp[0])
		if v != nil && v.w == 8 {
			return v
		}
	}
	return nil
}

func findVar(t *Term, idx int32) *Term {
	for {
		if t.op == OVar {
			return t
		}
		switch {
		case t.a != nil && len(t.a.supp) > 0:
			t = t.a
		case t.b != nil && len(t.b.supp) > 0:
			t = t.b
		case t.d != nil && len(t.d.supp) > 0:
			t = t.d
		default:
			return nil
		}
	}
}

// ---- evaluation ----

func (tt *TermTab) eval(t *Term, val func(int32) uint64) uint64 {
	tt.stamp++
	return tt.ev(t, val)
}

func evalBin(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUdiv:
		if y == 0 {
			return m
		}
		return x / y
	case OUrem:
		if y == 0 {
			return x
		}
		return x % y
	case OSdiv:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			if sx < 0 {
				return 1
			}
			return m
		}
		if sy == -1 {
			return uint64(-sx) & m
		}
		return uint64(sx/sy) & m
	case OSrem:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & m
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		sx := sext(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx>>y) & m
	case OAnd:
		return x & y
	case OOr:
		return x | y
	case OXor:
		return x ^ y
	}
	panic("evalBin")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (tt *TermTab) ev(t *Term, val func(int32) uint64) uint64 {
	switch t.op {
	case OConst:
		return t.c
	case OVar:
		return val(int32(t.c))
	}
	if t.stamp == tt.stamp {
		return t.val
	}
	var r uint64
	switch t.op {
	case OBVNot:
		r = ^tt.ev(t.a, val) & mask(t.w)
	case ONeg:
		r = -tt.ev(t.a, val) & mask(t.w)
	case OZext:
		r = tt.ev(t.a, val)
	case OSext:
		r = uint64(sext(tt.ev(t.a, val), t.a.w)) & mask(t.w)
	case OTrunc:
		r = tt.ev(t.a, val) & mask(t.w)
	case OIte:
		if tt.ev(t.a, val) != 0 {
			r = tt.ev(t.b, val)
		} else {
			r = tt.ev(t.d, val)
		}
	case OTable:
		i := tt.ev(t.a, val)
		if i < uint64(len(t.tbl)) {
			r = t.tbl[i]
		}
	case OEq:
		r = b2u(tt.ev(t.a, val) == tt.ev(t.b, val))
	case OUlt:
		r = b2u(tt.ev(t.a, val) < tt.ev(t.b, val))
	case OUle:
		r = b2u(tt.ev(t.a, val) <= tt.ev(t.b, val))
	case OSlt:
		r = b2u(sext(tt.ev(t.a, val), t.a.w) < sext(tt.ev(t.b, val), t.a.w))
	case OSle:
		r = b2u(sext(tt.ev(t.a, val), t.a.w) <= sext(tt.ev(t.b, val), t.a.w))
	case OBNot:
		r = 1 - tt.ev(t.a, val)
	case OBAnd:
		r = tt.ev(t.a, val)
		if r != 0 {
			r = tt.ev(t.b, val)
		}
	case OBOr:
		r = tt.ev(t.a, val)
		if r == 0 {
			r = tt.ev(t.b, val)
		}
	case OInSet:
		r = b2u(t.set.has(tt.ev(t.a, val)))
	case OFAdd, OFSub, OFMul, OFDiv, OFEq, OFLt, OFLe:
		r = evalF(t.op, tt.ev(t.a, val), tt.ev(t.b, val))
	case OFNeg:
		r = math.Float64bits(-math.Float64frombits(tt.ev(t.a, val)))
	case OFFromS:
		r = math.Float64bits(float64(sext(tt.ev(t.a, val), t.a.w)))
	case OFFromU:
		r = math.Float64bits(float64(tt.ev(t.a, val)))
	case OFBits, OFToBit:
		r = tt.ev(t.a, val)
	default:
		r = evalBin(t.op, t.w, tt.ev(t.a, val), tt.ev(t.b, val))
	}
	t.stamp = tt.stamp
	t.val = r
	return r
}

func evalF(op Op, x, y uint64) uint64 {
	a, b := math.Float64frombits(x), math.Float64frombits(y)
	switch op {
	case OFAdd:
		return math.Float64bits(a + b)
	case OFSub:
		return math.Float64bits(a - b)
	case OFMul:
		return math.Float64bits(a * b)
	case OFDiv:
		return math.Float64bits(a / b)
	case OFEq:
		return b2u(a == b)
	case OFLt:
		return b2u(a < b)
	case OFLe:
		return b2u(a <= b)
	}
	panic("evalF")
}

// ---- constructors ----

func (tt *TermTab) un(op Op, w uint8, a *Term) *Term {
	if a.op == OConst {
		switch op {
		case OBVNot:
			return tt.Const(^a.c, w)
		case ONeg:
			return tt.Const(-a.c, w)
		case OZext:
			return tt.Const(a.c, w)
		case OSext:
			return tt.Const(uint64(sext(a.c, a.w)), w)
		case OTrunc:
			return tt.Const(a.c, w)
		case OFNeg:
			return tt.Const(math.Float64bits(-math.Float64frombits(a.c)), w)
		case OFFromS:
			return tt.Const(math.Float64bits(float64(sext(a.c, a.w))), wF64)
		case OFFromU:
			return tt.Const(math.Float64bits(float64(a.c)), wF64)
		case OFBits, OFToBit:
			return tt.Const(a.c, w)
		}
	}
	switch op {
	case OFBits:
		if a.op == OFToBit {
			return a.a
		}
	case OFToBit:
		if a.op == OFBits {
			return a.a
		}
	}
	return tt.mk(tkey{op: op, w: w, a: a.id, b: -1, d: -1}, a, nil, nil)
}

func (tt *TermTab) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OZext {
		a = a.a
	}
	if a.op == OTrunc && a.a.w == w && a.a.hi <= mask(a.w) {
		return a.a
	}
	if a.op == OTrunc && a.a.w < w && a.a.hi <= mask(a.w) {
		return tt.Zext(a.a, w)
	}
	return tt.un(OZext, w, a)
}
func (tt *TermTab) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.hi <= mask(a.w)>>1 {
		return tt.Zext(a, w)
	}
	return tt.un(OSext, w, a)
}
func (tt *TermTab) Trunc(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OZext || a.op == OSext {
		if a.a.w == w {
			return a.a
		}
		if a.a.w < w {
			if a.op == OZext {
				return tt.Zext(a.a, w)
			}
			return tt.Sext(a.a, w)
		}
		return tt.Trunc(a.a, w)
	}
	if a.op == OTrunc {
		return tt.Trunc(a.a, w)
	}
	// push truncation through add/sub/and/or/xor/mul with small operands
	switch a.op {
	case OAdd, OSub, OMul, OAnd, OOr, OXor:
		return tt.Bin(a.op, tt.Trunc(a.a, w), tt.Trunc(a.b, w))
	case OIte:
		if a.b.op == OConst || a.d.op == OConst {
			return tt.Ite(a.a, tt.Trunc(a.b, w), tt.Trunc(a.d, w))
		}
	}
	return tt.un(OTrunc, w, a)
}

// splitMulConst views t as k*q + r with constant k.
func (tt *TermTab) divByConst(t *Term, k uint64) (q, r *Term, ok bool) {
	// t = q*k + r with r in [0,k), no overflow
	if t.hi < k {
		return tt.Const(0, t.w), t, true
	}
	switch t.op {
	case OMul:
		if t.b.op == OConst && t.b.c != 0 && t.b.c%k == 0 && noOvMul(t) {
			return tt.Bin(OMul, t.a, tt.Const(t.b.c/k, t.w)), tt.Const(0, t.w), true
		}
	case OAdd:
		if hi, c := bits.Add64(t.a.hi, t.b.hi, 0); c == 0 && hi <= mask(t.w) {
			q1, r1, ok1 := tt.divByConst(t.a, k)
			if !ok1 {
				return nil, nil, false
			}
			q2, r2, ok2 := tt.divByConst(t.b, k)
			if !ok2 {
				return nil, nil, false
			}
			if r1.hi+r2.hi < k {
				return tt.Bin(OAdd, q1, q2), tt.Bin(OAdd, r1, r2), true
			}
		}
	case OConst:
		return tt.Const(t.c/k, t.w), tt.Const(t.c%k, t.w), true
	case OZext:
		if t.a.op == OAdd || t.a.op == OMul {
			if k <= mask(t.a.w) {
				q, r, ok := tt.divByConst(t.a, k)
				if ok {
					return tt.Zext(q, t.w), tt.Zext(r, t.w), true
				}
			}
		}
	}
	return nil, nil, false
}

func noOvMul(t *Term) bool {
	h, l := bits.Mul64(t.a.hi, t.b.hi)
	return h == 0 && l <= mask(t.w)
}

func (tt *TermTab) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch op %d: %d(op %d) %d(op %d)", op, a.w, a.op, b.w, b.op))
	}
	if w == wF64 {
		if a.op == OConst && b.op == OConst {
			r := evalF(op, a.c, b.c)
			if op == OFEq || op == OFLt || op == OFLe {
				return tt.Bool(r != 0)
			}
			return tt.Const(r, w)
		}
		ww := w
		if op == OFEq || op == OFLt || op == OFLe {
			ww = 0
		}
		return tt.mk(tkey{op: op, w: ww, a: a.id, b: b.id, d: -1}, a, b, nil)
	}
	if a.op == OConst && b.op == OConst {
		return tt.Const(evalBin(op, w, a.c, b.c), w)
	}
	m := mask(w)
	switch op {
	case OAdd, OMul, OAnd, OOr, OXor:
		if a.op == OConst || (b.op != OConst && a.id > b.id) {
			a, b = b, a
		}
	}
	if b.op == OConst {
		switch op {
		case OAdd:
			if b.c == 0 {
				return a
			}
			if a.op == OAdd && a.b.op == OConst {
				return tt.Bin(OAdd, a.a, tt.Const(a.b.c+b.c, w))
			}
			if a.op == OZext && a.a.op != OZext {
				// keep additions narrow when they provably do not wrap
				neg := (-b.c) & m
				aw := a.a.w
				if a.a.op == OAdd && a.a.b.op == OConst && neg <= mask(aw) {
					inner := tt.Bin(OAdd, a.a, tt.Const(-neg, aw))
					if a.a.lo >= neg {
						return tt.Zext(inner, w)
					}
				}
			}
		case OSub:
			return tt.Bin(OAdd, a, tt.Const(-b.c, w))
		case OMul:
			if b.c == 0 {
				return b
			}
			if b.c == 1 {
				return a
			}
			if a.op == OMul && a.b.op == OConst {
				return tt.Bin(OMul, a.a, tt.Const(a.b.c*b.c, w))
			}
			if a.op == OAdd {
				if hi, c := bits.Add64(a.a.hi, a.b.hi, 0); c == 0 && hi <= m {
					// distribute so that digit sums stay in a canonical linear form
					if h, l := bits.Mul64(hi, b.c); h == 0 && l <= m {
						return tt.Bin(OAdd, tt.Bin(OMul, a.a, b), tt.Bin(OMul, a.b, b))
					}
				}
			}
		case OAnd:
			if b.c == 0 {
				return b
			}
			if b.c == m {
				return a
			}
			if b.c&(b.c+1) == 0 && a.hi <= b.c { // low mask
				return a
			}
		case OOr, OXor:
			if b.c == 0 {
				return a
			}
		case OShl, OLshr, OAshr:
			if b.c == 0 {
				return a
			}
			if op != OAshr && b.c >= uint64(w) {
				return tt.Const(0, w)
			}
			if op == OAshr && a.hi <= m>>1 {
				return tt.Bin(OLshr, a, b)
			}
			if op == OLshr && b.c < 64 && a.hi>>b.c == 0 {
				return tt.Const(0, w)
			}
		case OUdiv:
			if b.c == 1 {
				return a
			}
			if b.c != 0 {
				if q, _, ok := tt.divByConst(a, b.c); ok {
					return q
				}
			}
		case OUrem:
			if b.c == 1 {
				return tt.Const(0, w)
			}
			if b.c != 0 {
				if _, r, ok := tt.divByConst(a, b.c); ok {
					return r
				}
			}
		case OSdiv:
			if b.c == 1 {
				return a
			}
			if b.c <= m>>1 && a.hi <= m>>1 {
				return tt.Bin(OUdiv, a, b)
			}
		case OSrem:
			if b.c <= m>>1 && b.c != 0 && a.hi <= m>>1 {
				return tt.Bin(OUrem, a, b)
			}
		}
	}
	switch op {
	case OSub:
		if a == b {
			return tt.Const(0, w)
		}
		if a.op == OAdd {
			if a.a == b {
				return a.b
			}
			if a.b == b {
				return a.a
			}
		}
		if a.op == OConst && a.c == 0 {
			return tt.un(ONeg, w, b)
		}
	case OAnd, OOr:
		if a == b {
			return a
		}
	case OXor:
		if a == b {
			return tt.Const(0, w)
		}
	}
	return tt.mk(tkey{op: op, w: w, a: a.id, b: b.id, d: -1}, a, b, nil)
}

func (tt *TermTab) Neg(a *Term) *Term {
	if a.w == wF64 {
		return tt.un(OFNeg, wF64, a)
	}
	if a.op == ONeg {
		return a.a
	}
	return tt.un(ONeg, a.w, a)
}
func (tt *TermTab) BVNot(a *Term) *Term { return tt.un(OBVNot, a.w, a) }

func (tt *TermTab) Ite(c, a, b *Term) *Term {
	if c.op == OConst {
		if c.c != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.op == OConst {
			if a.c != 0 {
				return tt.Or(c, b)
			}
			return tt.And(tt.Not(c), b)
		}
		if b.op == OConst {
			if b.c != 0 {
				return tt.Or(tt.Not(c), a)
			}
			return tt.And(c, a)
		}
		return tt.Or(tt.And(c, a), tt.And(tt.Not(c), b))
	}
	if c.op == OBNot {
		c, a, b = c.a, b, a
	}
	return tt.mk(tkey{op: OIte, w: a.w, a: c.id, b: a.id, d: b.id}, c, a, b)
}

// Table: constant table indexed by a term known to be in range.
func (tt *TermTab) Table(idx *Term, tbl []uint64, w uint8) *Term {
	if idx.op == OConst {
		return tt.Const(tbl[idx.c], w)
	}
	// identity / constant tables
	same := true
	for _, v := range tbl {
		if v != tbl[0] {
			same = false
			break
		}
	}
	if same {
		return tt.Const(tbl[0], w)
	}
	buf := make([]byte, 0, len(tbl)*3+16)
	buf = fmt.Appendf(buf, "%d/%d:", idx.id, w)
	for _, v := range tbl {
		buf = fmt.Appendf(buf, "%x,", v)
	}
	key := string(buf)
	if t, ok := tt.tm[key]; ok {
		return t
	}
	t := &Term{op: OTable, w: w, a: idx, tbl: append([]uint64(nil), tbl...), id: tt.n, supp: idx.supp}
	tt.n++
	t.lo, t.hi = ^uint64(0), 0
	for i, v := range tbl {
		if uint64(i) < idx.lo || uint64(i) > idx.hi {
			continue
		}
		if v < t.lo {
			t.lo = v
		}
		if v > t.hi {
			t.hi = v
		}
	}
	if w == 0 {
		tt.tm[key] = tt.norm(t)
		return tt.tm[key]
	}
	tt.tm[key] = t
	return t
}

// norm canonicalizes a boolean term over a single 8-bit variable.
func (tt *TermTab) norm(t *Term) *Term {
	v := tt.single8(t)
	if v == nil {
		return t
	}
	var s Set256
	idx := v.vi.idx
	for x := uint64(0); x < 256; x++ {
		if !v.vi.dom.has(x) {
			continue
		}
		if tt.eval(t, func(i int32) uint64 {
			if int(i) != idx {
				panic("norm var")
			}
			return x
		}) != 0 {
			s.add(x)
		}
	}
	return tt.InSet(v, s)
}

func (tt *TermTab) InSet(v *Term, s Set256) *Term {
	s = and256(s, v.vi.dom)
	if s.empty() {
		return tt.fls
	}
	if s == v.vi.dom {
		return tt.tru
	}
	return tt.mk(tkey{op: OInSet, w: 0, a: v.id, b: -1, d: -1, set: s}, v, nil, nil)
}

// linDiff bounds a-b, as integers, when both are sums that provably do not wrap.
func (tt *TermTab) linDiff(a, b *Term) (lo, hi *big.Int, ok bool) {
	coef := map[*Term]*big.Int{}
	k := new(big.Int)
	n := 0
	var walk func(t *Term, c *big.Int) bool
	walk = func(t *Term, c *big.Int) bool {
		if n++; n > 200 {
			return false
		}
		u := new(big.Int)
		switch t.op {
		case OConst:
			k.Add(k, u.Mul(u.SetUint64(t.c), c))
			return true
		case OZext:
			return walk(t.a, c)
		case OAdd:
			if h, cc := bits.Add64(t.a.hi, t.b.hi, 0); cc == 0 && h <= mask(t.w) {
				return walk(t.a, c) && walk(t.b, c)
			}
			if t.b.op == OConst {
				if neg := (-t.b.c) & mask(t.w); t.a.lo >= neg && neg <= mask(t.w)>>1 {
					k.Sub(k, u.Mul(u.SetUint64(neg), c))
					return walk(t.a, c)
				}
			}
		case OMul:
			if t.b.op == OConst {
				if h, l := bits.Mul64(t.a.hi, t.b.c); h == 0 && l <= mask(t.w) {
					return walk(t.a, u.Mul(u.SetUint64(t.b.c), c))
				}
			}
		}
		if o, ok := coef[t]; ok {
			o.Add(o, c)
		} else {
			coef[t] = new(big.Int).Set(c)
		}
		return true
	}
	if !walk(a, big.NewInt(1)) || !walk(b, big.NewInt(-1)) {
		return nil, nil, false
	}
	lo, hi = new(big.Int).Set(k), new(big.Int).Set(k)
	for t, c := range coef {
		l, h := new(big.Int).SetUint64(t.lo), new(big.Int).SetUint64(t.hi)
		l.Mul(l, c)
		h.Mul(h, c)
		if c.Sign() < 0 {
			l, h = h, l
		}
		lo.Add(lo, l)
		hi.Add(hi, h)
	}
	return lo, hi, true
}

func (tt *TermTab) Cmp(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("cmp width mismatch %d %d", a.w, b.w))
	}
	if a.w == 0 {
		if op != OEq {
			panic("bool cmp")
		}
		return tt.Ite(a, b, tt.Not(b))
	}
	if a.w == wF64 {
		switch op {
		case OEq:
			return tt.Bin(OFEq, a, b)
		}
		panic("float cmp op")
	}
	if a.op == OConst && b.op == OConst {
		switch op {
		case OEq:
			return tt.Bool(a.c == b.c)
		case OUlt:
			return tt.Bool(a.c < b.c)
		case OUle:
			return tt.Bool(a.c <= b.c)
		case OSlt:
			return tt.Bool(sext(a.c, a.w) < sext(b.c, a.w))
		case OSle:
			return tt.Bool(sext(a.c, a.w) <= sext(b.c, a.w))
		}
	}
	if a == b {
		return tt.Bool(op == OEq || op == OUle || op == OSle)
	}
	half := mask(a.w) >> 1
	if op == OSlt || op == OSle {
		if a.hi <= half && b.hi <= half {
			if op == OSlt {
				op = OUlt
			} else {
				op = OUle
			}
		} else if a.lo > half && b.hi <= half { // a negative, b nonneg
			return tt.tru
		} else if a.hi <= half && b.lo > half {
			return tt.fls
		}
	}
	switch op {
	case OEq:
		if a.hi < b.lo || b.hi < a.lo {
			return tt.fls
		}
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			switch a.op {
			case OZext:
				if b.c > mask(a.a.w) {
					return tt.fls
				}
				return tt.Cmp(OEq, a.a, tt.Const(b.c, a.a.w))
			case OAdd:
				if a.b.op == OConst {
					return tt.Cmp(OEq, a.a, tt.Const(b.c-a.b.c, a.w))
				}
			case OIte:
				if a.b.op == OConst || a.d.op == OConst {
					return tt.Ite(a.a, tt.Cmp(OEq, a.b, b), tt.Cmp(OEq, a.d, b))
				}
			}
		} else if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
			return tt.Cmp(OEq, a.a, b.a)
		} else if a.id > b.id {
			a, b = b, a
		}
	case OUlt:
		if a.hi < b.lo {
			return tt.tru
		}
		if a.lo >= b.hi {
			return tt.fls
		}
	case OUle:
		if a.hi <= b.lo {
			return tt.tru
		}
		if a.lo > b.hi {
			return tt.fls
		}
	}
	k := tkey{op: op, w: 0, a: a.id, b: b.id, d: -1}
	if t, ok := tt.m[k]; ok {
		return t
	}
	if a.w >= 16 && (a.op == OAdd || a.op == OMul || b.op == OAdd || b.op == OMul) {
		if lo, hi, ok := tt.linDiff(a, b); ok {
			r := -1
			switch {
			case op == OUlt && hi.Sign() < 0, op == OUle && hi.Sign() <= 0:
				r = 1
			case op == OUlt && lo.Sign() >= 0, op == OUle && lo.Sign() > 0, op == OEq && (lo.Sign() > 0 || hi.Sign() < 0):
				r = 0
			case op == OEq && lo.Sign() == 0 && hi.Sign() == 0:
				r = 1
			}
			if r >= 0 {
				return tt.Bool(r == 1)
			}
		}
	}
	// canonicalize without polluting the table
	tmp := &Term{op: op, w: 0, a: a, b: b, supp: mergeSupp(a.supp, b.supp)}
	if v := tt.single8(tmp); v != nil {
		r := tt.norm(tmp)
		tt.m[k] = r
		return r
	}
	return tt.mk(k, a, b, nil)
}

func (tt *TermTab) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return tt.Bool(a.c == 0)
	case OBNot:
		return a.a
	case OInSet:
		return tt.InSet(a.a, andnot256(a.a.vi.dom, a.set))
	case OUlt:
		return tt.Cmp(OUle, a.b, a.a)
	case OUle:
		return tt.Cmp(OUlt, a.b, a.a)
	case OSlt:
		return tt.Cmp(OSle, a.b, a.a)
	case OSle:
		return tt.Cmp(OSlt, a.b, a.a)
	}
	return tt.mk(tkey{op: OBNot, w: 0, a: a.id, b: -1, d: -1}, a, nil, nil)
}

func (tt *TermTab) And(a, b *Term) *Term {
	if a.op == OConst {
		if a.c != 0 {
			return b
		}
		return a
	}
	if b.op == OConst {
		if b.c != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.op == OInSet && b.op == OInSet && a.a == b.a {
		return tt.InSet(a.a, and256(a.set, b.set))
	}
	if (a.op == OBNot && a.a == b) || (b.op == OBNot && b.a == a) {
		return tt.fls
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(tkey{op: OBAnd, w: 0, a: a.id, b: b.id, d: -1}, a, b, nil)
}

func (tt *TermTab) Or(a, b *Term) *Term {
	if a.op == OConst {
		if a.c != 0 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.c != 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if a.op == OInSet && b.op == OInSet && a.a == b.a {
		return tt.InSet(a.a, or256(a.set, b.set))
	}
	if (a.op == OBNot && a.a == b) || (b.op == OBNot && b.a == a) {
		return tt.tru
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(tkey{op: OBOr, w: 0, a: a.id, b: b.id, d: -1}, a, b, nil)
}
