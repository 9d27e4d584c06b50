package main

import "go/token"

func (w *W) builtin(f *Frame, in *Instr, args []Value) Value {
	switch in.name {
	case "len":
		x := args[0]
		switch in.rt.k {
		case KString:
			return intVal(len(strOf(x).s))
		case KSlice:
			return intVal(len(sliceOf(x)))
		case KMap:
			if x.p == nil {
				return Value{}
			}
			return intVal(x.p.(*MapObj).n)
		case KArray:
			return intVal(in.rt.n)
		case KPtr:
			return intVal(in.rt.elem.n)
		case KChan:
			return Value{}
		}
	case "cap":
		switch in.rt.k {
		case KSlice:
			return intVal(cap(sliceOf(args[0])))
		case KArray:
			return intVal(in.rt.n)
		case KPtr:
			return intVal(in.rt.elem.n)
		}
	case "append":
		return w.appendV(in, args)
	case "copy":
		dst := sliceOf(args[0])
		if in.rt2.k == KString {
			s := strOf(args[1])
			n := min(len(dst), len(s.s))
			for i := 0; i < n; i++ {
				w.set(&dst[i], s.at(i))
			}
			return intVal(n)
		}
		src := sliceOf(args[1])
		n := min(len(dst), len(src))
		if n == 0 {
			return Value{}
		}
		if in.rt.elem.agg {
			tmp := make([]Value, n)
			for i := range tmp {
				tmp[i] = copyVal(src[i])
			}
			for i := range tmp {
				w.store(&dst[i], tmp[i])
			}
			return intVal(n)
		}
		if &dst[0] != &src[0] {
			for i := 0; i < n; i++ {
				w.journal = append(w.journal, jent{&dst[i], dst[i]})
			}
			copy(dst[:n], src[:n])
		}
		return intVal(n)
	case "delete":
		if args[0].p != nil {
			w.mapDelete(args[0].p.(*MapObj), args[1])
		}
		return Value{}
	case "clear":
		switch in.rt.k {
		case KMap:
			if args[0].p != nil {
				m := args[0].p.(*MapObj)
				for _, e := range append([]*MapEntry(nil), m.entries...) {
					if !e.dead {
						w.mapDelete(m, e.key)
					}
				}
			}
		case KSlice:
			for i := range sliceOf(args[0]) {
				w.store(&sliceOf(args[0])[i], zeroVal(in.rt.elem))
			}
		}
		return Value{}
	case "print", "println":
		return Value{}
	case "recover":
		// valid only when called directly by a deferred function during panicking
		if f.isDefer && len(w.stack) >= 2 && w.stack[len(w.stack)-1] == f {
			p := w.stack[len(w.stack)-2]
			if p.panicking {
				p = w.thaw(len(w.stack) - 2)
				p.panicking = false
				v := p.pval
				p.pval = Value{}
				return v
			}
		}
		return Value{}
	case "min", "max":
		rt := in.rt
		r := args[0]
		for _, a := range args[1:] {
			tok := token.LSS
			if in.name == "max" {
				tok = token.GTR
			}
			c := w.bin(&Instr{tok: tok, rt: rt, rt2: rt}, a, r)
			if rt.k == KInt {
				if c.p == nil && a.p == nil && r.p == nil {
					c = w.binInt(&Instr{tok: tok, rt: rt, rt2: rt}, a.n, r.n)
				}
				if t, ok := c.p.(*Term); ok {
					r = w.val(w.tt.Ite(t, w.term(a, rt), w.term(r, rt)), rt)
					continue
				}
			}
			b := c.n != 0
			if t, ok := c.p.(*Term); ok {
				b = w.branch(t)
			}
			if b {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if args[0].p == nil {
			w.throw("value method called using nil pointer")
		}
		return args[0]
	case "StringData", "SliceData":
		if in.name == "StringData" {
			return Value{p: &DataPtr{str: strOf(args[0])}}
		}
		if args[0].p == nil {
			return Value{}
		}
		return Value{p: &DataPtr{a: sliceOf(args[0])}}
	case "String":
		n := int(w.concInt(args[1], w.e.intType))
		if n == 0 {
			return Value{}
		}
		switch d := args[0].p.(type) {
		case *DataPtr:
			if d.str != nil {
				return d.str.slice(0, n)
			}
			return bytesToStr(d.a[:n])
		case *Value:
			if n == 1 {
				return bytesToStr([]Value{*d})
			}
		}
	case "Slice":
		n := int(w.concInt(args[1], w.e.intType))
		switch d := args[0].p.(type) {
		case *DataPtr:
			if d.str != nil {
				a := make([]Value, n)
				for i := range a {
					a[i] = d.str.at(i)
				}
				return Value{p: &Slice{a}}
			}
			return Value{p: &Slice{d.a[:n]}}
		case nil:
			return Value{}
		}
	case "close":
		return Value{}
	case "Sizeof":
		// of a type parameter's instance
		switch in.rt.k {
		case KInt:
			return intVal(int(in.rt.w) / 8)
		case KF64:
			return intVal(8)
		case KF32:
			return intVal(4)
		}
	}
	panic(inconclusive{"builtin " + in.name})
}

// appendV models append including the runtime's capacity growth.
func (w *W) appendV(in *Instr, args []Value) Value {
	a := sliceOf(args[0])
	var src []Value
	var str *Str
	if in.rt2 != nil && in.rt2.k == KString {
		str = strOf(args[1])
	} else {
		src = sliceOf(args[1])
	}
	n := len(src)
	if str != nil {
		n = len(str.s)
	}
	if n == 0 {
		return args[0]
	}
	total := len(a) + n
	var r []Value
	if total <= cap(a) {
		r = a[:total]
	} else {
		es := w.elemSize(in.rt.elem)
		r = make([]Value, total, growCap(len(a), cap(a), total, es))
		if in.rt.elem.agg {
			for i, v := range a {
				r[i] = copyVal(v)
			}
			full := r[:cap(r)]
			for i := len(a); i < len(full); i++ {
				full[i] = zeroVal(in.rt.elem)
			}
		} else {
			copy(r, a)
		}
		// fresh memory: no journal needed for the new cells
		for i := 0; i < n; i++ {
			if str != nil {
				r[len(a)+i] = str.at(i)
			} else {
				r[len(a)+i] = copyVal(src[i])
			}
		}
		return Value{p: &Slice{r}}
	}
	if in.rt.elem.agg {
		tmp := make([]Value, n)
		for i := range tmp {
			tmp[i] = copyVal(src[i])
		}
		src = tmp
	}
	for i := 0; i < n; i++ {
		if str != nil {
			w.set(&r[len(a)+i], str.at(i))
		} else {
			if in.rt.elem.agg && r[len(a)+i].p == nil {
				w.set(&r[len(a)+i], zeroVal(in.rt.elem))
			}
			w.store(&r[len(a)+i], src[i])
		}
	}
	return Value{p: &Slice{r}}
}

func (w *W) elemSize(rt *RType) int {
	switch rt.k {
	case KBool:
		return 1
	case KInt, KF32:
		return int(rt.w) / 8
	case KF64, KPtr, KMap, KChan, KFunc, KUnsafe:
		return 8
	case KString, KIface, KComplex:
		return 16
	case KSlice:
		return 24
	}
	s := int(w.e.sizes().Sizeof(rt.t))
	return s
}

func growCap(oldLen, oldCap, newLen, es int) int {
	newcap := oldCap
	double := newcap + newcap
	if newLen > double {
		newcap = newLen
	} else if oldCap < 256 {
		newcap = double
	} else {
		for newcap < newLen {
			newcap += (newcap + 3*256) >> 2
		}
	}
	if es == 0 {
		return newLen
	}
	mem := sizeClass(newcap * es)
	return mem / es
}
