// Package zzrt holds the support code that the symbolic executor interprets in
// place of reflection-based or runtime-provided library functions.
package zzrt

import (
	"errors"
	"io"
	"os"
	"strconv"
	"sync"
	"unicode/utf8"
)

// ---- intrinsics (implemented by the engine) ----

func Kind(x interface{}) string              { panic("rt") }
func Len(x interface{}) int                  { panic("rt") }
func Index(x interface{}, i int) interface{} { panic("rt") }
func FieldN(x interface{}, i int) string     { panic("rt") }
func TypeName(x interface{}) string          { panic("rt") }
func ToInt(x interface{}) int64              { panic("rt") }
func ToUint(x interface{}) uint64            { panic("rt") }
func ToStr(x interface{}) string             { panic("rt") }
func ToFloat(x interface{}) float64          { panic("rt") }
func ToBool(x interface{}) bool              { panic("rt") }
func IsNil(x interface{}) bool               { panic("rt") }
func Elem(x interface{}) interface{}         { panic("rt") }
func MapKV(x interface{}) []interface{}      { panic("rt") }
func Swap(x interface{}, i, j int)           { panic("rt") }
func AsAssign(e error, t interface{}) bool   { panic("rt") }

// CountDigits is the number of decimal digits of u.
func CountDigits(u uint64) int { panic("rt") }

// Digits writes the len(a) last decimal digits of u.
func Digits(a []byte, u uint64) { panic("rt") }
func Unsupported(s string)      { panic("rt") }

// ---- decimal formatting ----

func NumDigits(u uint64) int { return CountDigits(u) }

func Small(i int) string {
	a := make([]byte, NumDigits(uint64(i)))
	Digits(a, uint64(i))
	return string(a)
}

func FormatBase10(a []byte, u uint64) { Digits(a, u) }

// ---- runtime errors ----

type RuntimeError string

func (e RuntimeError) Error() string { return "runtime error: " + string(e) }
func (e RuntimeError) RuntimeError() {}

// ---- strings and runes ----

type StrIter struct {
	S   string
	Pos int
}

func StrNext(it *StrIter) (bool, int, rune) {
	if it.Pos >= len(it.S) {
		return false, 0, 0
	}
	p := it.Pos
	r, n := utf8.DecodeRuneInString(it.S[p:])
	it.Pos = p + n
	return true, p, r
}

func StringToRunes(s string) []rune {
	var out []rune
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		out = append(out, r)
		i += n
	}
	return out
}

func RunesToString(rs []rune) string {
	var b []byte
	for _, r := range rs {
		b = utf8.AppendRune(b, r)
	}
	return string(b)
}

func RuneToString(r int) string {
	if r < 0 || r > 0x10ffff {
		r = 0xfffd
	}
	return string(utf8.AppendRune(nil, rune(r)))
}

// ---- sync ----

func PoolGet(p *sync.Pool) interface{} {
	if p.New != nil {
		return p.New()
	}
	return nil
}

// ---- errors ----

func ErrorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	for {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if ErrorsIs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

func ErrorsAs(err error, target interface{}) bool {
	for err != nil {
		if AsAssign(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(interface{}) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if e != nil && ErrorsAs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

// ---- sort ----

func SortSlice(x interface{}, less func(i, j int) bool) {
	n := Len(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			Swap(x, j, j-1)
		}
	}
}

func SortSliceIsSorted(x interface{}, less func(i, j int) bool) bool {
	n := Len(x)
	for i := n - 1; i > 0; i-- {
		if less(i, i-1) {
			return false
		}
	}
	return true
}

// ---- fmt ----

type wrapError struct {
	msg string
	err error
}

func (e *wrapError) Error() string { return e.msg }
func (e *wrapError) Unwrap() error { return e.err }

type wrapErrors struct {
	msg  string
	errs []error
}

func (e *wrapErrors) Error() string   { return e.msg }
func (e *wrapErrors) Unwrap() []error { return e.errs }

type flags struct {
	plus, minus, sharp, space, zero bool
	wid, prec                       int
	hasWid, hasPrec                 bool
}

func Sprintf(format string, args ...interface{}) string {
	return string(format1(format, args))
}

func format1(format string, args []interface{}) []byte {
	var out []byte
	argi := 0
	n := len(format)
	for i := 0; i < n; {
		c := format[i]
		if c != '%' {
			out = append(out, c)
			i++
			continue
		}
		i++
		if i >= n {
			out = append(out, "%!(NOVERB)"...)
			break
		}
		var f flags
	fl:
		for i < n {
			switch format[i] {
			case '+':
				f.plus = true
			case '-':
				f.minus = true
				f.zero = false
			case '#':
				f.sharp = true
			case ' ':
				f.space = true
			case '0':
				f.zero = true
			default:
				break fl
			}
			i++
		}
		if i < n && format[i] == '[' {
			j := i + 1
			k := 0
			ok := false
			for j < n && format[j] >= '0' && format[j] <= '9' {
				k = k*10 + int(format[j]-'0')
				j++
				ok = true
			}
			if ok && j < n && format[j] == ']' && k >= 1 && k <= len(args) {
				argi = k - 1
				i = j + 1
			} else {
				Unsupported("explicit argument index")
			}
		}
		if i < n && format[i] == '*' {
			i++
			if argi < len(args) {
				f.wid = int(ToInt(args[argi]))
				f.hasWid = true
				if f.wid < 0 {
					f.wid = -f.wid
					f.minus = true
					f.zero = false
				}
				argi++
			}
		} else {
			for i < n && format[i] >= '0' && format[i] <= '9' {
				f.wid = f.wid*10 + int(format[i]-'0')
				f.hasWid = true
				i++
			}
		}
		if i < n && format[i] == '.' {
			i++
			f.hasPrec = true
			if i < n && format[i] == '*' {
				i++
				if argi < len(args) {
					f.prec = int(ToInt(args[argi]))
					argi++
				}
			} else {
				for i < n && format[i] >= '0' && format[i] <= '9' {
					f.prec = f.prec*10 + int(format[i]-'0')
					i++
				}
			}
		}
		if i >= n {
			out = append(out, "%!(NOVERB)"...)
			break
		}
		verb, size := rune(format[i]), 1
		if verb >= utf8.RuneSelf {
			verb, size = utf8.DecodeRuneInString(format[i:])
		}
		i += size
		if verb == '%' {
			out = append(out, '%')
			continue
		}
		if argi >= len(args) {
			out = append(out, "%!"...)
			out = utf8.AppendRune(out, verb)
			out = append(out, "(MISSING)"...)
			continue
		}
		out = append(out, pad(fmtArg(args[argi], verb, &f, 0), &f)...)
		argi++
	}
	if argi < len(args) {
		out = append(out, "%!(EXTRA "...)
		for k := argi; k < len(args); k++ {
			if k > argi {
				out = append(out, ", "...)
			}
			if args[k] == nil {
				out = append(out, "<nil>"...)
			} else {
				out = append(out, TypeName(args[k])...)
				out = append(out, '=')
				var f flags
				out = append(out, fmtArg(args[k], 'v', &f, 0)...)
			}
		}
		out = append(out, ')')
	}
	return out
}

func pad(b []byte, f *flags) []byte {
	if !f.hasWid {
		return b
	}
	n := utf8.RuneCount(b)
	if n >= f.wid {
		return b
	}
	var p []byte
	c := byte(' ')
	if f.zero && !f.minus {
		c = '0'
	}
	for k := n; k < f.wid; k++ {
		p = append(p, c)
	}
	if f.minus {
		return append(b, p...)
	}
	if c == '0' && len(b) > 0 && (b[0] == '-' || b[0] == '+') {
		r := append([]byte{b[0]}, p...)
		return append(r, b[1:]...)
	}
	return append(p, b...)
}

func bad(x interface{}, verb rune) []byte {
	b := []byte("%!")
	b = utf8.AppendRune(b, verb)
	if x == nil {
		return append(b, "(<nil>)"...)
	}
	b = append(b, '(')
	b = append(b, TypeName(x)...)
	b = append(b, '=')
	var f flags
	b = append(b, fmtArgNoMeth(x, 'v', &f, 0)...)
	return append(b, ')')
}

func fmtArg(x interface{}, verb rune, f *flags, depth int) []byte {
	if x == nil {
		switch verb {
		case 'T', 'v':
			return []byte("<nil>")
		}
		return bad(nil, verb)
	}
	if verb == 'T' {
		return []byte(TypeName(x))
	}
	if verb == 'p' {
		return []byte("0xc000000000")
	}
	if verb == 'w' {
		verb = 'v'
	}
	if f.sharp && verb == 'v' {
		if g, ok := x.(interface{ GoString() string }); ok {
			return []byte(g.GoString())
		}
	} else {
		switch verb {
		case 'v', 's', 'x', 'X', 'q':
			switch v := x.(type) {
			case error:
				if Kind(x) == "ptr" && IsNil(x) {
					return []byte("<nil>")
				}
				return fmtStr(v.Error(), verb, f, x)
			case interface{ String() string }:
				if Kind(x) == "ptr" && IsNil(x) {
					return []byte("<nil>")
				}
				return fmtStr(v.String(), verb, f, x)
			}
		}
	}
	return fmtArgNoMeth(x, verb, f, depth)
}

func fmtStr(s string, verb rune, f *flags, x interface{}) []byte {
	switch verb {
	case 'v', 's':
		if verb == 'v' && f.sharp {
			return []byte(strconv.Quote(s))
		}
		if f.hasPrec {
			n := 0
			for i := range s {
				if n == f.prec {
					s = s[:i]
					break
				}
				n++
			}
		}
		return []byte(s)
	case 'q':
		if f.sharp && strconv.CanBackquote(s) {
			return []byte("`" + s + "`")
		}
		if f.plus {
			return []byte(strconv.QuoteToASCII(s))
		}
		return []byte(strconv.Quote(s))
	case 'x', 'X':
		hex := "0123456789abcdef"
		if verb == 'X' {
			hex = "0123456789ABCDEF"
		}
		var b []byte
		for i := 0; i < len(s); i++ {
			if f.space && i > 0 {
				b = append(b, ' ')
			}
			b = append(b, hex[s[i]>>4], hex[s[i]&15])
		}
		return b
	}
	return bad(x, verb)
}

func plus(b []byte, f *flags) []byte {
	if len(b) > 0 && b[0] != '-' {
		if f.plus {
			return append([]byte{'+'}, b...)
		}
		if f.space {
			return append([]byte{' '}, b...)
		}
	}
	return b
}

func fmtArgNoMeth(x interface{}, verb rune, f *flags, depth int) []byte {
	k := Kind(x)
	switch k {
	case "bool":
		if verb == 't' || verb == 'v' {
			return strconv.AppendBool(nil, ToBool(x))
		}
		return bad(x, verb)
	case "int", "uint":
		base := 0
		switch verb {
		case 'd':
			base = 10
		case 'v':
			base = 10
			if f.sharp && k == "uint" {
				return append([]byte("0x"), strconv.AppendUint(nil, ToUint(x), 16)...)
			}
		case 'x', 'X':
			base = 16
		case 'o':
			base = 8
		case 'b':
			base = 2
		case 'c':
			return utf8.AppendRune(nil, rune(ToInt(x)))
		case 'q':
			return []byte(strconv.QuoteRune(rune(ToInt(x))))
		case 'U':
			s := strconv.FormatInt(ToInt(x), 16)
			var u []byte
			for i := 0; i < len(s); i++ {
				c := s[i]
				if c >= 'a' {
					c -= 32
				}
				u = append(u, c)
			}
			for len(u) < 4 {
				u = append([]byte{'0'}, u...)
			}
			return append([]byte("U+"), u...)
		default:
			return bad(x, verb)
		}
		var b []byte
		if k == "int" {
			b = strconv.AppendInt(nil, ToInt(x), base)
		} else {
			b = strconv.AppendUint(nil, ToUint(x), base)
		}
		if verb == 'X' {
			for i := range b {
				if b[i] >= 'a' && b[i] <= 'f' {
					b[i] -= 32
				}
			}
		}
		if f.hasPrec {
			for len(b) < f.prec {
				b = append([]byte{'0'}, b...)
			}
		}
		return plus(b, f)
	case "float64", "float32":
		bits := 64
		if k == "float32" {
			bits = 32
		}
		prec := -1
		fm := byte(verb)
		switch verb {
		case 'v':
			fm = 'g'
		case 'g', 'G':
		case 'e', 'E', 'f', 'F':
			prec = 6
			if fm == 'F' {
				fm = 'f'
			}
		default:
			return bad(x, verb)
		}
		if f.hasPrec {
			prec = f.prec
		}
		v := ToFloat(x)
		if verb == 'v' {
			// %e is used if the exponent from the conversion is less than -4 or >= 21
			b := strconv.AppendFloat(nil, v, 'g', prec, bits)
			return plus(fmtG21(b, v, prec, bits), f)
		}
		return plus(strconv.AppendFloat(nil, v, fm, prec, bits), f)
	case "string":
		return fmtStr(ToStr(x), verb, f, x)
	case "bytes":
		switch verb {
		case 's', 'q', 'x', 'X':
			return fmtStr(ToStr(x), verb, f, x)
		}
	case "ptr":
		if depth == 0 && !IsNil(x) {
			e := Elem(x)
			if e != nil {
				switch Kind(e) {
				case "struct", "slice", "array", "map", "bytes":
					return append([]byte("&"), fmtVal(e, verb, f, depth+1)...)
				}
			}
		}
		if IsNil(x) {
			if verb == 'v' {
				if f.sharp {
					return []byte("(" + TypeName(x) + ")(nil)")
				}
				return []byte("<nil>")
			}
			return bad(x, verb)
		}
		if f.sharp {
			return []byte("(" + TypeName(x) + ")(0xc000000000)")
		}
		return []byte("0xc000000000")
	}
	switch k {
	case "struct":
		var b []byte
		if f.sharp {
			b = append(b, TypeName(x)...)
		}
		b = append(b, '{')
		n := Len(x)
		for i := 0; i < n; i++ {
			if i > 0 {
				if f.sharp {
					b = append(b, ", "...)
				} else {
					b = append(b, ' ')
				}
			}
			if f.sharp || f.plus {
				b = append(b, FieldN(x, i)...)
				b = append(b, ':')
			}
			b = append(b, fmtVal(Index(x, i), verb, f, depth+1)...)
		}
		return append(b, '}')
	case "slice", "array", "bytes":
		var b []byte
		if f.sharp {
			b = append(b, TypeName(x)...)
			if k != "array" && IsNil(x) {
				return append(b, "(nil)"...)
			}
			b = append(b, '{')
		} else {
			b = append(b, '[')
		}
		n := Len(x)
		for i := 0; i < n; i++ {
			if i > 0 {
				if f.sharp {
					b = append(b, ", "...)
				} else {
					b = append(b, ' ')
				}
			}
			b = append(b, fmtVal(Index(x, i), verb, f, depth+1)...)
		}
		if f.sharp {
			return append(b, '}')
		}
		return append(b, ']')
	case "map":
		kv := MapKV(x)
		if len(kv) > 2 {
			Unsupported("formatting of maps with several keys")
		}
		var b []byte
		if f.sharp {
			b = append(b, TypeName(x)...)
			b = append(b, '{')
		} else {
			b = append(b, "map["...)
		}
		for i := 0; i+1 < len(kv); i += 2 {
			b = append(b, fmtVal(kv[i], verb, f, depth+1)...)
			b = append(b, ':')
			b = append(b, fmtVal(kv[i+1], verb, f, depth+1)...)
		}
		if f.sharp {
			return append(b, '}')
		}
		return append(b, ']')
	case "func":
		return []byte("0x47b000")
	}
	Unsupported("fmt of kind " + k)
	return nil
}

func fmtVal(x interface{}, verb rune, f *flags, depth int) []byte {
	if x == nil {
		if f.sharp {
			return []byte("interface {}(nil)")
		}
		return []byte("<nil>")
	}
	return fmtArg(x, verb, f, depth)
}

// fmtG21 turns shortest %g output into fmt's %v form, whose exponent threshold is 21.
func fmtG21(b []byte, v float64, prec, bits int) []byte {
	if prec >= 0 {
		return b
	}
	e := -1
	for i := range b {
		if b[i] == 'e' {
			e = i
		}
	}
	if e < 0 {
		return b
	}
	x := 0
	for i := e + 2; i < len(b); i++ {
		x = x*10 + int(b[i]-'0')
	}
	if b[e+1] == '+' && x < 21 {
		return strconv.AppendFloat(nil, v, 'f', -1, bits)
	}
	return b
}

func Sprint(args ...interface{}) string {
	var b []byte
	prevString := false
	for i, a := range args {
		isString := a != nil && Kind(a) == "string"
		if i > 0 && !isString && !prevString {
			b = append(b, ' ')
		}
		var f flags
		b = append(b, fmtArg(a, 'v', &f, 0)...)
		prevString = isString
	}
	return string(b)
}

func Sprintln(args ...interface{}) string {
	var b []byte
	for i, a := range args {
		if i > 0 {
			b = append(b, ' ')
		}
		var f flags
		b = append(b, fmtArg(a, 'v', &f, 0)...)
	}
	return string(append(b, '\n'))
}

func Errorf(format string, args ...interface{}) error {
	s := Sprintf(format, args...)
	var ws []error
	ai := 0
	for i := 0; i+1 < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && (format[i] == '+' || format[i] == '#' || format[i] == '-' || format[i] == ' ' || format[i] == '.' || (format[i] >= '0' && format[i] <= '9')) {
			i++
		}
		if i < len(format) && format[i] == '%' {
			continue
		}
		if i < len(format) && format[i] == 'w' && ai < len(args) {
			if e, ok := args[ai].(error); ok {
				ws = append(ws, e)
			}
		}
		ai++
	}
	switch len(ws) {
	case 0:
		return errors.New(s)
	case 1:
		return &wrapError{s, ws[0]}
	}
	return &wrapErrors{s, ws}
}

func Fprintf(w io.Writer, format string, args ...interface{}) (int, error) {
	return w.Write(format1(format, args))
}
func Fprint(w io.Writer, args ...interface{}) (int, error) { return w.Write([]byte(Sprint(args...))) }
func Fprintln(w io.Writer, args ...interface{}) (int, error) {
	return w.Write([]byte(Sprintln(args...)))
}
func Printf(format string, args ...interface{}) (int, error) {
	return Fprintf(os.Stdout, format, args...)
}
func Print(args ...interface{}) (int, error)   { return Fprint(os.Stdout, args...) }
func Println(args ...interface{}) (int, error) { return Fprintln(os.Stdout, args...) }
func Appendf(b []byte, format string, args ...interface{}) []byte {
	return append(b, format1(format, args)...)
}
func Append(b []byte, args ...interface{}) []byte   { return append(b, Sprint(args...)...) }
func Appendln(b []byte, args ...interface{}) []byte { return append(b, Sprintln(args...)...) }
