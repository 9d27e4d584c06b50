package asn1go

import (
	"math"
	"strconv"
)

func c06Pow(e int) float64 {
	p := 1.0
	for i := 0; i < e; i++ {
		p *= 10 // exact up to 1e22
	}
	return p
}

// c06Want is the number digits * 10^exp.
func c06Want(digits []byte, exp int) float64 {
	n, seen := 0, false
	for _, d := range digits {
		if !seen && d == '0' {
			continue
		}
		seen = true
		n = n*10 + int(d-'0')
	}
	f := float64(n)
	switch {
	case exp == 0:
	case exp > 22 || exp < -22:
		f *= math.Pow10(exp)
	case exp > 0:
		f *= c06Pow(exp)
	default:
		f /= c06Pow(-exp)
	}
	return f
}

func c06Digits(n int) []byte {
	d := make([]byte, n)
	for i := range d {
		d[i] = vByteIn("d", "0-9")
	}
	return d
}

// c06Check compares got with sign * digits * 10^exp to floating-point accuracy.
func c06Check(v Value, neg bool, digits []byte, exp int) {
	r, ok := v.(Real)
	vAssert(ok, "the value is not a REAL value")
	got := float64(r)
	if vSame(got, c06Neg(c06Want(digits, exp), neg)) {
		vReach("same")
		return
	}
	// not the same expression: decide digit by digit
	for i := range digits {
		digits[i] = byte(vConcrete(int(digits[i])))
	}
	want := c06Neg(c06Want(digits, exp), neg)
	vReach("close")
	vAssert(math.Abs(got-want) <= 1e-12*math.Abs(want), "the value differs from the number that is written")
}

// c06Split decides digit by digit where strconv leaves the exactly
// representable powers of ten (its 128-bit products are out of reach).
func c06Split(d []byte, exp int) {
	if exp > 22 || exp < -22 {
		for i := range d {
			if i > 0 && vTier() == 0 {
				vAssume(d[i] == '0' || d[i] == '7')
			}
			d[i] = byte(vConcrete(int(d[i])))
		}
	}
}

func c06Neg(f float64, neg bool) float64 {
	if neg {
		return -f
	}
	return f
}

func c06Parse(lit string) Value {
	m, err := ParseString("M DEFINITIONS ::= BEGIN v REAL ::= " + lit + " END")
	vAssert(err == nil && m != nil, "a REAL value is rejected")
	return m.ModuleBody.AssignmentList[0].(ValueAssignment).Value
}

func c06Zeros(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = '0'
	}
	return string(b)
}

func c06Sign(neg bool) string {
	if neg {
		return "-"
	}
	return ""
}

// verif:bound values N.F with 1..3 (thorough: 4) arbitrary integer digits, 0..6 leading zeros, 1..3 (thorough: 4) arbitrary digits and 0..4 trailing zeros in the fraction, 15 digits altogether, with and without a minus sign
// verif:reach same
// verif:parts 3
func VerifC06Fraction(part int) {
	neg := vChoose("neg", 2) == 1
	in := c06Digits(part + 1 + vTier())
	z := vChoose("lead", 7)
	fr := c06Digits(1 + vChoose("frac", 3+vTier()))
	t := vChoose("trail", 5)
	frac := c06Zeros(z) + string(fr) + c06Zeros(t)
	if len(in)+len(frac) > 15 {
		vStop()
	}
	v := c06Parse(c06Sign(neg) + string(in) + "." + frac)
	c06Check(v, neg, append(in, frac...), -len(frac))
}

// verif:bound values N.FeX with 1..2 arbitrary integer and 1..3 arbitrary fraction digits and every exponent from -30 to 30, written with up to two leading zeros; beyond 10^22 the digits after the first are 0 or 7 (thorough: any)
// verif:reach same close
// verif:parts 4
func VerifC06Exponent(part int) {
	neg := vChoose("neg", 2) == 1
	e := vChoose("exp", 61) - 30
	es := strconv.Itoa(e)
	z := 0
	if vTier() == 1 {
		z = vChoose("ezero", 3)
	} else if part == 1 || e%6 == 0 {
		z = vChoose("ezero", 2) * 2
	}
	if e < 0 {
		es = "-" + c06Zeros(z) + strconv.Itoa(-e)
	} else {
		es = c06Zeros(z) + es
	}
	mark := []string{"e", "E"}[part&1]
	if part < 2 {
		k := 3 + vTier()
		if e > 20 || e < -18 {
			k = 2
		}
		d := c06Digits(k)
		c06Split(d, e-(k-1))
		v := c06Parse(c06Sign(neg) + string(d[:1]) + "." + string(d[1:]) + mark + es)
		c06Check(v, neg, d, e-(k-1))
		return
	}
	d := c06Digits(2)
	if part == 3 {
		d[0], d[1] = byte(vConcrete(int(d[0]))), byte(vConcrete(int(d[1])))
	} else if vTier() == 0 {
		vAssume(e%4 == 0)
	}
	c06Split(d, e)
	v := c06Parse(c06Sign(neg) + string(d) + mark + es)
	c06Check(v, neg, d, e)
}

// verif:bound values 0.F, N.F and N.FeX with 16..18 fraction digits of which two neighbouring ones are arbitrary, exponents -290..290 in steps of 29
// verif:reach close
// verif:parts 3
func VerifC06Long(part int) {
	neg := vChoose("neg", 2) == 1
	frac := []byte("314159265358979323")[:16+vChoose("len", 3)]
	at := vChoose("at", len(frac)-1)
	frac[at] = byte(vConcrete(int(vByteIn("d", "0-9"))))
	frac[at+1] = byte(vConcrete(int(vByteIn("d", "0-9"))))
	if vTier() == 0 {
		vAssume(at%3 == 0)
	}
	in, e, es := "0", 0, ""
	if part >= 1 {
		in = "7"
		frac = frac[:len(frac)-1]
	}
	if part == 2 {
		vAssume(at%5 == 0)
		e = 29 * (vChoose("exp", 21) - 10)
		es = "e" + strconv.Itoa(e)
	}
	v := c06Parse(c06Sign(neg) + in + "." + string(frac) + es)
	c06Check(v, neg, append([]byte(in), frac...), e-len(frac))
}

// verif:bound PLUS-INFINITY, MINUS-INFINITY; a fraction of two arbitrary digits as range end (open or not), single value, union element, component default, after another value
// verif:reach same inf
// verif:parts 8
func VerifC06Place(part int) {
	if part == 0 {
		vReach("inf")
		vReach("same")
		vAssert(c06Parse("PLUS-INFINITY") == Value(Real(math.Inf(1))), "PLUS-INFINITY is not +infinity")
		vAssert(c06Parse("MINUS-INFINITY") == Value(Real(math.Inf(-1))), "MINUS-INFINITY is not -infinity")
		return
	}
	vReach("inf")
	neg := vChoose("neg", 2) == 1
	d := c06Digits(3)
	lit := c06Sign(neg) + string(d[:1]) + "." + string(d[1:])
	p := [][2]string{{}, {"A ::= REAL (", "<..<5.5)"}, {"A ::= REAL (-5.5 ..", ")"}, {"A ::= REAL (", ")"}, {"A ::= REAL (1.5 | 2.5 ^", ")"}, {"A ::= SET {a REAL DEFAULT ", " , b REAL DEFAULT 7.25}"}, {"v REAL ::= 5.75 w REAL ::= ", ""}, {"A ::= SEQUENCE {a NULL, ..., b REAL (", "..1.25e2) OPTIONAL}"}}[part]
	m, err := ParseString("M DEFINITIONS ::= BEGIN " + p[0] + lit + p[1] + " END")
	vAssert(err == nil, "a REAL value is rejected")
	var v Value
	switch part {
	case 1:
		v = c05Elem(c05Constraint(m), 0, 0, 0).(ValueRange).LowerEndpoint.Value
	case 2:
		v = c05Elem(c05Constraint(m), 0, 0, 0).(ValueRange).UpperEndpoint.Value
	case 3:
		v = c05Elem(c05Constraint(m), 0, 0, 0).(SingleValue).Value
	case 4:
		v = c05Elem(c05Constraint(m), 0, 1, 1).(SingleValue).Value
	case 5:
		v = *c05Type(m).(SetType).Components[0].(NamedComponentType).Default
	case 6:
		v = m.ModuleBody.AssignmentList[1].(ValueAssignment).Value
	case 7:
		c := c05Type(m).(SequenceType).ExtensionAdditions[0].(NamedComponentType).NamedType.Type.(ConstraintedType)
		v = c05Elem(c.Constraint.ConstraintSpec.(SubtypeConstraint), 0, 0, 0).(ValueRange).LowerEndpoint.Value
	}
	c06Check(v, neg, d, -2)
}

// verif:bound values NeX, N.FeX and N.FFFeX with every exponent from -299 to 300, an arbitrary first digit and otherwise the digits 0 or 7 (thorough: two arbitrary digits)
// verif:reach close
// verif:parts 6
func VerifC06Scale(part int) {
	neg := vChoose("neg", 2) == 1
	e := vChoose("tens", 60)*10 + vChoose("ones", 10) - 299
	es := strconv.Itoa(e)
	n := []int{1, 2, 4}[part%3]
	d := c06Digits(n)
	for i := range d {
		if i > vTier() {
			vAssume(d[i] == '0' || d[i] == '7')
		}
		if vTier() == 0 && i == 0 {
			vAssume(d[0] == '1' || d[0] == '3' || d[0] == '9' || e%20 == 0)
		}
		d[i] = byte(vConcrete(int(d[i])))
	}
	mark := "E"
	if part >= 3 {
		mark = "e"
		vAssume(vTier() == 1 || e%3 == 0)
	}
	lit := string(d[:1])
	if n > 1 {
		lit += "." + string(d[1:])
	}
	v := c06Parse(c06Sign(neg) + lit + mark + es)
	vReach("close")
	c06Check(v, neg, d, e-(n-1))
}

// verif:bound values NeX and N.FeX (also without fraction or exponent where an integer part and one of them remains) with an integer part of 1..17 digits of which two neighbouring ones are arbitrary, 0..1 fraction digits, exponents -20..20 in steps of 4 (thorough: every one), either sign
// verif:reach close
// verif:parts 17
func VerifC06Integer(part int) {
	neg := vChoose("neg", 2) == 1
	in := []byte("98765432123456789")[:part+1]
	at := vChoose("at", part+1)
	if vTier() == 0 {
		vAssume(at == 0 || at >= part-1 || at == 7)
	}
	in[at] = byte(vConcrete(int(vByteIn("d", "0-9"))))
	if at < part {
		in[at+1] = byte(vConcrete(int(vByteIn("d", "05-7"))))
	}
	e := 0
	if vTier() == 0 {
		e = 4 * (vChoose("exp", 11) - 5)
	} else {
		e = vChoose("exp", 41) - 20
	}
	d := append([]byte{}, in...)
	lit := string(in)
	frac := vChoose("frac", 3)
	if frac > 0 {
		f := byte('0' + 4*(frac-1))
		lit += "." + string([]byte{f})
		d = append(d, f)
	}
	if frac == 0 || e != 0 {
		lit += "e" + strconv.Itoa(e)
	}
	v := c06Parse(c06Sign(neg) + lit)
	vReach("close")
	c := 0
	if frac > 0 {
		c = 1
	}
	c06Check(v, neg, d, e-c)
}
