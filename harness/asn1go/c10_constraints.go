package asn1go

var c10Ops = []string{" | ", " UNION ", " ^ ", " INTERSECTION ", " EXCEPT "}

// c10Combine joins elements with operators (indexes into c10Ops) as X.680
// prescribes: EXCEPT binds tightest, then intersection, then union.
func c10Combine(els []pair, ops []int) pair {
	t := els[0].t
	w := "U<I<" + els[0].w
	for i, o := range ops {
		t += c10Ops[o] + els[i+1].t
		switch {
		case o < 2:
			w += ";>I<"
		case o < 4:
			w += ";"
		default:
			w += " EXCEPT "
		}
		w += els[i+1].w
	}
	return pair{t, w + ";>>"}
}

// c10Ok: an exclusion has no exclusion of its own without parentheses.
func c10Ok(ops []int) bool {
	for i := 1; i < len(ops); i++ {
		if ops[i-1] == 4 && ops[i] == 4 {
			return false
		}
	}
	return true
}

func c10Id() pair {
	var p pair
	return p.tw("", "val:id:").add(gId())
}

func c10Ids(n int) []pair {
	l := make([]pair, n)
	for i := range l {
		l[i] = c10Id()
	}
	return l
}

func c10Draw(n int) []int {
	ops := make([]int, n)
	for i := range ops {
		ops[i] = vChoose("op", 5)
	}
	vAssume(c10Ok(ops))
	return ops
}

func c10Check(c pair, what string) {
	gParse(gHead+"A ::= INTEGER ("+c.t+") END", gHeadWant+"A::=INT{}("+c.w+")\n", what)
	vReach("parsed")
}

// verif:bound 1..4 (thorough: 5) elements of arbitrary names joined by any of | UNION ^ INTERSECTION EXCEPT
// verif:reach parsed
// verif:parts 5
func VerifC10Flat(part int) {
	n := part
	if part == 4 && vTier() == 0 {
		n = 0
	}
	if n == 0 {
		c10Check(c10Combine(c10Ids(1), nil), "a single element")
		return
	}
	c10Check(c10Combine(c10Ids(n+1), c10Draw(n)), "elements and operators")
}

// verif:bound 1..3 elements of which any one is a parenthesised set of 1..3 elements, or an ALL EXCEPT, any operators in and around it; (thorough: that set again contains a parenthesised one)
// verif:reach parsed
// verif:parts 3
func VerifC10Parens(part int) {
	inner := func(x pair) pair {
		n := vChoose("inner", 4)
		at := 0
		if n < 2 && n > 0 {
			at = vChoose("at", n+1)
		} else if n == 2 {
			at = vChoose("at", 3)
		}
		if n == 3 {
			return pair{"(ALL EXCEPT " + x.t + ")", "ALL EXCEPT " + x.w}
		}
		els := c10Ids(n + 1)
		els[at] = x
		c := c10Combine(els, c10Draw(n))
		return pair{" (" + c.t + ")", c.w}
	}
	x := c10Id()
	if vTier() == 1 {
		x = inner(x)
	}
	x = inner(x)
	els := c10Ids(part + 1)
	at := 0
	if part > 0 {
		at = vChoose("at", part+1)
	}
	els[at] = x
	c10Check(c10Combine(els, c10Draw(part)), "parentheses")
}

const c10Elements = 22

// c10Element is an element of form k.
func c10Element(k int) pair {
	var p pair
	lower := func(v pair, open bool) pair {
		if open {
			return p.tw("", "range:").add(v).tw("<..", "<..")
		}
		return p.tw("", "range:").add(v).tw("..", "..")
	}
	switch k {
	case 0:
		return lower(pair{"MIN", "*"}, false).tw("MAX", "*")
	case 1:
		return lower(pair{"MIN", "*"}, true).tw("<MAX", "*<")
	case 2:
		return lower(pair{"3", "3"}, false).tw("5", "5")
	case 3:
		return lower(pair{"-3", "-3"}, true).tw("-1", "-1")
	case 4:
		return lower(pair{" ", "id:"}.add(gId()), false).tw("<", "id:").add(gId()).tw("", "<")
	case 5:
		return lower(pair{"1.5", "real:1.5"}, true).tw("<2.5", "real:2.5<")
	case 6:
		return lower(pair{"MIN", "*"}, false).tw("<9", "9<")
	case 7:
		return lower(pair{"4", "4"}, true).tw("MAX", "*")
	case 8:
		return p.tw(" SIZE (1..4)", "SIZE(U<I<range:1..4;>>)")
	case 9:
		return p.tw(" SIZE (", "SIZE(U<I<val:id:").add(gId()).tw(" | 5 ^ 6, ..., 7)", ";>I<val:5;val:6;>>,...,U<I<val:7;>>)")
	case 10:
		return p.tw("", "type:ref:").add(gRef())
	case 11:
		return p.tw(" [5] REAL", "type:[0 5 default]REAL")
	case 12:
		return p.tw(" SET OF NULL", "type:SETOF(NULL)")
	case 13:
		return p.tw(" BOOLEAN (TRUE)", "type:BOOLEAN(U<I<val:TRUE;>>)")
	case 14:
		return p.tw(" WITH COMPONENT (", "inner").tw(gId().t+")", "")
	case 15:
		return p.tw(" WITH COMPONENTS {"+gId().t+" (1..5) PRESENT,"+gId().t+" ABSENT, c OPTIONAL}", "inner")
	case 16:
		return p.tw(" WITH COMPONENTS {..., "+gId().t+"}", "inner")
	case 17:
		return p.tw(" TRUE", "val:TRUE")
	case 18:
		return p.tw(" {", "val:{").add(gId()).tw("(4) 2}", "(4)(2)}")
	case 19:
		return p.tw(" PLUS-INFINITY", "val:real:+Inf")
	case 20:
		return p.tw(" -8", "val:-8")
	default:
		return p.tw(" SEQUENCE {", "type:SEQ{").add(gId()).tw(" NULL}", "=NULL;|}")
	}
}

// verif:bound each of 22 element forms alone and next to any other, joined by | ^ or EXCEPT, with none, an empty or a non-empty extension of any of these forms, an exception, or after ALL EXCEPT
// verif:reach parsed
// verif:parts 22
func VerifC10Elements(part int) {
	x := c10Element(part)
	var c pair
	switch vChoose("shape", 7) {
	case 0:
		c = c10Combine([]pair{x}, nil)
	case 1:
		c = c10Combine([]pair{x, c10Element(vChoose("other", c10Elements))}, []int{vChoose("op", 3) * 2})
	case 2:
		c = c10Combine([]pair{x}, nil).tw(", ...", "")
	case 3:
		c = c10Combine([]pair{x}, nil).tw(", ...,", ",...,").add(c10Combine([]pair{c10Element(vChoose("other", c10Elements))}, nil))
	case 4:
		c = pair{" ALL EXCEPT ", "ALL EXCEPT "}.add(x)
	case 5:
		c = pair{" ALL EXCEPT ", "ALL EXCEPT "}.add(x).tw(",...,", ",...,").add(c10Combine([]pair{c10Id(), c10Element(vChoose("other", c10Elements))}, []int{vChoose("op", 2)*2 + 1}))
	case 6:
		c = c10Combine([]pair{x, c10Element(vChoose("other", c10Elements))}, []int{0}).tw([]string{" !5", "!-3", "!vv", " !M.vv", " ! INTEGER:4"}[vChoose("exception", 5)], "")
	}
	c10Check(c, "an element")
}

// verif:bound constraints in 16 positions - on assigned, component, alternative, element, referenced, tagged and value types, before OF, repeated - each with one of 3 operators, arbitrary names, or ranges with open ends
// verif:reach parsed
// verif:parts 16
func VerifC10Place(part int) {
	con := func() pair {
		var c pair
		switch vChoose("con", 4) {
		case 0:
			c = c10Combine(c10Ids(2), []int{vChoose("op", 5)})
		case 1:
			c = c10Combine([]pair{c10Element(4)}, nil)
		case 2:
			c = c10Combine([]pair{c10Element(9)}, nil).tw(",...", "")
		default:
			c = pair{" ALL EXCEPT ", "ALL EXCEPT "}.add(c10Element(3))
		}
		return pair{"(" + c.t + ")", "(" + c.w + ")"}
	}
	a, b := con(), con()
	var p pair
	switch part {
	case 0:
		p = p.tw("A ::= INTEGER", "A::=INT{}").add(a).add(b)
	case 1:
		p = p.tw("A ::= SEQUENCE { a INTEGER", "A::=SEQ{a=INT{}").add(a).tw(" OPTIONAL, b REAL", " OPTIONAL;b=REAL").add(b).tw(" DEFAULT 5}", " DEFAULT 5;|}")
	case 2:
		p = p.tw("A ::= CHOICE { a T", "A::=CHOICE{a=ref:T").add(a).tw(", ..., b NULL", ";|b=NULL").add(b).tw("}", ";}")
	case 3:
		p = p.tw("A ::= SEQUENCE OF INTEGER", "A::=SEQOF(INT{}").add(a).add(b).tw("", ")")
	case 4:
		p = p.tw("A ::= SEQUENCE "+a.t+" OF INTEGER", "A::=SEQOF(INT{}").add(b).tw("", ")"+a.w)
	case 5:
		p = p.tw("A ::= SET "+a.t+" OF BOOLEAN", "A::=SETOF(BOOLEAN").add(b).tw("", ")"+a.w)
	case 6:
		p = p.tw("A ::= SET SIZE "+a.t+" OF NULL", "A::=SETOF(NULL").add(b).tw("", ")(U<I<SIZE"+a.w+";>>)")
	case 7:
		p = p.tw("A ::= SEQUENCE SIZE "+a.t+" OF x NULL", "A::=SEQOF(x=NULL").add(b).tw("", ")(U<I<SIZE"+a.w+";>>)")
	case 8:
		p = p.tw("A ::= [5] IMPLICIT OCTET STRING", "A::=[0 5 IMPLICIT]OCTETS").add(a).add(b)
	case 9:
		p = p.tw("A ::= SEQUENCE "+a.t+" OF SET "+b.t+" OF T", "A::=SEQOF(SETOF(ref:T)"+b.w+")"+a.w)
	case 10:
		p = p.tw("v INTEGER", "v INT{}").add(a).add(b).tw(" ::= 6", "::=6")
	case 11:
		p = p.tw("A ::= SET { a SEQUENCE OF INTEGER", "A::=SET{a=SEQOF(INT{}").add(a).tw(" OPTIONAL}", ") OPTIONAL;|}").add(b)
	case 12:
		p = p.tw("A ::= SEQUENCE { COMPONENTS OF T", "A::=SEQ{COMPONENTS OF ref:T").add(a).tw(", ..., a ENUMERATED {b}", ";|a=ENUM{b;|}").add(b).tw("}", ";}")
	case 13:
		p = p.tw("A ::= NULL (SIZE"+a.t+" ^ SIZE"+b.t+")", "A::=NULL(U<I<SIZE"+a.w+";SIZE"+b.w+";>>)")
	case 14:
		p = p.tw("A ::= INTEGER (INTEGER"+a.t+" | REAL"+b.t+")", "A::=INT{}(U<I<type:INT{}"+a.w+";>I<type:REAL"+b.w+";>>)")
	case 15:
		p = p.tw("A ::= BIT STRING {a(5)}", "A::=BITS{a(5);}").add(a).tw(" B ::= UTF8String ", "").add(b)
	}
	if part == 15 {
		p.w = "A::=BITS{a(5);}" + a.w + "\nB::=" + showType(RestrictedStringType{UTF8String}) + b.w
	}
	gParse(gHead+p.t+" C ::= NULL END", gHeadWant+p.w+"\nC::=NULL\n", "a constraint and the type it is written on")
	vReach("parsed")
}
