package asn1go

const c08Forms = 12

// c08Value is a value notation of form f with arbitrary names.
func c08Value(f int) pair {
	var p pair
	switch f {
	case 0:
		return p.tw(" 17", "17")
	case 1:
		return p.tw(" -4", "-4")
	case 2:
		return both("TRUE")
	case 3:
		return both("FALSE")
	case 4:
		return p.tw(" 2.5", "real:2.5")
	case 5:
		return p.tw(" -0.25", "real:-0.25")
	case 6:
		return p.tw("", "id:").add(gId())
	case 7:
		return p.tw(" {", "{").tw("3 ", "(3)").add(gId()).tw("(4)}", "(4)}")
	case 8:
		return p.tw(" {", "{(0 ref:.").add(gId()).tw(" 5}", ")(5)}")
	case 9:
		return p.tw(" {", "{").add(gId()).tw("(", "(0 ref:.").add(gId()).tw(") 6}", ")(6)}")
	case 10:
		return p.tw(" {", "{(0 ref:").add(gRef()).tw(".", ".").add(gId()).tw(" ", ")").add(gId()).tw("(", "(0 ref:").add(gRef()).tw(".", ".").add(gId()).tw(")}", ")}")
	default:
		return p.tw(" MINUS-INFINITY", "real:-Inf")
	}
}

const c08Places = 11

// c08Place is an assignment that holds value x in a place.
func c08Place(k int, x pair) pair {
	var p pair
	switch k {
	case 0:
		return p.add(gId()).tw(" INTEGER ::=", " INT{}::=").add(x).tw("", "\n")
	case 1:
		return p.add(gRef()).tw(" ::= SEQUENCE {", "::=SEQ{").add(gId()).tw(" NULL DEFAULT", "=NULL DEFAULT ").add(x).tw("}", ";|}\n")
	case 2:
		return p.add(gRef()).tw(" ::= SET {", "::=SET{").add(gId()).tw(" NULL DEFAULT", "=NULL DEFAULT ").add(x).tw(",", ";").add(gId()).tw(" NULL DEFAULT 9}", "=NULL DEFAULT 9;|}\n")
	case 3:
		return p.add(gRef()).tw(" ::= INTEGER (", "::=INT{}(U<I<val:").add(x).tw(")", ";>>)\n")
	case 4:
		return p.add(gRef()).tw(" ::= INTEGER (", "::=INT{}(U<I<range:").add(x).tw("..MAX)", "..*;>>)\n")
	case 5:
		return p.add(gRef()).tw(" ::= INTEGER (MIN..<", "::=INT{}(U<I<range:*..").add(x).tw(")", "<;>>)\n")
	case 6:
		return p.add(gRef()).tw(" ::= INTEGER (8 |", "::=INT{}(U<I<val:8;>I<val:").add(x).tw(" EXCEPT 3)", " EXCEPT val:3;>>)\n")
	case 7:
		return p.add(gRef()).tw(" ::= NULL (SIZE(", "::=NULL(U<I<SIZE(U<I<val:").add(x).tw("))", ";>>);>>)\n")
	case 8:
		return p.add(gRef()).tw(" ::= SEQUENCE {", "::=SEQ{").add(gId()).tw(" NULL, ..., [[", "=NULL;|").add(gId()).tw(" NULL DEFAULT", "=NULL DEFAULT ").add(x).tw("]]}", ";}\n")
	case 9:
		return p.add(gRef()).tw(" ::= INTEGER (ALL EXCEPT", "::=INT{}(ALL EXCEPT val:").add(x).tw(")", ")\n")
	default:
		return p.add(gRef()).tw(" ::= SEQUENCE (", "::=SEQOF(NULL)(U<I<val:").add(x).tw(") OF NULL", ";>>)\n")
	}
}

// verif:bound two values of 12 forms, each in one of 11 places, one after the other and followed by the first place again with another value of the first form; names arbitrary
// verif:reach parsed
// verif:parts 12
func VerifC08Pairs(part int) {
	f := vChoose("second", c08Forms)
	k := vChoose("place", c08Places)
	l := vChoose("place", c08Places)
	var p pair
	p = p.tw(gHead, gHeadWant)
	p = p.add(c08Place(k, c08Value(part)))
	p = p.add(c08Place(l, c08Value(f)))
	p = p.add(c08Place(k, c08Value(part)))
	p = p.tw(" END", "")
	gParse(p.t, p.w, "values followed by others")
	vReach("parsed")
}

// verif:bound 8 constructs repeated 1..8 (thorough: 1..24) times in a row, every occurrence with its own arbitrary names
// verif:reach parsed
// verif:parts 9
func VerifC08Repeat(part int) {
	n := 1 + vChoose("n", 8+16*vTier())
	list := func(sep string, item func(i int) pair) pair {
		p := item(0)
		for i := 1; i < n; i++ {
			p = p.tw(sep, "").add(item(i))
		}
		return p
	}
	var p pair
	p = p.tw(gHead, gHeadWant)
	ref := func(i int) pair {
		var p pair
		if i&1 == 0 {
			return p.tw("", "ref:.").add(gId())
		}
		return p.tw("", "ref:").add(gRef()).tw(".", ".").add(gId())
	}
	switch part {
	case 0:
		p = p.tw("v OBJECT IDENTIFIER ::= {", "v OID::={").add(list(" ", func(i int) pair {
			var p pair
			return p.add(gId()).tw("(", "(0 ").add(ref(i)).tw(")", ")")
		})).tw("}", "}\n")
	case 1:
		p = p.tw("A ::= SEQUENCE {", "A::=SEQ{").add(list(",", func(i int) pair {
			var p pair
			return p.add(gId()).tw("", "=ref:").add(gRef()).tw(" DEFAULT", " DEFAULT ").add(c08Value(i%c08Forms)).tw("", ";")
		})).tw("}", "|}\n")
	case 2:
		p = p.tw("A ::= INTEGER {", "A::=INT{").add(list(",", func(i int) pair {
			var p pair
			return p.add(gId()).tw("(", "(").add(ref(i)).tw(")", ");")
		})).tw("}", "}\n")
	case 3:
		p = p.tw("A ::= BIT STRING {", "A::=BITS{").add(list(",", func(i int) pair {
			var p pair
			return p.add(gId()).tw("(", "(").add(ref(i)).tw(")", ");")
		})).tw("}", "}\n")
	case 4:
		p = p.tw("A ::= NULL (", "A::=NULL(U<").add(list("|", func(i int) pair {
			var p pair
			return p.tw("", "I<val:").add(c08Value((i+6)%c08Forms)).tw("", ";>")
		})).tw(")", ">)\n")
	case 5:
		p = p.tw("A ::= NULL (", "A::=NULL(U<I<").add(list("^", func(i int) pair {
			var p pair
			return p.tw("", "range:").add(c08Value((i+6)%c08Forms)).tw("..", "..").add(c08Value(i%c08Forms)).tw("", ";")
		})).tw(")", ">>)\n")
	case 6:
		p = p.tw("A ::= ", "A::=").add(list(" ", func(i int) pair {
			var p pair
			return p.tw("[", "[0 ").add(ref(i)).tw("] ", " default]")
		})).tw(" NULL", "NULL\n")
	case 7:
		p = p.add(list(" ", func(i int) pair {
			return c08Place(0, c08Value((i+6)%c08Forms))
		}))
	case 8:
		p = pair{"M DEFINITIONS ::= BEGIN IMPORTS", gHeadWant}.add(list(" ", func(i int) pair {
			var p pair
			p = p.tw("", "IMPORT T:").add(gRef()).tw(" FROM", " FROM ").add(gRef())
			if i&1 == 0 {
				return p.tw(" {", " {").add(gId()).tw("(", "(0 ").add(ref(i)).tw(")}", ")}\n")
			}
			return p.tw("", " nil\n")
		})).tw(";", "")
	}
	p = p.tw(" A ::= INTEGER {xx(yy)} w REAL ::= {aa bb(cc)} END", "A::=INT{xx(ref:.yy);}\nw REAL::={(0 ref:.aa)bb(0 ref:.cc)}\n")
	gParse(p.t, p.w, "a repeated construct")
	vReach("parsed")
}
