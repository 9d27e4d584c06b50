package asn1go

// c09Ident is a definitive identifier of n components (-1: none).
func c09Ident(n int) pair {
	var p pair
	if n < 0 {
		return p.tw("", "{}")
	}
	p = p.tw("{", "{")
	for i := 0; i < n; i++ {
		switch vChoose("form", 3) {
		case 0:
			p = p.tw(" ", "").add(gId()).tw("", "(0)")
		case 1:
			p = p.tw(" 47", "(47)")
		case 2:
			p = p.add(gId()).tw("(", "(").tw([]string{"0", "8", "1234567"}[i%3], []string{"0", "8", "1234567"}[i%3]).tw(")", ")")
		}
	}
	return p.tw("}", "}")
}

// c09Symbols is a list of n symbols of arbitrary names; first of the given kind.
func c09Symbols(n int) pair {
	var p pair
	for i := 0; i < n; i++ {
		if i > 0 {
			p = p.tw(",", "")
		}
		if vChoose("symbol", 2) == 0 {
			p = p.tw("", " T:").add(gRef())
		} else {
			p = p.tw("", " V:").add(gId())
		}
	}
	return p
}

// c09From is one FROM clause.
func c09From(n, assigned int) pair {
	var p pair
	p = p.tw("", "IMPORT").add(c09Symbols(n)).tw(" FROM", " FROM ").add(gRef())
	switch assigned {
	case 0:
		p = p.tw("", " nil")
	case 1:
		p = p.tw(" {1", " {(1)").add(gId()).tw("(2) 3}", "(2)(3)}")
	case 2:
		p = p.tw("", " ref:.").add(gId())
	case 3:
		p = p.tw("", " ref:").add(gRef()).tw(".", ".").add(gId())
	case 4:
		p = p.tw(" {", " {(0 ref:.").add(gId()).tw(" 9}", ")(9)}")
	}
	return p.tw("", "\n")
}

// verif:bound module names of three arbitrary characters, definitive identifiers of 1..3 components or none (name, number, both), every tagging default or none, EXTENSIBILITY IMPLIED or not, with or without a body
// verif:reach parsed
// verif:parts 8
func VerifC09Header(part int) {
	var p pair
	n := vChoose("components", 4)
	if n == 0 {
		n = -1
	}
	p = p.add(gRef()).add(c09Ident(n)).tw(" DEFINITIONS", " ")
	switch part % 4 {
	case 0:
		p = p.tw("", "EXPLICIT")
	case 1:
		p = p.tw(" EXPLICIT TAGS", "EXPLICIT")
	case 2:
		p = p.tw(" IMPLICIT TAGS", "IMPLICIT")
	case 3:
		p = p.tw(" AUTOMATIC TAGS", "AUTOMATIC")
	}
	if part >= 4 {
		p = p.tw(" EXTENSIBILITY IMPLIED", " EXTENSIBLE")
	}
	p = p.tw(" ::= BEGIN", "\n")
	switch vChoose("body", 3) {
	case 1:
		p = p.tw(" A ::= [3] NULL", "A::=[0 3 default]NULL\n")
	case 2:
		p = p.tw(" EXPORTS A; IMPORTS B FROM C; v INTEGER ::= 5 A ::= SEQUENCE{b NULL}", "IMPORT T:B FROM C nil\nv INT{}::=5\nA::=SEQ{b=NULL;|}\n")
	}
	p = p.tw(" END", "")
	gParse(p.t, p.w, "a module header")
	vReach("parsed")
}

// verif:bound imports of 1..3 FROM clauses of 1..2 (the first: 1..3) symbols of either kind with arbitrary names and 5 forms of assigned identifier, after 6 forms of EXPORTS (several clauses: 2 forms, 1..2 symbols; thorough: all), followed by a type or value assignment
// verif:reach parsed
// verif:parts 10
func VerifC09Imports(part int) {
	var p pair
	p = p.tw("M DEFINITIONS ::= BEGIN", gHeadWant)
	n := 1 + vChoose("clauses", 2)
	if part >= 5 {
		n = 3
	}
	small := n > 1 && vTier() == 0
	exports := 0
	if small {
		exports = 4 * vChoose("exports", 2)
	} else {
		exports = vChoose("exports", 6)
	}
	switch exports {
	case 1:
		p = p.tw(" EXPORTS ALL;", "")
	case 2:
		p = p.tw(" EXPORTS ;", "")
	case 3:
		p = p.tw(" EXPORTS Aa;", "")
	case 4:
		p = p.tw(" EXPORTS aa, Bb, cc;", "")
	case 5:
		e := c09Symbols(1)
		p = p.tw(" EXPORTS"+e.t+";", "")
	}
	p = p.tw(" IMPORTS", "")
	for i := 0; i < n; i++ {
		a := part % 5
		k := 1
		if i == 0 && small {
			k += vChoose("symbols", 2)
		} else if i == 0 {
			k += vChoose("symbols", 3)
		} else {
			a = vChoose("assigned", 5)
			if n == 2 {
				k += vChoose("symbols", 2)
			}
		}
		p = p.add(c09From(k, a))
	}
	p = p.tw(";", "")
	if vChoose("then", 2) == 0 {
		p = p.tw(" A ::= NULL ", "A::=NULL\n")
	} else {
		p = p.tw(" v INTEGER ::= 5 ", "v INT{}::=5\n")
	}
	p = p.tw("END", "")
	gParse(p.t, p.w, "imports")
	vReach("parsed")
}

// verif:bound IMPORTS without symbols, no IMPORTS, 6 forms of EXPORTS, before a type or value assignment of arbitrary name
// verif:reach parsed
func VerifC09Empty(part int) {
	var p pair
	p = p.tw("M DEFINITIONS ::= BEGIN", gHeadWant)
	p = p.tw([]string{"", " EXPORTS ALL;", " EXPORTS ;", " EXPORTS T;", " EXPORTS v, T;", " EXPORTS T,v,U;"}[vChoose("exports", 6)], "")
	p = p.tw([]string{"", " IMPORTS ;"}[vChoose("imports", 2)], "")
	if vChoose("then", 2) == 0 {
		p = p.add(gRef()).tw(" ::= NULL ", "::=NULL\n")
	} else {
		p = p.add(gId()).tw(" INTEGER ::= 5 ", " INT{}::=5\n")
	}
	p = p.tw("END", "")
	gParse(p.t, p.w, "no imports")
	vReach("parsed")
}
