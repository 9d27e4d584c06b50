package asn1go

// verif:bound every one of 40 type notations in every one of 26 positions, and inside each of these again in every position (thorough: three positions deep); names of two arbitrary characters; between two other assignments or as the type of a value
// verif:reach parsed
// verif:parts 26
func VerifC07Nest(part int) {
	c2 := vChoose("inner", c07Ctxs+1)
	k := vChoose("kind", c07Kinds)
	x := c07Kind(k)
	open := k >= 13+25
	if vTier() == 1 {
		c3 := vChoose("inner", c07Ctxs+1)
		if c3 < c07Ctxs {
			vAssume(!(c3 == 15 && open))
			x = c07Ctx(c3, x)
			open = c07Open(c3)
		}
	}
	if c2 < c07Ctxs {
		vAssume(!(c2 == 15 && open))
		x = c07Ctx(c2, x)
		open = c07Open(c2)
	}
	vAssume(!(part == 15 && open))
	x = c07Ctx(part, x)
	var p pair
	p = p.tw(gHead, gHeadWant)
	if c2 == c07Ctxs {
		p = p.add(gId()).tw("", " ").add(x).tw(" ::= 7 ", "::=7\n")
	} else {
		p = p.add(gRef()).tw("::=", "::=").add(x).tw(" ", "\n")
	}
	p = p.add(gRef()).tw(" ::= REAL ", "::=REAL\n")
	p = p.tw("END", "")
	gParse(p.t, p.w, "a type inside another")
	vReach("parsed")
}

// c07Marker lists component layouts: @ a root component, + an addition.
var c07Layouts = []struct{ t, w string }{
	{"@", "R|"},
	{"@,@", "RR|"},
	{"@,@,@", "RRR|"},
	{"@,...", "R|"},
	{"@,@,...!5", "RR|"},
	{"@,...,...", "R|"},
	{"@,...,+", "R|A"},
	{"@,@,...,+,+", "RR|AA"},
	{"@,...,+,+,+", "R|AAA"},
	{"@,...!v,+,...", "R|A"},
	{"@,...,[[+]]", "R|A"},
	{"@,...,[[+,+]],+", "R|AAA"},
	{"@,...,+,[[2:+,+]]", "R|AAA"},
	{"@,...,[[3:+]],[[+]],...", "R|AA"},
	{"@,...!INTEGER:9,...,@", "RR|"},
	{"@,@,...,...,@,@", "RRRR|"},
}

// c07Component is a component with an arbitrary name and one of several optionalities.
func c07Component(o int) pair {
	var p pair
	if o == 9 {
		return p.tw(" COMPONENTS OF", "COMPONENTS OF ref:").add(gRef()).tw("", ";")
	}
	p = p.add(gId()).tw("", "=ref:").add(gRef())
	switch o {
	case 1:
		p = p.tw(" OPTIONAL", " OPTIONAL")
	case 2:
		p = p.tw(" DEFAULT 12", " DEFAULT 12")
	case 3:
		p = p.tw(" DEFAULT TRUE", " DEFAULT TRUE")
	case 4:
		p = p.tw(" DEFAULT", " DEFAULT id:").add(gId())
	case 5:
		p = p.tw(" DEFAULT -1.5", " DEFAULT real:-1.5")
	case 6:
		p = p.tw(" DEFAULT {1 2}", " DEFAULT {(1)(2)}")
	case 7:
		p = p.tw(" DEFAULT FALSE", " DEFAULT FALSE")
	case 8:
		p = p.tw(" DEFAULT -3", " DEFAULT -3")
	}
	return p.tw("", ";")
}

// verif:bound SEQUENCE and SET with 16 layouts of up to 4 root components, extension markers, exceptions, additions and addition groups; every component with an arbitrary name, type name and one of 10 forms (none, OPTIONAL, 7 defaults, COMPONENTS OF); every pair of forms over the components (thorough: every triple)
// verif:reach parsed
// verif:parts 16
func VerifC07Components(part int) {
	l := c07Layouts[part]
	set := vChoose("set", 2) == 1
	forms := 2 + vTier()
	f := []int{0, 1}
	for i := 0; i < forms; i++ {
		f = append(f, vChoose("form", 10))
	}
	f = f[2:]
	rot := vChoose("rotation", forms)
	var root, add string
	text := ""
	n := 0
	for i := 0; i < len(l.t); i++ {
		switch l.t[i] {
		case '.':
			text += "."
		case '@':
			p := c07Component(f[(n+rot)%forms])
			n++
			text += p.t
			root += p.w
		case '+':
			p := c07Component(f[(n+rot)%forms])
			n++
			text += p.t
			add += p.w
		case ',':
			text += " ,"
		default:
			text += l.t[i : i+1]
		}
	}
	kw, kt := " SEQUENCE {", "SEQ{"
	if set {
		kw, kt = " SET {", "SET{"
	}
	gParse(gHead+"A ::="+kw+text+"} B ::= NULL END", gHeadWant+"A::="+kt+root+"|"+add+"}\nB::=NULL\n", "components")
	vReach("parsed")
}

// verif:bound CHOICE with up to 3 alternatives and 3 extension alternatives, with and without exception and closing marker, arbitrary names and type names
// verif:reach parsed
// verif:parts 2
func VerifC07Choice(part int) {
	n := vChoose("root", 4)
	e := vChoose("ext", 4)
	marker := e > 0 || n == 0 || vChoose("marker", 2) == 1
	var p pair
	p = p.tw(gHead+"A ::= CHOICE {", gHeadWant+"A::=CHOICE{")
	sep := ""
	for i := 0; i < n; i++ {
		p = p.tw(sep, "").add(gId()).tw("", "=ref:").add(gRef()).tw("", ";")
		sep = ","
	}
	p = p.tw("", "|")
	if marker {
		p = p.tw(sep+"...", "")
		if part == 1 {
			p = p.tw([]string{"!5", " ! -7", "!vv", "!M.vv", "! BOOLEAN : TRUE"}[vChoose("exception", 5)], "")
		}
	}
	for i := 0; i < e; i++ {
		p = p.tw(",", "").add(gId()).tw("", "=ref:").add(gRef()).tw("", ";")
	}
	if marker && vChoose("closing", 2) == 1 {
		p = p.tw(",...", "")
	}
	p = p.tw("} END", "}\n")
	gParse(p.t, p.w, "alternatives")
	vReach("parsed")
}

// verif:bound enumerations of up to 3 items and 3 additional items, INTEGER and BIT STRING lists of up to 4 names; each item a name, a name with a number -9..9 or with a value reference (in a module or not)
// verif:reach parsed
// verif:parts 4
func VerifC07Items(part int) {
	item := func(form int) pair {
		p := gId()
		switch form {
		case 0:
			return p.tw("(7)", "(7);")
		case 1:
			return p.tw("(", "(ref:.").add(gId()).tw(")", ");")
		case 2:
			return p.tw("(", "(ref:").add(gRef()).tw(".", ".").add(gId()).tw(")", ");")
		case 3:
			if part == 3 {
				return p.tw("(0)", "(0);")
			}
			return p.tw("(-7)", "(-7);")
		}
		return p.tw("", ";")
	}
	list := func(n, forms int) pair {
		var p pair
		for i := 0; i < n; i++ {
			if i > 0 {
				p = p.tw(",", "")
			}
			p = p.add(item(vChoose("form", forms)))
		}
		return p
	}
	var p pair
	switch part {
	case 0:
		p = p.tw("ENUMERATED {", "ENUM{").add(list(1+vChoose("n", 3), 5))
		if vChoose("marker", 2) == 1 {
			p = p.tw(", ...", "")
			if vChoose("exception", 2) == 1 {
				p = p.tw("!5", "")
			}
		}
		p = p.tw("}", "|}")
	case 1:
		p = p.tw("ENUMERATED {", "ENUM{").add(list(1, 5)).tw(",...,", "|").add(list(1+vChoose("n", 3), 5)).tw("}", "}")
	case 2:
		p = p.tw("INTEGER {", "INT{").add(list(1+vChoose("n", 3+vTier()), 4)).tw("}", "}")
	case 3:
		p = p.tw("BIT STRING {", "BITS{").add(list(1+vChoose("n", 3+vTier()), 4)).tw("}", "}")
	}
	gParse(gHead+"A ::= "+p.t+" v "+p.t+" ::= 3 END", gHeadWant+"A::="+p.w+"\nv "+p.w+"::=3\n", "items")
	vReach("parsed")
}

// c07Assign is an assignment of form f with an arbitrary name.
func c07Assign(f int) pair {
	var p pair
	switch f {
	case 0:
		return p.add(gRef()).tw("::=", "::=ref:").add(gRef()).tw("", "\n")
	case 1:
		return p.add(gId()).tw(" INTEGER ::= 5", " INT{}::=5\n")
	case 2:
		return p.add(gRef()).tw("::= SET OF INTEGER(1|2)", "::=SETOF(INT{}(U<I<val:1;>I<val:2;>>))\n")
	case 3:
		return p.add(gId()).tw("", " ref:").add(gRef()).tw("::=", "::=id:").add(gId()).tw("", "\n")
	case 4:
		return p.add(gId()).tw(" OBJECT IDENTIFIER ::= {1 2}", " OID::={(1)(2)}\n")
	case 5:
		return p.add(gRef()).tw(" ::= SEQUENCE {", "::=SEQ{").add(gId()).tw(" BOOLEAN DEFAULT TRUE}", "=BOOLEAN DEFAULT TRUE;|}\n")
	case 6:
		return p.add(gRef()).tw(" ::= INTEGER {", "::=INT{").add(gId()).tw("(1)}", "(1);}\n")
	case 7:
		return p.add(gId()).tw(" BOOLEAN ::= TRUE", " BOOLEAN::=TRUE\n")
	case 8:
		return p.add(gId()).tw(" REAL ::= -2.5", " REAL::=real:-2.5\n")
	default:
		return p.add(gId()).tw(" REAL ::= MINUS-INFINITY", " REAL::=real:-Inf\n")
	}
}

// verif:bound modules of 1..3 (thorough: 4) assignments of 10 forms with arbitrary names, in every order
// verif:reach parsed
// verif:parts 10
func VerifC07Assignments(part int) {
	var p pair
	p = p.tw(gHead, gHeadWant).add(c07Assign(part))
	n := 1 + vChoose("n", 3+vTier())
	for i := 1; i < n; i++ {
		p = p.add(c07Assign(vChoose("form", 10)))
	}
	p = p.tw(" END", "")
	gParse(p.t, p.w, "assignments")
	vReach("parsed")
}
