package asn1go

type c05Pos struct {
	pre, post string
	signed    bool
	get       func(m *ModuleDefinition) (interface{}, bool)
}

var c05Positions = []c05Pos{
	{"v INTEGER ::= ", "", true, func(m *ModuleDefinition) (interface{}, bool) { n, ok := c05Val(m).(Number); return int(n), ok }},
	{"A ::= INTEGER {a(", ")}", true, func(m *ModuleDefinition) (interface{}, bool) {
		n, ok := c05Type(m).(IntegerType).NamedNumberList[0].Value.(Number)
		return int(n), ok
	}},
	{"A ::= INTEGER {a(1), b(", "), c(3)}", true, func(m *ModuleDefinition) (interface{}, bool) {
		n, ok := c05Type(m).(IntegerType).NamedNumberList[1].Value.(Number)
		return int(n), ok
	}},
	{"A ::= ENUMERATED {x, a(", ")}", true, func(m *ModuleDefinition) (interface{}, bool) {
		n, ok := c05Type(m).(EnumeratedType).RootEnumeration[1].(NamedNumber).Value.(Number)
		return int(n), ok
	}},
	{"A ::= ENUMERATED {x, ..., a(", ")}", true, func(m *ModuleDefinition) (interface{}, bool) {
		n, ok := c05Type(m).(EnumeratedType).AdditionalEnumeration[0].(NamedNumber).Value.(Number)
		return int(n), ok
	}},
	{"A ::= BIT STRING {a(", ")}", false, func(m *ModuleDefinition) (interface{}, bool) {
		n, ok := c05Type(m).(BitStringType).NamedBits[0].Index.(Number)
		return int(n), ok
	}},
	{"A ::= [", "] NULL", false, func(m *ModuleDefinition) (interface{}, bool) {
		n, ok := c05Type(m).(TaggedType).Tag.ClassNumber.(Number)
		return int(n), ok
	}},
	{"A ::= [1] [APPLICATION ", "] IMPLICIT NULL", false, func(m *ModuleDefinition) (interface{}, bool) {
		n, ok := c05Type(m).(TaggedType).Type.(TaggedType).Tag.ClassNumber.(Number)
		return int(n), ok
	}},
	{"A ::= INTEGER (", "..MAX)", true, func(m *ModuleDefinition) (interface{}, bool) {
		n, ok := c05Elem(c05Constraint(m), 0, 0, 0).(ValueRange).LowerEndpoint.Value.(Number)
		return int(n), ok
	}},
	{"A ::= INTEGER (MIN..", ")", true, func(m *ModuleDefinition) (interface{}, bool) {
		n, ok := c05Elem(c05Constraint(m), 0, 0, 0).(ValueRange).UpperEndpoint.Value.(Number)
		return int(n), ok
	}},
	{"A ::= INTEGER (0<..<", ")", true, func(m *ModuleDefinition) (interface{}, bool) {
		n, ok := c05Elem(c05Constraint(m), 0, 0, 0).(ValueRange).UpperEndpoint.Value.(Number)
		return int(n), ok
	}},
	{"A ::= INTEGER (", ")", true, func(m *ModuleDefinition) (interface{}, bool) {
		n, ok := c05Elem(c05Constraint(m), 0, 0, 0).(SingleValue).Value.(Number)
		return int(n), ok
	}},
	{"A ::= INTEGER (1 | 2 ^ ", ")", true, func(m *ModuleDefinition) (interface{}, bool) {
		n, ok := c05Elem(c05Constraint(m), 0, 1, 1).(SingleValue).Value.(Number)
		return int(n), ok
	}},
	{"A ::= INTEGER (1, ..., ", "..7)", true, func(m *ModuleDefinition) (interface{}, bool) {
		n, ok := c05Elem(c05Constraint(m), 1, 0, 0).(ValueRange).LowerEndpoint.Value.(Number)
		return int(n), ok
	}},
	{"A ::= INTEGER (ALL EXCEPT ", ")", true, func(m *ModuleDefinition) (interface{}, bool) {
		n, ok := c05Constraint(m)[0].(Exclusions).Elements.(SingleValue).Value.(Number)
		return int(n), ok
	}},
	{"A ::= OCTET STRING (SIZE (", "))", false, func(m *ModuleDefinition) (interface{}, bool) {
		n, ok := c05Size(c05Elem(c05Constraint(m), 0, 0, 0)).(SingleValue).Value.(Number)
		return int(n), ok
	}},
	{"A ::= SEQUENCE SIZE (1..", ") OF B", false, func(m *ModuleDefinition) (interface{}, bool) {
		n, ok := c05Size(c05Elem(c05Constraint(m), 0, 0, 0)).(ValueRange).UpperEndpoint.Value.(Number)
		return int(n), ok
	}},
	{"A ::= SEQUENCE {a INTEGER DEFAULT ", ", b NULL}", true, func(m *ModuleDefinition) (interface{}, bool) {
		n, ok := (*c05Type(m).(SequenceType).Components[0].(NamedComponentType).Default).(Number)
		return int(n), ok
	}},
	{"A ::= SET {a NULL, ..., b INTEGER DEFAULT ", "}", true, func(m *ModuleDefinition) (interface{}, bool) {
		n, ok := (*c05Type(m).(SetType).ExtensionAdditions[0].(NamedComponentType).Default).(Number)
		return int(n), ok
	}},
	{"v OBJECT IDENTIFIER ::= {", "}", false, func(m *ModuleDefinition) (interface{}, bool) {
		n := c05Val(m).(ObjectIdentifierValue)[0]
		return n.ID, n.Name == "" && n.Reference == nil
	}},
	{"v OBJECT IDENTIFIER ::= {a b(", ") 3}", false, func(m *ModuleDefinition) (interface{}, bool) {
		n := c05Val(m).(ObjectIdentifierValue)[1]
		return n.ID, n.Name == "b" && n.Reference == nil
	}},
	{"IMPORTS X FROM Y {1 ", "}; v INTEGER ::= 1", false, func(m *ModuleDefinition) (interface{}, bool) {
		n := m.ModuleBody.Imports[0].Module.AssignedIdentifier.(ObjectIdentifierValue)[1]
		return n.ID, n.Name == "" && n.Reference == nil
	}},
	{"M {1 ", "} DEFINITIONS", false, func(m *ModuleDefinition) (interface{}, bool) {
		n := m.ModuleIdentifier.DefinitiveIdentifier[1]
		return n.Id, n.Name == ""
	}},
	{"M {a(", ") b} DEFINITIONS", false, func(m *ModuleDefinition) (interface{}, bool) {
		n := m.ModuleIdentifier.DefinitiveIdentifier[0]
		return n.Id, n.Name == "a"
	}},
	{"v INTEGER ::= 5 w INTEGER ::= -", " x INTEGER ::= 8", false, func(m *ModuleDefinition) (interface{}, bool) {
		n, ok := m.ModuleBody.AssignmentList[1].(ValueAssignment).Value.(Number)
		return -int(n), ok
	}},
	{"v REAL ::= ", "", true, func(m *ModuleDefinition) (interface{}, bool) { n, ok := c05Val(m).(Number); return int(n), ok }},
}

func c05Text(p c05Pos, lit string) string {
	if p.pre[0] == 'M' && p.pre[1] == ' ' {
		return p.pre + lit + p.post + " ::= BEGIN END"
	}
	return "M DEFINITIONS ::= BEGIN " + p.pre + lit + p.post + " END"
}

// verif:bound every literal of 1..18 digits, and the 19- and 20-digit ones that differ from 9223372036854775807 in any two consecutive digits and the first one, with and without a minus sign where one is allowed, in 26 positions: assigned values, named numbers, enumeration items (root and additional), named bits, tags, range, size and single-value bounds (unions, intersections, exclusions, after extension markers), component defaults, object identifier arcs, the definitive identifier and assigned identifiers of imports
// verif:reach exact big toolarge
// verif:parts 26
func VerifC05Literal(part int) {
	p := c05Positions[part]
	n := 1 + vChoose("digits", 20)
	neg := p.signed && vChoose("neg", 2) == 1
	d := make([]byte, n)
	if n < 19 {
		for i := range d {
			d[i] = vByteIn("d", "0-9")
		}
	} else {
		// around the greatest number: two of its digits are arbitrary
		d[0] = vByteIn("d", "0-9")
		copy(d[n-19:], "9223372036854775807")
		w := n - 19 + vChoose("at", 18)
		d[w] = vByteIn("d", "0-9")
		d[w+1] = vByteIn("d", "0-9")
	}
	lit := string(d)
	if neg {
		lit = "-" + lit
	}
	m, err := ParseString(c05Text(p, lit))
	vObserve("accepted", err == nil)
	fits := true
	if n >= 19 {
		const max = "9223372036854775807"
		if n == 20 {
			fits = d[0] == '0'
		}
		fits = fits && string(d[n-19:]) <= max
	}
	if !fits {
		vReach("toolarge")
		vAssert(err != nil && m == nil, "a literal too large to represent is accepted")
		return
	}
	vAssert(err == nil, "a representable literal is rejected")
	x, ok := p.get(m)
	vAssert(ok, "the literal is not where it was written")
	want := refNum(string(d))
	if neg {
		want = -want
	}
	if n >= 19 {
		vReach("big")
	} else {
		vReach("exact")
	}
	vAssert(x.(int) == want, "the literal has another value")
}

// verif:bound literals of 21..60 digits with arbitrary leading and trailing digits, the first not 0
// verif:reach toolarge
func VerifC05Huge(part int) {
	n := 21 + vChoose("digits", 40)
	d := make([]byte, n)
	for i := range d {
		d[i] = '4'
	}
	for i := 0; i < 3; i++ {
		d[i] = vByteIn("d", "0-9")
		d[n-1-i] = vByteIn("e", "0-9")
	}
	vAssume(d[0] != '0')
	p := c05Positions[vChoose("at", len(c05Positions))]
	m, err := ParseString(c05Text(p, string(d)))
	vReach("toolarge")
	vAssert(err != nil && m == nil, "a literal too large to represent is accepted")
}
