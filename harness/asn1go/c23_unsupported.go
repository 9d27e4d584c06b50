package asn1go

import "strings"

// c23Wrap puts x into position c, or leaves it alone.
func c23Wrap(c int, x gt) gt {
	if c >= gCtxs {
		return x
	}
	vAssume(c < 12 || !gTaggedAlt(x)) // a tagged alternative generates a raw value
	return gCtx(c, x, false)
}

// c23Module is a module with the type at the start, in the middle or at the end.
func c23Module(x Type, at int) ModuleDefinition {
	l := append(AssignmentList{}, gPreludeTypes...)
	l = append(l, ValueAssignment{"i", IntegerType{}, Number(5)}, TypeAssignment{"I", IntegerType{NamedNumberList: []NamedNumber{{"x", Number(1)}}}})
	a := TypeAssignment{"X", x}
	switch at {
	case 0:
		l = append(AssignmentList{a}, l...)
	case 1:
		l = append(append(append(AssignmentList{}, l[:9]...), a), l[9:]...)
	default:
		l = append(l, a)
	}
	return gModule(l...)
}

func c23Fails(m ModuleDefinition, p GenParams, what string) {
	text, err := gGenerate(m, p)
	vAssert(err != nil, what+" is dropped without an error")
	vAssert(text == "", what+": output is written next to the error")
	vReach("failed")
}

// c23Components is a SEQUENCE or SET with COMPONENTS OF among n others: in the
// root (before position root) or among the additions.
func c23Components(n, at, root int, set bool, of Type) Type {
	var c ComponentTypeList
	var e ExtensionAdditions
	for i := 0; i <= n; i++ {
		var x ComponentType = gComp(Identifier(string([]byte{byte('a' + i)})), BooleanType{}, i%3)
		if i == at {
			x = ComponentsOfComponentType{of}
		}
		if i < root {
			c = append(c, x)
		} else {
			e = append(e, x.(ExtensionAddition))
		}
	}
	if set {
		return SetType{Components: c, ExtensionAdditions: e}
	}
	return SequenceType{Components: c, ExtensionAdditions: e}
}

// verif:bound NULL at top level and in each of 14 positions, nested up to three deep (thorough: four), in a module of 18 other assignments before or after it, int64 and big.Int, tagging defaults EXPLICIT and IMPLICIT; names with an arbitrary character
// verif:reach failed
// verif:parts 15
func VerifC23Null(part int) {
	x := gt{t: NullType{}}
	inner := gCtxs
	if vTier() == 1 {
		inner = vChoose("innermost", gCtxs+1)
		x = c23Wrap(inner, x)
	}
	x = c23Wrap(vChoose("inner", gCtxs+1), x)
	x = c23Wrap(vChoose("middle", gCtxs+1), x)
	x = c23Wrap(part, x)
	if inner < gCtxs {
		m := c23Module(x.t, inner%3)
		m.TagDefault = inner / 3 % 2
		c23Fails(m, GenParams{IntegerRepr: c14Reprs[inner%2]}, "NULL")
		return
	}
	m := c23Module(x.t, vChoose("at", 3))
	m.TagDefault = vChoose("tagging", 2)
	c23Fails(m, GenParams{IntegerRepr: c14Reprs[vChoose("repr", 2)]}, "NULL")
}

// verif:bound COMPONENTS OF alone or among up to 4 others at any place of the root components or additions of a SEQUENCE or SET, of a defined, written out or undefined type; at top level and in each of 14 positions, nested up to two deep (thorough, among up to 1 other: three)
// verif:reach failed
// verif:parts 15
func VerifC23ComponentsOf(part int) {
	inner, n := gCtxs, 5
	if vTier() == 1 {
		if inner = vChoose("inner", gCtxs+1); inner < gCtxs {
			n = 2
		}
	}
	n = vChoose("others", n)
	at := vChoose("at", n+1)
	of := []Type{TypeReference("P-Seq"), SequenceType{Components: ComponentTypeList{gComp("z", BooleanType{}, 0)}}, TypeReference("Nowhere")}[vChoose("of", 3)]
	x := gt{t: c23Components(n, at, vChoose("root", n+2), vChoose("set", 2) == 1, of)}
	x = c23Wrap(inner, x)
	x = c23Wrap(vChoose("middle", gCtxs+1), x)
	x = c23Wrap(part, x)
	c23Fails(c23Module(x.t, n%3), GenParams{}, "COMPONENTS OF")
}

// verif:bound a module with AUTOMATIC tagging that is empty, has a value, or has each of 52 types in each of 14 positions; and one where a component, addition or nested component of any of 52 types has an AUTOMATIC tag
// verif:reach failed
// verif:parts 16
func VerifC23Automatic(part int) {
	if part == 15 {
		k := vChoose("kind", gKinds)
		repr := c14Reprs[k%3]
		x := gKind(k, repr)
		x.t = TaggedType{Tag: Tag{Class: vChoose("class", 4), ClassNumber: Number(2)}, TagType: TAGS_AUTOMATIC, HasTagType: true, Type: x.t}
		vAssume(x.t.(TaggedType).Tag.Class != CLASS_UNIVERSAL)
		switch w := vChoose("wrap", 3); w {
		case 1:
			x.t = ConstraintedType{Type: x.t, Constraint: gSize}
		case 2:
			x.t = TaggedType{Tag: Tag{ClassNumber: Number(1)}, Type: x.t}
		}
		x = gCtx(vChoose("field", 5), x, false)
		x = c23Wrap(vChoose("outer", gCtxs+1), x)
		m := c23Module(x.t, 1)
		m.TagDefault = vChoose("tagging", 2)
		c23Fails(m, GenParams{IntegerRepr: repr}, "an AUTOMATIC tag")
		return
	}
	repr := c14Reprs[vChoose("repr", 3)]
	x := gKind(vChoose("kind", gKinds), repr)
	x = c23Wrap(part, x)
	m := c23Module(x.t, 1)
	switch vChoose("module", 4) {
	case 1:
		m = gModule()
	case 2:
		m = gModule(ValueAssignment{"i", IntegerType{}, Number(5)})
	case 3:
		m = gModule(TypeAssignment{"X", BooleanType{}})
	}
	m.TagDefault = TAGS_AUTOMATIC
	m.ExtensibilityImplied = vChoose("extensible", 2) == 1
	c23Fails(m, GenParams{IntegerRepr: repr, Package: "p"}, "AUTOMATIC tagging")
}

// verif:bound each of 52 types in each of 14 positions, and in a second position (thorough: for every fourth combination of options a third), in a module of 18 other assignments, with and without 8 more values of other kinds, imports, a definitive identifier and extensibility implied; tagging defaults EXPLICIT and IMPLICIT with int64 and big.Int each
// verif:reach generated
// verif:parts 15
func VerifC23Supported(part int) {
	opt := vChoose("options", 4)
	repr := c14Reprs[opt%2]
	x := gKind(vChoose("kind", gKinds), repr)
	if vTier() == 1 {
		inner := vChoose("inner", gCtxs+1)
		vAssume(inner == gCtxs || (inner+part)%4 == opt)
		x = c23WrapAny(inner, x)
	}
	x = c23WrapAny(vChoose("middle", gCtxs+1), x)
	x = c23WrapAny(part, x)
	m := c23Module(x.t, (opt+part)%3)
	m.TagDefault = opt / 2
	if opt == 1 || opt == 2 {
		m.ExtensibilityImplied = true
		m.ModuleIdentifier.DefinitiveIdentifier = DefinitiveIdentifier{{Name: "iso", Id: 1}}
		m.ModuleBody.Imports = []SymbolsFromModule{{SymbolList: []Symbol{TypeReference("Y"), ValueReference("y")}, Module: GlobalModuleReference{Reference: "N", AssignedIdentifier: DefinedValue{ValueName: "n"}}}}
		o := DefinedValue{ValueName: "i"}
		m.ModuleBody.AssignmentList = append(m.ModuleBody.AssignmentList,
			ValueAssignment{"va", BooleanType{}, Boolean(true)},
			ValueAssignment{"vb", RealType{}, Real(0.5)},
			ValueAssignment{"vc", TypeReference("PChain"), Boolean(false)},
			ValueAssignment{"vd", ObjectIdentifierType{}, ObjectIdentifierValue{{Name: "iso", ID: 1}, {ID: 3}, {Reference: &o}}},
			ValueAssignment{"ve", TypeReference("I"), IdentifiedIntegerValue{Name: "x"}},
			ValueAssignment{"vf", EnumeratedType{RootEnumeration: []EnumerationItem{Identifier("r")}}, IdentifiedIntegerValue{Name: "r"}},
			ValueAssignment{"vg", ConstraintedType{Type: IntegerType{}, Constraint: gSize}, Number(-5)},
			ValueAssignment{"vh", TaggedType{Tag: Tag{ClassNumber: Number(1)}, Type: RealType{}}, Number(2)})
	}
	_, err := gGenerate(m, GenParams{IntegerRepr: repr})
	vAssert(err == nil, "generation of a supported module fails")
	vReach("generated")
}

func c23WrapAny(c int, x gt) gt {
	if c >= gCtxs {
		return x
	}
	return gCtx(c, x, false)
}

var c23Texts = []string{
	"A ::= NULL", "A ::= [1] NULL", "A ::= SEQUENCE {a NULL}", "A ::= SEQUENCE {a INTEGER, ..., b NULL OPTIONAL}", "A ::= SEQUENCE {a INTEGER, ..., [[ b NULL, c BOOLEAN ]]}", "A ::= SET OF NULL", "A ::= SEQUENCE (SIZE (1..2)) OF SET {x NULL}", "A ::= CHOICE {a NULL}", "A ::= CHOICE {..., a SEQUENCE {b NULL}}",
	"A ::= SEQUENCE {COMPONENTS OF B}", "A ::= SEQUENCE {a INTEGER, COMPONENTS OF B, c BOOLEAN}", "A ::= SET {a INTEGER, ..., COMPONENTS OF B}", "A ::= SEQUENCE {a INTEGER, ..., ..., COMPONENTS OF B}", "A ::= SEQUENCE {a INTEGER, ..., [[ 3: COMPONENTS OF B ]]}", "A ::= SEQUENCE OF SET {COMPONENTS OF B}", "A ::= [2] EXPLICIT SEQUENCE {a SEQUENCE {COMPONENTS OF SEQUENCE {x BOOLEAN}}}",
}

var c23Good = []string{
	"A ::= BOOLEAN", "A ::= [1] B", "A ::= SEQUENCE {a B, b C DEFAULT 5}", "A ::= SEQUENCE {a INTEGER, ..., b D OPTIONAL}", "A ::= SEQUENCE {a INTEGER, ..., [[ b E, c BOOLEAN ]]}", "A ::= SET OF ANY", "A ::= SEQUENCE (SIZE (1..2)) OF SET {x C}", "A ::= CHOICE {a B}", "A ::= CHOICE {..., a SEQUENCE {b D}}",
	"A ::= ENUMERATED {a, ..., b}", "A ::= SEQUENCE {a INTEGER, ..., ..., b UTCTime}", "A ::= INTEGER {a(1), b(i)} (0..9)", "A ::= BIT STRING {a(1), b(i)}", "A ::= OCTET STRING (SIZE (5, ..., 7))", "A ::= CHARACTER STRING", "A ::= CHOICE {a [1] NULL, b [2] B, c E}",
}

// verif:bound 16 texts of an assignment with NULL or COMPONENTS OF, and 16 without, between 5 others in a parsed module with each tagging default; int64 and big.Int
// verif:reach parsed
// verif:parts 2
func VerifC23Parsed(part int) {
	texts := c23Texts
	if part == 1 {
		texts = c23Good
	}
	tags := vChoose("tagging", 4)
	s := "M DEFINITIONS" + []string{"", " EXPLICIT TAGS", " IMPLICIT TAGS", " AUTOMATIC TAGS"}[tags] + " ::= BEGIN B ::= SEQUENCE {x BOOLEAN} "
	s += texts[vChoose("text", len(texts))]
	s += " C ::= INTEGER i INTEGER ::= 3 D ::= [7] GeneralizedTime E ::= SET {d D} END"
	m, err := ParseString(s)
	vAssert(err == nil, "fixture: "+s)
	text, err := gGenerate(*m, GenParams{IntegerRepr: c14Reprs[vChoose("repr", 2)]})
	vReach("parsed")
	if part == 0 || tags == 3 {
		vAssert(err != nil && text == "", "an unsupported construct is dropped without an error: "+s)
	} else {
		vAssert(err == nil && strings.Contains(text, "package M"), "generation of a supported module fails: "+s)
	}
}

// verif:bound modules of each of 14 kinds of types with content of any length, used as they are or through one or two references with arbitrary names of 1..18 letters and digits in 8 places, never fail
// verif:reach generated
// verif:parts 14
func VerifC23Content(part int) {
	m, _ := gWideModule(part, 0)
	_, err := gGenerate(m, GenParams{})
	vAssert(err == nil, "a supported module is rejected")
	vReach("generated")
}
