package asn1go

// c17Alt is the type of an alternative, whether it is tagged, and its Go type
// when it is the sole alternative.
type c17Alt struct {
	t      Type
	tagged bool
	w      string
}

// c17Defs are the types that alternatives refer to, through chains of up to 3
// other references; TagN are tagged, NotN are not.
var c17Defs = AssignmentList{
	TypeAssignment{"Tag3", ConstraintedType{Type: TypeReference("Tag2"), Constraint: gSize}},
	TypeAssignment{"Tag2", TypeReference("Tag1")},
	TypeAssignment{"Not3", TypeReference("Not2")},
	TypeAssignment{"Tag1", TypeReference("Tag0")},
	TypeAssignment{"Tag0", TaggedType{Tag: Tag{Class: CLASS_APPLICATION, ClassNumber: Number(1)}, Type: BooleanType{}}},
	TypeAssignment{"Not0", SequenceType{Components: ComponentTypeList{gComp("a", TaggedType{Tag: Tag{ClassNumber: Number(1)}, Type: BooleanType{}}, 0)}}},
	TypeAssignment{"Not1", TypeReference("Not0")},
	TypeAssignment{"Not2", ConstraintedType{Type: TypeReference("Not1"), Constraint: gSize}},
	TypeAssignment{"TagMid", ConstraintedType{Type: TaggedType{Tag: Tag{ClassNumber: Number(8)}, TagType: TAGS_IMPLICIT, HasTagType: true, Type: TypeReference("Not1")}, Constraint: gSize}},
	TypeAssignment{"TagMid2", TypeReference("TagMid")},
	TypeAssignment{"TimeTagged", TaggedType{Tag: Tag{ClassNumber: Number(2)}, Type: TypeReference("UTCTime")}},
	TypeAssignment{"Time1", TypeReference("GeneralizedTime")},
	TypeAssignment{"Time2", ConstraintedType{Type: TypeReference("Time1"), Constraint: gSize}},
	TypeAssignment{"Inner", ChoiceType{AlternativeTypeList: []NamedType{{"a", TaggedType{Tag: Tag{ClassNumber: Number(1)}, Type: BooleanType{}}}, {"b", BooleanType{}}}}},
	TypeAssignment{"Of", SequenceOfType{TaggedType{Tag: Tag{ClassNumber: Number(1)}, Type: BooleanType{}}}},
}

var c17Tagged = TaggedType{Tag: Tag{ClassNumber: Number(0)}, Type: BooleanType{}}

var c17Alts = []c17Alt{
	{BooleanType{}, false, "bool"},
	{c17Tagged, true, ""},
	{TypeReference("Tag0"), true, ""},
	{TypeReference("Not0"), false, "Not0"},
	{ConstraintedType{Type: c17Tagged, Constraint: gSize}, true, ""},
	{TypeReference("GeneralizedTime"), false, "time.Time"},
	{TypeReference("Tag3"), true, ""},
	{TypeReference("Not3"), false, "Not3"},
	{ConstraintedType{Type: ConstraintedType{Type: TypeReference("Tag2"), Constraint: gSize}, Constraint: gSize}, true, ""},
	{ConstraintedType{Type: TypeReference("UTCTime"), Constraint: gSize}, false, "time.Time"},
	{TypeReference("TagMid"), true, ""},
	{TypeReference("TagMid2"), true, ""},
	{TypeReference("TimeTagged"), true, ""},
	{TypeReference("Time2"), false, "time.Time"},
	{TypeReference("Inner"), false, "Inner"},
	{TypeReference("Of"), false, "Of"},
	{SequenceOfType{c17Tagged}, false, "[]bool"},
	{SequenceType{Components: ComponentTypeList{gComp("a", c17Tagged, 0)}}, false, "struct{A bool;}"},
	{ChoiceType{AlternativeTypeList: []NamedType{{"a", BooleanType{}}, {"b", c17Tagged}}}, false, "asn1.RawValue"},
	{TypeReference("Tag1"), true, ""},
	{ConstraintedType{Type: RestrictedStringType{UTF8String}, Constraint: gSize}, false, "string"},
	{BitStringType{}, false, "asn1.BitString"},
}

// verif:bound CHOICE with 0..3 alternatives and 0..2 extension alternatives (4 in all), each untagged or tagged directly, under constraints or through 1..4 references, times and others, out of 22 (every pair; thorough: every triple); alone, as component, element or under a tag; arbitrary names
// verif:reach generated
// verif:parts 22
func VerifC17Choice(part int) {
	pick := []c17Alt{c17Alts[part], c17Alts[vChoose("second", len(c17Alts))], c17Alts[(part*5+3)%len(c17Alts)], c17Alts[0]}
	if vTier() == 1 {
		pick[2] = c17Alts[vChoose("third", len(c17Alts))]
	}
	root := vChoose("root", 4)
	ext := vChoose("ext", 3)
	n := root + ext
	vAssume(n <= 4)
	tagged := false
	var c ChoiceType
	for i := 0; i < n; i++ {
		id, _ := gName(byte('a' + i))
		a := NamedType{id, pick[i].t}
		tagged = tagged || pick[i].tagged
		if i < root {
			c.AlternativeTypeList = append(c.AlternativeTypeList, a)
		} else {
			c.ExtensionTypes = append(c.ExtensionTypes, a)
		}
	}
	w := "interface{}"
	if tagged {
		w = "asn1.RawValue"
	} else if n == 1 {
		w = pick[0].w
	}
	var t Type = c
	switch vChoose("place", 5) {
	case 1:
		t, w = SequenceType{Components: ComponentTypeList{gComp("a", c, 1)}}, "struct{A "+w+";}"
	case 2:
		t, w = SequenceOfType{c}, "[]"+w
	case 3:
		t = ConstraintedType{Type: TaggedType{Tag: Tag{ClassNumber: Number(3)}, Type: c}, Constraint: gSize}
	case 4:
		t, w = SetOfType{SetType{ExtensionAdditions: ExtensionAdditions{gComp("a", c, 0)}}}, "[]struct{A "+w+";}"
	}
	m := gModule(append(append(append(AssignmentList{}, c17Defs[:8]...), TypeAssignment{"Ch", t}), c17Defs[8:]...)...)
	text, err := gGenerate(m, GenParams{})
	vAssert(err == nil, "a choice: generation fails")
	f, bad := readGo(text, noTags|noSets)
	vAssert(bad == "", "a choice: the output is not a well-formed Go file")
	got := ""
	for _, d := range f.decls {
		if d.name == "Ch" && d.of != "ChSET" || d.name == "ChSET" {
			got = d.typ
		}
	}
	vAssert(got == w, "a choice does not generate the prescribed type")
	vReach("generated")
}

// verif:bound a CHOICE of one, two or an extension alternative of each of 22 types under one or two constraints of 14 shapes, of which 4 have arbitrary bounds
// verif:reach generated
// verif:parts 3
func VerifC17Constraint(part int) {
	a := c17Alts[vChoose("alternative", len(c17Alts))]
	x := gConstrained(gt{t: a.t})
	alt := NamedType{"a", x.t}
	c := ChoiceType{AlternativeTypeList: []NamedType{alt}}
	w := a.w
	switch part {
	case 1:
		c.AlternativeTypeList = append([]NamedType{{"b", BooleanType{}}}, alt)
		w = "interface{}"
	case 2:
		c = ChoiceType{ExtensionTypes: []ChoiceExtension{alt}}
	}
	if a.tagged {
		w = "asn1.RawValue"
	}
	m := gModule(append(append(append(AssignmentList{}, c17Defs[:8]...), TypeAssignment{"Ch", c}), c17Defs[8:]...)...)
	text, err := gGenerate(m, GenParams{})
	vAssert(err == nil, "a choice: generation fails")
	f, bad := readGo(text, noTags|noSets)
	vAssert(bad == "", "a choice: the output is not a well-formed Go file")
	got := ""
	for _, d := range f.decls {
		if d.name == "Ch" && d.of != "ChSET" || d.name == "ChSET" {
			got = d.typ
		}
	}
	vAssert(got == w, "a choice does not generate the prescribed type")
	vReach("generated")
}

// verif:bound CHOICE of 0..3 alternatives and 0..2 extension alternatives none or one of which is tagged, and CHOICE of one or two alternatives of 14 kinds of types with content of any length, directly or through one or two references with arbitrary names of 1..18 letters and digits
// verif:reach generated
// verif:parts 14
func VerifC17Content(part int) { gWideCheck(part, noTags|noSets, "content") }

// verif:bound alternatives and extension alternatives that lead through every number of references from 5 to 64 (thorough: 204), of which none or one is tagged, to a tagged type, a time or another type
// verif:reach generated
// verif:parts 4
// verif:steps 30000000
func VerifC17Long(part int) {
	n := gLongLength()
	at := []int{-1, 0, 2, n / 2, n - 2, n - 1}[vChoose("at", 6)]
	l := gLong(n, []Type{BooleanType{}, c17Tagged, TypeReference("UTCTime"), c17Defs[5].(TypeAssignment).Type}[part], at, vChoose("reverse", 2) == 1)
	c := ChoiceType{AlternativeTypeList: []NamedType{{"b", BooleanType{}}}}
	if n%2 == 0 {
		c.AlternativeTypeList = append(c.AlternativeTypeList, NamedType{"a", TypeReference("L0")})
	} else {
		c.ExtensionTypes = append(c.ExtensionTypes, NamedType{"a", TypeReference("L0")})
	}
	l = append(l, TypeAssignment{"Use", SequenceOfType{c}})
	w := "[]interface{}"
	if at >= 0 || part == 1 {
		w = "[]asn1.RawValue"
	}
	text, err := gGenerate(gModule(l...), GenParams{})
	vAssert(err == nil, "a long chain: generation fails")
	f, bad := readGo(text, noTags|noSets)
	vAssert(bad == "", "a long chain: the output is not a well-formed Go file")
	vAssert(f.decls[len(f.decls)-1].typ == w, "a choice does not generate the prescribed type")
	vReach("generated")
}
