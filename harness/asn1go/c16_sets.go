package asn1go

// c16Wrap puts up to n tags, constraints and sole-alternative choices around a type.
func c16Wrap(x gt, n int) gt {
	for i := 0; i < n; i++ {
		x = gCtx([]int{7, 10, 11}[vChoose("wrap", 3)], x, false)
	}
	return x
}

// c16Inner is a type that contains sets in every way but is none itself, or is
// one: the set-ness of what it is made of.
func c16Base(k int) gt {
	s := gt{t: SetType{}, w: "struct{}", set: true, opt: " set"}
	so := gt{t: SetOfType{BooleanType{}}, w: "[]_", set: true, opt: " set"}
	ref := gt{t: TypeReference("PSet"), w: "_"}
	switch k {
	case 0:
		return s
	case 1:
		return so
	case 2:
		return ref
	case 3:
		return gt{t: SequenceType{}, w: "struct{}"}
	case 4:
		return gt{t: SequenceOfType{s.t}, w: "[]struct{}"}
	case 5:
		return gt{t: ConstraintedType{Type: SequenceOfType{TaggedType{Tag: Tag{ClassNumber: Number(2)}, Type: so.t}}, Constraint: gSize}, w: "[][]bool"}
	case 6:
		return gt{t: ChoiceType{AlternativeTypeList: []NamedType{{"a", s.t}, {"b", so.t}}}, w: "interface{}"}
	case 7:
		return gt{t: ChoiceType{AlternativeTypeList: []NamedType{{"a", TaggedType{Tag: Tag{ClassNumber: Number(2)}, Type: s.t}}}}, w: "asn1.RawValue"}
	case 8:
		return gt{t: BooleanType{}, w: "bool"}
	case 9:
		return gt{t: SequenceType{Components: ComponentTypeList{gComp("s", s.t, 0), gComp("o", so.t, 1)}, ExtensionAdditions: ExtensionAdditions{gComp("e", SetType{}, 0)}}, w: "struct{S struct{} set;O []bool set;E struct{} set;}"}
	case 10:
		return gt{t: SetType{Components: ComponentTypeList{gComp("s", SequenceType{}, 0), gComp("o", so.t, 2)}}, w: "struct{S struct{};O []bool set;}", set: true, opt: " set"}
	case 11:
		return gt{t: SetOfType{SequenceOfType{s.t}}, w: "[][]struct{}", set: true, opt: " set"}
	case 12:
		return gt{t: SequenceOfType{SequenceOfType{so.t}}, w: "[][][]bool"}
	case 13:
		return gt{t: TypeReference("PBits3"), w: "asn1.BitString"}
	case 14:
		return gt{t: BitStringType{}, w: "asn1.BitString"}
	default:
		return gt{t: RestrictedStringType{UTF8String}, w: "string"}
	}
}

// verif:bound 16 types (sets, types that contain sets as components, elements or alternatives, references to sets, others) under 0..4 (thorough: 5) tags and constraints in any order, between other assignments, both module tagging defaults
// verif:reach generated
// verif:parts 16
func VerifC16Assignment(part int) {
	x := c16Wrap(c16Base(part), vChoose("depth", 5+vTier()))
	name := string([]byte{vByteIn("name", "A-OQ-Z"), vByteIn("name", "a-zA-Z0-9")})
	m := gModule(append(append(AssignmentList{}, gPreludeTypes...), TypeAssignment{TypeReference(name), x.t}, TypeAssignment{"Z1z", BooleanType{}})...)
	m.TagDefault = vChoose("default", 2)
	text, err := gGenerate(m, GenParams{})
	vAssert(err == nil, "sets: generation fails")
	f, bad := readGo(text, setTags)
	vAssert(bad == "", "sets: the output is not a well-formed Go file")
	isSet := false
	found := false
	for _, d := range f.decls {
		if d.name == name+"SET" {
			isSet = true
		}
		if d.name == name {
			found = true
			vAssert(!isSet || d.alias && d.of == name+"SET", "the assigned name does not stand for the set type")
		}
	}
	vAssert(found, "the assigned name is not declared")
	vAssert(isSet == x.set, "a type is generated as a set exactly when it is one")
	vReach("generated")
}

// verif:bound a component of each of those 16 types under 0..4 (thorough: 5) tags and constraints in SEQUENCE, SET, an addition, and a repeated SET
// verif:reach generated
// verif:parts 16
func VerifC16Component(part int) {
	x := c16Wrap(c16Base(part), vChoose("depth", 5+vTier()))
	id, name := gName('a')
	other := gComp("x", SequenceOfType{SetType{}}, 0)
	c := gComp(id, x.t, vChoose("option", 2))
	var t Type
	switch vChoose("place", 4) {
	case 0:
		t = SequenceType{Components: ComponentTypeList{other, c}}
	case 1:
		t = SetType{Components: ComponentTypeList{other, c}}
	case 2:
		t = SequenceType{Components: ComponentTypeList{other}, ExtensionAdditions: ExtensionAdditions{c}}
	case 3:
		t = SetOfType{SetType{Components: ComponentTypeList{other, c}}}
	}
	m := gModule(append(append(AssignmentList{}, gPreludeTypes...), TypeAssignment{"A", t})...)
	text, err := gGenerate(m, GenParams{})
	vAssert(err == nil, "sets: generation fails")
	f, bad := readGo(text, setTags)
	vAssert(bad == "", "sets: the output is not a well-formed Go file")
	got := ""
	for _, d := range f.decls {
		if d.name == "A" && d.of != "ASET" || d.name == "ASET" {
			got = d.typ
		}
	}
	last := got[c16Last(got):]
	vAssert(len(last) > len(name) && last[:len(name)] == name, "the component has no field")
	hasSet := len(last) >= len(" set;}") && last[len(last)-len(" set;}"):] == " set;}"
	vAssert(hasSet == x.set, "a component is marked set exactly when its type is one")
	vReach("generated")
}

// c16Last is where the last field of the canonical struct type s starts.
func c16Last(s string) int {
	depth := 0
	for i := len(s) - 3; i > 0; i-- {
		if s[i] == '}' {
			depth++
		}
		if s[i] == '{' {
			if depth == 0 {
				return i + 1
			}
			depth--
		}
		if s[i] == ';' && depth == 0 {
			return i + 1
		}
	}
	return 0
}

// verif:bound each of 52 types under one or two constraints of 14 shapes, of which 4 have arbitrary bounds, alone, under a tag and as an element
// verif:reach generated
// verif:parts 3
func VerifC16Constraint(part int) {
	x := gConstrained(gKind(vChoose("kind", gKinds), ""))
	if part > 0 {
		x = gCtx([]int{10, 5}[part-1], x, false)
	}
	c16Named(x)
}

// verif:bound every one of 52 types in every one of 14 positions, and those again in every position: whether the assigned name is a set
// verif:reach generated
// verif:parts 14
func VerifC16Nest(part int) {
	x := gKind(vChoose("kind", gKinds), "")
	if c := vChoose("inner", gCtxs+1); c < gCtxs {
		vAssume(c < 12 || !gTaggedAlt(x))
		x = gCtx(c, x, false)
	}
	vAssume(part < 12 || !gTaggedAlt(x))
	x = gCtx(part, x, false)
	c16Named(x)
}

func c16Named(x gt) {
	m := gModule(append(append(AssignmentList{}, gPreludeTypes...), TypeAssignment{"A1", x.t})...)
	text, err := gGenerate(m, GenParams{})
	vAssert(err == nil, "a type: generation fails")
	f, bad := readGo(text, noTags|noTypes)
	vAssert(bad == "", "a type: the output is not a well-formed Go file")
	isSet := false
	for _, d := range f.decls {
		isSet = isSet || d.name == "A1SET" && !d.alias
	}
	vAssert(isSet == x.set, "a type is generated as a set exactly when it is one")
	vReach("generated")
}

// verif:bound 14 kinds of types with content of any length, as they are or through one or two references with arbitrary names of 1..18 letters and digits, in 8 places: which of the names are sets, and which components
// verif:reach generated
// verif:parts 14
func VerifC16Content(part int) { gWideCheck(part, noTypes|setTags, "content") }
