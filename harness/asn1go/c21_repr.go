package asn1go

import "strings"

// c21Module is a module with x as the type of what is chosen.
func c21Module(x gt, place int) ModuleDefinition {
	l := append(AssignmentList{}, gPreludeTypes...)
	switch place {
	case 0:
		l = append(l, TypeAssignment{"A1", x.t})
	case 1:
		l = append(l, TypeAssignment{"A1", SequenceOfType{SequenceType{Components: ComponentTypeList{gComp("a", x.t, 1), gComp("b", BooleanType{}, 0)}}}})
	case 2:
		l = append(l, ValueAssignment{"v", x.t, Number(5)})
	}
	return gModule(l...)
}

// verif:bound 52 types, in 14 positions or none, as assigned type, component or type of a value: what is generated under int64, under no representation, and under big.Int; INTEGER at one or two places
// verif:reach generated
// verif:parts 15
func VerifC21Options(part int) {
	k := vChoose("kind", gKinds)
	place := vChoose("place", 3)
	x := gKind(k, IntegerReprInt64)
	if part < gCtxs {
		vAssume(part < 12 || !gTaggedAlt(x))
		x = gCtx(part, x, false)
	}
	vAssume(place < 2 || c21Number(k))
	m := c21Module(x, place)
	s64, err := gGenerate(m, GenParams{IntegerRepr: IntegerReprInt64})
	vAssert(err == nil, "int64: generation fails")
	sdef, err := gGenerate(m, GenParams{})
	vAssert(err == nil && sdef == s64, "the representation is not int64 when none is set")
	sbig, err := gGenerate(m, GenParams{IntegerRepr: IntegerReprBigInt})
	vAssert(err == nil, "big.Int: generation fails")
	f64, bad := readGo(s64, 0)
	vAssert(bad == "", "int64: the output is not a well-formed Go file")
	fbig, bad := readGo(sbig, 0)
	vAssert(bad == "", "big.Int: the output is not a well-formed Go file")
	isInt := strings.Contains(f64.show(), "int64")
	vAssert(!strings.Contains(s64, "big"), "int64: math/big is mentioned")
	vAssert(!strings.Contains(sbig, "int64"), "big.Int: int64 is mentioned")
	imported := false
	for _, p := range fbig.imports {
		imported = imported || p == "math/big"
	}
	vAssert(imported == isInt, "math/big is imported exactly when the output mentions it")
	a := f64.show()
	if place == 2 && isInt {
		a = strings.Replace(a, "=5\n", "=big.NewInt(5)\n", 1)
	}
	vAssert(strings.Replace(a, "int64", "*big.Int", -1) == fbig.show(), "the output differs in more than the representation of INTEGER")
	vReach("generated")
}

// c21Number tells whether a number is a sensible value of type k: INTEGER or REAL.
func c21Number(k int) bool { return k == 13+17+1 }

// verif:bound INTEGER (as component, element, alternative, value, with named numbers, in an addition, under tags) in modules of two assignments: every INTEGER under each representation
// verif:reach generated
// verif:parts 9
func VerifC21Integers(part int) {
	repr := c14Reprs[vChoose("repr", 3)]
	w := gInt(repr)
	n := func(i string) string {
		if repr == IntegerReprBigInt {
			return "big.NewInt(" + i + ")"
		}
		return i
	}
	it := func() Type {
		switch vChoose("integer", 3) {
		case 1:
			return ConstraintedType{Type: IntegerType{}, Constraint: gSize}
		case 2:
			return TaggedType{Tag: Tag{ClassNumber: Number(1)}, Type: IntegerType{NamedNumberList: []NamedNumber{{"x", Number(1)}}}}
		}
		return IntegerType{}
	}
	var a Assignment
	want := ""
	switch part {
	case 0:
		a, want = TypeAssignment{"A", SequenceType{Components: ComponentTypeList{gComp("a", it(), 2), gComp("b", RealType{}, 0), gComp("c", it(), 1)}}}, "A struct{A "+w+";B float64;C "+w+";}\n"
	case 1:
		a, want = TypeAssignment{"A", SetType{ExtensionAdditions: ExtensionAdditions{gComp("a", it(), 0)}}}, "A struct{A "+w+";}\n"
	case 2:
		a, want = TypeAssignment{"A", SequenceOfType{SetOfType{it()}}}, "A [][]"+w+"\n"
	case 3:
		a, want = TypeAssignment{"A", ChoiceType{AlternativeTypeList: []NamedType{{"a", ConstraintedType{Type: IntegerType{}, Constraint: gSize}}}}}, "A "+w+"\n"
	case 4:
		a, want = ValueAssignment{"a", it(), Number(-7)}, "var ValA "+w+"="+n("-7")+"\n"
	case 5:
		a, want = TypeAssignment{"A", ConstraintedType{Type: IntegerType{NamedNumberList: []NamedNumber{{"x", Number(-3)}, {"y", Number(4)}}}, Constraint: gSize}}, "A "+w+"\nvar AValX A="+n("-3")+"\nvar AValY A="+n("4")+"\n"
	case 6:
		a, want = ValueAssignment{"a", RealType{}, Number(3)}, "var ValA float64=3\n"
	case 7:
		a, want = TypeAssignment{"A", SequenceOfType{EnumeratedType{RootEnumeration: []EnumerationItem{NamedNumber{"a", Number(1)}}}}}, "A []asn1.Enumerated\n"
	case 8:
		a, want = TypeAssignment{"A", SequenceType{Components: ComponentTypeList{gComp("a", SequenceOfType{SequenceType{Components: ComponentTypeList{gComp("b", it(), 0)}}}, 0)}}}, "A struct{A []struct{B "+w+";};}\n"
	}
	l := AssignmentList{a}
	if vChoose("other", 2) == 1 {
		l = AssignmentList{TypeAssignment{"Z", BooleanType{}}, a}
		want = "Z bool\n" + want
	}
	f := gCheck(gModule(l...), GenParams{IntegerRepr: repr}, noTags|noSets, want, "INTEGER")
	vAssert(f.selfContained() == "", "the file is not self-contained")
	big := false
	for _, p := range f.imports {
		big = big || p == "math/big"
	}
	vAssert(big == strings.Contains(want, "big."), "math/big is imported exactly when the output mentions it")
	vReach("generated")
}

// verif:bound arbitrary representations of 1..8 printable characters other than the two known ones; INTEGER in 14 positions at any of 2 depths, or nowhere
// verif:reach failed
// verif:reach generated
// verif:parts 8
func VerifC21Unknown(part int) {
	b := make([]byte, part+1)
	for i := range b {
		b[i] = vByteIn("repr", "!-~")
	}
	vAssume(string(b) != "int64")
	vAssume(string(b) != "big.Int")
	x := gt{t: IntegerType{}}
	integer := vChoose("integer", 2) == 1
	if !integer {
		x = gt{t: RealType{}}
	}
	for i := 0; i < 2; i++ {
		if c := vChoose("place", gCtxs+1); c < gCtxs {
			vAssume(c < 12 || !gTaggedAlt(x))
			x = gCtx(c, x, false)
		}
	}
	text, err := gGenerate(gModule(TypeAssignment{"A", x.t}), GenParams{IntegerRepr: IntegerRepr(b)})
	if integer {
		vAssert(err != nil && text == "", "an unknown representation is accepted")
		vReach("failed")
	} else {
		vAssert(err == nil, "an unknown representation makes a module without INTEGER fail")
		vReach("generated")
	}
}
