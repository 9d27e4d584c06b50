package asn1go

// c14Check generates a module with the assignment of x to a name, between the
// types its references lead to, and compares the Go types of all of them.
func c14Check(x gt, repr IntegerRepr, what string) {
	ref, name := gName('t')
	ref = Identifier(name)
	m := gModule(gPreludeTypes[:5]...)
	m.ModuleBody.AssignmentList = append(append(append(AssignmentList{}, gPreludeTypes[:5]...), TypeAssignment{TypeReference(ref), x.t}), gPreludeTypes[5:]...)
	i := 0
	for n := 0; n < 5; i++ {
		if gPreludeWant[i] == '\n' {
			n++
		}
	}
	gCheck(m, GenParams{IntegerRepr: repr}, noTags|noSets, gPreludeWant[:i]+name+" "+x.w+"\n"+gPreludeWant[i:], what)
	vReach("generated")
}

// verif:bound each of 52 types (every built-in type but NULL, references that reach time, bit string and other types through up to 3 others) at top level and in each of 14 positions (components, additions, elements, under tags and constraints, sole alternatives), and those again in each position (thorough: three deep); int64 and big.Int; names with an arbitrary character
// verif:reach generated
// verif:parts 15
func VerifC14Nest(part int) {
	repr := c14Reprs[vChoose("repr", 3)]
	x := gKind(vChoose("kind", gKinds), repr)
	if vTier() == 1 {
		if c := vChoose("inner", gCtxs+1); c < gCtxs {
			vAssume(c < 12 || !gTaggedAlt(x))
			x = gCtx(c, x, false)
		}
	}
	if c := vChoose("inner", gCtxs+1); c < gCtxs {
		vAssume(c < 12 || !gTaggedAlt(x))
		x = gCtx(c, x, false)
	}
	if part < gCtxs {
		vAssume(part < 12 || !gTaggedAlt(x))
		x = gCtx(part, x, false)
	}
	c14Check(x, repr, "a type")
}

// verif:bound SEQUENCE and SET with 0..4 (thorough: 5) components of which any number are extension additions, each of a type out of 6, required, OPTIONAL or with a default, arbitrary names
// verif:reach generated
// verif:parts 10
func VerifC14Struct(part int) {
	n := part / 2
	if n == 4 {
		n += vTier()
	}
	set := part%2 == 1
	root := vChoose("root", n+1)
	var c ComponentTypeList
	var e ExtensionAdditions
	w := "struct{"
	kinds := []int{31, 13, 4, 48, 22, 43}
	rot := 0
	if n > 2 {
		rot = vChoose("rotation", 3)
	}
	for i := 0; i < n; i++ {
		k := (i + rot) * 2 % 6
		if i < 2 {
			k = vChoose("kind", 6)
		}
		x := gKind(kinds[k], IntegerReprInt64)
		id, name := gName(byte('a' + i))
		o := 0
		if i < 3 {
			o = vChoose("option", 3)
		}
		f := gComp(id, x.t, o)
		w += name + " " + x.w + ";"
		if i < root {
			c = append(c, f)
		} else {
			e = append(e, f)
		}
	}
	x := gt{t: SequenceType{Components: c, ExtensionAdditions: e}, w: w + "}"}
	if set {
		x.t = SetType{Components: c, ExtensionAdditions: e}
	}
	c14Check(x, "", "components")
}

// verif:bound each of 52 types under one or two constraints of 14 shapes, of which 4 have arbitrary bounds, at top level, as component, addition, element, alternative and under a tag
// verif:reach generated
// verif:parts 7
func VerifC14Constraint(part int) {
	repr := c14Reprs[part%3]
	x := gKind(vChoose("kind", gKinds), repr)
	if part > 4 {
		vAssume(!gTaggedAlt(x))
	}
	x = gConstrained(x)
	if part > 0 {
		x = gCtx([]int{0, 2, 5, 10, 12, 13}[part-1], x, false)
	}
	c14Check(x, repr, "a constrained type")
}

// verif:bound each of 14 kinds of types with up to 3 named bits, items, named numbers, components or alternatives and 2 additional ones (thorough: 5 and 3), used as they are or through one or two references with arbitrary names of 1..18 letters and digits in 8 places
// verif:reach generated
// verif:parts 14
func VerifC14Content(part int) { gWideCheck(part, noTags|noSets, "content") }

// verif:bound a reference through every number of references from 5 to 64 (thorough: 204) to a bit string, times and another type, as type, component and element
// verif:reach generated
// verif:parts 4
// verif:steps 30000000
func VerifC14Long(part int) {
	l := gLong(gLongLength(), []Type{BitStringType{}, TypeReference("UTCTime"), TypeReference("GeneralizedTime"), IntegerType{}}[part], -1, false)
	w := []string{"asn1.BitString", "time.Time", "time.Time", "L0"}[part]
	l = append(l, TypeAssignment{"Use", SequenceType{Components: ComponentTypeList{gComp("a", TypeReference("L0"), 0), gComp("b", SequenceOfType{TypeReference("L0")}, 1)}}}, TypeAssignment{"Last", TypeReference("L0")})
	text, err := gGenerate(gModule(l...), GenParams{})
	vAssert(err == nil, "a long chain: generation fails")
	f, bad := readGo(text, noTags|noSets)
	vAssert(bad == "", "a long chain: the output is not a well-formed Go file")
	n := len(f.decls)
	vAssert(f.decls[n-2].typ == "struct{A "+w+";B []"+w+";}" && f.decls[n-1].typ == w, "a long chain does not generate the prescribed type")
	vReach("generated")
}
