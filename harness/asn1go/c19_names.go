package asn1go

// c19Name is an arbitrary ASN.1 name of n characters: letters, digits and
// single hyphens, not at the end, the first letter upper or lower case.
func c19Name(n int, upper bool) []byte {
	b := make([]byte, n)
	for i := range b {
		switch {
		case i == 0 && upper:
			b[i] = vByteIn("first", "A-Z")
		case i == 0:
			b[i] = vByteIn("first", "a-z")
		case i == n-1:
			b[i] = vByteIn("last", "a-zA-Z0-9")
		default:
			b[i] = vByteIn("char", "a-zA-Z0-9-")
			vAssume(vOr(b[i] != '-', b[i-1] != '-'))
		}
	}
	return b
}

// c19Long is an arbitrary name up to 9 (13) characters, or one of 26 whose
// hyphens are the first k of the odd positions.
func c19Long(upper bool) []byte {
	short := 9 + 4*vTier()
	n := 1 + vChoose("length", short+13)
	if n <= short {
		return c19Name(n, upper)
	}
	b := make([]byte, 26)
	for i := range b {
		switch {
		case i == 0 && upper:
			b[i] = vByteIn("first", "A-Z")
		case i == 0:
			b[i] = vByteIn("first", "a-z")
		case i%2 == 1 && i < 25 && i/2 < n-short-1:
			b[i] = '-'
		default:
			b[i] = vByteIn("char", "a-zA-Z0-9")
		}
	}
	return b
}

// c19Go is the exported Go name.
func c19Go(b []byte) string {
	r := make([]byte, len(b))
	for i, c := range b {
		if c == '-' {
			c = '_'
		}
		if i == 0 && c >= 'a' {
			c -= 'a' - 'A'
		}
		r[i] = c
	}
	return string(r)
}

// verif:bound names of 1..9 (thorough: 13) arbitrary characters, hyphens included, and of 26 characters with 0..12 hyphens at odd positions, as name of a module, type, set, field, value, named number, referenced type or referenced number
// verif:reach generated
// verif:parts 8
func VerifC19Mapping(part int) {
	b := c19Long(part < 3 || part == 6)
	s, g := string(b), c19Go(b)
	m := gModule()
	p := GenParams{}
	want := ""
	switch part {
	case 0:
		m.ModuleIdentifier.Reference = s
	case 1:
		m.ModuleBody.AssignmentList = AssignmentList{TypeAssignment{TypeReference(s), BooleanType{}}}
		want = g + " bool\n"
	case 2:
		m.ModuleBody.AssignmentList = AssignmentList{TypeAssignment{TypeReference(s), SetOfType{BooleanType{}}}}
		want = g + " set []bool\n"
	case 3:
		c := gComp(Identifier(s), BooleanType{}, 0)
		m.ModuleBody.AssignmentList = AssignmentList{TypeAssignment{"T", SequenceType{Components: ComponentTypeList{c}, ExtensionAdditions: ExtensionAdditions{gComp(Identifier("q"+s), BooleanType{}, 0)}}}}
		want = "T struct{" + g + " bool;Q" + c19Go(append([]byte("Q"), b...))[1:] + " bool;}\n"
	case 4:
		m.ModuleBody.AssignmentList = AssignmentList{ValueAssignment{ValueReference(s), BooleanType{}, Boolean(true)}}
		want = "var Val" + g + " bool=true\n"
	case 5:
		m.ModuleBody.AssignmentList = AssignmentList{TypeAssignment{"T-t", IntegerType{NamedNumberList: []NamedNumber{{Identifier(s), Number(4)}}}}}
		want = "T_t int64\nvar T_tVal" + g + " T_t=4\n"
	case 6:
		t := s + "x"
		gt := c19Go([]byte(t))
		m.ModuleBody.AssignmentList = AssignmentList{TypeAssignment{"T", SequenceOfType{TypeReference(t)}}, TypeAssignment{TypeReference(t), IntegerType{NamedNumberList: []NamedNumber{{"n-n", Number(4)}}}}, ValueAssignment{"v", TypeReference(t), Number(3)}}
		want = "T []" + gt + "\n" + gt + " int64\nvar " + gt + "ValN_n " + gt + "=4\nvar ValV " + gt + "=3\n"
	case 7:
		m.ModuleBody.AssignmentList = AssignmentList{TypeAssignment{"T", IntegerType{NamedNumberList: []NamedNumber{{"n", DefinedValue{ValueName: ValueReference(s)}}}}}, ValueAssignment{ValueReference(s), IntegerType{}, Number(4)}}
		want = "T int64\nvar TValN T=Val" + g + "\nvar Val" + g + " int64=4\n"
	}
	f := gCheck(m, p, 0, want, "a name")
	if part == 0 {
		vAssert(f.pkg == g, "the package name is not derived from the module name")
	} else {
		vAssert(f.pkg == "M", "the package name is not derived from the module name")
	}
	vReach("generated")
}

// verif:bound package names of 1..6 arbitrary letters, digits and underscores given as parameter, module names of 3 arbitrary characters
// verif:reach generated
// verif:parts 6
func VerifC19Package(part int) {
	b := make([]byte, part+1)
	for i := range b {
		if i == 0 {
			b[i] = vByteIn("first", "a-zA-Z")
		} else {
			b[i] = vByteIn("char", "a-zA-Z0-9_")
		}
	}
	vAssume(!goKeyword(string(b)))
	m := gModule(TypeAssignment{"T", BooleanType{}})
	m.ModuleIdentifier.Reference = string(c19Name(3, true))
	f := gCheck(m, GenParams{Package: string(b)}, 0, "T bool\n", "a package name")
	vAssert(f.pkg == string(b), "the package is not the configured one")
	vReach("generated")
}

// c19Differ: two names become the same Go name only if they differ in the case
// of the first letter alone.
func c19Differ(a, b []byte) bool {
	if len(a) != len(b) {
		return true
	}
	d := a[0] != b[0] && a[0]|0x20 != b[0]|0x20
	for i := 1; i < len(a); i++ {
		d = vOr(d, a[i] != b[i])
	}
	return d
}

// verif:bound every two names of 1..5 (thorough: 7) arbitrary characters of the same kind: types, fields, values, named numbers
// verif:reach generated
// verif:parts 4
func VerifC19Distinct(part int) {
	n1, n2 := 1+vChoose("length", 5+2*vTier()), 1+vChoose("length", 5+2*vTier())
	a, b := c19Name(n1, part == 0), c19Name(n2, part == 0)
	vAssume(string(a) != string(b))
	m := gModule()
	switch part {
	case 0:
		m.ModuleBody.AssignmentList = AssignmentList{TypeAssignment{TypeReference(string(a)), BooleanType{}}, TypeAssignment{TypeReference(string(b)), BooleanType{}}}
	case 1:
		m.ModuleBody.AssignmentList = AssignmentList{ValueAssignment{ValueReference(string(a)), BooleanType{}, Boolean(true)}, ValueAssignment{ValueReference(string(b)), BooleanType{}, Boolean(false)}}
	case 2:
		m.ModuleBody.AssignmentList = AssignmentList{TypeAssignment{"T", IntegerType{NamedNumberList: []NamedNumber{{Identifier(string(a)), Number(1)}, {Identifier(string(b)), Number(2)}}}}}
	case 3:
		// fields: as names of the only field of two structs
		m.ModuleBody.AssignmentList = AssignmentList{TypeAssignment{"T1", SequenceType{Components: ComponentTypeList{gComp(Identifier(string(a)), BooleanType{}, 0)}}}, TypeAssignment{"T2", SequenceType{Components: ComponentTypeList{gComp(Identifier(string(b)), BooleanType{}, 0)}}}}
	}
	text, err := gGenerate(m, GenParams{})
	vAssert(err == nil, "two names: generation fails")
	f, bad := readGo(text, 0)
	vAssert(bad == "", "two names: the output is not a well-formed Go file")
	k := len(f.decls)
	x, y := f.decls[k-2].name, f.decls[k-1].name
	if part == 3 {
		x, y = f.decls[0].typ, f.decls[1].typ
	}
	vAssert(vOr(x != y, !c19Differ(a, b)), "two names become one")
	vReach("generated")
}
