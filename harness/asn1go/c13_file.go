package asn1go

import "math"

// c13Names are the names of a file's declarations in order; the helper types of
// sets are left out.
func c13Names(f *goFile) string {
	s := ""
	for i := 0; i < len(f.decls); i++ {
		d := f.decls[i]
		if d.kind == "type" && i+1 < len(f.decls) {
			n := f.decls[i+1]
			if n.kind == "type" && n.alias && n.of == d.name && d.name == n.name+"SET" {
				continue
			}
		}
		s += d.kind + " " + d.name + "\n"
	}
	return s
}

// c13Check generates the module and checks the file as a whole.
func c13Check(m ModuleDefinition, p GenParams, pkg, want, what string) {
	text, err := gGenerate(m, p)
	vAssert(err == nil, what+": generation fails")
	f, bad := readGo(text, 0)
	vAssert(bad == "", what+": the output is not a well-formed Go file: "+bad)
	vAssert(f.pkg == pkg, what+": the package clause is not the prescribed one")
	why := f.selfContained()
	vAssert(why == "", what+": "+why)
	vAssert(c13Names(f) == want, what+": the names declared are not those of the assignments in order")
	vReach("generated")
}

// c13Rest are assignments that need every import, and what they declare.
func c13Rest(k int) (Assignment, string) {
	switch k {
	case 0:
		return ValueAssignment{"i", IntegerType{}, Number(-5)}, "var ValI\n"
	case 1:
		return ValueAssignment{"r", RealType{}, Real(1.5)}, "var ValR\n"
	case 2:
		return ValueAssignment{"inf", RealType{}, Real(math.Inf(-1))}, "var ValInf\n"
	case 3:
		return ValueAssignment{"b-l", TypeReference("PChain"), Boolean(true)}, "var ValB_l\n"
	case 4:
		return TypeAssignment{"N-n", ConstraintedType{Type: TaggedType{Tag: Tag{ClassNumber: Number(1)}, Type: IntegerType{NamedNumberList: []NamedNumber{{"x-y", Number(1)}, {"z", Number(-3)}}}}, Constraint: gSize}}, "type N_n\nvar N_nValX_y\nvar N_nValZ\n"
	case 5:
		return ValueAssignment{"o", ObjectIdentifierType{}, ObjectIdentifierValue{{Name: "iso", ID: 1}}}, ""
	case 6:
		return TypeAssignment{"T", SetOfType{TypeReference("UTCTime")}}, "type T\n"
	case 7:
		return TypeAssignment{"E", EnumeratedType{RootEnumeration: []EnumerationItem{Identifier("r")}}}, "type E\n"
	case 8:
		return ValueAssignment{"pi", RealType{}, Number(3)}, "var ValPi\n"
	default:
		return TypeAssignment{"S", SetType{Components: ComponentTypeList{gComp("a", TypeReference("T2"), 0), gComp("b", IntegerType{}, 2)}}}, "type S\n"
	}
}

func c13Prelude() string {
	s := ""
	for _, a := range gPreludeTypes {
		s += "type " + goName(a.Reference().Name()) + "\n"
	}
	return s + "type T2\n"
}

// goName is the Go name of a short ASN.1 name, written down independently.
func goName(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] == '-' {
			b[i] = '_'
		}
	}
	if b[0] >= 'a' && b[0] <= 'z' {
		b[0] -= 'a' - 'A'
	}
	return string(b)
}

// verif:bound each of 52 types in each of 14 positions, and those again in each position, in a module of 17 types and one of 10 other assignments that need each import; int64, big.Int and the default; a configured or derived package name; names with an arbitrary character
// verif:reach generated
// verif:parts 15
func VerifC13Nest(part int) {
	k := vChoose("kind", gKinds)
	rest := vChoose("rest", 10)
	repr := c14Reprs[(k+rest)%3]
	x := gKind(k, repr)
	if c := vChoose("inner", gCtxs+1); c < gCtxs {
		x = gCtx(c, x, false)
	}
	if part < gCtxs {
		x = gCtx(part, x, false)
	}
	c := vByteIn("module", "a-zA-Z0-9")
	p := GenParams{IntegerRepr: repr}
	pkg := string([]byte{'M', '_', c})
	if rest%2 == 1 {
		p.Package = string([]byte{'p', c})
		pkg = p.Package
	}
	a, w := c13Rest(rest)
	l := append(AssignmentList{a}, gPreludeTypes...)
	l = append(l, TypeAssignment{"T2", BooleanType{}})
	ref, name := gName('x')
	l = append(l, TypeAssignment{TypeReference(name + "Z"), x.t})
	_ = ref
	m := gModule(l...)
	m.ModuleIdentifier.Reference = string([]byte{'M', '-', c})
	c13Check(m, p, pkg, w+c13Prelude()+"type "+name+"Z\n", "a file")
}

// verif:bound SEQUENCE and SET of two components or one component and one addition of any two of 52 types, as they are or as elements; int64 and big.Int
// verif:reach generated
// verif:parts 4
func VerifC13Pair(part int) {
	k1, k2 := vChoose("first", gKinds), vChoose("second", gKinds)
	repr := c14Reprs[(k1+k2)%2]
	x, y := gKind(k1, repr), gKind(k2, repr)
	if part >= 2 {
		y = gt{t: SequenceOfType{y.t}}
	}
	var t Type = SequenceType{Components: ComponentTypeList{gComp("a", x.t, 0), gComp("b", y.t, 1)}}
	if part%2 == 1 {
		t = SetType{Components: ComponentTypeList{gComp("a", x.t, 2)}, ExtensionAdditions: ExtensionAdditions{gComp("b", y.t, 0)}}
	}
	l := append(AssignmentList{TypeAssignment{"X-x", t}}, gPreludeTypes...)
	m := gModule(append(l, TypeAssignment{"T2", BooleanType{}})...)
	c13Check(m, GenParams{IntegerRepr: repr}, "M", "type X_x\n"+c13Prelude(), "two types")
}

// verif:bound modules of any selection of 10 assignments that need each import, in written or reversed order; int64, big.Int and the default
// verif:reach generated
// verif:parts 6
func VerifC13Select(part int) {
	repr := c14Reprs[part%3]
	l := AssignmentList{}
	want := ""
	for i := 0; i < 10; i++ {
		if vChoose("with", 2) == 0 {
			continue
		}
		k := i
		if part >= 3 {
			k = 9 - i
		}
		a, w := c13Rest(k)
		l = append(l, a)
		want += w
	}
	l = append(l, TypeAssignment{"PBool", BooleanType{}}, TypeAssignment{"PChain", TypeReference("PBool")}, TypeAssignment{"T2", TypeReference("GeneralizedTime")})
	c13Check(gModule(l...), GenParams{IntegerRepr: repr}, "M", want+"type PBool\ntype PChain\ntype T2\n", "a selection")
}

// verif:bound module names and configured package names of up to 4 (thorough: 6) arbitrary letters, digits and (module) single hyphens after the first letter; names of an assigned type, a component, a value and a named number of the same form
// verif:reach generated
// verif:parts 5
func VerifC13Names(part int) {
	n := 1 + part%5 // characters after the first
	if part == 4 {
		n = 3 + 2*vTier()
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = vByteIn("c", "a-zA-Z0-9_")
		if i == 0 || i == n-1 {
			vAssume(vOr(i != n-1, b[i] != '_'))
		}
		if i > 0 {
			vAssume(vOr(b[i] != '_', b[i-1] != '_'))
		}
	}
	// hyphens in ASN.1 are underscores in Go
	h := make([]byte, n)
	for i := range h {
		h[i] = byte(vIte(b[i] == '_', '-', int(b[i])))
	}
	g, a := string(b), string(h)
	m := gModule(
		TypeAssignment{TypeReference("S" + a), SequenceType{Components: ComponentTypeList{gComp(Identifier("s"+a), IntegerType{}, 0), gComp(Identifier("r"+a), TypeReference("R"+a), 0)}}},
		TypeAssignment{TypeReference("R" + a), IntegerType{NamedNumberList: []NamedNumber{{Identifier("n" + a), Number(1)}}}},
		ValueAssignment{ValueReference("v" + a), TypeReference("R" + a), Number(7)})
	m.ModuleIdentifier.Reference = "Q" + a
	p := GenParams{}
	pkg := "Q" + g
	if part == 4 {
		p.Package = "q" + g
		pkg = p.Package
	}
	c13Check(m, p, pkg, "type S"+g+"\ntype R"+g+"\nvar R"+g+"ValN"+g+"\nvar ValV"+g+"\n", "names")
}

// verif:bound an empty module, and a module of a single assignment of each of 52 types (references: to themselves excluded) alone, int64, big.Int and the default
// verif:reach generated
// verif:parts 2
func VerifC13Small(part int) {
	repr := c14Reprs[vChoose("repr", 3)]
	if part == 0 {
		c13Check(gModule(), GenParams{IntegerRepr: repr, Package: "p"}, "p", "", "an empty module")
		return
	}
	k := vChoose("kind", gKinds)
	x := gKind(k, repr)
	if r, ok := x.t.(TypeReference); ok {
		vAssume(r == GeneralizedTimeName || r == UTCTimeName)
	}
	vAssume(k != 48 && k != 50 && k != 51) // choices of references
	c13Check(gModule(TypeAssignment{"X", x.t}), GenParams{IntegerRepr: repr}, "M", "type X\n", "a single type")
}

// gWideNames is the order of declared types of a canonical list of them.
func gWideNames(l AssignmentList) string {
	s := ""
	for _, a := range l {
		s += "type " + goName(a.Reference().Name()) + "\n"
	}
	return s
}

// verif:bound each of 14 kinds of types with up to 3 named bits, items, named numbers, components or alternatives and 2 additional ones (thorough: 5 and 3), used as they are or through one or two references with arbitrary names of 1..18 letters and digits in 8 places, in a module of nothing else
// verif:reach generated
// verif:parts 14
func VerifC13Content(part int) {
	m, _ := gWideModule(part, 0)
	text, err := gGenerate(m, GenParams{})
	vAssert(err == nil, "a module: generation fails")
	f, bad := readGo(text, 0)
	vAssert(bad == "", "a module: the output is not a well-formed Go file: "+bad)
	why := f.selfContained()
	vAssert(why == "", "a module: "+why)
	types := &goFile{}
	for _, d := range f.decls {
		if d.kind == "type" {
			types.decls = append(types.decls, d)
		}
	}
	vAssert(c13Names(types) == gWideNames(m.ModuleBody.AssignmentList), "a module: the names declared are not those of the assignments in order")
	vReach("generated")
}
