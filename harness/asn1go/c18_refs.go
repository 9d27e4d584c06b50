package asn1go

import (
	"strconv"
	"strings"
)

var c18Names = []string{"Ca", "C-b", "Cc", "Cd", "Ce", "Cf"}
var c18Go = []string{"Ca", "C_b", "Cc", "Cd", "Ce", "Cf"}

func c18Wrap(t Type, how int) Type {
	switch how {
	case 1:
		return TaggedType{Tag: Tag{ClassNumber: Number(1)}, Type: t}
	case 2:
		return ConstraintedType{Type: t, Constraint: gCons(2)}
	case 3:
		return ConstraintedType{Type: TaggedType{Tag: Tag{Class: CLASS_PRIVATE, ClassNumber: Number(1)}, TagType: TAGS_IMPLICIT, HasTagType: true, Type: t}, Constraint: gSize}
	}
	return t
}

// c18Chain is n assignments, each of a wrapped reference to the next one, the
// last one of type end; in the written order, reversed, or interleaved.
func c18Chain(n int, end Type, order int) AssignmentList {
	l := make(AssignmentList, n)
	for i := range l {
		t := end
		if i < n-1 {
			t = TypeReference(c18Names[i+1])
		}
		how := 0
		if i == 0 || i == n-1 {
			how = vChoose("wrap", 4)
		} else {
			how = (i*3 + n) % 4
		}
		l[i] = TypeAssignment{TypeReference(c18Names[i]), c18Wrap(t, how)}
	}
	switch order {
	case 1:
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
	case 2:
		r := AssignmentList{}
		for i := 1; i < n; i += 2 {
			r = append(r, l[i])
		}
		for i := 0; i < n; i += 2 {
			r = append(r, l[i])
		}
		l = r
	}
	return l
}

// c18Use is an assignment to Use in which the reference is used in place.
func c18Use(ref Type, place int, w string) (Assignment, string) {
	switch place {
	case 0:
		return TypeAssignment{"Use", ref}, w
	case 1:
		return TypeAssignment{"Use", SequenceType{Components: ComponentTypeList{gComp("x", BooleanType{}, 1), gComp("a", ref, 0)}}}, "struct{X bool;A " + w + ";}"
	case 2:
		return TypeAssignment{"Use", SetType{ExtensionAdditions: ExtensionAdditions{gComp("a", TaggedType{Tag: Tag{ClassNumber: Number(1)}, Type: ref}, 1)}}}, "struct{A " + w + ";}"
	case 3:
		return TypeAssignment{"Use", ConstraintedType{Type: SequenceOfType{ref}, Constraint: gSize}}, "[]" + w
	case 4:
		return TypeAssignment{"Use", SequenceOfType{SequenceType{Components: ComponentTypeList{gComp("a", SetOfType{ConstraintedType{Type: ref, Constraint: gSize}}, 0)}}}}, "[]struct{A []" + w + ";}"
	case 5:
		return TypeAssignment{"Use", ChoiceType{AlternativeTypeList: []NamedType{{"a", ConstraintedType{Type: ref, Constraint: gSize}}}}}, w
	case 6:
		return TypeAssignment{"Use", ChoiceType{AlternativeTypeList: []NamedType{{"a", BooleanType{}}, {"b", ref}}}}, "interface{}"
	case 7:
		return TypeAssignment{"Use", ChoiceType{AlternativeTypeList: []NamedType{{"a", BooleanType{}}}, ExtensionTypes: []ChoiceExtension{NamedType{"b", ref}}}}, "interface{}"
	case 8:
		return ValueAssignment{"use", ref, Number(5)}, ""
	}
	return ValueAssignment{"use", ConstraintedType{Type: ref, Constraint: gSize}, Boolean(true)}, ""
}

func c18Run(l AssignmentList, use Assignment, first bool, imports ...Symbol) (string, error) {
	if first {
		l = append(AssignmentList{use}, l...)
	} else {
		l = append(append(AssignmentList{}, l...), use)
	}
	m := gModule(l...)
	if len(imports) > 0 {
		m.ModuleBody.Imports = append(m.ModuleBody.Imports, SymbolsFromModule{SymbolList: imports, Module: GlobalModuleReference{Reference: "N"}})
	}
	return gGenerate(m, GenParams{})
}

// verif:bound chains of 1..6 references, with tags and constraints on the way, in three orders of assignments, that end in a bit string, a time or another type; used in 8 places before or after the chain
// verif:reach generated
// verif:parts 8
func VerifC18Resolved(part int) {
	n := 1 + vChoose("length", 6)
	ends := []struct {
		t Type
		w string
	}{{BitStringType{}, "asn1.BitString"}, {TypeReference("GeneralizedTime"), "time.Time"}, {BooleanType{}, ""}, {SequenceType{}, ""}, {TypeReference("UTCTime"), "time.Time"}}
	end := ends[vChoose("end", 5)]
	w := end.w
	if w == "" {
		w = c18Go[0]
	}
	l := c18Chain(n, end.t, vChoose("order", 3))
	use, want := c18Use(TypeReference(c18Names[0]), part, w)
	if part >= 5 {
		// a tagged alternative is a raw value
		for _, a := range l {
			t := a.(TypeAssignment).Type
			if c, ok := t.(ConstraintedType); ok {
				t = c.Type
			}
			if _, ok := t.(TaggedType); ok {
				want = "asn1.RawValue"
			}
		}
	}
	text, err := c18Run(l, use, vChoose("first", 2) == 1)
	vAssert(err == nil, "a chain of references: generation fails")
	f, bad := readGo(text, noTags|noSets)
	vAssert(bad == "", "a chain of references: the output is not a well-formed Go file")
	got := ""
	for _, d := range f.decls {
		if d.name == "Use" && d.of != "UseSET" || d.name == "UseSET" {
			got = d.typ
		}
	}
	vAssert(got == want, "a reference is not resolved through the chain")
	if end.w != "" {
		for i := 0; i < n; i++ {
			for _, d := range f.decls {
				vAssert(d.name != c18Go[i] || d.typ == end.w, "a reference of the chain is not resolved")
			}
		}
	}
	vReach("generated")
}

func c18Names2(err error, undefined string) bool {
	if strings.Contains(err.Error(), undefined) {
		return true
	}
	for _, n := range c18Names {
		if strings.Contains(err.Error(), n) {
			return true
		}
	}
	return false
}

// verif:bound chains of 0..5 references with tags and constraints that end in a reference of an arbitrary three-letter name that is not defined, imported or not; used in 10 places, or by nothing but the chain; three orders
// verif:reach failed
// verif:parts 11
func VerifC18Undefined(part int) {
	name := string([]byte{vByteIn("name", "A-BD-Z"), vByteIn("name", "a-zA-Z0-9"), vByteIn("name", "a-z0-9")})
	n := vChoose("length", 6)
	var l AssignmentList
	ref := TypeReference(name)
	vAssume(name != "Use")
	if n > 0 {
		l = c18Chain(n, TypeReference(name), vChoose("order", 3))
		ref = TypeReference(c18Names[0])
	}
	var use Assignment = TypeAssignment{"Use", BooleanType{}}
	if part < 10 {
		use, _ = c18Use(ref, part, "")
	} else {
		vAssume(n > 0)
	}
	var imports []Symbol
	switch vChoose("imported", 3) {
	case 1:
		imports = []Symbol{ValueReference("v"), TypeReference(name)}
	case 2:
		imports = []Symbol{ModuleReference(name)}
	}
	text, err := c18Run(l, use, vChoose("first", 2) == 1, imports...)
	vAssert(err != nil, "an undefined reference is accepted")
	vAssert(text == "", "output is written for an undefined reference")
	vAssert(c18Names2(err, name), "the error does not name a reference")
	vReach("failed")
}

// verif:bound cycles of 1..4 references with tags and constraints, reached through 0..2 others; used in 10 places, or by nothing else; three orders
// verif:reach failed
// verif:parts 11
func VerifC18Circular(part int) {
	tail := vChoose("tail", 3)
	n := tail + 1 + vChoose("cycle", 4)
	l := c18Chain(n, TypeReference(c18Names[tail]), vChoose("order", 3))
	var use Assignment = TypeAssignment{"Use", BooleanType{}}
	if part < 10 {
		use, _ = c18Use(TypeReference(c18Names[vChoose("entry", 2)*(n-1)]), part, "")
	}
	text, err := c18Run(l, use, vChoose("first", 2) == 1)
	vAssert(err != nil, "a circular reference is accepted")
	vAssert(text == "", "output is written for a circular reference")
	vReach("failed")
}

// verif:bound types that contain themselves as component or alternative, directly or through another type and 0..1 references, terminate
// verif:reach generated
func VerifC18Recursive(part int) {
	var l AssignmentList
	a := Type(TypeReference("B1"))
	if vChoose("direct", 2) == 1 {
		a = TypeReference("A1")
	}
	mk := func(t Type) Type {
		switch vChoose("how", 4) {
		case 0:
			return SequenceType{Components: ComponentTypeList{gComp("x", t, 1)}}
		case 1:
			return SetType{ExtensionAdditions: ExtensionAdditions{gComp("x", SequenceOfType{t}, 1)}}
		case 2:
			return ChoiceType{AlternativeTypeList: []NamedType{{"a", t}, {"b", SequenceOfType{t}}}}
		default:
			return ChoiceType{AlternativeTypeList: []NamedType{{"a", TaggedType{Tag: Tag{ClassNumber: Number(1)}, Type: t}}, {"b", t}}}
		}
	}
	l = append(l, TypeAssignment{"A1", mk(a)}, TypeAssignment{"B1", TypeReference("C1")}, TypeAssignment{"C1", mk(TypeReference("A1"))})
	_, err := gGenerate(gModule(l...), GenParams{})
	vAssert(err == nil, "a recursive type: generation fails")
	vReach("generated")
}

// verif:bound chains of every length from 5 to 64 (thorough: 204) references, in the written order or reversed, that end in a bit string, a time, another type, an undefined one or at any of four places of the chain itself
// verif:reach done
// verif:parts 8
// verif:steps 30000000
func VerifC18Long(part int) {
	n := gLongLength()
	ends := []Type{BitStringType{}, TypeReference("UTCTime"), SequenceType{}, TypeReference("Nowhere"), TypeReference("L0"), TypeReference("L" + strconv.Itoa(n-1)), TypeReference("L" + strconv.Itoa(n/2)), TypeReference("L1")}
	l := gLong(n, ends[part], -1, vChoose("reverse", 2) == 1)
	l = append(l, TypeAssignment{"Use", SequenceType{Components: ComponentTypeList{gComp("a", TypeReference("L0"), 0)}}})
	text, err := gGenerate(gModule(l...), GenParams{})
	vReach("done")
	if part >= 3 {
		vAssert(err != nil, "a long chain without an end is accepted")
		vAssert(text == "", "output is written for a chain without an end")
		return
	}
	vAssert(err == nil, "a long chain of references: generation fails")
	f, bad := readGo(text, noTags|noSets)
	vAssert(bad == "", "a long chain of references: the output is not a well-formed Go file")
	d := f.decls[len(f.decls)-1]
	vAssert(d.name == "Use" && d.typ == "struct{A "+[]string{"asn1.BitString", "time.Time", "L0"}[part]+";}", "a reference is not resolved through a long chain")
}
