package asn1go

import (
	"errors"
	"reflect"
	"strings"
)

// c22Writer counts what it is given, and fails once limit bytes were taken.
type c22Writer struct {
	b       []byte
	calls   int
	limit   int // bytes it accepts, or -1
	once    bool
	failed  bool
	partial bool // the part that fits is taken
	failure error
}

func (w *c22Writer) Write(p []byte) (int, error) {
	w.calls++
	if w.limit >= 0 && len(w.b)+len(p) > w.limit && !(w.once && w.failed) {
		w.failed = true
		n := 0
		if w.partial {
			n = w.limit - len(w.b)
			if n < 0 {
				n = 0
			}
			w.b = append(w.b, p[:n]...)
		}
		return n, w.failure
	}
	w.b = append(w.b, p...)
	return len(p), nil
}

func c22Text(g CodeGenerator, m ModuleDefinition) string {
	w := &c22Writer{limit: -1}
	err := g.Generate(m, w)
	if err != nil {
		vAssert(w.calls == 0, "output is written although generation fails")
		return "error " + err.Error()
	}
	return string(w.b)
}

// c22Rich holds what needs imports, chains of references, sets and values.
func c22Rich() AssignmentList {
	return AssignmentList{
		TypeAssignment{"Ra", SequenceType{Components: ComponentTypeList{gComp("a", TypeReference("PTime3"), 0), gComp("b", TypeReference("PBits3"), 1), gComp("c", IntegerType{}, 2)}}},
		ValueAssignment{"i", IntegerType{}, Number(5)},
		TypeAssignment{"Rb", IntegerType{NamedNumberList: []NamedNumber{{"x", Number(1)}, {"y", DefinedValue{ValueName: "i"}}}}},
		ValueAssignment{"r", RealType{}, Real(1.5)},
		TypeAssignment{"Rc", SetOfType{TypeReference("Ra")}},
	}
}

// c22Module is a module with the type between others.
func c22Module(x Type) ModuleDefinition {
	l := append(AssignmentList{}, gPreludeTypes...)
	l = append(l, TypeAssignment{"X", x})
	m := gModule(append(l, c22Rich()...)...)
	m.ModuleBody.Imports = []SymbolsFromModule{{SymbolList: []Symbol{TypeReference("Y")}, Module: GlobalModuleReference{Reference: "N"}}}
	return m
}

func c22Kind(part int, repr IntegerRepr) Type {
	x := gt{t: NullType{}}
	if k := vChoose("kind", gKinds+2); k < gKinds {
		x = gKind(k, repr)
	} else if k == gKinds {
		x.t = TypeReference("Nowhere")
	}
	if part < gCtxs {
		x = gCtx(part, x, true)
	}
	return x.t
}

// verif:bound the module of 22 assignments with each of 52 types or one that makes generation fail, in each of 14 positions; int64 and big.Int; generated by one generator before and after another module, and by two more, with every order in which the entries of a map can be visited; a name with an arbitrary character
// verif:reach generated failed
// verif:parts 15
func VerifC22Repeat(part int) {
	repr := c14Reprs[vChoose("repr", 2)]
	vMapOrder(true)
	x := c22Kind(part, repr)
	m, m2 := c22Module(x), c22Module(x)
	p := GenParams{IntegerRepr: repr, Package: "p"}
	g := NewCodeGenerator(p)
	a := c22Text(g, m)
	other := gModule(TypeAssignment{"X", SequenceType{Components: ComponentTypeList{gComp("a", NullType{}, 0)}}}, TypeAssignment{"P-Seq", BitStringType{}})
	if vChoose("between", 2) == 1 {
		c22Text(g, other)
	}
	b := c22Text(g, m)
	vAssert(a == b, "generating twice with one generator gives different output")
	vAssert(a == c22Text(NewCodeGenerator(p), m), "another generator gives different output")
	vAssert(a == c22Text(NewCodeGenerator(p), m2), "an equal module gives different output")
	vAssert(reflect.DeepEqual(m, m2), "generation changes the module")
	if strings.HasPrefix(a, "error") {
		vReach("failed")
	} else {
		vReach("generated")
	}
}

// verif:bound modules parsed from 4 texts with every construct of the generator, generated twice; the module compared with one parsed again
// verif:reach generated
// verif:parts 4
func VerifC22Parsed(part int) {
	texts := []string{
		"M DEFINITIONS IMPLICIT TAGS ::= BEGIN A ::= SEQUENCE {a [0] B OPTIONAL, b SET {c T, d U DEFAULT 5}, ..., e [APPLICATION 3] INTEGER {x(1),y(v)} (0..9), [[ 2: f C, g D ]]} B ::= SET SIZE (1..MAX) OF T T ::= GeneralizedTime U ::= INTEGER v INTEGER ::= -7 C ::= CHOICE {a T, b [1] BOOLEAN} D ::= CHOICE {z B, ...} END",
		"M-o DEFINITIONS ::= BEGIN IMPORTS X FROM N {iso(1) 2}; A ::= SEQUENCE {a SEQUENCE {b SEQUENCE OF SET OF C, ...}, ..., ..., z C} C ::= [5] EXPLICIT BIT STRING {a(0),b(v)} v INTEGER ::= 3 w REAL ::= -1.5e3 t BOOLEAN ::= TRUE o OBJECT IDENTIFIER ::= {iso 3 v} END",
		"M DEFINITIONS ::= BEGIN A ::= SET {a UTCTime, b A1 DEFAULT 12, c ANY DEFINED BY b, ..., d UTF8String (SIZE (1..5)), e ENUMERATED {a,b(3),...,c}} A1 ::= A2 A2 ::= A3 A3 ::= [PRIVATE 2] INTEGER i REAL ::= PLUS-INFINITY n A1 ::= 7 END",
		"M DEFINITIONS ::= BEGIN A ::= A1 B ::= SEQUENCE {b A1, c BOOLEAN DEFAULT TRUE, d OCTET STRING OPTIONAL} A1 ::= CHOICE {x B2} B2 ::= SEQUENCE OF OBJECT IDENTIFIER C ::= CHOICE {a NumericString, b IA5String, c CHARACTER STRING, ..., d A} END",
	}
	repr := c14Reprs[vChoose("repr", 2)]
	vMapOrder(true)
	m, err := ParseString(texts[part])
	vAssert(err == nil, "fixture")
	m2, _ := ParseString(texts[part])
	vAssert(reflect.DeepEqual(m, m2), "two parses differ")
	p := GenParams{IntegerRepr: repr}
	g := NewCodeGenerator(p)
	a := c22Text(g, *m)
	vAssert(!strings.HasPrefix(a, "error"), "a supported module is not generated")
	vAssert(reflect.DeepEqual(m, m2), "generation changes the module")
	vAssert(a == c22Text(g, *m), "generating twice with one generator gives different output")
	vAssert(a == c22Text(NewCodeGenerator(p), *m2), "another generator gives different output")
	vReach("generated")
}

// c22Bad are types that can not be generated.
func c22Bad(k int) Type {
	switch k {
	case 0:
		return NullType{}
	case 1:
		return TypeReference("Nowhere")
	case 2:
		return SequenceType{Components: ComponentTypeList{gComp("a", BooleanType{}, 0), ComponentsOfComponentType{TypeReference("P-Seq")}}}
	case 3:
		return SetType{ExtensionAdditions: ExtensionAdditions{ComponentsOfComponentType{TypeReference("PSet")}}}
	case 4:
		return SequenceType{Components: ComponentTypeList{gComp("a", TaggedType{Tag: Tag{ClassNumber: DefinedValue{ValueName: "i"}}, Type: BooleanType{}}, 0)}}
	case 5:
		return SequenceOfType{NullType{}}
	case 6:
		return ChoiceType{AlternativeTypeList: []NamedType{{"a", NullType{}}}}
	default:
		return IntegerType{NamedNumberList: []NamedNumber{{"a", DefinedValue{ValueName: "nowhere"}}}}
	}
}

// verif:bound 8 constructs that make generation fail, at top level and in each of 12 positions, at the start, in the middle or at the end of the module of 22 assignments, or as two of them; and an AUTOMATIC or an unknown integer representation
// verif:reach failed
// verif:parts 13
func VerifC22Nothing(part int) {
	x := gt{t: c22Bad(vChoose("bad", 8))}
	if part < 12 {
		x = gCtx(part, x, true)
	}
	rest := append(append(AssignmentList{}, gPreludeTypes...), c22Rich()...)
	bad := TypeAssignment{"X", x.t}
	var l AssignmentList
	switch vChoose("at", 4) {
	case 0:
		l = append(AssignmentList{bad}, rest...)
	case 1:
		l = append(append(append(l, rest[:7]...), bad), rest[7:]...)
	case 2:
		l = append(rest, bad)
	case 3:
		l = append(append(AssignmentList{bad}, rest...), TypeAssignment{"X2", NullType{}})
	}
	m := gModule(l...)
	p := GenParams{}
	switch vChoose("options", 4) {
	case 1:
		m.TagDefault = TAGS_AUTOMATIC
	case 2:
		p.IntegerRepr = "int32"
	case 3:
		p.IntegerRepr = IntegerReprBigInt
	}
	w := &c22Writer{limit: -1}
	err := NewCodeGenerator(p).Generate(m, w)
	vAssume(err != nil) // which modules fail is another property
	vAssert(w.calls == 0, "output is written although generation fails")
	vReach("failed")
}

// verif:bound a destination that takes any number of bytes less than the output and then fails, once or for good, taking the part that fits or nothing; outputs of 5 modules of up to 9 assignments
// verif:reach failed
// verif:parts 5
func VerifC22Full(part int) {
	var m ModuleDefinition
	switch part {
	case 0:
		m = gModule()
	case 1:
		m = gModule(TypeAssignment{"A", BooleanType{}})
	case 2:
		m = gModule(c22Rich()[1:3]...)
	case 3:
		m = gModule(TypeAssignment{"A", SequenceType{Components: ComponentTypeList{gComp("a", BitStringType{}, 0), gComp("bb", SequenceType{}, 1)}}})
	case 4:
		m = gModule(c22Rich()[3:]...)
		m.ModuleBody.AssignmentList = append(m.ModuleBody.AssignmentList, gPreludeTypes[0], TypeAssignment{"Ra", SetType{}}, gPreludeTypes[7], gPreludeTypes[8], TypeAssignment{"Rd", TypeReference("UTCTime")})
	}
	p := GenParams{IntegerRepr: c14Reprs[vChoose("repr", 2)]}
	full := &c22Writer{limit: -1}
	err := NewCodeGenerator(p).Generate(m, full)
	vAssert(err == nil && len(full.b) > 9, "a supported module is not generated")
	w := &c22Writer{failure: errors.New("no space left")}
	w.limit = vInt("taken", 0, len(full.b)-1)
	w.once = vChoose("once", 2) == 1
	w.partial = vChoose("partial", 2) == 1
	err = NewCodeGenerator(p).Generate(m, w)
	vReach("failed")
	vAssert(err != nil, "the destination does not accept the output, but no error is reported")
	vAssert(strings.Contains(err.Error(), "no space left"), "the error is not the one of the destination")
	if w.partial {
		vAssert(strings.HasPrefix(string(full.b), string(w.b[:vConcrete(w.limit)])), "other output is written than without the failure")
	}
}

// verif:bound two modules of the same name that define the same names as other types (every pair of 7 definitions of two names; in the same or reversed order), generated one after the other and again by the same and by another generator; int64 and big.Int: each has the output that follows from it alone
// verif:reach generated
// verif:parts 2
func VerifC22Stale(part int) {
	repr := c14Reprs[part]
	defs := []gt{
		{t: BitStringType{}, w: "asn1.BitString"},
		{t: TypeReference("UTCTime"), w: "time.Time"},
		{t: IntegerType{}},
		{t: SetOfType{BooleanType{}}, set: true},
		{t: TaggedType{Tag: Tag{ClassNumber: Number(1)}, Type: BooleanType{}}, opt: "tagged"},
		{t: TypeReference("GeneralizedTime"), w: "time.Time"},
		{t: RealType{}},
	}
	module := func(k int) (ModuleDefinition, string) {
		d := defs[k]
		l := AssignmentList{
			TypeAssignment{"A", SequenceType{Components: ComponentTypeList{gComp("a", TypeReference("B"), 0)}}},
			TypeAssignment{"B", ConstraintedType{Type: TypeReference("C"), Constraint: gSize}},
			TypeAssignment{"C", d.t},
			TypeAssignment{"D", ChoiceType{AlternativeTypeList: []NamedType{{"a", TypeReference("B")}, {"b", BooleanType{}}}}},
		}
		b, c := "B", d.w
		if d.w != "" {
			b = d.w
		} else {
			c = []string{"", "", gInt(repr), "set []bool", "bool", "", "float64"}[k]
		}
		cd := b
		if b == "B" {
			cd = "C"
		}
		ch := "interface{}"
		if d.opt != "" {
			ch = "asn1.RawValue"
		}
		tag := []string{"", " utc", "", "", "", " generalized", ""}[k]
		want := []string{"A struct{A " + b + tag + ";}\n", "B " + cd + "\n", "C " + c + "\n", "D " + ch + "\n"}
		if k%2 == 1 {
			l[0], l[1], l[2], l[3] = l[3], l[2], l[1], l[0]
			want[0], want[1], want[2], want[3] = want[3], want[2], want[1], want[0]
		}
		return ModuleDefinition{ModuleIdentifier: ModuleIdentifier{Reference: "M"}, ModuleBody: ModuleBody{AssignmentList: l}, TagDefault: TAGS_IMPLICIT}, strings.Join(want, "")
	}
	p := GenParams{IntegerRepr: repr}
	g := NewCodeGenerator(p)
	for i := 0; i < 3; i++ {
		if i == 2 {
			g = NewCodeGenerator(p)
		}
		m, want := module(vChoose("module", 7))
		text := c22Text(g, m)
		f, bad := readGo(text, 0)
		vAssert(bad == "", "the output is not a well-formed Go file")
		vAssert(f.selfContained() == "", "the output depends on what was generated before")
		vAssert(f.show() == want, "the output depends on what was generated before")
	}
	vReach("generated")
}
