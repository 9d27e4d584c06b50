package asn1go

import (
	"math"
	"strconv"
	"strings"
)

// c20Int reads an integer expression: a literal, or big.NewInt of one under the
// big.Int representation.
func c20Int(s string, repr IntegerRepr) (int64, bool) {
	if repr == IntegerReprBigInt {
		if !strings.HasPrefix(s, "big.NewInt(") || s[len(s)-1] != ')' {
			return 0, false
		}
		s = s[len("big.NewInt(") : len(s)-1]
	}
	neg := len(s) > 0 && s[0] == '-'
	if neg {
		s = s[1:]
	}
	if len(s) == 0 || len(s) > 1 && s[0] == '0' {
		return 0, false
	}
	n := uint64(0)
	for i := 0; i < len(s); i++ {
		if !isGoDigit(s[i]) {
			return 0, false
		}
		n = n*10 + uint64(s[i]-'0')
	}
	if neg {
		n = -n
	}
	return int64(n), true
}

func c20Find(f *goFile, kind, name string) *goDecl {
	for i := range f.decls {
		if f.decls[i].kind == kind && f.decls[i].name == name {
			return &f.decls[i]
		}
	}
	return nil
}

func c20Gen(m ModuleDefinition, repr IntegerRepr, what string) *goFile {
	text, err := gGenerate(m, GenParams{IntegerRepr: repr})
	vAssert(err == nil, what+": generation fails")
	f, bad := readGo(text, 0)
	vAssert(bad == "", what+": the output is not a well-formed Go file")
	return f
}

// verif:bound INTEGER values: every int64, under int64, big.Int and the default representation; typed INTEGER, with named numbers, tagged, constrained, or by 1 or 2 references
// verif:reach generated
// verif:parts 5
func VerifC20Integer(part int) {
	repr := c14Reprs[vChoose("repr", 3)]
	n := vInt("value", math.MinInt64, math.MaxInt64)
	var t Type = IntegerType{}
	w := gInt(repr)
	switch part {
	case 1:
		t = IntegerType{NamedNumberList: []NamedNumber{{"a", Number(1)}}}
	case 2:
		t = ConstraintedType{Type: TaggedType{Tag: Tag{ClassNumber: Number(1)}, Type: t}, Constraint: gSize}
	case 3:
		t, w = TypeReference("T-i"), "T_i"
	case 4:
		t, w = ConstraintedType{Type: TypeReference("Ti2"), Constraint: gSize}, "Ti2"
	}
	f := c20Gen(gModule(TypeAssignment{"Ti2", TypeReference("T-i")}, ValueAssignment{"v", t, Number(n)}, TypeAssignment{"T-i", IntegerType{}}), repr, "an INTEGER value")
	d := c20Find(f, "var", "ValV")
	vAssert(d != nil && d.typ == w, "a value does not have the mapped type")
	got, ok := c20Int(d.val, repr)
	vAssert(ok && int(got) == n, "a value is not the assigned one")
	vAssert(len(f.decls) == 3 && f.decls[0].name == "Ti2" && f.decls[1].name == "ValV" && f.decls[2].name == "T_i", "the declarations are not the prescribed ones")
	vAssert(f.selfContained() == "", "the file is not self-contained")
	vReach("generated")
}

var c20Limits = []int{math.MaxInt64, math.MinInt64, math.MinInt64 + 1, math.MaxInt32, math.MaxInt32 + 1, math.MinInt32, 0, -1, 255, 1000000000000000000, -1000000000000000000}

// verif:bound the limits of int64 and int32 and other single numbers as value, named number and REAL value
// verif:reach generated
// verif:parts 11
func VerifC20Limits(part int) {
	repr := c14Reprs[vChoose("repr", 3)]
	n := c20Limits[part]
	lit := strconv.Itoa(n)
	want := lit
	if repr == IntegerReprBigInt {
		want = "big.NewInt(" + lit + ")"
	}
	m := gModule(
		ValueAssignment{"r", RealType{}, Number(n)},
		TypeAssignment{"T", IntegerType{NamedNumberList: []NamedNumber{{"a-b", Number(n)}}}},
		ValueAssignment{"v", IntegerType{}, Number(n)},
		ValueAssignment{"t", TypeReference("Re"), Number(n)},
		TypeAssignment{"Re", ConstraintedType{Type: TypeReference("Re2"), Constraint: gSize}},
		TypeAssignment{"Re2", RealType{}},
	)
	gCheck(m, GenParams{IntegerRepr: repr}, 0, "var ValR float64="+lit+"\nT "+gInt(repr)+"\nvar TValA_b T="+want+"\nvar ValV "+gInt(repr)+"="+want+"\nvar ValT Re="+lit+"\nRe Re2\nRe2 float64\n", "a limit")
	vReach("generated")
}

var c20Reals = []float64{0, 0.5, -0.5, 1, -1, 1.5, 3.14159, 0.1, 1e20, 1e21, -1e21, 1e-5, 1e-6, 123456789.125, 1e100, -2.5e-100, math.MaxFloat64, math.SmallestNonzeroFloat64, 4503599627370497.5, 1.0 / 3}

// verif:bound 20 REAL values, and every multiple of 0.25 between -1024 and 1024 (thorough), the infinities, TRUE and FALSE; typed directly, tagged or by reference; both representations
// verif:reach generated
// verif:parts 4
func VerifC20RealBoolean(part int) {
	repr := c14Reprs[vChoose("repr", 3)]
	wrap := vChoose("wrap", 3)
	var t Type = RealType{}
	w := "float64"
	if part == 3 {
		t, w = BooleanType{}, "bool"
	}
	switch wrap {
	case 1:
		t = TaggedType{Tag: Tag{ClassNumber: Number(1)}, Type: t}
	case 2:
		t, w = TypeReference("R-r"), "R_r"
		if part == 3 {
			t, w = TypeReference("Bb"), "Bb"
		}
	}
	var v Value
	x := 0.0
	switch part {
	case 0:
		x = c20Reals[vChoose("real", len(c20Reals))]
		v = Real(x)
	case 1:
		x = 0.25
		if vTier() == 1 {
			x = float64(vChoose("quarters", 256)) * 0.25
			x += float64(vChoose("more", 4)) * 64
		}
		if vChoose("neg", 2) == 1 {
			x = -x
		}
		v = Real(x)
	case 2:
		x = math.Inf(1 - 2*vChoose("neg", 2))
		v = Real(x)
	case 3:
		v = Boolean(vChoose("true", 2) == 1)
	}
	f := c20Gen(gModule(ValueAssignment{"v", t, v}, TypeAssignment{"R-r", RealType{}}, TypeAssignment{"Bb", BooleanType{}}), repr, "a value")
	d := c20Find(f, "var", "ValV")
	vAssert(d != nil && d.typ == w, "a value does not have the mapped type")
	switch {
	case part == 3:
		vAssert(d.val == strconv.FormatBool(bool(v.(Boolean))), "a value is not the assigned one")
	case part == 2:
		vAssert(d.val == "math.Inf(1)" && x > 0 || d.val == "math.Inf(-1)" && x < 0, "a value is not the assigned one")
	default:
		y, err := strconv.ParseFloat(d.val, 64)
		vAssert(err == nil && y == x, "a value is not the assigned one")
	}
	vAssert(len(f.decls) == 3 && f.selfContained() == "", "the file is not self-contained")
	vReach("generated")
}

// verif:bound INTEGER types with 0..4 named numbers of arbitrary names, each an arbitrary number of up to 5 digits or a reference to one of two values, under 0..2 tags and constraints; both representations
// verif:reach generated
// verif:parts 5
func VerifC20Named(part int) {
	repr := c14Reprs[vChoose("repr", 2)]
	var l []NamedNumber
	nums := make([]int, part)
	isRef := make([]int, part)
	names := make([]string, part)
	for i := 0; i < part; i++ {
		id, g := gName(byte('a' + i))
		names[i] = g
		isRef[i] = vChoose("reference", 3)
		if isRef[i] == 0 {
			if i < 2 {
				nums[i] = vInt("number", -99999, 99999)
			} else {
				nums[i] = []int{7, -12, 0}[i%3]
			}
			l = append(l, NamedNumber{id, Number(nums[i])})
		} else {
			l = append(l, NamedNumber{id, DefinedValue{ValueName: []ValueReference{"", "x-y", "zz"}[isRef[i]]}})
		}
	}
	t := c18Wrap20(IntegerType{NamedNumberList: l}, vChoose("wrap", 4))
	f := c20Gen(gModule(ValueAssignment{"x-y", IntegerType{}, Number(8)}, TypeAssignment{"Na-me", t}, ValueAssignment{"zz", TypeReference("Na-me"), Number(9)}), repr, "named numbers")
	vAssert(len(f.decls) == 3+part, "the declarations are not the prescribed ones")
	vAssert(f.decls[0].name == "ValX_y" && f.decls[1].name == "Na_me" && f.decls[1].typ == gInt(repr) && f.decls[2+part].name == "ValZz", "the declarations are not the prescribed ones")
	for i := 0; i < part; i++ {
		d := f.decls[2+i]
		vAssert(d.kind == "var" && d.name == "Na_meVal"+names[i] && d.typ == "Na_me", "a named number does not have its variable")
		switch isRef[i] {
		case 0:
			got, ok := c20Int(d.val, repr)
			vAssert(ok && int(got) == nums[i], "a named number does not have its value")
		case 1:
			vAssert(d.val == "ValX_y", "a named number does not refer to its value")
		case 2:
			vAssert(d.val == "ValZz", "a named number does not refer to its value")
		}
	}
	vAssert(f.selfContained() == "", "the file is not self-contained")
	vReach("generated")
}

func c18Wrap20(t Type, how int) Type {
	switch how {
	case 1:
		return TaggedType{Tag: Tag{ClassNumber: Number(1)}, Type: t}
	case 2:
		return ConstraintedType{Type: t, Constraint: gSize}
	case 3:
		return ConstraintedType{Type: TaggedType{Tag: Tag{ClassNumber: Number(1)}, Type: t}, Constraint: gSize}
	}
	return t
}

// verif:bound values of five other kinds between two values that are generated: they generate nothing; a named number that refers to another module, or to nothing, is an error, at each of 3 places
// verif:reach done
// verif:parts 8
func VerifC20Others(part int) {
	repr := c14Reprs[vChoose("repr", 3)]
	if part < 5 {
		v := []Value{ObjectIdentifierValue{{Name: "iso", ID: 1}}, ObjectIdentifierValue{}, IdentifiedIntegerValue{Name: "x"}, DefinedValue{ValueName: "a"}, DefinedValue{ModuleName: "M2", ValueName: "a"}}[part]
		t := []Type{ObjectIdentifierType{}, IntegerType{}, TypeReference("T"), EnumeratedType{}, TaggedType{Tag: Tag{ClassNumber: Number(1)}, Type: RealType{}}}[vChoose("type", 5)]
		_, name := gName('c')
		want := "ValA int64=1"
		if repr == IntegerReprBigInt {
			want = "ValA *big.Int=big.NewInt(1)"
		}
		gCheck(gModule(ValueAssignment{"a", IntegerType{}, Number(1)}, ValueAssignment{ValueReference(name), t, v}, ValueAssignment{"b", BooleanType{}, Boolean(true)}, TypeAssignment{"T", ObjectIdentifierType{}}), GenParams{IntegerRepr: repr}, 0, "var "+want+"\nvar ValB bool=true\nT asn1.ObjectIdentifier\n", "another value")
		vReach("done")
		return
	}
	v := []DefinedValue{{ModuleName: "M2", ValueName: "a"}, {ValueName: "nn"}, {ModuleName: "M2", ValueName: "nn"}}[part-5]
	l := []NamedNumber{{"x", Number(1)}, {"y", DefinedValue{ValueName: "a"}}}
	i := vChoose("at", 3)
	l = append(append(append([]NamedNumber{}, l[:i]...), NamedNumber{"bad", v}), l[i:]...)
	t := c18Wrap20(IntegerType{NamedNumberList: l}, vChoose("wrap", 4))
	text, err := gGenerate(gModule(ValueAssignment{"a", IntegerType{}, Number(1)}, TypeAssignment{"T", t}), GenParams{IntegerRepr: repr})
	vAssert(err != nil && text == "", "a number of another module is accepted")
	vReach("done")
}
