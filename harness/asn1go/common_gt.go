package asn1go

import "strconv"

// gt is an ASN.1 type, the Go type it must generate (w), whether it is itself a
// set (set), and the tag options encoding/asn1 needs for its own kind (opt).
type gt struct {
	t   Type
	w   string
	set bool
	opt string
}

var gStrings = []struct {
	t   int
	opt string
}{{BMPString, ""}, {GeneralString, ""}, {GraphicString, ""}, {IA5String, " ia5"}, {ISO646String, ""}, {NumericString, " numeric"}, {PrintableString, ""}, {TeletexString, ""}, {T61String, ""}, {UniversalString, ""}, {UTF8String, " utf8"}, {VideotexString, ""}, {VisibleString, ""}}

// gPrelude are the types the references of gKind lead to, with what they generate.
var gPreludeTypes = AssignmentList{
	TypeAssignment{"PBits3", ConstraintedType{Type: TypeReference("PBits2"), Constraint: gSize}},
	TypeAssignment{"PTime3", TypeReference("PTime2")},
	TypeAssignment{"PBool", BooleanType{}},
	TypeAssignment{"PChain", TypeReference("PBool")},
	TypeAssignment{"PTime", TypeReference("GeneralizedTime")},
	TypeAssignment{"PTime2", TaggedType{Tag: Tag{Class: CLASS_APPLICATION, ClassNumber: Number(9)}, Type: TypeReference("PTime")}},
	TypeAssignment{"PUtc", ConstraintedType{Type: TypeReference("UTCTime"), Constraint: gSize}},
	TypeAssignment{"PBits", BitStringType{}},
	TypeAssignment{"PBits2", TaggedType{Tag: Tag{ClassNumber: Number(7)}, Type: TypeReference("PBits")}},
	TypeAssignment{"P-Seq", SequenceType{}},
	TypeAssignment{"PSet", SetType{}},
	TypeAssignment{"PSet2", TypeReference("PSet")},
	TypeAssignment{"PTagged", TaggedType{Tag: Tag{ClassNumber: Number(5)}, Type: BooleanType{}}},
	TypeAssignment{"PUtc2", TypeReference("PUtc")},
	TypeAssignment{"PSeqOf", SequenceOfType{BitStringType{}}},
	TypeAssignment{"PIA5", RestrictedStringType{IA5String}},
}

const gPreludeWant = "PBits3 asn1.BitString\nPTime3 time.Time\nPBool bool\nPChain PBool\nPTime time.Time\nPTime2 time.Time\nPUtc time.Time\nPBits asn1.BitString\nPBits2 asn1.BitString\nP_Seq struct{}\nPSet struct{}\nPSet2 PSet\nPTagged bool\nPUtc2 time.Time\nPSeqOf []asn1.BitString\nPIA5 string\n"

var gSize = Constraint{ConstraintSpec: SubtypeConstraint{Unions{Intersections{IntersectionElements{Elements: SizeConstraint{}}}}}}

var gRefs = []gt{
	{TypeReference("GeneralizedTime"), "time.Time", false, " generalized"},
	{TypeReference("UTCTime"), "time.Time", false, " utc"},
	{TypeReference("PBits3"), "asn1.BitString", false, ""},
	{TypeReference("PTime3"), "time.Time", false, " generalized"},
	{TypeReference("PBool"), "PBool", false, ""},
	{TypeReference("PChain"), "PChain", false, ""},
	{TypeReference("PTime"), "time.Time", false, " generalized"},
	{TypeReference("PTime2"), "time.Time", false, " generalized"},
	{TypeReference("PUtc"), "time.Time", false, " utc"},
	{TypeReference("PBits"), "asn1.BitString", false, ""},
	{TypeReference("P-Seq"), "P_Seq", false, ""},
	{TypeReference("PSet"), "PSet", false, ""},
	{TypeReference("PSet2"), "PSet2", false, ""},
	{TypeReference("PTagged"), "PTagged", false, ""},
	{TypeReference("PUtc2"), "time.Time", false, " utc"},
	{TypeReference("PSeqOf"), "PSeqOf", false, ""},
	{TypeReference("PIA5"), "PIA5", false, ""},
}

func gInt(repr IntegerRepr) string {
	if repr == IntegerReprBigInt {
		return "*big.Int"
	}
	return "int64"
}

const gKinds = 13 + 14 + 17 + 8

// gKind is type number k under the given integer representation; names in it
// are of the form letter, arbitrary character.
func gKind(k int, repr IntegerRepr) gt {
	if k < 13 {
		return gt{t: RestrictedStringType{gStrings[k].t}, w: "string", opt: gStrings[k].opt}
	}
	k -= 13
	if k < 17 {
		return gRefs[k]
	}
	switch k - 17 {
	case 0:
		return gt{t: BooleanType{}, w: "bool"}
	case 1:
		return gt{t: IntegerType{}, w: gInt(repr)}
	case 2:
		return gt{t: RealType{}, w: "float64"}
	case 3:
		return gt{t: OctetStringType{}, w: "[]byte"}
	case 4:
		return gt{t: BitStringType{}, w: "asn1.BitString"}
	case 5:
		return gt{t: BitStringType{NamedBits: []NamedBit{{"b", Number(3)}}}, w: "asn1.BitString"}
	case 6:
		return gt{t: ObjectIdentifierType{}, w: "asn1.ObjectIdentifier"}
	case 7:
		return gt{t: CharacterStringType{}, w: "string"}
	case 8:
		return gt{t: AnyType{}, w: "interface{}"}
	case 9:
		return gt{t: AnyType{Identifier: "x"}, w: "interface{}"}
	case 10:
		return gt{t: EnumeratedType{RootEnumeration: []EnumerationItem{Identifier("r"), NamedNumber{"g", Number(2)}}}, w: "asn1.Enumerated"}
	case 11:
		return gt{t: EnumeratedType{}, w: "asn1.Enumerated"}
	case 12:
		return gt{t: SequenceType{}, w: "struct{}"}
	case 13:
		return gt{t: SetType{}, w: "struct{}", set: true, opt: " set"}
	case 14:
		return gt{t: SequenceOfType{BooleanType{}}, w: "[]bool"}
	case 15:
		return gt{t: SetOfType{OctetStringType{}}, w: "[][]byte", set: true, opt: " set"}
	case 16:
		return gt{t: ChoiceType{AlternativeTypeList: []NamedType{{"a", BooleanType{}}, {"b", SetType{}}}}, w: "interface{}"}
	case 17:
		return gt{t: ChoiceType{AlternativeTypeList: []NamedType{{"a", BooleanType{}}, {"b", TaggedType{Tag: Tag{ClassNumber: Number(1)}, Type: NullType{}}}}}, w: "asn1.RawValue"}
	case 18:
		return gt{t: ChoiceType{AlternativeTypeList: []NamedType{{"a", TypeReference("PTagged")}}}, w: "asn1.RawValue"}
	case 19:
		return gt{t: ChoiceType{ExtensionTypes: []ChoiceExtension{NamedType{"a", RealType{}}}}, w: "float64"}
	case 20:
		return gt{t: ChoiceType{AlternativeTypeList: []NamedType{{"a", TypeReference("P-Seq")}}}, w: "P_Seq"}
	default:
		return gt{t: ChoiceType{AlternativeTypeList: []NamedType{{"a", TypeReference("PTime3")}, {"b", ObjectIdentifierType{}}}, ExtensionTypes: []ChoiceExtension{NamedType{"c", SequenceType{}}}}, w: "asn1.RawValue"}
	}
}

// gName is an identifier that starts with first, followed by an arbitrary
// character, and the exported Go name it becomes.
func gName(first byte) (Identifier, string) {
	b := vByteIn("name", "a-zA-Z0-9")
	return Identifier(string([]byte{first, b})), string([]byte{first - 'a' + 'A', b})
}

func gComp(id Identifier, t Type, opt int) NamedComponentType {
	c := NamedComponentType{NamedType: NamedType{id, t}}
	switch opt {
	case 1:
		c.IsOptional = true
	case 2:
		v := Value(Number(5))
		c.Default = &v
	}
	return c
}

const gCtxs = 14

// gCtx is a type that contains x. Options of the tags of its fields are in the
// canonical type only when tags is true.
func gCtx(c int, x gt, tags bool) gt {
	n1, w1 := gName('a')
	n2, w2 := gName('b')
	o := x.opt
	oo := " optional"
	if !tags {
		o, oo = "", ""
	}
	switch c {
	case 0:
		option := vChoose("option", 3)
		if tags && option > 0 {
			o += []string{"", " optional", " default:5 optional"}[option]
		}
		return gt{t: SequenceType{Components: ComponentTypeList{gComp(n1, x.t, option)}}, w: "struct{" + w1 + " " + x.w + o + ";}"}
	case 1:
		return gt{t: SequenceType{Components: ComponentTypeList{gComp(n1, x.t, 0), gComp(n2, BooleanType{}, 1)}}, w: "struct{" + w1 + " " + x.w + o + ";" + w2 + " bool" + oo + ";}"}
	case 2:
		return gt{t: SequenceType{Components: ComponentTypeList{gComp(n1, BooleanType{}, 0)}, ExtensionAdditions: ExtensionAdditions{gComp(n2, x.t, 0)}}, w: "struct{" + w1 + " bool;" + w2 + " " + x.w + o + ";}"}
	case 3:
		return gt{t: SetType{Components: ComponentTypeList{gComp(n1, BooleanType{}, 1), gComp(n2, x.t, 0)}}, w: "struct{" + w1 + " bool" + oo + ";" + w2 + " " + x.w + o + ";}", set: true, opt: " set"}
	case 4:
		return gt{t: SetType{ExtensionAdditions: ExtensionAdditions{gComp(n1, x.t, 0), gComp(n2, RealType{}, 0)}}, w: "struct{" + w1 + " " + x.w + o + ";" + w2 + " float64;}", set: true, opt: " set"}
	case 5:
		return gt{t: SequenceOfType{x.t}, w: "[]" + x.w}
	case 6:
		return gt{t: SetOfType{x.t}, w: "[]" + x.w, set: true, opt: " set"}
	case 7:
		return gt{t: ConstraintedType{Type: x.t, Constraint: gSize}, w: x.w, set: x.set, opt: x.opt}
	case 8:
		return gt{t: ConstraintedType{Type: SequenceOfType{x.t}, Constraint: gSize}, w: "[]" + x.w}
	case 9:
		return gt{t: ConstraintedType{Type: SetOfType{x.t}, Constraint: gSize}, w: "[]" + x.w, set: true, opt: " set"}
	case 10:
		return gt{t: TaggedType{Tag: Tag{ClassNumber: Number(3)}, Type: x.t}, w: x.w, set: x.set, opt: x.opt + "\x00tag:3"}
	case 11:
		return gt{t: TaggedType{Tag: Tag{Class: CLASS_APPLICATION, ClassNumber: Number(4)}, TagType: TAGS_IMPLICIT, HasTagType: true, Type: x.t}, w: x.w, set: x.set, opt: x.opt + "\x00tag:4"}
	case 12:
		return gt{t: ChoiceType{AlternativeTypeList: []NamedType{{n1, x.t}}}, w: x.w, set: x.set}
	default:
		return gt{t: ChoiceType{AlternativeTypeList: []NamedType{{n1, ConstraintedType{Type: x.t, Constraint: gSize}}}}, w: x.w, set: x.set}
	}
}

// gTaggedAlt tells whether x would be a tagged alternative of a CHOICE.
func gTaggedAlt(x gt) bool {
	for {
		switch t := x.t.(type) {
		case TaggedType:
			return true
		case ConstraintedType:
			x.t = t.Type
			continue
		case TypeReference:
			return t == "PBits3" || t == "PTime3" || t == "PTime2" || t == "PBits2" || t == "PTagged"
		}
		return false
	}
}

var c14Reprs = []IntegerRepr{IntegerReprInt64, IntegerReprBigInt, ""}

const gConsN = 14

// gCons is a constraint of shape k.
func gCons(k int) Constraint {
	one := func(e Elements) Unions { return Unions{Intersections{IntersectionElements{Elements: e}}} }
	r := ValueRange{RangeEndpoint{Value: Number(1)}, RangeEndpoint{Value: Number(5)}}
	var l SubtypeConstraint
	switch k {
	case 0:
		return gSize
	case 1:
		l = SubtypeConstraint{one(r)}
	case 2: // with an extension marker and more elements
		l = SubtypeConstraint{one(r), one(SingleValue{Number(7)})}
	case 3:
		l = SubtypeConstraint{one(SingleValue{Number(3)})}
	case 4:
		l = SubtypeConstraint{Unions{Intersections{IntersectionElements{Elements: r}, IntersectionElements{Elements: SingleValue{Number(2)}, Exclusions: Exclusions{Elements: r}}}, Intersections{IntersectionElements{Elements: one(r)}}}}
	case 5: // ALL EXCEPT
		l = SubtypeConstraint{Exclusions{Elements: r}}
	case 6:
		l = SubtypeConstraint{one(TypeConstraint{TaggedType{Tag: Tag{ClassNumber: Number(1)}, Type: SetType{}}})}
	case 7:
		l = SubtypeConstraint{one(SizeConstraint{Constraint{ConstraintSpec: SubtypeConstraint{one(r), one(SingleValue{Number(9)})}}})}
	case 8:
		l = SubtypeConstraint{one(InnerTypeConstraint{})}
	case 9: // of an arbitrary fixed size
		l = SubtypeConstraint{one(SizeConstraint{Constraint{ConstraintSpec: SubtypeConstraint{one(SingleValue{Number(vInt("size", 0, 1000000))})}}})}
	case 10: // any range
		l = SubtypeConstraint{one(ValueRange{RangeEndpoint{Value: Number(vInt("low", -9223372036854775808, 9223372036854775807))}, RangeEndpoint{Value: Number(vInt("high", -9223372036854775808, 9223372036854775807))}})}
	case 11:
		l = SubtypeConstraint{one(ValueRange{RangeEndpoint{Value: Number(vInt("low", -1000, 1000))}, RangeEndpoint{}})}
	case 12: // of one arbitrary value
		l = SubtypeConstraint{one(SingleValue{Number(vInt("value", -9223372036854775808, 9223372036854775807))})}
	default:
		l = SubtypeConstraint{one(ValueRange{RangeEndpoint{}, RangeEndpoint{IsOpen: true}})}
	}
	return Constraint{ConstraintSpec: l}
}

// gConstrained is x under one or two constraints of every shape.
func gConstrained(x gt) gt {
	k := vChoose("constraint", gConsN)
	x.t = ConstraintedType{Type: x.t, Constraint: gCons(k)}
	if vChoose("two", 2) == 1 {
		x.t = ConstraintedType{Type: x.t, Constraint: gCons((k*3 + 2) % gConsN)}
	}
	return x
}

// gLong is a chain of n references L0 to Ln-1 that leads to end, in the written
// order or reversed; the reference at (if any) is tagged under a constraint.
func gLong(n int, end Type, at int, reverse bool) AssignmentList {
	l := make(AssignmentList, n)
	for i := range l {
		t := end
		if i < n-1 {
			t = TypeReference("L" + strconv.Itoa(i+1))
		}
		if i == at {
			t = ConstraintedType{Type: TaggedType{Tag: Tag{ClassNumber: Number(i)}, Type: t}, Constraint: gSize}
		} else if i%5 == 3 {
			t = ConstraintedType{Type: t, Constraint: gSize}
		}
		k := i
		if reverse {
			k = n - 1 - i
		}
		l[k] = TypeAssignment{TypeReference("L" + strconv.Itoa(i)), t}
	}
	return l
}

// gLongLength is a number of references in a chain.
func gLongLength() int { return 5 + vChoose("length", 60+140*vTier()) }
