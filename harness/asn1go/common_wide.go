package asn1go

import "strings"

// Types with content of any length (named bits, items, named numbers,
// components, alternatives) under arbitrary type names, in modules that hold
// nothing else, so that every declaration and import is due to them.

// wide is a type, whether it is tagged, and what it is through a reference.
type wide struct {
	gt
	tagged bool
	as     string // the Go type of references to it, when it is not the name
	asOpt  string // the options of references to it
}

const gWides = 14

// gWideNumber is a written number or a referenced one.
func gWideNumber(i, how int) NamedNumberValue {
	if how == 1 && i%2 == 1 {
		return DefinedValue{ValueName: "ref"}
	}
	return Number(i*3 - 2)
}

func gWideItem(i, how int) EnumerationItem {
	id := Identifier(string([]byte{'i', byte('a' + i)}))
	if (i+how)%2 == 0 {
		return id
	}
	return NamedNumber{id, gWideNumber(i, how)}
}

// gWide is type number k with content of a chosen length; its own type is
// written under mode.
func gWide(k, mode int) wide {
	more := vTier()
	switch k {
	case 0:
		t := BitStringType{}
		n, how := vChoose("bits", 4+2*more), vChoose("how", 2)
		for i := 0; i < n; i++ {
			t.NamedBits = append(t.NamedBits, NamedBit{Identifier(string([]byte{'n', byte('a' + i)})), gWideNumber(i+1, how).(Value)})
		}
		return wide{gt: gt{t: t, w: "asn1.BitString"}, as: "asn1.BitString"}
	case 1:
		t := EnumeratedType{}
		n, m, how := vChoose("root", 4+2*more), vChoose("additional", 3+more), vChoose("how", 2)
		for i := 0; i < n; i++ {
			t.RootEnumeration = append(t.RootEnumeration, gWideItem(i, how))
		}
		for i := n; i < n+m; i++ {
			t.AdditionalEnumeration = append(t.AdditionalEnumeration, gWideItem(i, how))
		}
		return wide{gt: gt{t: t, w: "asn1.Enumerated"}}
	case 2:
		t := IntegerType{}
		n := vChoose("numbers", 4+2*more)
		for i := 0; i < n; i++ {
			t.NamedNumberList = append(t.NamedNumberList, NamedNumber{Identifier(string([]byte{'n', byte('a' + i)})), gWideNumber(i, 0)})
		}
		return wide{gt: gt{t: t, w: "int64"}}
	case 3, 4:
		n, m, how := vChoose("root", 4+more), vChoose("additions", 3+more), vChoose("how", 2)
		var c ComponentTypeList
		var e ExtensionAdditions
		w := "struct{"
		for i := 0; i < n+m; i++ {
			f := gComp(Identifier(string([]byte{'c', byte('a' + i)})), OctetStringType{}, 0)
			o := ""
			if how == 1 && i%2 == 0 {
				f.IsOptional = true
				if mode&(noTags|setTags) == 0 {
					o = " optional"
				}
			}
			w += string([]byte{'C', byte('a' + i)}) + gWideW(mode, " []byte") + o + ";"
			if i < n {
				c = append(c, f)
			} else {
				e = append(e, f)
			}
		}
		if k == 3 {
			return wide{gt: gt{t: SequenceType{Components: c, ExtensionAdditions: e}, w: w + "}"}}
		}
		return wide{gt: gt{t: SetType{Components: c, ExtensionAdditions: e}, w: w + "}", set: true, opt: " set"}}
	case 5, 6:
		n, m := vChoose("root", 4+more), vChoose("extensions", 3+more)
		at := -1
		if k == 6 {
			vAssume(n+m > 0)
			at = vChoose("tagged", 7)
			vAssume(at < n+m)
		}
		t := ChoiceType{}
		for i := 0; i < n+m; i++ {
			a := NamedType{Identifier(string([]byte{'c', byte('a' + i)})), OctetStringType{}}
			if i == at {
				a.Type = TaggedType{Tag: Tag{ClassNumber: Number(i)}, Type: ConstraintedType{Type: OctetStringType{}, Constraint: gSize}}
				if i%2 == 1 {
					a.Type = ConstraintedType{Type: a.Type, Constraint: gSize}
				}
			}
			if i < n {
				t.AlternativeTypeList = append(t.AlternativeTypeList, a)
			} else {
				t.ExtensionTypes = append(t.ExtensionTypes, a)
			}
		}
		w := "interface{}"
		if at >= 0 {
			w = "asn1.RawValue"
		} else if n+m == 1 {
			w = "[]byte"
		}
		return wide{gt: gt{t: t, w: w}}
	case 7:
		return wide{gt: gt{t: TaggedType{Tag: Tag{ClassNumber: Number(1)}, Type: BooleanType{}}, w: "bool", opt: " tag:1"}, tagged: true}
	case 8:
		return wide{gt: gt{t: ConstraintedType{Type: TaggedType{Tag: Tag{Class: CLASS_APPLICATION, ClassNumber: Number(1)}, Type: TypeReference("UTCTime")}, Constraint: gSize}, w: "time.Time", opt: " application tag:1 utc"}, tagged: true, as: "time.Time", asOpt: " utc"}
	case 9:
		return wide{gt: gt{t: ConstraintedType{Type: TypeReference("GeneralizedTime"), Constraint: gSize}, w: "time.Time", opt: " generalized"}, as: "time.Time", asOpt: " generalized"}
	case 10:
		return wide{gt: gt{t: ConstraintedType{Type: SetOfType{OctetStringType{}}, Constraint: gSize}, w: "[][]byte", set: true, opt: " set"}}
	case 11:
		return wide{gt: gt{t: SequenceOfType{BitStringType{NamedBits: []NamedBit{{"a", Number(1)}, {"b", Number(2)}}}}, w: "[]asn1.BitString"}}
	case 12:
		s := gStrings[vChoose("string", len(gStrings))]
		return wide{gt: gt{t: RestrictedStringType{s.t}, w: "string", opt: s.opt}}
	}
	switch vChoose("plain", 6) {
	case 0:
		return wide{gt: gt{t: BooleanType{}, w: "bool"}}
	case 1:
		return wide{gt: gt{t: RealType{}, w: "float64"}}
	case 2:
		return wide{gt: gt{t: OctetStringType{}, w: "[]byte"}}
	case 3:
		return wide{gt: gt{t: ObjectIdentifierType{}, w: "asn1.ObjectIdentifier"}}
	case 4:
		return wide{gt: gt{t: AnyType{}, w: "interface{}"}}
	}
	return wide{gt: gt{t: ConstraintedType{Type: BitStringType{NamedBits: []NamedBit{{"a", Number(1)}, {"b", Number(2)}}}, Constraint: gSize}, w: "asn1.BitString"}, as: "asn1.BitString"}
}

// gWideW is a type as it shows under mode.
func gWideW(mode int, w string) string {
	if mode&noTypes != 0 && !strings.Contains(w, "struct{") {
		if w[0] == ' ' {
			return " _"
		}
		return "_"
	}
	return w
}

var gWideLens = []int{7, 1, 8, 4, 15, 2, 18, 3, 5, 7, 16, 15}

// gWideName is an arbitrary type name that is none of a useful type, nor one
// of those this harness uses: n characters, of which the last 16 of a longer
// one than that are arbitrary.
func gWideName(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = vByteIn("type", "a-zA-Z0-9")
		if i == 0 {
			b[i] = vByteIn("type", "A-Z")
		}
	}
	s := string(b)
	if n == 7 {
		vAssume(s != "UTCTime")
	}
	if n == 15 {
		vAssume(s != "GeneralizedTime")
	}
	if n == 1 {
		vAssume(vAnd(s != "U", s != "M"))
	}
	if n == 2 {
		vAssume(s != "S9")
	}
	if n == 4 {
		vAssume(s != "USET")
	}
	if n == 5 {
		vAssume(s != "S9SET")
	}
	return s
}

// gWidePlace puts x into one of 8 places; tagged alternatives are raw values.
func gWidePlace(place, mode int, x wide) gt {
	o := x.opt
	if mode&noTags != 0 || mode&setTags != 0 && o != " set" {
		o = ""
	}
	w := gWideW(mode, x.w)
	switch place {
	case 0:
		return x.gt
	case 1:
		return gt{t: SequenceType{Components: ComponentTypeList{gComp("a", x.t, 0)}}, w: "struct{A " + w + o + ";}"}
	case 2:
		return gt{t: SetType{Components: ComponentTypeList{gComp("b", RealType{}, 0)}, ExtensionAdditions: ExtensionAdditions{gComp("a", x.t, 0)}}, w: "struct{B" + gWideW(mode, " float64") + ";A " + w + o + ";}", set: true}
	case 3:
		return gt{t: SequenceOfType{x.t}, w: "[]" + x.w}
	case 4:
		return gt{t: SetOfType{ConstraintedType{Type: x.t, Constraint: gSize}}, w: "[]" + x.w, set: true}
	case 5:
		return gt{t: ConstraintedType{Type: TaggedType{Tag: Tag{ClassNumber: Number(3)}, Type: x.t}, Constraint: gCons(2)}, w: x.w, set: x.set}
	case 6:
		c := ChoiceType{AlternativeTypeList: []NamedType{{"a", x.t}}}
		if x.tagged {
			return gt{t: c, w: "asn1.RawValue"}
		}
		return gt{t: c, w: x.w, set: x.set}
	}
	c := ChoiceType{AlternativeTypeList: []NamedType{{"a", x.t}}, ExtensionTypes: []ChoiceExtension{NamedType{"b", BooleanType{}}}}
	if x.tagged {
		return gt{t: c, w: "asn1.RawValue"}
	}
	return gt{t: c, w: "interface{}"}
}

// gWideDecl is how the declaration of a type shows under mode.
func gWideDecl(mode int, name string, x gt) string {
	s := name + " "
	if x.set && mode&noSets == 0 {
		s += "set "
	}
	return s + gWideW(mode, x.w) + "\n"
}

// gWideModule is a module of type k used as it is, or through one or two
// references of which one has an arbitrary name, in a place.
func gWideModule(k, mode int) (ModuleDefinition, string) {
	x := gWide(k, mode)
	place := vChoose("place", 8)
	refs := vChoose("references", 3)
	var l AssignmentList
	want := ""
	if refs > 0 {
		n := gWideLens[(place*2+refs+k+3*vChoose("length", 4))%len(gWideLens)]
		if vTier() == 1 {
			n = gWideLens[vChoose("name", len(gWideLens))]
		}
		name := gWideName(n)
		l = AssignmentList{TypeAssignment{TypeReference(name), x.t}}
		want = gWideDecl(mode, name, x.gt)
		ref := wide{gt: gt{t: TypeReference(name), w: name, opt: x.asOpt}, tagged: x.tagged, as: x.as, asOpt: x.asOpt}
		if x.as != "" {
			ref.w = x.as
		}
		if refs == 2 {
			// S9 in between, tagged by itself or not
			s := gt{t: ConstraintedType{Type: ref.t, Constraint: gSize}, w: ref.w}
			if (place+k)%3 == 0 {
				s.t = TaggedType{Tag: Tag{ClassNumber: Number(2)}, Type: ref.t}
				ref.tagged = true
			}
			l = append(AssignmentList{TypeAssignment{"S9", s.t}}, l...)
			want = gWideDecl(mode, "S9", s) + want
			ref.t = TypeReference("S9")
			if x.as == "" {
				ref.w = "S9"
			}
		}
		x = ref
	}
	u := gWidePlace(place, mode, x)
	if (place+refs)%2 == 0 {
		l = append(AssignmentList{TypeAssignment{"U", u.t}}, l...)
		want = gWideDecl(mode, "U", u) + want
	} else {
		l = append(l, TypeAssignment{"U", u.t})
		want += gWideDecl(mode, "U", u)
	}
	m := ModuleDefinition{ModuleIdentifier: ModuleIdentifier{Reference: "M"}, ModuleBody: ModuleBody{AssignmentList: l}}
	m.TagDefault = TAGS_IMPLICIT
	return m, want
}

// types is show without variables.
func (f *goFile) types() string {
	g := *f
	g.decls = nil
	for _, d := range f.decls {
		if d.kind == "type" {
			g.decls = append(g.decls, d)
		}
	}
	return g.show()
}

// gWideCheck generates a module of type k and compares its types under mode.
func gWideCheck(k, mode int, what string) {
	m, want := gWideModule(k, mode)
	text, err := gGenerate(m, GenParams{})
	vAssert(err == nil, what+": generation fails")
	f, bad := readGo(text, mode)
	vAssert(bad == "", what+": the output is not a well-formed Go file")
	vAssert(f.types() == want, what+": the types declared are not the prescribed ones")
	vReach("generated")
}
