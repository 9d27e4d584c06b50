package asn1go

import (
	"sort"
	"strconv"
	"strings"
)

// c15Opts is the canonical text of options.
func c15Opts(l []string) string {
	sort.Strings(l)
	s := ""
	for _, o := range l {
		s += " " + o
	}
	return s
}

var c15Numbers = []int{0, 1, 30, 31, 127, 128, 16384, 2147483647}

// c15Make wraps x in up to two constraints around and inside a tag.
// wrap: 0 none, 1 constraint, 2 two constraints; tag: -1 none, else class + 3*mode.
func c15Make(x gt, outer, inner, tag, number int, def int) (Type, []string) {
	t := x.t
	var opts []string
	if x.opt != "" {
		opts = append(opts, x.opt[1:])
	}
	for i := 0; i < inner; i++ {
		t = ConstraintedType{Type: t, Constraint: gSize}
	}
	if tag >= 0 {
		class := []int{CLASS_CONTEXT_SPECIFIC, CLASS_APPLICATION, CLASS_PRIVATE}[tag%3]
		mode := tag / 3
		tt := TaggedType{Tag: Tag{Class: class, ClassNumber: Number(number)}, Type: t}
		explicit := def == TAGS_EXPLICIT
		if mode > 0 {
			tt.HasTagType = true
			tt.TagType = []int{0, TAGS_EXPLICIT, TAGS_IMPLICIT}[mode]
			explicit = mode == 1
		} else {
			tt.TagType = vChoose("unused", 2)
		}
		t = tt
		opts = append(opts, "tag:"+strconv.Itoa(number))
		if class == CLASS_APPLICATION {
			opts = append(opts, "application")
		}
		if class == CLASS_PRIVATE {
			opts = append(opts, "private")
		}
		if explicit {
			opts = append(opts, "explicit")
		}
	}
	for i := 0; i < outer; i++ {
		t = ConstraintedType{Type: t, Constraint: gSize}
	}
	return t, opts
}

var c15Defaults = []struct {
	v Value
	w string
}{{Number(0), "default:0"}, {Number(-1), "default:-1"}, {Number(9223372036854775807), "default:9223372036854775807"}, {Number(-9223372036854775808), "default:-9223372036854775808"}, {Boolean(true), ""}, {Real(1.5), ""}, {IdentifiedIntegerValue{Name: "x"}, ""}, {DefinedValue{ValueName: "x"}, ""}, {ObjectIdentifierValue{}, ""}, {Number(5), "default:5"}, {Boolean(false), ""}}

// c15Option makes the component optional (1) or gives it default number o-2.
func c15Option(id Identifier, t Type, o int, opts []string) (NamedComponentType, []string) {
	c := NamedComponentType{NamedType: NamedType{id, t}}
	if o == 1 {
		c.IsOptional = true
		opts = append(opts, "optional")
	}
	if o >= 2 {
		d := c15Defaults[o-2]
		c.Default = &d.v
		opts = append(opts, "optional")
		if d.w != "" {
			opts = append(opts, d.w)
		}
	}
	return c, opts
}

// c15Check generates a module in which the component stands in place.
func c15Check(c NamedComponentType, name, body, tag string, place int, def int, what string) {
	x := name + " " + body + tag + ";"
	other := gComp("x1", BooleanType{}, 0)
	var t Type
	w := ""
	switch place {
	case 0:
		t, w = SequenceType{Components: ComponentTypeList{other, c}}, "struct{X1 _;"+x+"}"
	case 1:
		t, w = SetType{Components: ComponentTypeList{c, other}}, "struct{"+x+"X1 _;}"
	case 2:
		t, w = SequenceType{Components: ComponentTypeList{other}, ExtensionAdditions: ExtensionAdditions{c}}, "struct{X1 _;"+x+"}"
	case 3:
		t, w = SetType{ExtensionAdditions: ExtensionAdditions{c, other}}, "struct{"+x+"X1 _;}"
	case 4:
		t, w = SequenceOfType{SetType{Components: ComponentTypeList{c}}}, "[]struct{"+x+"}"
	case 5:
		t, w = SequenceType{Components: ComponentTypeList{gComp("y", SequenceType{Components: ComponentTypeList{c}}, 0)}}, "struct{Y struct{"+x+"};}"
	case 6:
		t, w = TaggedType{Tag: Tag{ClassNumber: Number(3)}, Type: ConstraintedType{Type: SequenceType{Components: ComponentTypeList{c}}, Constraint: gSize}}, "struct{"+x+"}"
	default:
		t, w = SequenceType{Components: ComponentTypeList{gComp("y", SetOfType{SequenceType{Components: ComponentTypeList{c}}}, 0)}}, "struct{Y []struct{"+x+"} set;}"
	}
	m := gModule(append(append(AssignmentList{}, gPreludeTypes...), TypeAssignment{"A", t})...)
	m.TagDefault = def
	text, err := gGenerate(m, GenParams{})
	vAssert(err == nil, what+": generation fails")
	f, bad := readGo(text, noTypes|noSets)
	vAssert(bad == "", what+": the output is not a well-formed Go file")
	vAssert(strings.HasSuffix(f.show(), "\nA "+w+"\n"), what+": the field does not have the prescribed options")
	vReach("generated")
}

// c15Body is how the type of a field shows: only structs do.
func c15Body(x gt) string {
	if len(x.w) >= 7 && x.w[len(x.w)-7:] == "struct{" || x.w == "struct{}" {
		return x.w
	}
	return "_"
}

// verif:bound a component of each of 52 types, untagged or tagged with every class (context, application, private), mode (none, EXPLICIT, IMPLICIT) and 8 numbers, under 0..2 constraints outside and inside the tag, under EXPLICIT and IMPLICIT module defaults; arbitrary name
// verif:reach generated
// verif:parts 13
func VerifC15Kinds(part int) {
	k := part*4 + vChoose("kind", 4)
	x := gKind(k, IntegerReprInt64)
	def := vChoose("default", 2)
	tag := vChoose("tag", 10) - 1
	n := 0
	if tag >= 0 {
		n = c15Numbers[(tag+part)%8]
	}
	t, opts := c15Make(x, vChoose("outer", 3), vChoose("inner", 2+vTier()), tag, n, def)
	id, name := gName('a')
	c, opts := c15Option(id, t, vChoose("option", 3), opts)
	c15Check(c, name, c15Body(x), c15Opts(opts), 0, def, "a component")
}

// verif:bound a component of each of 52 types under one or two constraints of 14 shapes, of which 4 have arbitrary bounds, untagged or with a tag inside or outside of them
// verif:reach generated
// verif:parts 4
func VerifC15Constraint(part int) {
	x := gKind(part*13+vChoose("kind", 13), IntegerReprInt64)
	var opts []string
	if x.opt != "" {
		opts = append(opts, x.opt[1:])
	}
	tag := vChoose("tag", 3)
	if tag == 1 {
		x.t = TaggedType{Tag: Tag{ClassNumber: Number(9)}, TagType: TAGS_IMPLICIT, HasTagType: true, Type: x.t}
	}
	x = gConstrained(x)
	if tag == 2 {
		x.t = TaggedType{Tag: Tag{ClassNumber: Number(9)}, TagType: TAGS_IMPLICIT, HasTagType: true, Type: x.t}
	}
	if tag > 0 {
		opts = append(opts, "tag:9")
	}
	id, name := gName('a')
	c, opts := c15Option(id, x.t, part%3, opts)
	c15Check(c, name, c15Body(x), c15Opts(opts), part*2, part/2%2, "a constrained component")
}

// verif:bound a component in each of 8 places (first, last, extension additions, in nested and repeated structs, in tagged and constrained ones), of 6 types, with every tag class, mode, optionality and 11 defaults, under both module defaults
// verif:reach generated
// verif:parts 8
func VerifC15Places(part int) {
	x := gKind([]int{31, 3, 44, 13, 15, 46}[vChoose("kind", 6)], IntegerReprInt64)
	def := vChoose("default", 2)
	tag := vChoose("tag", 10) - 1
	n := 0
	if tag >= 0 {
		n = c15Numbers[(tag*3+part)%8]
	}
	t, opts := c15Make(x, vChoose("outer", 2), 0, tag, n, def)
	id, name := gName('a')
	c, opts := c15Option(id, t, vChoose("option", 13), opts)
	c15Check(c, name, c15Body(x), c15Opts(opts), part, def, "a component in its place")
}

// c15Number is the number written after key in the options of a canonical tag.
func c15Number(tag, key string) (uint64, bool, bool) {
	i := strings.Index(tag, " "+key)
	if i < 0 {
		return 0, false, false
	}
	i += 1 + len(key)
	neg := i < len(tag) && tag[i] == '-'
	if neg {
		i++
	}
	j := i
	n := uint64(0)
	for j < len(tag) && isGoDigit(tag[j]) {
		n = n*10 + uint64(tag[j]-'0')
		j++
	}
	return n, neg, j > i && (j == len(tag) || tag[j] == ' ' || tag[j] == ';')
}

// verif:bound arbitrary tag numbers and integer defaults of up to 9 (thorough: 18) digits and either sign
// verif:reach generated
// verif:parts 4
func VerifC15Numbers(part int) {
	hi := 999999999
	if vTier() == 1 {
		hi = 999999999999999999
	}
	tag := vInt("tag", 0, hi)
	def := vInt("default", -hi, hi)
	t := Type(TaggedType{Tag: Tag{Class: CLASS_APPLICATION, ClassNumber: Number(tag)}, Type: IntegerType{}})
	if part%2 == 1 {
		t = ConstraintedType{Type: t, Constraint: gSize}
	}
	c := NamedComponentType{NamedType: NamedType{"a", t}}
	v := Value(Number(def))
	c.Default = &v
	m := gModule(TypeAssignment{"A", SequenceType{Components: ComponentTypeList{c}}})
	m.TagDefault = part / 2
	text, err := gGenerate(m, GenParams{})
	vAssert(err == nil, "a number: generation fails")
	f, bad := readGo(text, noTypes|noSets)
	vAssert(bad == "", "a number: the output is not a well-formed Go file")
	n, neg, ok := c15Number(f.show(), "tag:")
	vAssert(ok && !neg && int(n) == tag, "the field does not carry the tag number")
	n, neg, ok = c15Number(f.show(), "default:")
	got := int(n)
	if neg {
		got = -got
	}
	vAssert(ok && got == def, "the field does not carry the default")
	vReach("generated")
}

// verif:bound components of 14 kinds of types with content of any length, as they are or through one or two references with arbitrary names of 1..18 letters and digits, in 8 places
// verif:reach generated
// verif:parts 14
func VerifC15Content(part int) { gWideCheck(part, noTypes|noSets, "content") }

// verif:bound components that refer to a time or another type through every number of references from 5 to 64 (thorough: 204), of which any one may be tagged
// verif:reach generated
// verif:parts 4
// verif:steps 30000000
func VerifC15Long(part int) {
	n := gLongLength()
	at := []int{-1, 0, n / 2, n - 1}[vChoose("at", 4)]
	l := gLong(n, []Type{BitStringType{}, TypeReference("UTCTime"), TypeReference("GeneralizedTime"), SetType{}}[part], at, part%2 == 1)
	l = append(l, TypeAssignment{"Use", SequenceType{Components: ComponentTypeList{gComp("a", ConstraintedType{Type: TypeReference("L0"), Constraint: gSize}, 1)}}})
	text, err := gGenerate(gModule(l...), GenParams{})
	vAssert(err == nil, "a long chain: generation fails")
	f, bad := readGo(text, noTypes|noSets)
	vAssert(bad == "", "a long chain: the output is not a well-formed Go file")
	vAssert(f.decls[len(f.decls)-1].typ == "struct{A _"+[]string{" optional", " optional utc", " generalized optional", " optional"}[part]+";}", "the field does not have the prescribed options")
	vReach("generated")
}
