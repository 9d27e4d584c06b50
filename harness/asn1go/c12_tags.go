package asn1go

import "strconv"

var c12Class = []struct {
	t string
	c int
}{{"", CLASS_CONTEXT_SPECIFIC}, {"APPLICATION ", CLASS_APPLICATION}, {" PRIVATE ", CLASS_PRIVATE}, {"UNIVERSAL\n", CLASS_UNIVERSAL}}

var c12Mode = []struct{ t, w string }{{"", "default"}, {" IMPLICIT", "IMPLICIT"}, {" EXPLICIT ", "EXPLICIT"}}

var c12Numbers = []string{"7", "0", "31", "16384", "2147483648", "65535"}

// c12Tag puts a tag before the type x: number form 0..2 are numbers, 3 a value
// reference, 4 a value reference into a module.
func c12Tag(class, number, mode int, x pair) pair {
	var p pair
	p = p.tw(" ["+c12Class[class].t, "["+strconv.Itoa(c12Class[class].c)+" ")
	switch number {
	case 0, 1, 2:
		n := c12Numbers[(number*2+class*3+mode)%6]
		p = p.tw(n, n)
	case 3:
		p = p.tw("", "ref:.").add(gId())
	case 4:
		p = p.tw("", "ref:").add(gRef()).tw(".", ".").add(gId())
	}
	p = p.tw("]", " ")
	return p.tw(c12Mode[mode].t, c12Mode[mode].w+"]").add(x)
}

func c12Draw(x pair) pair {
	return c12Tag(vChoose("class", 4), vChoose("number", 5), vChoose("mode", 3), x)
}

var c12Defaults = []struct{ t, w string }{{"", "EXPLICIT"}, {"EXPLICIT TAGS", "EXPLICIT"}, {"IMPLICIT TAGS", "IMPLICIT"}, {"AUTOMATIC TAGS", "AUTOMATIC"}}

func c12Head() pair {
	d := c12Defaults[vChoose("default", 4)]
	return pair{"M DEFINITIONS " + d.t + " ::= BEGIN ", "M{} " + d.w + "\n"}
}

// verif:bound every class, mode and kind of tag number (6 numbers, value references of arbitrary names in and out of a module) before each of 40 type notations, under each tagging default; in type assignments and before the type of a value
// verif:reach parsed
// verif:parts 8
func VerifC12Single(part int) {
	k := part*5 + vChoose("kind", 5)
	x := c12Draw(c07Kind(k))
	p := c12Head()
	if vChoose("value", 2) == 1 {
		p = p.add(gId()).tw("", " ").add(x).tw(" ::= 7 ", "::=7\n")
	} else {
		p = p.add(gRef()).tw("::=", "::=").add(x).tw("", "\n")
	}
	p = p.tw(" B ::= NULL END", "B::=NULL\n")
	gParse(p.t, p.w, "a tagged type")
	vReach("parsed")
}

// verif:bound a tag in each of 26 positions inside another type (components, additions, alternatives, element types, under constraints and tags, in COMPONENTS OF), and that type tagged again; every class and mode, 6 numbers or references of arbitrary names
// verif:reach parsed
// verif:parts 26
func VerifC12Nested(part int) {
	var y pair
	if part == 15 {
		// a constraint after a type that ends with another belongs to that one, so the constraint is part of the tagged type
		y = c12Tag(vChoose("class", 4), 0, vChoose("mode", 3), pair{" INTEGER (6)", "INT{}(U<I<val:6;>>)"})
	} else {
		x := c12Draw(c07Kind([]int{3, 14, 23, 39}[vChoose("kind", 2+2*vTier())]))
		y = c07Ctx(part, x)
	}
	if vChoose("again", 2) == 1 {
		n := 0
		if vTier() == 1 {
			n = vChoose("number", 5)
		}
		y = c12Tag(vChoose("class", 4), n, vChoose("mode", 3), y)
	}
	p := c12Head().tw("A ::= ", "A::=").add(y).tw(" B ::= NULL END", "\nB::=NULL\n")
	gParse(p.t, p.w, "a tag inside another type")
	vReach("parsed")
}

// verif:bound 2..4 (thorough: 5) tags on one type, every class and mode of each, before 4 type notations
// verif:reach parsed
// verif:parts 4
func VerifC12Stack(part int) {
	n := part + 2
	if n > 3 {
		n += vTier() - 1
	}
	x := c07Kind([]int{14, 29, 35, 23}[vChoose("kind", 4)])
	for i := 0; i < n; i++ {
		x = c12Tag(vChoose("class", 4), i%2*3, vChoose("mode", 3), x)
	}
	p := pair{gHead, gHeadWant}.tw("A ::= ", "A::=").add(x).tw(" END", "\n")
	gParse(p.t, p.w, "several tags")
	vReach("parsed")
}

// verif:bound two components (or alternatives) of arbitrary names that are tagged or not, with every class and mode, followed by OPTIONAL, a DEFAULT or nothing
// verif:reach parsed
// verif:parts 3
func VerifC12Components(part int) {
	one := func() pair {
		p := gId().tw("", "=")
		x := pair{" INTEGER", "INT{}"}
		if vChoose("tagged", 2) == 1 {
			x = c12Tag(vChoose("class", 4), 0, vChoose("mode", 3), x)
		}
		p = p.add(x)
		if part < 2 {
			switch vChoose("option", 3) {
			case 1:
				p = p.tw(" OPTIONAL", " OPTIONAL")
			case 2:
				p = p.tw(" DEFAULT 3", " DEFAULT 3")
			}
		}
		return p.tw("", ";")
	}
	kw := []string{"SEQUENCE", "SET", "CHOICE"}[part]
	kt := []string{"SEQ", "SET", "CHOICE"}[part]
	p := pair{gHead, gHeadWant}.tw("A ::= "+kw+" {", "A::="+kt+"{").add(one()).tw(",", "").add(one()).tw("} END", "|}\n")
	gParse(p.t, p.w, "tagged components")
	vReach("parsed")
}

// verif:bound tag numbers of 1..9 arbitrary digits (thorough: 18), leading zeros included, every class and mode, before a type and inside two others
// verif:reach parsed
// verif:parts 9
func VerifC12Number(part int) {
	n := (part + 1) * (1 + vTier())
	digits := make([]byte, n)
	want := 0
	for i := range digits {
		digits[i] = vByteIn("digit", "0-9")
		want = want*10 + int(digits[i]-'0')
	}
	class, mode := vChoose("class", 4), vChoose("mode", 3)
	text := gHead + "A ::= [" + c12Class[class].t + string(digits) + "]" + c12Mode[mode].t
	inside := vChoose("inside", 3)
	switch inside {
	case 0:
		text += " INTEGER END"
	case 1:
		text = gHead + "A ::= SEQUENCE { a [" + c12Class[class].t + string(digits) + "]" + c12Mode[mode].t + " INTEGER OPTIONAL } END"
	case 2:
		text = gHead + "A ::= CHOICE { a [" + c12Class[class].t + string(digits) + "]" + c12Mode[mode].t + " INTEGER, b [1] NULL} END"
	}
	m, err := ParseString(text)
	vAssert(err == nil && m != nil, "a tag number: rejected")
	t := c05Type(m)
	switch inside {
	case 1:
		t = t.(SequenceType).Components[0].(NamedComponentType).NamedType.Type
	case 2:
		t = t.(ChoiceType).AlternativeTypeList[0].Type
	}
	tag := t.(TaggedType)
	num, ok := tag.Tag.ClassNumber.(Number)
	vAssert(ok && int(num) == want, "the tag number is not the written one")
	vAssert(tag.Tag.Class == c12Class[class].c, "the tag class is not the written one")
	vAssert(tag.HasTagType == (mode > 0) && (mode == 0 || tag.TagType == []int{0, TAGS_IMPLICIT, TAGS_EXPLICIT}[mode]), "the tagging mode is not the written one")
	vReach("parsed")
}
