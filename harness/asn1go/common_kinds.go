package asn1go

import "strconv"

const c07Kinds = 40

// c07Kind is a type that contains no other type of interest.
func c07Kind(k int) pair {
	str := []struct {
		s string
		t int
	}{{"BMPString", BMPString}, {"GeneralString", GeneralString}, {"GraphicString", GraphicString}, {"IA5String", IA5String}, {"ISO646String", ISO646String}, {"NumericString", NumericString}, {"PrintableString", PrintableString}, {"TeletexString", TeletexString}, {"T61String", T61String}, {"UniversalString", UniversalString}, {"UTF8String", UTF8String}, {"VideotexString", VideotexString}, {"VisibleString", VisibleString}}
	if k < len(str) {
		return pair{" " + str[k].s, "str:" + strconv.Itoa(str[k].t)}
	}
	var p pair
	switch k - len(str) {
	case 0:
		return both("BOOLEAN")
	case 1:
		return pair{" INTEGER", "INT{}"}
	case 2:
		return both("REAL")
	case 3:
		return both("NULL")
	case 4:
		return pair{" OCTET STRING", "OCTETS"}
	case 5:
		return pair{" BIT STRING", "BITS{}"}
	case 6:
		return pair{" OBJECT IDENTIFIER", "OID"}
	case 7:
		return pair{" CHARACTER STRING", "CHARS"}
	case 8:
		return pair{" ANY", "ANY:"}
	case 9:
		return p.tw(" ANY DEFINED BY", "ANY:").add(gId())
	case 10:
		return p.tw("", "ref:").add(gRef())
	case 11:
		return p.tw(" GeneralizedTime", "ref:GeneralizedTime")
	case 12:
		return p.tw(" UTCTime", "ref:UTCTime")
	case 13:
		return p.tw(" INTEGER {", "INT{").add(gId()).tw("(1),", "(1);").add(gId()).tw("(-2)}", "(-2);}")
	case 14:
		return p.tw(" BIT STRING {", "BITS{").add(gId()).tw("(3),", "(3);").add(gId()).tw("(", "(ref:.").add(gId()).tw(")}", ");}")
	case 15:
		return p.tw(" ENUMERATED {", "ENUM{").add(gId()).tw(",", ";").add(gId()).tw("(4)}", "(4);|}")
	case 16:
		return p.tw(" SEQUENCE { }", "SEQ{|}")
	case 17:
		return p.tw(" SET{}", "SET{|}")
	case 18:
		return p.tw(" SEQUENCE {...}", "SEQ{|}")
	case 19:
		return p.tw(" SET {..., ...}", "SET{|}")
	case 20:
		return p.tw(" CHOICE {...}", "CHOICE{|}")
	case 21:
		return p.tw(" CHOICE {", "CHOICE{").add(gId()).tw(" NULL}", "=NULL;|}")
	case 22:
		return p.tw(" SEQUENCE {", "SEQ{").add(gId()).tw(" BOOLEAN OPTIONAL}", "=BOOLEAN OPTIONAL;|}")
	case 23:
		return p.tw(" ENUMERATED {", "ENUM{").add(gId()).tw("(", "(ref:.").add(gId()).tw("),...,", ");|").add(gId()).tw("}", ";}")
	case 24:
		return p.tw(" OCTET STRING (SIZE(1..2))", "OCTETS(U<I<SIZE(U<I<range:1..2;>>);>>)")
	case 25:
		return p.tw(" SEQUENCE OF NULL", "SEQOF(NULL)")
	default:
		return p.tw(" SET OF", "SETOF(").add(gId()).tw(" REAL", "=REAL)")
	}
}

const c07Ctxs = 26

// c07Open tells whether a type written in context c ends with its inner type,
// so that a constraint that follows belongs to the inner one.
func c07Open(c int) bool { return c >= 8 && c <= 14 || c >= 20 }

// c07Ctx writes type x in a position inside another type.
func c07Ctx(c int, x pair) pair {
	var p pair
	switch c {
	case 0:
		return p.tw(" SEQUENCE {", "SEQ{").add(gId()).tw("", "=").add(x).tw("}", ";|}")
	case 1:
		return p.tw(" SEQUENCE {", "SEQ{").add(gId()).tw("", "=").add(x).tw(",", ";").add(gId()).tw(" NULL}", "=NULL;|}")
	case 2:
		return p.tw(" SEQUENCE {", "SEQ{").add(gId()).tw(" NULL,", "=NULL;").add(gId()).tw("", "=").add(x).tw(" OPTIONAL}", " OPTIONAL;|}")
	case 3:
		return p.tw(" SET {", "SET{").add(gId()).tw("", "=").add(x).tw(" DEFAULT 5,", " DEFAULT 5;").add(gId()).tw(" REAL}", "=REAL;|}")
	case 4:
		return p.tw(" SEQUENCE {", "SEQ{").add(gId()).tw(" NULL, ...,", "=NULL;|").add(gId()).tw("", "=").add(x).tw("}", ";}")
	case 5:
		return p.tw(" SET {", "SET{").add(gId()).tw(" NULL, ... , [[", "=NULL;|").add(gId()).tw(" NULL,", "=NULL;").add(gId()).tw("", "=").add(x).tw("]], ...}", ";}")
	case 6:
		return p.tw(" CHOICE {", "CHOICE{").add(gId()).tw("", "=").add(x).tw(",", ";").add(gId()).tw(" NULL}", "=NULL;|}")
	case 7:
		return p.tw(" CHOICE {", "CHOICE{").add(gId()).tw(" NULL , ...,", "=NULL;|").add(gId()).tw("", "=").add(x).tw("}", ";}")
	case 8:
		return p.tw(" SEQUENCE OF", "SEQOF(").add(x).tw("", ")")
	case 9:
		return p.tw(" SET OF", "SETOF(").add(x).tw("", ")")
	case 10:
		return p.tw(" SEQUENCE OF", "SEQOF(").add(gId()).tw("", "=").add(x).tw("", ")")
	case 11:
		return p.tw(" SEQUENCE SIZE (5) OF", "SEQOF(").add(x).tw("", ")(U<I<SIZE(U<I<val:5;>>);>>)")
	case 12:
		return p.tw(" SET (SIZE (5)) OF", "SETOF(").add(gId()).tw("", "=").add(x).tw("", ")(U<I<SIZE(U<I<val:5;>>);>>)")
	case 13:
		return p.tw(" [3]", "[0 3 default]").add(x)
	case 14:
		return p.tw(" [APPLICATION 4] IMPLICIT", "[2 4 IMPLICIT]").add(x)
	case 15:
		return p.add(x).tw(" (6)", "(U<I<val:6;>>)")
	case 16:
		return p.tw(" SEQUENCE {", "SEQ{").add(gId()).tw(" NULL, COMPONENTS OF", "=NULL;COMPONENTS OF ").add(x).tw("}", ";|}")
	case 17:
		return p.tw(" SET {COMPONENTS OF", "SET{COMPONENTS OF ").add(x).tw(",", ";").add(gId()).tw(" NULL OPTIONAL}", "=NULL OPTIONAL;|}")
	case 18:
		return p.tw(" SEQUENCE {", "SEQ{").add(gId()).tw(" NULL, ...,COMPONENTS OF", "=NULL;|COMPONENTS OF ").add(x).tw("}", ";}")
	case 20:
		return p.tw(" SET SIZE (5) OF", "SETOF(").add(x).tw("", ")(U<I<SIZE(U<I<val:5;>>);>>)")
	case 21:
		return p.tw(" SET SIZE (5) OF", "SETOF(").add(gId()).tw("", "=").add(x).tw("", ")(U<I<SIZE(U<I<val:5;>>);>>)")
	case 22:
		return p.tw(" SET (SIZE (5)) OF", "SETOF(").add(x).tw("", ")(U<I<SIZE(U<I<val:5;>>);>>)")
	case 23:
		return p.tw(" SEQUENCE SIZE (5) OF", "SEQOF(").add(gId()).tw("", "=").add(x).tw("", ")(U<I<SIZE(U<I<val:5;>>);>>)")
	case 24:
		return p.tw(" SEQUENCE (SIZE (5)) OF", "SEQOF(").add(x).tw("", ")(U<I<SIZE(U<I<val:5;>>);>>)")
	case 25:
		return p.tw(" SEQUENCE (SIZE (5)) OF", "SEQOF(").add(gId()).tw("", "=").add(x).tw("", ")(U<I<SIZE(U<I<val:5;>>);>>)")
	default:
		return p.tw(" CHOICE {...,", "CHOICE{|").add(gId()).tw(" NULL,", "=NULL;").add(gId()).tw("", "=").add(x).tw(", ...}", ";}")
	}
}
