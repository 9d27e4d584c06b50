package asn1go

func c03Outcome(s string) (accepted bool) {
	m, err := ParseString(s)
	vAssert((m == nil) != (err == nil), "not exactly one of a module and an error")
	vObserve("accepted", err == nil)
	return err == nil
}

// verif:bound every byte string of up to 2 bytes (thorough: 3), every ASCII string of up to 3 (thorough: 4)
// verif:reach rejected
// verif:parts 2
func VerifC03Bytes(part int) {
	n := vChoose("n", 3+vTier()+part)
	b := make([]byte, n)
	for i := range b {
		if part == 0 {
			b[i] = vByte("b")
		} else {
			b[i] = vByteIn("b", "\x00-\x7f")
		}
	}
	vReach("rejected")
	vAssert(!c03Outcome(string(b)), "a text too short for any module is accepted")
}

// verif:bound one or two arbitrary ASCII bytes put (or written over the text) at any place of a module that uses most of the notation
// verif:reach accepted rejected
// verif:parts 2
func VerifC03Disturb(part int) {
	base := "M {a 1 b(2)} DEFINITIONS ::= BEGIN IMPORTS X FROM N; A ::= SEQUENCE {a [1] INTEGER (0..5) OPTIONAL, ...} v REAL ::= -1.5e2 END"
	p := vChoose("at", len(base))
	k := 1 + vTier()
	ins := make([]byte, k)
	for i := range ins {
		ins[i] = vByteIn("b", "\x00-\x7f")
	}
	s := base[:p] + string(ins)
	if part == 0 {
		s += base[p:]
	} else if p+k <= len(base) {
		s += base[p+k:]
	}
	if c03Outcome(s) {
		vReach("accepted")
	} else {
		vReach("rejected")
	}
}

var c03Tokens = []string{"A", "v", "1", "::=", "{", "}", "(", ")", "[", "]", ",", "..", "...", ".", "-", "|", "<", ";", "INTEGER", "SEQUENCE", "SET", "OF", "CHOICE", "SIZE", "DEFAULT", "OPTIONAL", "BOOLEAN", "TRUE", "IMPLICIT", "ANY", "DEFINED", "BY", "BIT", "OCTET", "STRING", "ENUMERATED", "MIN", "MAX", "UNION", "EXCEPT", "ALL", "COMPONENTS", "REAL", "NULL", "OBJECT", "IDENTIFIER", "PLUS-INFINITY", "[[", "]]", ":", "!", "^", "=", "'", "\"", "@", ">", "END", "BEGIN", "IMPORTS", "EXPORTS", "FROM", "UTCTime", "APPLICATION", "WITH", "1e2", "UTF8String", "CHARACTER", "INTERSECTION", "EXPLICIT", "TAGS", "EXTENSIBILITY", "IMPLIED"}

// verif:bound every sequence of up to 2 (thorough: 3) items out of 73 in the place of a type, a value, a constraint, a component list, the module body, the header or the import list of a module
// verif:reach accepted rejected
// verif:parts 7
func VerifC03Items(part int) {
	pre := [][2]string{
		{"M DEFINITIONS ::= BEGIN A ::= ", " END"},
		{"M DEFINITIONS ::= BEGIN v A ::= ", " END"},
		{"M DEFINITIONS ::= BEGIN A ::= INTEGER (", ") END"},
		{"M DEFINITIONS ::= BEGIN A ::= SEQUENCE { a INTEGER ", "} END"},
		{"M DEFINITIONS ::= BEGIN ", " ::= NULL END"},
		{"M DEFINITIONS ", " ::= BEGIN END"},
		{"M DEFINITIONS ::= BEGIN IMPORTS X FROM N ", "; a INTEGER ::= 1 END"},
	}[part]
	n := 1 + vChoose("n", 2+vTier())
	s := pre[0]
	for i := 0; i < n; i++ {
		s += c03Tokens[vChoose("item", len(c03Tokens))] + " "
	}
	if c03Outcome(s + pre[1]) {
		vReach("accepted")
	} else {
		vReach("rejected")
	}
}

var c03Modules = []string{
	"M DEFINITIONS ::= BEGIN END",
	"M {iso a(2) 3} DEFINITIONS AUTOMATIC TAGS EXTENSIBILITY IMPLIED ::= BEGIN EXPORTS ALL; IMPORTS X, y FROM N {1 2} Z FROM O; A ::= INTEGER {a(1), b(-2)} v A ::= 5 END",
	"M DEFINITIONS ::= BEGIN A ::= SEQUENCE { a BIT STRING {x(0)}, b CHOICE {c NULL, ..., d ANY DEFINED BY e} OPTIONAL, ..., f OCTET STRING (SIZE (1..MAX)) DEFAULT 5 } B ::= SET OF A (C | D ^ E EXCEPT F) w OBJECT IDENTIFIER ::= {a b(1) 2} END",
	"M DEFINITIONS ::= BEGIN A ::= ENUMERATED {a, b(3), ..., c} B ::= [APPLICATION 5] IMPLICIT UTCTime r REAL ::= -1.5e-3 /* c */ t BOOLEAN ::= TRUE END",
}

// verif:bound 4 modules covering the notation, cut at every byte before their end, with an optional arbitrary ASCII byte after the cut that does not complete them
// verif:reach cut
// verif:parts 4
func VerifC03Truncated(part int) {
	base := c03Modules[part]
	vAssert(c03Outcome(base), "a complete module is rejected")
	s := base[:vChoose("cut", len(base))]
	if vChoose("more", 2) == 1 {
		c := vByteIn("c", "\x00-\x7f")
		vAssume(!(len(s) == len(base)-1 && c == 'D'))
		s += string([]byte{c})
	}
	vReach("cut")
	vAssert(!c03Outcome(s), "a truncated module is accepted")
}

// verif:bound 4 modules followed by up to 3 (thorough: 4) arbitrary ASCII bytes; accepted exactly when these are white space or comments; plus every pool item
// verif:reach more
// verif:parts 5
func VerifC03Trailing(part int) {
	if part == 4 {
		s := c03Modules[vChoose("m", 4)] + []string{" ", "\n"}[vChoose("sep", 2)] + c03Tokens[vChoose("item", len(c03Tokens))]
		if vChoose("second", 2) == 1 {
			s += " " + c03Modules[0]
		}
		vReach("more")
		vAssert(!c03Outcome(s), "further items after a module are ignored")
		return
	}
	n := 1 + vChoose("n", 3+vTier())
	t := make([]byte, n)
	for i := range t {
		t[i] = vByteIn("t", "\x00-\x7f")
	}
	toks, ok, _, open := refLex("END" + string(t))
	if open {
		vReach("open")
		c03Outcome(c03Modules[part] + string(t))
		return
	}
	if ok && len(toks) == 1 && toks[0].kind == END {
		vReach("nothing")
		vAssert(c03Outcome(c03Modules[part]+string(t)), "white space or a comment after a module makes it invalid")
	} else {
		vReach("more")
		vAssert(!c03Outcome(c03Modules[part]+string(t)), "text after a module is ignored")
	}
}
