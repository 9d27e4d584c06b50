package asn1go

import (
	"bufio"
	"io"
)

// Independent reference for the lexical level (X.680 clause 12 restricted to
// the items this parser knows), over bytes.

type refTok struct {
	kind int    // token constant of the parser
	text string // word or digits
	line int    // 1-based line of its first character
}

type refWord struct {
	w string
	t int
}

var refReserved = []refWord{
	{"ABSENT", ABSENT},
	{"ENCODED", ENCODED},
	{"INTEGER", INTEGER},
	{"RELATIVE-OID", RELATIVE_OID},
	{"ABSTRACT-SYNTAX", ABSTRACT_SYNTAX},
	{"END", END},
	{"INTERSECTION", INTERSECTION},
	{"SEQUENCE", SEQUENCE},
	{"ALL", ALL},
	{"ENUMERATED", ENUMERATED},
	{"ISO646String", ISO646String},
	{"SET", SET},
	{"APPLICATION", APPLICATION},
	{"EXCEPT", EXCEPT},
	{"MAX", MAX},
	{"SIZE", SIZE},
	{"AUTOMATIC", AUTOMATIC},
	{"EXPLICIT", EXPLICIT},
	{"MIN", MIN},
	{"STRING", STRING},
	{"BEGIN", BEGIN},
	{"EXPORTS", EXPORTS},
	{"MINUS-INFINITY", MINUS_INFINITY},
	{"SYNTAX", SYNTAX},
	{"BIT", BIT},
	{"EXTENSIBILITY", EXTENSIBILITY},
	{"NULL", NULL},
	{"T61String", T61String},
	{"BMPString", BMPString},
	{"EXTERNAL", EXTERNAL},
	{"NumericString", NumericString},
	{"TAGS", TAGS},
	{"BOOLEAN", BOOLEAN},
	{"FALSE", FALSE},
	{"OBJECT", OBJECT},
	{"TeletexString", TeletexString},
	{"BY", BY},
	{"FROM", FROM},
	{"ObjectDescriptor", ObjectDescriptor},
	{"TRUE", TRUE},
	{"CHARACTER", CHARACTER},
	{"GeneralizedTime", GeneralizedTime},
	{"OCTET", OCTET},
	{"TYPE-IDENTIFIER", TYPE_IDENTIFIER},
	{"CHOICE", CHOICE},
	{"GeneralString", GeneralString},
	{"OF", OF},
	{"UNION", UNION},
	{"CLASS", CLASS},
	{"GraphicString", GraphicString},
	{"OPTIONAL", OPTIONAL},
	{"UNIQUE", UNIQUE},
	{"COMPONENT", COMPONENT},
	{"IA5String", IA5String},
	{"PATTERN", PATTERN},
	{"UNIVERSAL", UNIVERSAL},
	{"COMPONENTS", COMPONENTS},
	{"IDENTIFIER", IDENTIFIER},
	{"PDV", PDV},
	{"UniversalString", UniversalString},
	{"CONSTRAINED", CONSTRAINED},
	{"IMPLICIT", IMPLICIT},
	{"PLUS-INFINITY", PLUS_INFINITY},
	{"UTCTime", UTCTime},
	{"CONTAINING", CONTAINING},
	{"IMPLIED", IMPLIED},
	{"PRESENT", PRESENT},
	{"UTF8String", UTF8String},
	{"DEFAULT", DEFAULT},
	{"IMPORTS", IMPORTS},
	{"PrintableString", PrintableString},
	{"VideotexString", VideotexString},
	{"DEFINITIONS", DEFINITIONS},
	{"INCLUDES", INCLUDES},
	{"PRIVATE", PRIVATE},
	{"VisibleString", VisibleString},
	{"EMBEDDED", EMBEDDED},
	{"INSTANCE", INSTANCE},
	{"REAL", REAL},
	{"WITH", WITH},
	{"ANY", ANY},
	{"DEFINED", DEFINED},
}

func refIsUpper(c byte) bool { return vAnd(c >= 'A', c <= 'Z') }
func refIsLower(c byte) bool { return vAnd(c >= 'a', c <= 'z') }
func refIsLetter(c byte) bool {
	return vOr(vAnd(c >= 'A', c <= 'Z'), vAnd(c >= 'a', c <= 'z'))
}
func refIsDigit(c byte) bool { return vAnd(c >= '0', c <= '9') }
func refIsSpace(c byte) bool { return vOr(vAnd(c >= 9, c <= 13), c == 32) }
func refIsNL(c byte) bool    { return vAnd(c >= 10, c <= 13) }

var refSingles = []refWord{
	{"{", OPEN_CURLY}, {"}", CLOSE_CURLY}, {"<", LESS}, {">", GREATER}, {",", COMMA}, {".", DOT},
	{"(", OPEN_ROUND}, {")", CLOSE_ROUND}, {"[", OPEN_SQUARE}, {"]", CLOSE_SQUARE}, {"-", MINUS},
	{":", COLON}, {"=", EQUALS}, {"\"", QUOTATION_MARK}, {"'", APOSTROPHE}, {";", SEMICOLON},
	{"@", AT}, {"|", PIPE}, {"!", EXCLAMATION}, {"^", CARET},
}

// refLex splits s. ok is false when s contains a lexical error; errLine is then
// the line of the offending character or word. open reports an unclosed block comment.
func refLex(s string) (toks []refTok, ok bool, errLine int, open bool) {
	i, line := 0, 1
	n := len(s)
	at := func(k int) byte {
		if k < n {
			return s[k]
		}
		return 0xff
	}
	prevNum := -1 // index just after a number
	for i < n {
		c := s[i]
		if refIsSpace(c) {
			if refIsNL(c) {
				line++
			}
			i++
			continue
		}
		if c == '-' && at(i+1) == '-' {
			i += 2
			for i < n {
				if refIsNL(s[i]) {
					line++
					i++
					break
				}
				if s[i] == '-' && at(i+1) == '-' {
					i += 2
					break
				}
				i++
			}
			continue
		}
		if c == '/' && at(i+1) == '*' {
			i += 2
			depth := 1
			for depth > 0 {
				if i >= n {
					return toks, true, 0, true
				}
				if s[i] == '*' && at(i+1) == '/' {
					depth--
					i += 2
				} else if s[i] == '/' && at(i+1) == '*' {
					depth++
					i += 2
				} else {
					if refIsNL(s[i]) {
						line++
					}
					i++
				}
			}
			continue
		}
		if refIsLetter(c) {
			if prevNum == i && (c == 'e' || c == 'E') {
				toks = append(toks, refTok{EXPONENT, "", line})
				i++
				continue
			}
			j := i + 1
			for j < n && vOr(refIsLetter(s[j]), refIsDigit(s[j]), s[j] == '-') {
				if s[j] == '-' && s[j-1] == '-' {
					return toks, false, line, false
				}
				j++
			}
			if s[j-1] == '-' {
				return toks, false, line, false
			}
			w := s[i:j]
			if refIsUpper(c) {
				k := TYPEORMODULEREFERENCE
				for _, r := range refReserved {
					if w == r.w {
						k = r.t
						w = ""
						break
					}
				}
				toks = append(toks, refTok{k, w, line})
			} else {
				toks = append(toks, refTok{VALUEIDENTIFIER, w, line})
			}
			i = j
			continue
		}
		if refIsDigit(c) {
			j := i + 1
			for j < n && refIsDigit(s[j]) {
				j++
			}
			toks = append(toks, refTok{NUMBER, s[i:j], line})
			i = j
			prevNum = i
			continue
		}
		switch {
		case c == ':' && at(i+1) == ':' && at(i+2) == '=':
			toks = append(toks, refTok{ASSIGNMENT, "", line})
			i += 3
			continue
		case c == '.' && at(i+1) == '.' && at(i+2) == '.':
			toks = append(toks, refTok{ELLIPSIS, "", line})
			i += 3
			continue
		case c == '.' && at(i+1) == '.':
			toks = append(toks, refTok{RANGE_SEPARATOR, "", line})
			i += 2
			continue
		case c == '[' && at(i+1) == '[':
			toks = append(toks, refTok{LEFT_VERSION_BRACKETS, "", line})
			i += 2
			continue
		case c == ']' && at(i+1) == ']':
			toks = append(toks, refTok{RIGHT_VERSION_BRACKETS, "", line})
			i += 2
			continue
		}
		k := -1
		for _, r := range refSingles {
			if c == r.w[0] {
				k = r.t
				break
			}
		}
		if k < 0 {
			return toks, false, line, false
		}
		toks = append(toks, refTok{k, "", line})
		i++
	}
	return toks, true, 0, false
}

// refNum evaluates a digit string of at most 18 digits.
func refNum(s string) int {
	v := 0
	for i := 0; i < len(s); i++ {
		v = v*10 + int(s[i]-'0')
	}
	return v
}

type implTok struct {
	kind int
	name string
	num  Number
}

// implLex drives the real lexer to the end of the text.
func implLex(r io.Reader, max int) (toks []implTok, errText string, ended bool) {
	lex := &MyLexer{bufReader: bufio.NewReader(r)}
	for i := 0; i < max; i++ {
		var v yySymType
		k := lex.Lex(&v)
		if k <= 0 {
			if lex.err != nil {
				return toks, lex.err.Error(), true
			}
			if k < 0 {
				return toks, "negative token without an error", true
			}
			return toks, "", true
		}
		toks = append(toks, implTok{k, v.name, v.Number})
	}
	return toks, "", false
}

// sameToks compares what the lexer delivered with the reference items.
func sameToks(got []implTok, want []refTok) {
	vAssert(len(got) == len(want), "number of items delivered differs from the text")
	for i := range want {
		vAssert(got[i].kind == want[i].kind, "item has the wrong kind")
		switch want[i].kind {
		case TYPEORMODULEREFERENCE, VALUEIDENTIFIER:
			vAssert(got[i].name == want[i].text, "word not carried verbatim")
		case NUMBER:
			vAssert(int(got[i].num) == refNum(want[i].text), "number has the wrong value")
		}
	}
}
