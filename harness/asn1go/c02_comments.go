package asn1go

import (
	"reflect"
	"strings"
)

var c02Items = []string{"Mod", "DEFINITIONS", "IMPLICIT", "TAGS", "::=", "BEGIN", "A", "::=", "SEQUENCE", "{", "a", "INTEGER", "(", "0", "..", "5", ")", ",", "b", "[", "1", "]", "BOOLEAN", "DEFAULT", "TRUE", ",", "...", "}", "v", "REAL", "::=", "1", ".", "5", "END"}

func c02Word(s string) bool {
	c := s[len(s)-1]
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func c02Filler(kind, k int) string {
	var f []byte
	switch kind {
	case 0:
		for i := 0; i <= k; i++ {
			f = append(f, vByteIn("ws", "\t\n\v\f\r "))
		}
		return string(f)
	case 1:
		f = append(f, "--"...)
	default:
		f = append(f, "/*"...)
	}
	for i := 0; i < k; i++ {
		f = append(f, vByteIn("c", "\x00-\x7f"))
	}
	switch kind {
	case 1:
		f = append(f, "--"...)
	case 2:
		f = append(f, "*/"...)
	case 3:
		f[0], f[1] = '-', '-'
		f = append(f, vByteIn("nl", "\n\v\f\r"))
	case 4:
		f = append(f, "/* n */ */"...)
	}
	return string(f)
}

func c02Module(gap int, before, filler string) string {
	var sb strings.Builder
	for i, it := range c02Items {
		if i == gap {
			sb.WriteString(before)
			sb.WriteString(filler)
		} else if i > 0 {
			sb.WriteByte(' ')
		}
		sb.WriteString(it)
	}
	if gap == len(c02Items) {
		sb.WriteString(before)
		sb.WriteString(filler)
	}
	return sb.String()
}

// verif:bound one white-space run, line comment (closed by -- or a line break) or block comment (also nested) with up to 3 (thorough: 4) arbitrary ASCII bytes of content, inserted at any of the 36 places between, before or after the items of one module, next to a space or instead of it
// verif:reach filler
// verif:parts 5
func VerifC02Insert(part int) {
	plain := c02Module(-1, "", "")
	want, err := ParseString(plain)
	vAssert(err == nil && want != nil, "the plain module is rejected")
	gap := vChoose("gap", len(c02Items)+1)
	k := vChoose("k", 4+vTier())
	f := c02Filler(part, k)
	// the filler is complete in itself: a word placed right after it is read as just that word
	toks, ok, _, open := refLex(f + "sentinel")
	vAssume(ok && len(toks) == 1 && toks[0].text == "sentinel" && !open)
	vReach("filler")
	before := " "
	if vChoose("adjacent", 2) == 1 {
		// a word directly followed by -- is one (ill-formed) word
		vAssume(gap > 0 && !((part == 1 || part == 3) && c02Word(c02Items[gap-1])))
		before = ""
	}
	got, err := ParseString(c02Module(gap, before, f))
	vAssert(err == nil, "a comment or white space makes the module invalid")
	vAssert(reflect.DeepEqual(got, want), "a comment or white space changes the module")
	vObserve("ok", true)
}

// verif:bound text of 2 words with up to 6 (thorough: 8) bytes between them drawn from - * / x newline CR space, starting with a comment opener, against an independent reading
// verif:reach closed open
// verif:parts 2
func VerifC02Comment(part int) {
	b := []byte("a ")
	if part == 0 {
		b = append(b, "--"...)
	} else {
		b = append(b, "/*"...)
	}
	n := vChoose("n", 7+2*vTier())
	for i := 0; i < n; i++ {
		b = append(b, vByteIn("c", "*/x\n\r -"))
	}
	b = append(b, " z"...)
	s := string(b)
	want, ok, _, open := refLex(s)
	got, errText, ended := implLex(strings.NewReader(s), len(s)+2)
	vAssert(ended, "the lexer does not reach the end of the text")
	if open {
		vReach("open")
		vAssert(len(got) <= len(want), "text inside an unclosed comment is read as module text")
		return
	}
	vReach("closed")
	vAssert((errText == "") == ok, "text around comments wrongly rejected or accepted")
	sameToks(got, want)
}

// verif:bound white space of every kind: any run of up to 3 bytes of the six white-space characters between two items
// verif:reach done
func VerifC02Space(part int) {
	b := []byte("Ab")
	n := 1 + vChoose("n", 3)
	for i := 0; i < n; i++ {
		b = append(b, vByteIn("w", "\t\n\v\f\r "))
	}
	b = append(b, "cd"...)
	got, errText, _ := implLex(strings.NewReader(string(b)), 10)
	vReach("done")
	vAssert(errText == "" && len(got) == 2 && got[0].name == "Ab" && got[1].name == "cd", "white space does not separate the items")
}
