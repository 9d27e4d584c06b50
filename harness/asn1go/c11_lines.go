package asn1go

import "strings"

// c11Line is the number after "line " in an error.
func c11Line(err error) int {
	s := err.Error()
	i := strings.Index(s, "line ")
	if i < 0 {
		return -1
	}
	n, seen := 0, false
	for i += 5; i < len(s) && s[i] >= '0' && s[i] <= '9'; i++ {
		n, seen = n*10+int(s[i]-'0'), true
	}
	if !seen {
		return -1
	}
	return n
}

// c11Breaks counts the line breaks of s: LF, VT, FF, CR, and CR LF as one.
func c11Breaks(s []byte) int {
	n := 0
	for i, b := range s {
		if b == '\r' || b == '\v' || b == '\f' || b == '\n' && !(i > 0 && s[i-1] == '\r') {
			n++
		}
	}
	return n
}

// c11Fill is white space or a comment with arbitrary contents.
func c11Fill(kind, n int) []byte {
	b := make([]byte, n)
	switch kind {
	case 0:
		for i := range b {
			b[i] = vByteIn("ws", "\n\r\v\f \t")
		}
		return b
	case 1: // line comment closed by a line break
		for i := range b {
			b[i] = vByteIn("c", "a*/ ")
		}
		return append(append([]byte("--"), b...), vByteIn("end", "\n\r\v\f"))
	case 2: // line comment closed by --, then a break
		for i := range b {
			b[i] = vByteIn("c", "a*/ ")
		}
		return append(append(append([]byte("--"), b...), "--"...), vByteIn("end", "\n\r\v\f "))
	case 3:
		for i := range b {
			b[i] = vByteIn("c", "\n\ra\"-")
		}
		return append(append([]byte("/*"), b...), "*/"...)
	default:
		for i := range b {
			b[i] = vByteIn("c", "\n\f ")
		}
		return append(append([]byte("/*/*"), b...), "*/\n*/\r\n"...)
	}
}

var c11Tokens = []string{"M", "DEFINITIONS", "::=", "BEGIN", "A", "::=", "SEQUENCE", "{", "a", "INTEGER", "(", "4", "..", "MAX", ")", "}", "v", "REAL", "::=", "1.5", "END"}

var c11Bad = []string{"#", "a-", "B-", "PDV", "99999999999999999999", "@", "a--b", "\xc2\xa7", "$ABC", "\x00", "\xff", "]]", "1e", "?9"}

// c11Text writes the items with the offending one at index at, white space
// before item gap, and every other gap a blank or a line break.
func c11Text(at, gap int, fill []byte, bad string) (before []byte) {
	for i := 0; i <= at; i++ {
		if i == gap {
			before = append(before, ' ')
			before = append(before, fill...)
			before = append(before, ' ')
		} else if i%4 == 3 {
			before = append(before, "\n"...)
		} else if i%7 == 5 {
			before = append(before, "\r\n"...)
		} else {
			before = append(before, ' ')
		}
		if i < at {
			before = append(before, c11Tokens[i]...)
		}
	}
	return before
}

// verif:bound 14 offending items (illegal characters, words ending in or containing hyphens, misplaced items, too large numbers) at every place of a 21-item module, after a stretch of 2 (thorough: 3) arbitrary characters in white space, a line comment or a block comment before the first, a middle or the offending item; line breaks LF, CR, VT, FF, CR LF; followed by the rest on the same or later lines, or by nothing
// verif:reach rejected
// verif:parts 14
func VerifC11Line(part int) {
	at := vChoose("at", len(c11Tokens)+1)
	gap := []int{0, at / 2, at}[vChoose("gap", 3)]
	if vTier() == 0 {
		vAssume((at+part)%3 == 0)
	}
	bad := c11Bad[part]
	before := c11Text(at, gap, c11Fill(vChoose("fill", 5), 2+vTier()), bad)
	want := 1 + c11Breaks(before)
	text := string(before) + bad
	switch vChoose("after", 4) {
	case 0:
		text += "\nEND"
	case 1:
		text += "\r\n\n A ::= NULL\nEND\n"
	case 2:
		text += " END"
	}
	_, err := ParseString(text)
	vAssert(err != nil, "an offending item is accepted")
	vAssert(c11Line(err) == want, "the error does not name the line of the offending item")
	vReach("rejected")
}

// verif:bound each of 18 items written twice in a row, an arbitrary white space character after each of the last three items, line breaks of all kinds before
// verif:reach rejected
// verif:parts 18
func VerifC11Misplaced(part int) {
	// the second of two equal items is the first that cannot follow
	toks := append([]string(nil), c11Tokens...)
	k := 0
	for n := part; ; k++ {
		if toks[k] == "A" || toks[k] == "v" || toks[k] == "(" {
			continue
		}
		if n == 0 {
			break
		}
		n--
	}
	var text []byte
	want := 0
	for i := 0; i < len(toks); i++ {
		text = append(text, toks[i]...)
		text = append(text, vByteIn("ws", "\n\r \f"))
		if i == k {
			text = append(text, ' ')
			want = 1 + c11Breaks(text)
			text = append(text, toks[i]...)
			text = append(text, '\n')
			break
		}
		if i < k-2 {
			text[len(text)-1] = "\n \n\v"[i%4]
		}
	}
	text = append(text, " END"...)
	_, err := ParseString(string(text))
	vAssert(err != nil, "a repeated item is accepted")
	vAssert(c11Line(err) == want, "the error does not name the line of the misplaced item")
	vReach("rejected")
}
