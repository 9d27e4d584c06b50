package asn1go

import (
	"strings"
	"unicode"
)

const c01ASCII = "\x00-\x7f"

func c01Check(s string) {
	want, ok, _, open := refLex(s)
	got, errText, ended := implLex(strings.NewReader(s), len(s)+2)
	vAssert(ended, "the lexer does not reach the end of the text")
	vObserve("tokens", len(got))
	if open {
		// an unclosed block comment has no prescribed reading
		vReach("open")
		return
	}
	if !ok {
		vReach("rejected")
		vAssert(errText != "", "lexical error not reported")
		// items before the error are still delivered as written
		sameToks(got, want)
		return
	}
	vReach("accepted")
	vAssert(errText == "", "well-formed text rejected")
	sameToks(got, want)
}

// verif:bound every ASCII text of up to 3 bytes (thorough: 4)
// verif:reach accepted rejected
func VerifC01Bytes(part int) {
	n := 1 + vChoose("len", 3+vTier())
	b := make([]byte, n)
	for i := range b {
		b[i] = vByteIn("b", c01ASCII)
	}
	c01Check(string(b))
}

// verif:bound every text of 4 bytes (thorough: 5) over the alphabet a e E Z 0 9 - / * . : = [ ] ( newline space ?
// verif:reach accepted rejected
func VerifC01Mixed(part int) {
	n := 4 + vTier()
	b := make([]byte, n)
	for i := range b {
		b[i] = vByteIn("b", "aeEZ09/*.:=[](\n ?-")
	}
	c01Check(string(b))
}

// verif:bound every reserved word, unchanged or with one byte (any position) replaced by any word character, or with one more word character appended or its last one removed, followed by any ASCII delimiter
// verif:reach accepted rejected
// verif:parts 4
func VerifC01Reserved(part int) {
	w := []byte(refReserved[vChoose("word", len(refReserved))].w)
	switch part {
	case 1:
		w[vChoose("pos", len(w))] = vByteIn("x", "a-zA-Z0-9-")
	case 2:
		w = append(w, vByteIn("x", "a-zA-Z0-9-"))
	case 3:
		w = w[:len(w)-1]
	}
	w = append(w, vByteIn("after", c01ASCII), 'x')
	c01Check(string(w))
}

// verif:bound words of up to 6 (thorough: 9) characters over letters, digits and hyphens, alone or followed by one ASCII byte and a letter
// verif:reach accepted rejected
func VerifC01Words(part int) {
	n := 1 + vChoose("len", 6+3*vTier())
	b := make([]byte, n)
	b[0] = vByteIn("c", "a-zA-Z")
	for i := 1; i < n; i++ {
		b[i] = vByteIn("c", "a-z0-9-")
	}
	if vChoose("tail", 2) == 1 {
		b = append(b, vByteIn("t", c01ASCII), 'q')
	}
	c01Check(string(b))
}

// verif:bound numbers of up to 3 digits between any ASCII bytes (part 0); numbers of up to 18 digits between delimiters (part 1)
// verif:reach accepted rejected
// verif:parts 2
func VerifC01Numbers(part int) {
	var b []byte
	if part == 0 {
		b = append(b, vByteIn("before", c01ASCII))
		n := 1 + vChoose("len", 2+vTier())
		for i := 0; i < n; i++ {
			b = append(b, vByteIn("d", "0-9"))
		}
		b = append(b, vByteIn("after", c01ASCII), vByteIn("after2", "e1 -."))
	} else {
		b = append(b, vByteIn("before", " ({<-"))
		n := 1 + vChoose("len", 18)
		for i := 0; i < n; i++ {
			b = append(b, vByteIn("d", "0-9"))
		}
		b = append(b, vByteIn("after", " ).e?"))
	}
	c01Check(string(b))
}

// verif:bound every sequence of 3 (thorough: 4) items, each a word, a number or any symbol item, with or without white space between
// verif:reach accepted
func VerifC01Items(part int) {
	n := 3 + vTier()
	var b []byte
	syms := []string{"::=", "..", "...", "[[", "]]", "::", ":", ".", "[", "]", "=", "-", "{", "1", "a", "INTEGER", "Ty"}
	for i := 0; i < n; i++ {
		b = append(b, syms[vChoose("sym", len(syms))]...)
		if vChoose("gap", 2) == 1 {
			b = append(b, vByteIn("ws", "\t\n\v\f\r "))
		}
	}
	c01Check(string(b))
}

// verif:bound every text of 2 or 3 bytes whose first is not ASCII, and the same after a word: not a Unicode letter or digit
// verif:reach rejected
func VerifC01NonASCII(part int) {
	n := 2 + vChoose("len", 1+vTier())
	var b []byte
	pre := vChoose("pre", 3)
	if pre == 1 {
		b = append(b, 'a')
	}
	if pre == 2 {
		b = append(b, 'B', ' ', '7')
	}
	k := len(b)
	for i := 0; i < n; i++ {
		b = append(b, vByteIn("u", "\x80-\xff"))
	}
	s := string(b)
	for _, r := range s[k:] {
		// letters and digits of other scripts are outside the claim
		vAssume(!unicode.IsLetter(r) && !unicode.IsDigit(r))
		break
	}
	_, errText, ended := implLex(strings.NewReader(s), len(s)+2)
	vReach("rejected")
	vAssert(ended && errText != "", "a character outside the alphabet is not reported")
}
