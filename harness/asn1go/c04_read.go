package asn1go

import (
	"errors"
	"io"
	"reflect"
	"strings"
)

// c04Reader delivers data in pieces that end at the given cuts.
type c04Reader struct {
	data    string
	pos     int
	cuts    []int // ascending; every Read stops at the next one
	empty   int   // number of (0, nil) results given at every cut
	given   int
	withEOF bool // the last piece comes together with io.EOF
	failAt  int  // position at which reading fails, or -1
	failure error
	failing int  // 0: forever; n: that many times, then behave as after
	after   int  // 0: deliver the rest of the data, 1: end of input
	partial bool // the failure comes together with the data before it
	failed  int
	reads   int
}

func (r *c04Reader) fail() error {
	r.failed++
	if r.failing != 0 && r.failed >= r.failing {
		r.failAt = -1
		if r.after == 1 {
			r.data = r.data[:r.pos]
		}
	}
	return r.failure
}

func (r *c04Reader) Read(p []byte) (int, error) {
	r.reads++
	vAssert(r.reads < 20000, "the stream is read without end")
	if len(p) == 0 {
		return 0, nil
	}
	if r.failAt == r.pos {
		return 0, r.fail()
	}
	end := len(r.data)
	if r.failAt >= 0 && r.failAt < end {
		end = r.failAt
	}
	for _, c := range r.cuts {
		if c == r.pos && c > 0 && r.given < r.empty {
			r.given++
			return 0, nil
		}
		if c > r.pos && c < end {
			end = c
		}
	}
	r.given = 0
	if r.pos >= len(r.data) {
		return 0, io.EOF
	}
	n := copy(p, r.data[r.pos:end])
	r.pos += n
	if r.pos == r.failAt && r.partial {
		return n, r.fail()
	}
	if r.withEOF && r.pos == len(r.data) {
		return n, io.EOF
	}
	return n, nil
}

const c04Text = "Mo-d {iso a(12)} DEFINITIONS ::= BEGIN IMPORTS X FROM N; --c\u00e9--\r\nA ::= SEQUENCE {a [1] INTEGER (-15..<MAX) OPTIONAL,..., /*\u4e16/**/*/ b BIT STRING} v REAL ::= 1.05e-2\nEND"

func c04Same(s string, r *c04Reader) {
	m, err := ParseStream(r)
	m2, err2 := ParseString(s)
	vAssert((err == nil) == (err2 == nil), "a text is accepted or rejected depending on how it is read")
	if err != nil {
		vAssert(m == nil, "a module comes with an error")
		vAssert(err.Error() == err2.Error(), "the error depends on how the text is read")
		return
	}
	vAssert(reflect.DeepEqual(m, m2), "the module depends on how the text is read")
}

// verif:bound a module of 175 bytes with every kind of lexical item and 2- and 3-byte characters, read in pieces ending at any one or two positions, with up to 2 empty reads at each, the end of input coming with the last piece or alone; and in pieces of 1 to 7 bytes
// verif:reach same
// verif:parts 3
func VerifC04Split(part int) {
	r := &c04Reader{data: c04Text, failAt: -1}
	r.withEOF = vChoose("eof", 2) == 1
	switch part {
	case 0:
		r.empty = vChoose("empty", 3)
		r.cuts = []int{vChoose("cut", len(c04Text)+1)}
	case 1:
		r.empty = vChoose("empty", 2)
		// the second piece is short, so that it lies inside one item
		c := 1 + vChoose("cut", len(c04Text)-1)
		d := c + 1 + vChoose("len", 3+5*vTier())
		r.cuts = []int{c, d}
	case 2:
		n := 1 + vChoose("n", 7)
		r.empty = vChoose("empty", 2)
		for i := n; i < len(c04Text); i += n {
			r.cuts = append(r.cuts, i)
		}
	}
	vReach("same")
	c04Same(c04Text, r)
}

var c04Frames = [][2]string{
	{"M DEFINITIONS ::= BEGIN A ", " B END"},
	{"M DEFINITIONS ::= BEGIN A ::= INTEGER (0", ") END"},
	{"M DEFINITIONS ::= BEGIN A ::= B ", " END"},
}

// verif:bound 3 modules with 3 (thorough: 4; after a digit: 2) arbitrary ASCII bytes at a place, the bytes around and in it read in every possible way of cutting
// verif:reach accepted rejected
// verif:parts 3
func VerifC04Any(part int) {
	f := c04Frames[part]
	n := 3 + vTier()
	if part == 1 {
		n = 2 // next to a number: the value enters the comparison
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = vByteIn("b", "\x00-\x7f")
	}
	s := f[0] + string(b) + f[1]
	r := &c04Reader{data: s, failAt: -1}
	for i := 0; i <= n; i++ {
		if vChoose("cut", 2) == 1 {
			r.cuts = append(r.cuts, len(f[0])+i)
		}
	}
	if _, err := ParseString(s); err == nil {
		vReach("accepted")
	} else {
		vReach("rejected")
	}
	c04Same(s, r)
}

// verif:bound the module of VerifC04Split with white space or a comment padding it so that each of its bytes in turn lies on the border of a 4096-byte read buffer
// verif:reach padded
// verif:parts 3
// verif:steps 20000000
func VerifC04Buffer(part int) {
	at := 5 + vChoose("at", len(c04Text)-5) // this byte of the text is the first of the second buffer
	var pad string
	switch part {
	case 0:
		pad = strings.Repeat(" ", 4096-at)
	case 1:
		pad = "--" + strings.Repeat("x", 4096-at-5) + "-- "
	case 2:
		pad = "/*" + strings.Repeat("\u00e9", (4096-at-5)/2) + "*/ "
		pad += strings.Repeat(" ", 4096-at-len(pad))
	}
	s := "Mo-d " + pad + c04Text[5:]
	vAssert(len(s) == 4096-at+len(c04Text), "fixture")
	m, err := ParseStream(&c04Reader{data: s, failAt: -1})
	m2, err2 := ParseString(c04Text)
	vReach("padded")
	vAssert(err == nil && err2 == nil, "a valid module is rejected")
	vAssert(reflect.DeepEqual(m, m2), "the module depends on how the text is buffered")
}

// c04Wrapped is an error that wraps io.EOF, which is not the end of the stream.
type c04Wrapped struct{}

func (c04Wrapped) Error() string { return "EOF" }
func (c04Wrapped) Unwrap() error { return io.EOF }

// c04Failure is one of the errors readers fail with.
func c04Failure(k int) error {
	return []error{errors.New("broken pipe"), io.ErrUnexpectedEOF, c04Wrapped{}, io.ErrClosedPipe, io.ErrNoProgress}[k]
}

// verif:bound a stream that fails at any position of the module or of the blanks, comment and line breaks behind it: for good, or once or twice and then continues with the rest of the text or ends; alone or together with the data before it; after an earlier cut at any of the 4 preceding positions; with any of 5 errors, among them ones that name or wrap the end of input
// verif:reach failed
// verif:parts 5
func VerifC04Fail(part int) {
	text := c04Text + " \n--c\r\n\n"
	p := vChoose("at", len(text)+1)
	r := &c04Reader{data: text, failAt: p, failure: c04Failure(part)}
	r.failing = vChoose("failing", 3)
	if r.failing != 0 {
		r.after = vChoose("after", 2)
	}
	r.partial = vChoose("partial", 2) == 1
	if k := vChoose("cutbefore", 5); k > 0 {
		vAssume(p-k > 0)
		r.cuts = []int{p - k}
	}
	m, err := ParseStream(r)
	vReach("failed")
	vAssert(err != nil, "a read failure is not reported")
	vAssert(m == nil, "a module is built from part of the text")
}

// verif:bound the same failures with 2 (thorough: 3) arbitrary ASCII bytes just before the failure and the text before them ending at any of 12 places
// verif:reach failed
// verif:parts 2
func VerifC04FailAfter(part int) {
	places := []string{"", "M ", "M DEFINITIONS ::= BEGIN A ", "M DEFINITIONS ::= BEGIN A ::= SEQUENCE {a B,", "M DEFINITIONS ::= BEGIN v REAL ::= 1", "M DEFINITIONS ::= BEGIN v REAL ::= 1 --", "M DEFINITIONS ::= BEGIN v REAL ::= 1 /* ", "M DEFINITIONS ::= BEGIN v A ::= x", "M DEFINITIONS ::= BEGIN A ::= INTEGER (0", "M DEFINITIONS ::= BEGIN v A ::= {", "M DEFINITIONS ::= BEGIN A ::= [", "M DEFINITIONS ::= BEGIN A ::= B (1 "}
	s := places[vChoose("place", len(places))]
	n := 2 + vTier()
	b := make([]byte, n)
	for i := range b {
		b[i] = vByteIn("b", "\x00-\x7f")
	}
	s += string(b)
	r := &c04Reader{data: s, failAt: len(s), failure: c04Failure(vChoose("failure", 2+vTier()))}
	if part == 1 {
		r.failing, r.after = 1, 1
	}
	r.partial = vChoose("partial", 2) == 1
	m, err := ParseStream(r)
	vReach("failed")
	vAssert(err != nil, "a read failure is not reported")
	vAssert(m == nil, "a module is built from part of the text")
}
