package main

import (
	"bytes"
	"flag"
	"strings"

	"github.com/chemikadze/asn1go"
)

// Printing the usage needs package reflect to tell which defaults are zero values.
//
// verif:replace flag.isZeroValue
func c26IsZero(f *flag.Flag, value string) (bool, error) {
	return value == "" || value == "0" || value == "false", nil
}

// c26Module is a module; b goes into it at a place where a letter, a digit or a
// hyphen makes it a valid one.
func c26Module(k int, b byte) string {
	s := string([]byte{b})
	switch k {
	case 0:
		return "M" + s + "a DEFINITIONS ::= BEGIN\nA ::= INTEGER\nEND\n"
	case 1:
		return "M DEFINITIONS ::= BEGIN A ::= SEQUENCE { a" + s + "x OBJECT IDENTIFIER OPTIONAL, t GeneralizedTime } END"
	case 2:
		return "My-Mod DEFINITIONS IMPLICIT TAGS ::= BEGIN\nB ::= INTEGER { one" + s + "x(1) }\nv B ::= 5\nEND"
	}
	return "M DEFINITIONS ::= BEGIN END"
}

// c26Want is what the library does for the text: the file, or why there is none.
func c26Want(text string, p asn1go.GenParams) (file, reason string) {
	m, err := asn1go.ParseString(text)
	if err != nil {
		return "", err.Error()
	}
	var b bytes.Buffer
	if err = asn1go.NewCodeGenerator(p).Generate(*m, &b); err != nil {
		return "", err.Error()
	}
	return b.String(), ""
}

func c26Name(label string) string {
	return string([]byte{vByteIn(label, "a-z%"), vByteIn(label, "a-z0-9.%")})
}

// c26File is a file name: the letter and two arbitrary characters, or a single
// arbitrary character.
func c26File(label, letter string) string {
	if vChoose("single", 2) == 1 {
		b := vByteIn(label, "!-~")
		vAssume(b != '/' && b != '.' && b != 'd')
		return string([]byte{b})
	}
	return letter + c26Name(label)
}

// c26Failed says that the command failed and printed the reason.
func c26Failed(r vfResult, reason string) {
	vAssert(r.code != 0, "the command succeeds")
	vAssert(len(r.err) > 0, "nothing is printed to standard error")
	vAssert(strings.Contains(string(r.err), reason), "the reason is not printed verbatim")
}

// c26Before is the content of the output before the command runs.
func c26Before(l int) []byte { return []byte(strings.Repeat("package previous\n", l)) }

// verif:bound 4 valid modules with an arbitrary letter or digit, from standard input or a file, to standard output, a new file, a file in a directory, an existing file that is empty, shorter or longer than the generated one; file names of a letter and two arbitrary characters, or of one arbitrary character
// verif:reach written
// verif:parts 8
func VerifC26Files(part int) {
	text := c26Module(part%4, vByteIn("char", "a-zA-Z0-9"))
	file, reason := c26Want(text, asn1go.GenParams{})
	vAssume(reason == "")
	in := c26File("in", "i")
	world := []vfNode{{name: in, data: []byte(text)}, {name: "d", kind: vfDir}}
	if part < 4 {
		vfBegin(world...)
		var r vfResult
		if vChoose("stdin", 2) == 1 {
			r = vfRun(in, false)
		} else {
			r = vfRun("", false, in)
		}
		got, ok := vfContent(in)
		others := vfOthers(in, "d")
		vfEnd()
		vReach("written")
		vAssert(r.code == 0 && len(r.err) == 0, "the command fails")
		vAssert(string(r.out) == file, "standard output is not exactly the generated file")
		vAssert(ok && string(got) == text && others == 0, "a file is touched")
		return
	}
	out := c26File("out", "o")
	vAssume(out != in)
	k := vChoose("output", 6)
	switch k {
	case 0:
	case 1:
		out = "d/" + out
	case 2:
		world = append(world, vfNode{name: out})
	default:
		world = append(world, vfNode{name: out, data: c26Before([]int{1, 100, 200}[k-3])})
	}
	vfBegin(world...)
	r := vfRun("", false, in, out)
	got, ok := vfContent(out)
	gin, _ := vfContent(in)
	others := vfOthers(in, out, "d")
	vfEnd()
	vReach("written")
	vAssert(r.code == 0 && len(r.err) == 0, "the command fails")
	vAssert(len(r.out) == 0, "something is written to standard output")
	vAssert(ok, "the output is not written")
	vAssert(string(got) == file, "the output is not exactly the generated file")
	vAssert(string(gin) == text && others == 0, "another file is touched")
}

// c26Flag is the flag in one of the forms there are.
func c26Flag(name, val string, form int) []string {
	switch form {
	case 0:
		return []string{"-" + name, val}
	case 1:
		return []string{"-" + name + "=" + val}
	case 2:
		return []string{"--" + name, val}
	}
	return []string{"--" + name + "=" + val}
}

// verif:bound package names of 1..3 arbitrary letters, digits or '%', the integer representations int64 and big.Int, an empty one and 3 arbitrary letters, each with one or two hyphens and with '=' or as an argument of its own; one or both, in either order; file or standard input and output
// verif:reach written
// verif:parts 8
func VerifC26Flags(part int) {
	var p asn1go.GenParams
	var args []string
	pkg := func() {
		b := []byte{vByteIn("package", "a-zA-Z%")}
		for n := vChoose("length", 3); n > 0; n-- {
			b = append(b, vByteIn("package", "a-zA-Z0-9%"))
		}
		p.Package = string(b)
		args = append(args, c26Flag("package", p.Package, part%4)...)
	}
	repr := func() {
		s := []string{"int64", "big.Int", "", "abc"}[vChoose("representation", 4)]
		if s == "abc" {
			s = string([]byte{vByteIn("repr", "a-zA-Z%"), vByteIn("repr", "a-z"), vByteIn("repr", "a-z")})
		}
		p.IntegerRepr = asn1go.IntegerRepr(s)
		args = append(args, c26Flag("default-integer-repr", s, part%4)...)
	}
	k := part/4*2 + vChoose("flags", 2)
	if k != 1 && k != 3 {
		pkg()
	}
	if k != 0 {
		repr()
	}
	if k == 3 {
		pkg()
	}
	text := c26Module(2*vChoose("module", 2), 'q')
	file, reason := c26Want(text, p)
	world := []vfNode{{name: "in", data: []byte(text)}}
	stdin := "in"
	n := vChoose("files", 3)
	if n > 0 {
		stdin = ""
		args = append(args, "in")
	}
	if n > 1 {
		args = append(args, "out")
	}
	vfBegin(world...)
	r := vfRun(stdin, false, args...)
	got, ok := vfContent("out")
	vfEnd()
	vReach("written")
	if reason != "" {
		c26Failed(r, reason)
		vAssert(len(r.out) == 0 && len(got) == 0, "something is written next to the reason")
		return
	}
	vAssert(r.code == 0, "the command fails")
	if n > 1 {
		vAssert(ok && len(r.out) == 0, "the file is not written")
		vAssert(string(got) == file, "the options do not reach the generator")
	} else {
		vAssert(string(r.out) == file, "the options do not reach the generator")
	}
}

// verif:bound 6 rejected modules with an arbitrary printable character in a place where none is allowed, 4 modules that can not be generated (with 2 arbitrary letters), empty input; from standard input or a file with two arbitrary characters in its name, or one arbitrary character as its name; to standard output, a new or an existing file
// verif:reach failed
// verif:parts 11
func VerifC26Rejected(part int) {
	text := ""
	s := ""
	if part < 6 {
		s = string([]byte{vByteIn("char", "!-\xff")})
	} else {
		s = string([]byte{vByteIn("char", "a-z"), vByteIn("char", "a-z")})
	}
	switch part {
	case 0:
		text = s
	case 1:
		text = "M DEFINITIONS ::= BEGIN\nA ::= SEQUENCE {" + s + "\nEND"
	case 2:
		text = "M DEFINITIONS ::= BEGIN\n\nA " + s + " INTEGER END"
	case 3:
		text = "M DEFINITIONS ::= BEGIN a INTEGER ::= \"%d" + s + "%"
	case 4:
		text = "M DEFINITIONS ::= BEGIN v OCTET STRING ::= 'A" + s + "%'H END"
		vAssume(vAnd(s[0] < 0x80, vAnd(vOr(s[0] < '0', s[0] > '9'), vOr(s[0] < 'A', s[0] > 'F'))))
	case 5:
		text = "M DEFINITIONS ::= BEGIN v OCTET STRING ::= '" + s + "0 % %s' END"
	case 6:
		text = "M DEFINITIONS ::= BEGIN A" + s + " ::= SEQUENCE { x NULL } END"
	case 7:
		text = "M DEFINITIONS AUTOMATIC TAGS ::= BEGIN A" + s + " ::= INTEGER END"
	case 8:
		text = "M DEFINITIONS ::= BEGIN A ::= SEQUENCE { x B" + s + " } END"
	case 9:
		text = "M DEFINITIONS ::= BEGIN A" + s + " ::= SET OF SEQUENCE { COMPONENTS OF B } END"
	}
	_, reason := c26Want(text, asn1go.GenParams{})
	vAssume(reason != "")
	in := c26File("in", "i")
	world := []vfNode{{name: in, data: []byte(text)}}
	var args []string
	stdin := in
	k := vChoose("files", 4)
	if k > 0 {
		args = append(args, in)
		stdin = ""
	}
	if k > 1 {
		args = append(args, "out")
	}
	if k > 2 {
		world = append(world, vfNode{name: "out", data: []byte("previous")})
	}
	vfBegin(world...)
	r := vfRun(stdin, false, args...)
	gin, _ := vfContent(in)
	others := vfOthers(in, "out")
	vfEnd()
	vReach("failed")
	c26Failed(r, reason)
	vAssert(len(r.out) == 0, "something is written to standard output")
	vAssert(string(gin) == text && others == 0, "another file is touched")
}

// verif:bound 0: input file that does not exist; 1: input that is a directory; 2: standard input that is a directory; 3: output that is a directory; 4: output below a missing directory; 5: output below a file; 6: output to a device that takes no data; 7: standard output that takes no data; names with two arbitrary characters
// verif:reach failed
// verif:parts 8
func VerifC26Faults(part int) {
	a := c26Name("name")
	text := c26Module(vChoose("module", 4), 'q')
	world := []vfNode{{name: "in", data: []byte(text)}, {name: "d" + a, kind: vfDir}, {name: "f" + a, data: []byte("previous")}}
	if vEngine() {
		world = append(world, vfNode{name: "/dev/full", kind: vfFull})
	}
	args, stdin, full, reason := []string{"in"}, "", false, ""
	switch part {
	case 0:
		args, reason = []string{"m" + a}, "no such file or directory"
	case 1:
		args, reason = []string{"d" + a}, "is a directory"
	case 2:
		args, stdin, reason = nil, "d"+a, "is a directory"
	case 3:
		args, reason = []string{"in", "d" + a}, "is a directory"
	case 4:
		args, reason = []string{"in", "m" + a + "/f"}, "no such file or directory"
	case 5:
		args, reason = []string{"in", "f" + a + "/f"}, "not a directory"
	case 6:
		// truncating it fails first
		args, reason = []string{"in", "/dev/full"}, ""
	case 7:
		full, reason = true, "no space left on device"
	}
	if part < 2 && vChoose("output", 2) == 1 {
		args = append(args, "f"+a)
	}
	vfBegin(world...)
	r := vfRun(stdin, full, args...)
	gin, _ := vfContent("in")
	prev, _ := vfContent("f" + a)
	others := vfOthers("in", "d"+a, "f"+a)
	vfEnd()
	vReach("failed")
	c26Failed(r, reason)
	vAssert(len(r.out) == 0, "something is written to standard output")
	vAssert(string(gin) == text && others == 0, "another file is touched")
	vAssert(part < 2 || string(prev) == "previous", "a file that was not named is touched")
	if part != 2 && part < 6 {
		vAssert(strings.Contains(string(r.err), a), "the name is not printed")
	}
}

// verif:bound 0: three to five arguments; 1: an unknown flag of two letters; 2: a flag without its value; 3: an unknown flag with a value; before, between or after others
// verif:reach failed
// verif:parts 4
func VerifC26Arguments(part int) {
	text := c26Module(0, 'q')
	world := []vfNode{{name: "in", data: []byte(text)}, {name: "out", data: []byte("previous")}}
	var args []string
	reason := ""
	switch part {
	case 0:
		args = []string{"in", "out", "third", "fourth", "fifth"}[:3+vChoose("arguments", 3)]
		if vChoose("flag", 2) == 1 {
			args = append([]string{"-package", "p"}, args...)
		}
		reason = "asn1go [[input] output]"
	case 1, 3:
		name := string([]byte{vByteIn("flag", "a-z"), vByteIn("flag", "a-z0-9%")})
		f := "-" + name
		if part == 3 {
			f += "=v"
		}
		args = []string{f, "in", "out"}
		switch vChoose("flags", 3) {
		case 1:
			args = append([]string{"-package", "p"}, args...)
		case 2:
			args = append([]string{"--default-integer-repr=int64"}, args...)
		}
		reason = "-" + name
	case 2:
		args = []string{[]string{"-package", "--package", "-default-integer-repr", "--default-integer-repr"}[vChoose("flag", 4)]}
		reason = args[0]
		if reason[1] == '-' {
			reason = reason[1:]
		}
	}
	vfBegin(world...)
	r := vfRun("in", false, args...)
	gin, _ := vfContent("in")
	prev, _ := vfContent("out")
	others := vfOthers("in", "out")
	vfEnd()
	vReach("failed")
	c26Failed(r, reason)
	vAssert(len(r.out) == 0, "something is written to standard output")
	vAssert(string(gin) == text && string(prev) == "previous" && others == 0, "a file is touched")
}
