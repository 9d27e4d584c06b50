package main

import "strings"

// verif:bound the command on dumps of 0..3 bytes, one of them arbitrary, on lines of 1 to 3 bytes and with blank lines, from standard input
// verif:reach converted
// verif:parts 4
func VerifC25Command(part int) {
	dump := ""
	var want []byte
	per := 1 + vChoose("per line", 3)
	for i := 0; i < part; i++ {
		if i%per == 0 {
			dump += "\n000" + string([]byte{'0' + byte(i)}) + "  "
		}
		hs, ls := "0-9", "a-f"
		if i == 0 {
			hs, ls = "0-9a-fA-F", "0-9a-fA-F"
		}
		hi, lo := vByteIn("hi", hs), vByteIn("lo", ls)
		dump += " " + string([]byte{hi, lo})
		v := 0
		for _, c := range []byte{hi, lo} {
			v = v*16 + vIte(c <= '9', int(c)-'0', vIte(c <= 'F', int(c)-'A'+10, int(c)-'a'+10))
		}
		want = append(want, byte(v))
	}
	if vChoose("break", 2) == 1 {
		dump += "\n"
	}
	vfBegin(vfNode{name: "in", data: []byte(dump)})
	r := vfRun("in", false)
	vfEnd()
	vReach("converted")
	vAssert(r.code == 0, "the command fails")
	vAssert(string(r.out) == string(want), "the output is not the bytes of the dump")
}

// verif:bound standard input that can not be read
// verif:reach failed
func VerifC25Unreadable(part int) {
	vfBegin(vfNode{name: "d", kind: vfDir})
	r := vfRun("d", false)
	vfEnd()
	vReach("failed")
	vAssert(r.code != 0 && len(r.out) == 0, "the command succeeds without input")
	vAssert(strings.Contains(string(r.err), "is a directory"), "the reason is not printed")
}
