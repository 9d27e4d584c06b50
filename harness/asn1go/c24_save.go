package asn1go

import (
	"encoding/asn1"
	"errors"
	"os"
	"strings"
)

// The encoder of encoding/asn1 is not part of what is checked; in the engine it
// is replaced by one that encodes raw values (whose encoding is what they hold),
// booleans and small integers, and fails for everything else.
//
// verif:replace encoding/asn1.Marshal
func c24Marshal(val interface{}) ([]byte, error) {
	switch v := val.(type) {
	case asn1.RawValue:
		return append([]byte{}, v.FullBytes...), nil
	case bool:
		if v {
			return []byte{1, 1, 255}, nil
		}
		return []byte{1, 1, 0}, nil
	}
	return nil, errors.New("asn1: structure error: unknown Go type")
}

// verif:replace encoding/asn1.MarshalWithParams
func c24MarshalWithParams(val interface{}, params string) ([]byte, error) {
	vAssert(params == "", "parameters change the encoding")
	return c24Marshal(val)
}

// verif:bound encodings of 1..8 (thorough: 24) arbitrary bytes and of a boolean; into a file that does not exist, or has 0..12 (thorough: 30) bytes of previous content; file name of two arbitrary letters, alone or in a directory
// verif:reach saved
// verif:parts 3
func VerifC24Save(part int) {
	name := string([]byte{'f', vByteIn("name", "a-z0-9%"), '.'})
	world := []vfNode{{name: "d", kind: vfDir}}
	if part == 2 {
		name = "d/" + name
	}
	if part > 0 {
		world = append(world, vfNode{name: name, data: []byte("previous content, long"[:vChoose("before", 13)])})
		if vTier() == 1 && vChoose("more", 2) == 1 {
			world[1].data = []byte(strings.Repeat("x", 30))
		}
	}
	n := 1 + vChoose("len", 8+16*vTier())
	want := make([]byte, n)
	for i := range want {
		want[i] = vByte("byte")
	}
	want[0] = vByteIn("tag", "\x01-\x1e\x21-\x3e\x41-\x5e\x61-\x7e")
	var val interface{} = asn1.RawValue{FullBytes: want}
	if vChoose("boolean", 2) == 1 {
		vAssume(n == 1)
		val = true
		want = []byte{1, 1, 255}
	}
	mode := os.FileMode(vChoose("mode", 2)*0200 + 0444)
	vfBegin(world...)
	err := MarshalToFile(val, name, mode)
	got, ok := vfContent(name)
	others := vfOthers("d", name)
	vfEnd()
	vReach("saved")
	vAssert(err == nil, "saving fails")
	vAssert(ok, "no file is written")
	vAssert(string(got) == string(want), "the file does not hold exactly the encoding")
	vAssert(others == 0, "other files are left")
}

// verif:bound 4 values that can not be encoded, into a file that does not exist or has previous content, or where a directory is
// verif:reach refused
// verif:parts 3
func VerifC24Unencodable(part int) {
	val := []interface{}{make(chan int), 1.5, nil, map[string]int{}}[vChoose("value", 4)]
	name := string([]byte{'f', vByteIn("name", "a-z")})
	var world []vfNode
	switch part {
	case 1:
		world = []vfNode{{name: name, data: []byte("previous")}}
	case 2:
		world = []vfNode{{name: name, kind: vfDir}}
	}
	vfBegin(world...)
	err := MarshalToFile(val, name, 0644)
	got, ok := vfContent(name)
	others := vfOthers(name)
	vfEnd()
	vReach("refused")
	vAssert(err != nil && strings.Contains(err.Error(), "asn1"), "the error of the encoder is not returned")
	vAssert(ok == (part == 1) && others == 0, "a file is made although nothing is encoded")
	vAssert(part != 1 || string(got) == "previous", "the file is touched although nothing is encoded")
}

// verif:bound encodings of 1..8 arbitrary bytes into a directory, below a missing directory, below a file, into an empty path and to a device that takes no data
// verif:reach failed
// verif:parts 5
func VerifC24Unwritable(part int) {
	b := make([]byte, 1+vChoose("len", 8))
	for i := range b {
		b[i] = vByte("byte")
	}
	b[0] = vByteIn("tag", "\x01-\x1e")
	names := []string{"d", "m/f", "f/g", "", "/dev/full"}
	texts := []string{"is a directory", "no such file", "not a directory", "no such file", "no space left"}
	world := []vfNode{{name: "d", kind: vfDir}, {name: "f", data: []byte("previous")}}
	if vEngine() {
		world = append(world, vfNode{name: "/dev/full", kind: vfFull})
	}
	vfBegin(world...)
	err := MarshalToFile(asn1.RawValue{FullBytes: b}, names[part], 0644)
	got, _ := vfContent("f")
	others := vfOthers("d", "f")
	vfEnd()
	vReach("failed")
	vAssert(err != nil, "a file that can not be written is not reported")
	vAssert(strings.Contains(err.Error(), texts[part]), "the error returned is another one")
	vAssert(string(got) == "previous" && others == 0, "another file is touched")
}
