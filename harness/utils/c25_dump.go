package utils

import "time"

func c25Hex(c byte) int {
	return vIte(c <= '9', int(c)-'0', vIte(c <= 'F', int(c)-'A'+10, int(c)-'a'+10))
}

// c25Byte is a two-digit hexadecimal number and its value, one of all or one
// with a letter and a digit.
func c25Byte(all bool) (string, byte) {
	hs, ls := "0-9a-fA-F", "0-9a-fA-F"
	if !all {
		hs, ls = "a-f", "0-9"
	}
	hi, lo := vByteIn("hi", hs), vByteIn("lo", ls)
	return string([]byte{hi, lo}), byte(c25Hex(hi)*16 + c25Hex(lo))
}

func c25Spaces(label string, lo, hi int) string {
	return "     "[:lo+vChoose(label, hi-lo+1)]
}

// c25Offset is the first column of a line.
func c25Offset(long int) string {
	n := 4 + long%2*4
	b := []byte("00000000")[:n]
	b[n-1] = vByteIn("offset", "0-9a-fA-F")
	b[n-2] = vByteIn("offset", "0-9a-f")
	return string(b)
}

func c25Check(dump string, want []byte) {
	got := ParseWiresharkHex(dump)
	vReach("converted")
	vAssert(string(got) == string(want), "the bytes are not those of the dump")
}

// verif:bound 0..3 bytes of any hexadecimal letter and digit on lines of 1 to 3 bytes, with 1..2 (thorough, up to 2 bytes: 3) spaces before every byte, spaces at the end of a line, blank lines (empty or of spaces) before, between and after, the last line with or without line break, arbitrary offsets of 4 or 8 digits
// verif:reach converted
// verif:parts 4
func VerifC25Lines(part int) {
	n := part
	var want []byte
	dump := ""
	blank := []string{"", "\n", "  \n"}
	dump += blank[vChoose("blank", 3)]
	long := vChoose("offset length", 2)
	for i := 0; i < n; {
		k := 1 + vChoose("on line", n-i)
		dump += c25Offset(long + i)
		sp := c25Spaces("spaces", 1, 2+vIte(n < 3, vTier(), 0))
		for ; k > 0; k-- {
			s, b := c25Byte(false)
			dump += sp + s
			want = append(want, b)
			i++
			sp = c25Spaces("between", 1, 2-i/3)
		}
		dump += c25Spaces("end", 0, 1)
		if i < n || vChoose("break", 2) == 1 {
			dump += "\n"
		}
		if i < n {
			dump += blank[vChoose("blank", 3)]
		}
	}
	if n > 0 && vChoose("after", 2) == 1 {
		dump += "\n"
	}
	c25Check(dump, want)
}

// verif:bound dumps of 1..67 (thorough: 300) bytes on lines of 1, 7, 8, 16 or 32 bytes, one of them arbitrary in either case at any place (from 64 bytes on: at the first, the last and every 16th place), the others any lower-case letter and digit or digit and upper-case letter (from 32 bytes on: fixed ones)
// verif:reach converted
// verif:parts 5
func VerifC25Long(part int) {
	const digits = "0123456789abcdef"
	per := []int{1, 7, 8, 16, 32}[part]
	n := []int{1, 2, 15, 16, 17, 32, 33, 64, 67, 255, 256, 257, 300}[vChoose("bytes", 9+4*vTier())]
	at := 0
	if n < 64 {
		at = vChoose("at", n)
	} else if at = vChoose("at", (n+15)/16+1) * 16; at >= n {
		at = n - 1
	}
	dump := ""
	var want []byte
	for i := 0; i < n; i++ {
		if i%per == 0 {
			if i > 0 {
				dump += "\n"
			}
			dump += string([]byte{'0', digits[i>>8&15], digits[i>>4&15], digits[i&15]}) + "  "
		}
		if i == at {
			s, b := c25Byte(true)
			dump += " " + s
			want = append(want, b)
			continue
		}
		hs, ls := "a-f", "0-9"
		if i%2 == 1 {
			hs, ls = ls, "A-F"
		}
		if n >= 32 {
			a, b := "abcdef"[i%6], "0123456789"[i%10]
			if i%2 == 1 {
				a, b = b, "ABCDEF"[i%6]
			}
			dump += " " + string([]byte{a, b})
			want = append(want, byte(c25Hex(a)*16+c25Hex(b)))
			continue
		}
		hi, lo := vByteIn("hi", hs), vByteIn("lo", ls)
		dump += " " + string([]byte{hi, lo})
		want = append(want, byte(c25Hex(hi)*16+c25Hex(lo)))
	}
	c25Check(dump+"\n", want)
}

func c25Digits(label string, n, lo, hi int) (string, int) {
	b := make([]byte, n)
	v := 0
	for i := range b {
		b[i] = vByteIn(label, "0-9")
		v = v*10 + int(b[i]-'0')
	}
	vAssume(vAnd(lo <= v, v <= hi))
	return string(b), v
}

// c25Days is the number of days from 1970-01-01 to the date.
func c25Days(y, m, d int) int {
	if m <= 2 {
		y--
		m += 12
	}
	// years from March; 719468 days from 0000-03-01 to 1970-01-01
	return 365*y + y/4 - y/100 + y/400 + (153*(m-3)+2)/5 + d - 1 - 719468
}

// verif:bound every second of every day of each month of every year 1 to 99, 1900 to 2099 and 9900 to 9999 (thorough: 1 to 9999; part 12: February 29 of leap years)
// verif:reach read
// verif:parts 13
func VerifC25Time(part int) {
	m := part + 1
	days := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31, 29}[part]
	first := 1
	c := vChoose("century", 4+96*vTier())
	if vTier() == 0 {
		c = []int{0, 19, 20, 99}[c]
	}
	ys, y := c25Digits("year", 2, 0, 99)
	vAssume(vOr(c > 0, y > 0))
	ys, y = string([]byte{'0' + byte(c/10), '0' + byte(c%10)})+ys, c*100+y
	if part == 12 {
		m, first = 2, 29
		vAssume(vAnd(y%4 == 0, vOr(y%100 != 0, y%400 == 0)))
	}
	ds, d := c25Digits("day", 2, first, days)
	hs, h := c25Digits("hour", 2, 0, 23)
	ms, mi := c25Digits("minute", 2, 0, 59)
	ss, s := c25Digits("second", 2, 0, 59)
	mo := string([]byte{'0' + byte(m/10), '0' + byte(m%10)})
	t := ParseWiresharkTime(ys + "-" + mo + "-" + ds + " " + hs + ":" + ms + ":" + ss)
	vReach("read")
	vAssert(t.Nanosecond() == 0, "the instant has a fraction")
	vAssert(t.Unix() == int64(c25Days(y, m, d)*86400+h*3600+mi*60+s), "the instant is not the one written")
	vAssert(t.Location() == time.UTC, "the time is not in UTC")
}
