package strutil

import "github.com/solarisdb/solaris/golibs/verifsym"

//sym:replace crypto/rand.Read
func symRand(b []byte) (int, error) {
	copy(b, verifsym.Bytes("rnd", len(b)))
	return len(b), nil
}

func hStrings(max int) []string {
	n := verifsym.Choose("n", max+1)
	ss := make([]string, n)
	for i := range ss {
		ss[i] = verifsym.String("s"+string(rune('0'+i)), verifsym.Choose("len"+string(rune('0'+i)), 2))
	}
	return ss
}

// 0..4 strings of 0 or 1 arbitrary bytes: each one once in the order of the first ones; the even and odd ones swapped
//
//sym:harness prop=C36 budget=60s reach=dups,swap
func HStrings() {
	ss := hStrings(4)
	s0 := append([]string(nil), ss...)
	if verifsym.Choose("op", 2) == 0 {
		verifsym.Reach("dups")
		r := RemoveDups(ss)
		k := 0
		for i, s := range s0 {
			first := true
			for j := 0; j < i; j++ {
				first = first && !verifsym.Branch(s0[j] == s)
			}
			if first {
				verifsym.Assert(k < len(r), "helpers: no string is missing")
				verifsym.Assert(r[k] == s, "helpers: the strings are in their order")
				k++
			}
		}
		verifsym.Assert(k == len(r), "helpers: every string is there once")
		return
	}
	verifsym.Reach("swap")
	r := SwapEvenOdd(ss)
	verifsym.Assert(len(r) == len(s0), "helpers: as many strings after swapping")
	for i := range r {
		j := i ^ 1
		if j >= len(r) {
			j = i
		}
		verifsym.Assert(r[i] == s0[j], "helpers: even and odd strings are swapped")
	}
}

// strings of 0..6 arbitrary bytes and any maximal size: what fits is unchanged, the rest is cut to the size with dots at the end
//
//sym:harness prop=C36 budget=60s reach=cut,kept
func HTruncate() {
	s := verifsym.String("s", verifsym.Choose("len", 7))
	max := verifsym.AnyInt("max")
	r := TruncateWithEllipses(s, max)
	if len(s) <= max {
		verifsym.Reach("kept")
		verifsym.Assert(r == s, "helpers: a string which fits is not changed")
		return
	}
	verifsym.Reach("cut")
	if max >= 3 {
		n := verifsym.Concretize(max)
		verifsym.Assert(len(r) == n && r[n-3:] == "...", "helpers: a string is cut to the size")
		verifsym.Assert(r[:n-3] == s[:n-3], "helpers: the begin of the string is kept")
	} else {
		verifsym.Assert(r == "...", "helpers: nothing but dots is left")
	}
}

// 0..3 arbitrary bytes in groups of 1 to 8 bits: the characters stand for the bits in turn, the lowest ones first
//
//sym:harness prop=C36 budget=60s reach=end
func HBits() {
	n, bits := verifsym.Choose("n", 4), 1+verifsym.Choose("bits", 8)
	v := verifsym.Bytes("v", n)
	var abc [256]byte
	for i := range abc {
		abc[i] = byte(255 - i)
	}
	r := Bytes2String(v, string(abc[:]), bits)
	verifsym.Assert(len(r) == (n*8+bits-1)/bits, "helpers: as many characters as groups of bits")
	all := 0
	for i, b := range v {
		all |= int(b) << (8 * i)
	}
	for i := 0; i < len(r); i++ {
		g := all >> (i * bits) & (1<<bits - 1)
		verifsym.Assert(int(r[i]) == 255-g, "helpers: a character stands for its bits")
	}
	verifsym.Reach("end")
}

// random strings of 0..3, 64 and 65 characters of an alphabet of 1..3 arbitrary ones, whatever the random source gives
//
//sym:harness prop=C36 budget=60s reach=end
func HRandom() {
	n := []int{0, 1, 2, 3, 64, 65}[verifsym.Choose("n", 6)]
	abc := verifsym.String("abc", 1+verifsym.Choose("abclen", 3))
	for i := 0; i < len(abc); i++ {
		verifsym.Assume(abc[i] < 0x80)
	}
	r := GetRandomString(n, abc)
	verifsym.Assert(len(r) == n, "helpers: a random string has its length")
	for i := 0; i < len(r); i++ {
		in := false
		for j := 0; j < len(abc); j++ {
			in = verifsym.Or(in, r[i] == abc[j])
		}
		verifsym.Assert(in, "helpers: a random string is made of its alphabet")
	}
	verifsym.Reach("end")
}

// hashes of 32 bytes, 3 of them arbitrary, or of another length: the text and the bytes stand for the value, whatever happens to the buffer it was made of
//
//sym:harness prop=C36 budget=60s reach=end,bad
func HHash() {
	n := []int{0, 31, 32, 33}[verifsym.Choose("n", 4)]
	buf := make([]byte, n)
	for i := range buf {
		buf[i] = byte(i * 7)
	}
	if n > 0 {
		copy(buf, verifsym.Bytes("v", 3))
	}
	b0 := append([]byte(nil), buf...)
	h, err := CreateHash(buf)
	verifsym.Assert((err == nil) == (n == 32), "helpers: a hash has 32 bytes")
	if err != nil {
		verifsym.Reach("bad")
		return
	}
	txt := h.String()
	verifsym.CheckSame(h.Bytes(), b0, "helpers: the bytes of a hash")
	buf[0]++
	verifsym.CheckSame(h.Bytes(), b0, "helpers: a hash does not change with the buffer it was made of")
	verifsym.Assert(h.String() == txt, "helpers: the text of a hash does not change")
	p, err := ParseHash(txt)
	verifsym.Assert(err == nil, "helpers: the text of a hash is read")
	verifsym.CheckSame(p.Bytes(), b0, "helpers: the hash read is the one written")
	verifsym.Assert(p.String() == txt, "helpers: a hash has one text")
	verifsym.Reach("end")
}
