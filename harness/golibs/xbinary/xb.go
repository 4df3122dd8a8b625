package xbinary

import (
	"bytes"

	"github.com/solarisdb/solaris/golibs/verifsym"
)

// any values of 8, 16, 32 and 64 bits and of variable length, into a buffer of any length up to 12: the sizes, the values read back, the errors of a short buffer and that nothing is written past the size
//
//sym:harness prop=C18 budget=60s reach=end,short
func HInts() {
	n := verifsym.Choose("len", 13)
	kind := verifsym.Choose("kind", 5)
	buf := make([]byte, n)
	fill := verifsym.Bytes("fill", n)
	copy(buf, fill)
	v := verifsym.Uint64("v")
	var sz, rn, want int
	var err, rerr error
	var got uint64
	var bb bytes.Buffer
	ow := &ObjectsWriter{Writer: &bb}
	var wn int
	switch kind {
	case 0:
		want = 1
		v &= 0xFF
		sz, err = MarshalByte(byte(v), buf)
		wn, _ = ow.WriteByte(byte(v))
	case 1:
		want = 2
		v &= 0xFFFF
		sz, err = MarshalUint16(uint16(v), buf)
		wn, _ = ow.WriteUint16(uint16(v))
	case 2:
		want = 4
		v &= 0xFFFFFFFF
		sz, err = MarshalUint32(uint32(v), buf)
		wn, _ = ow.WriteUint32(uint32(v))
	case 3:
		want = 8
		sz, err = MarshalUint64(v, buf)
		wn, _ = ow.WriteUint64(v)
	case 4:
		want = WritableUintSize(v)
		sz, err = MarshalUint(uint(v), buf)
		wn, _ = ow.WriteUint(uint(v))
	}
	verifsym.Assert(wn == want && bb.Len() == want, "xbinary: a writer writes the size announced")
	if n < want {
		verifsym.Assert(err != nil && sz == 0, "xbinary: a short buffer is an error")
		verifsym.Reach("short")
		return
	}
	verifsym.Assert(err == nil && sz == want, "xbinary: the size written is the one announced")
	verifsym.CheckSame(buf[:sz], bb.Bytes(), "xbinary: the writer and the function write the same")
	verifsym.CheckSame(buf[sz:], fill[sz:], "xbinary: nothing is written past the size")
	read := func(b []byte) {
		switch kind {
		case 0:
			var x byte
			rn, x, rerr = UnmarshalByte(b)
			got = uint64(x)
		case 1:
			var x uint16
			rn, x, rerr = UnmarshalUint16(b)
			got = uint64(x)
		case 2:
			var x uint32
			rn, x, rerr = UnmarshalUint32(b)
			got = uint64(x)
		case 3:
			rn, got, rerr = UnmarshalUint64(b)
		case 4:
			var x uint
			rn, x, rerr = UnmarshalUint(b)
			got = uint64(x)
		}
	}
	read(buf)
	verifsym.Assert(rerr == nil && rn == sz && got == v, "xbinary: the value read is the one written, with as many bytes")
	read(buf[:sz-1])
	verifsym.Assert(rerr != nil && rn == 0, "xbinary: a value cut short is an error")
	verifsym.Reach("end")
}

// byte slices and strings of the lengths 0 to 3, 127 to 129 and 16384 with any content, into buffers of the exact size, one byte less, or more, copied or not when read
//
//sym:harness prop=C18 budget=60s reach=end,short
func HBytes() {
	n := []int{0, 1, 2, 3, 127, 128, 129, 16384}[verifsym.Choose("n", 8)]
	v := verifsym.Bytes("v", n)
	want := WritebleBytesSize(v)
	verifsym.Assert(want == n+WritableUintSize(uint64(n)), "xbinary: the size announced")
	d := verifsym.Choose("room", 3) - 1
	buf := make([]byte, want+d)
	str := verifsym.Choose("str", 2) == 1
	newBuf := verifsym.Choose("new", 2) == 1
	var sz, wn int
	var err error
	var bb bytes.Buffer
	ow := &ObjectsWriter{Writer: &bb}
	if str {
		verifsym.Assert(WritableStringSize(string(v)) == want, "xbinary: the size announced of a string")
		sz, err = MarshalString(string(v), buf)
		wn, _ = ow.WriteString(string(v))
	} else {
		sz, err = MarshalBytes(v, buf)
		wn, _ = ow.WriteBytes(v)
	}
	verifsym.Assert(wn == want && bb.Len() == want, "xbinary: a writer writes the size announced")
	if d < 0 {
		verifsym.Assert(err != nil && sz == 0, "xbinary: a short buffer is an error")
		verifsym.Reach("short")
		_, _, err = UnmarshalBytes(bb.Bytes()[:want-1], newBuf)
		verifsym.Assert(err != nil, "xbinary: a value cut short is an error")
		return
	}
	verifsym.Assert(err == nil && sz == want, "xbinary: the size written is the one announced")
	verifsym.CheckSame(buf[:sz], bb.Bytes(), "xbinary: the writer and the function write the same")
	var rn int
	var got []byte
	if str {
		var s string
		rn, s, err = UnmarshalString(buf, newBuf)
		got = []byte(s)
		verifsym.Assert(!newBuf || !verifsym.StringOf(s, buf), "xbinary: a copied string does not share the buffer")
	} else {
		rn, got, err = UnmarshalBytes(buf, newBuf)
	}
	verifsym.Assert(err == nil && rn == sz, "xbinary: as many bytes are read")
	verifsym.CheckSame(got, v, "xbinary: the value read is the one written")
	if newBuf && !str && n > 0 {
		buf[sz-1]++
		verifsym.CheckSame(got, v, "xbinary: a copy does not share the buffer")
	}
	verifsym.Reach("end")
}

// any input of up to 14 bytes: decoding it as each of the kinds gives a value within the input or an error
//
//sym:harness prop=C18 budget=60s reach=end,value
func HAny() {
	n := verifsym.Choose("n", 15)
	b := verifsym.Bytes("b", n)
	switch verifsym.Choose("kind", 3) {
	case 0:
		rn, v, err := UnmarshalBytes(b, verifsym.Choose("new", 2) == 1)
		if err == nil {
			verifsym.Assert(rn > 0 && rn <= n && len(v) < rn, "xbinary: what is decoded is inside of the input")
			verifsym.CheckSame(v, b[rn-len(v):rn], "xbinary: what is decoded is the part of the input")
			verifsym.Reach("value")
		} else {
			verifsym.Assert(rn == 0 && v == nil, "xbinary: nothing comes with an error")
		}
	case 1:
		rn, v, err := UnmarshalString(b, false)
		verifsym.Assert(err != nil && v == "" || err == nil && rn <= n && len(v) < rn, "xbinary: the string decoded is inside of the input")
	case 2:
		rn, _, err := UnmarshalUint(b)
		verifsym.Assert((err != nil && rn == 0) || err == nil && rn > 0 && rn <= n, "xbinary: the number decoded is inside of the input")
	}
	verifsym.Reach("end")
}

// a byte, a 16 and a 32 bit number, a variable one, a string of 2 bytes and a 64 bit number written one after another are read in turn
//
//sym:harness prop=C18 budget=60s reach=end
func HSequence() {
	var bb bytes.Buffer
	ow := &ObjectsWriter{Writer: &bb}
	a, b, c, d, e := verifsym.Byte("a"), verifsym.Uint16("b"), verifsym.Uint32("c"), verifsym.Uint64("d"), verifsym.Uint64("e")
	s := verifsym.String("s", 2)
	ow.WriteByte(a)
	ow.WriteUint(uint(d))
	ow.WriteUint16(b)
	ow.WriteString(s)
	ow.WriteUint32(c)
	ow.WritePureString(s)
	ow.WriteUint64(e)
	buf := bb.Bytes()
	n, a1, err := UnmarshalByte(buf)
	verifsym.Assert(err == nil && a1 == a, "xbinary: sequence, byte")
	buf = buf[n:]
	n, d1, err := UnmarshalUint(buf)
	verifsym.Assert(err == nil && uint64(d1) == d, "xbinary: sequence, variable")
	buf = buf[n:]
	n, b1, err := UnmarshalUint16(buf)
	verifsym.Assert(err == nil && b1 == b, "xbinary: sequence, 16 bits")
	buf = buf[n:]
	n, s1, err := UnmarshalString(buf, true)
	verifsym.Assert(err == nil && s1 == s, "xbinary: sequence, string")
	buf = buf[n:]
	n, c1, err := UnmarshalUint32(buf)
	verifsym.Assert(err == nil && c1 == c, "xbinary: sequence, 32 bits")
	buf = buf[n:]
	verifsym.Assert(string(buf[:2]) == s, "xbinary: sequence, pure string")
	n, e1, err := UnmarshalUint64(buf[2:])
	verifsym.Assert(err == nil && e1 == e && n+2 == len(buf), "xbinary: sequence, 64 bits and nothing more")
	verifsym.Reach("end")
}
