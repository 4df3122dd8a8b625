package container

import (
	"errors"
	"io"

	serrors "github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/verifsym"
)

// symRing returns a ring buffer in an arbitrary reachable state (any read position, any fill) with
// arbitrary contents, and the queue of its values.
func symRing(capacity int) (*ringBuffer[int], []int) {
	rb := NewRingBuffer[int](uint(capacity))
	start := verifsym.Choose("start", capacity+1)
	n := verifsym.Choose("fill", capacity+1)
	for i := 0; i < start; i++ {
		if rb.Write(7) != nil {
			verifsym.Fail("ring: write to an empty buffer failed")
		}
		if _, err := rb.Read(); err != nil {
			verifsym.Fail("ring: read of the element just written failed")
		}
	}
	var q []int
	for i := 0; i < n; i++ {
		v := verifsym.AnyInt("v" + string(rune('0'+i)))
		verifsym.Assert(rb.Write(v) == nil, "ring: write below capacity must succeed")
		q = append(q, v)
	}
	return rb, q
}

func checkRing(rb *ringBuffer[int], q []int, capacity int) {
	verifsym.Assert(rb.Len() == len(q), "ring: Len is the number of values that can be read")
	verifsym.Assert(rb.Cap() == capacity, "ring: Cap is the size asked for")
	for i := range q {
		verifsym.Assert(rb.At(i) == q[i], "ring: At(i) is the i-th oldest value")
	}
	for i := range q {
		v, err := rb.Read()
		verifsym.Assert(err == nil, "ring: Read of a non-empty buffer succeeds")
		verifsym.Assert(v == q[i], "ring: values come out in the order they went in")
	}
	_, err := rb.Read()
	verifsym.Assert(err == io.EOF, "ring: Read of an empty buffer is io.EOF")
	for i := 0; i < len(rb.buf); i++ {
		verifsym.Assert(rb.buf[i] == 0, "ring: the buffer keeps no reference to values taken out")
	}
}

// capacity 0..4, every read position and fill level, arbitrary int values, one operation (Write, Read, ReadN of 0..6,
// Skip of any int, Clear) from that state, then full drain
//
//sym:harness prop=C16 budget=60s reach=write,full,read,readn,skip,clear
func HRingStep() {
	c := verifsym.Choose("cap", 5)
	rb, q := symRing(c)
	switch verifsym.Choose("op", 5) {
	case 0:
		v := verifsym.AnyInt("w")
		err := rb.Write(v)
		if len(q) == c {
			verifsym.Reach("full")
			verifsym.Assert(err != nil, "ring: write to a full buffer is refused")
			verifsym.Assert(errors.Is(err, serrors.ErrExhausted), "ring: write to a full buffer is ErrExhausted")
		} else {
			verifsym.Reach("write")
			verifsym.Assert(err == nil, "ring: write below capacity must succeed")
			q = append(q, v)
		}
	case 1:
		v, err := rb.Read()
		if len(q) == 0 {
			verifsym.Assert(err == io.EOF, "ring: Read of an empty buffer is io.EOF")
		} else {
			verifsym.Reach("read")
			verifsym.Assert(err == nil && v == q[0], "ring: Read returns the oldest value")
			q = q[1:]
		}
	case 2:
		dst := make([]int, verifsym.Choose("dst", 7))
		n := rb.ReadN(dst)
		want := len(dst)
		if want > len(q) {
			want = len(q)
		}
		verifsym.Reach("readn")
		verifsym.Assert(n == want, "ring: ReadN returns min(len(dst), Len)")
		for i := 0; i < n; i++ {
			verifsym.Assert(dst[i] == q[i], "ring: ReadN returns the oldest values in order")
		}
		for i := n; i < len(dst); i++ {
			verifsym.Assert(dst[i] == 0, "ring: ReadN leaves the rest of dst alone")
		}
		q = q[n:]
	case 3:
		k := verifsym.AnyInt("skip")
		n := rb.Skip(k)
		want := verifsym.IteInt(k < 0, 0, verifsym.IteInt(k > len(q), len(q), k))
		verifsym.Reach("skip")
		verifsym.Assert(n == want, "ring: Skip returns the number of values skipped")
		q = q[verifsym.Concretize(want):]
	case 4:
		rb.Clear()
		verifsym.Reach("clear")
		q = nil
	}
	checkRing(rb, q, c)
}

// capacity 0..3, At with any int index: a panic exactly outside [0, Len)
//
//sym:harness prop=C16 budget=60s reach=in,out
func HRingAt() {
	c := verifsym.Choose("cap", 4)
	rb, q := symRing(c)
	i := verifsym.AnyInt("idx")
	var got int
	res := verifsym.Try(func() { got = rb.At(i) })
	if i >= 0 && i < len(q) {
		verifsym.Reach("in")
		verifsym.Assert(res == "", "ring: At inside [0, Len) does not panic")
		verifsym.Assert(got == q[verifsym.Concretize(i)], "ring: At(i) is the i-th oldest value")
	} else {
		verifsym.Reach("out")
		verifsym.Assert(res != "", "ring: At outside [0, Len) panics")
	}
}
