package iterable

import (
	"github.com/solarisdb/solaris/golibs"
	"github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/verifsym"
)

// msrc is a source of the values which can be told not to support Reset
type msrc struct {
	Iterator[int]
	closed int
}

func (m *msrc) Close() error { m.closed++; return m.Iterator.Close() }

type mrsrc struct{ *msrc }

func (m mrsrc) Reset() error { return m.Iterator.(golibs.Reseter).Reset() }

func vals(name string, max int) []int {
	n := verifsym.Choose("n"+name, max+1)
	var res []int
	for i := 0; i < n; i++ {
		res = append(res, verifsym.AnyInt(name+string(rune('0'+i))))
	}
	return res
}

// merge is the merge of two lists, the first one goes first while sf tells so
func merge(a, b []int, sf SelectF[int]) []int {
	var res []int
	for len(a) > 0 && len(b) > 0 {
		if sf(a[0], b[0]) {
			res, a = append(res, a[0]), a[1:]
		} else {
			res, b = append(res, b[0]), b[1:]
		}
	}
	return append(append(res, a...), b...)
}

func readMix(it Iterator[int], want []int, k string, limit, asks int) {
	for i := 0; i <= len(want); i++ {
		if i >= limit {
			if verifsym.Choose("ask"+k, 2) == 1 {
				verifsym.Assert(it.HasNext() == (i < len(want)), "mixer: HasNext is true exactly while there are values left")
			}
			return
		}
		for a := verifsym.Choose("ask"+k+string(rune('0'+i)), asks); a > 0; a-- {
			verifsym.Assert(it.HasNext() == (i < len(want)), "mixer: HasNext is true exactly while there are values left")
		}
		v, ok := it.Next()
		verifsym.Assert(ok == (i < len(want)), "mixer: every value of the sources is returned once")
		if ok {
			verifsym.Assert(v == want[i], "mixer: the values come in the order the function selects")
		}
	}
}

func le(a, b int) bool { return a <= b }
func gt(a, b int) bool { return a > b }

// a source of up to 3 and one of up to 2 values, any integers; selection by <= or >; 0, 1 or 2 HasNext calls before every Next, one after the end
//
//sym:harness prop=C12 budget=60s reach=end
func HMix2() {
	a, b := vals("a", 3), vals("b", 2)
	sf := le
	if verifsym.Choose("sf", 2) == 1 {
		sf = gt
	}
	var m Mixer[int]
	m.Init(sf, WrapIntSlice(a), WrapIntSlice(b))
	readMix(&m, merge(a, b, sf), "x", 9, 3)
	verifsym.Reach("end")
}

// 3 sources of up to 2 values each through 2 mixers: the merge of a merge and a list
//
//sym:harness prop=C12 budget=60s reach=end
func HMix3() {
	a, b, c := vals("a", 2), vals("b", 2), vals("c", 1)
	var m1, m2 Mixer[int]
	m1.Init(le, WrapIntSlice(a), WrapIntSlice(b))
	m2.Init(le, &m1, WrapIntSlice(c))
	want := merge(merge(a, b, le), c, le)
	for i := range want {
		verifsym.Assert(m2.HasNext(), "mixer of mixers: nothing is left out")
		v, ok := m2.Next()
		verifsym.Assert(ok && v == want[i], "mixer of mixers: the order is right")
	}
	verifsym.Assert(!m2.HasNext(), "mixer of mixers: nothing is returned twice")
	verifsym.Reach("end")
}

// 2 sources of up to 2 values; reset after any number of values with HasNext asked before or not: everything is read again; a source which cannot be reset makes an error; close reaches both sources
//
//sym:harness prop=C12 budget=60s reach=end,noreset
func HMixReset() {
	a, b := vals("a", 2), vals("b", 2)
	s1, s2 := &msrc{Iterator: WrapIntSlice(a)}, &msrc{Iterator: WrapIntSlice(b)}
	var m Mixer[int]
	switch verifsym.Choose("kind", 3) {
	case 0:
		m.Init(le, mrsrc{s1}, mrsrc{s2})
	case 1:
		m.Init(le, s1, mrsrc{s2})
	case 2:
		m.Init(le, mrsrc{s1}, s2)
	}
	r1, r2 := m.src1.it, m.src2.it
	readMix(&m, merge(a, b, le), "x", verifsym.Choose("read", 6), 2)
	err := m.Reset()
	_, ok1 := r1.(golibs.Reseter)
	_, ok2 := r2.(golibs.Reseter)
	verifsym.Assert((err == nil) == (ok1 && ok2), "mixer: reset succeeds exactly when both sources can be reset")
	if err != nil {
		verifsym.Assert(errors.Is(err, errors.ErrUnimplemented) || errors.Is(err, errors.ErrDataLoss), "mixer: the kind of the error of reset")
		verifsym.Reach("noreset")
	} else {
		readMix(&m, merge(a, b, le), "y", 6, 1)
	}
	m.Close()
	verifsym.Assert(s1.closed == 1 && s2.closed == 1, "mixer: close closes both sources once")
	verifsym.Reach("end")
}
