package container

import "github.com/solarisdb/solaris/golibs/verifsym"

func hSlice(tag string, max int) []int {
	n := verifsym.Choose("n"+tag, max+1)
	s := make([]int, n)
	for i := range s {
		s[i] = verifsym.AnyInt(tag + string(rune('0'+i)))
	}
	return s
}

func hHas(s []int, v int) bool {
	r := false
	for _, x := range s {
		r = verifsym.Or(r, x == v)
	}
	return r
}

// slices of 0..3 arbitrary ints with possible duplicates, maps iterated in any order: index, union, differences and common elements are the ones of the sets
//
//sym:harness prop=C36 budget=60s reach=index,merge,exclude,common
func HSets() {
	verifsym.MapOrder()
	a, b := hSlice("a", 3), hSlice("b", 3)
	v := verifsym.AnyInt("v")
	a0, b0 := append([]int(nil), a...), append([]int(nil), b...)
	switch verifsym.Choose("op", 4) {
	case 0:
		verifsym.Reach("index")
		i := IndexOf(a, v)
		j := IndexOfAny(a, v, func(x, y int) bool { return x == y })
		verifsym.Assert(i == j, "helpers: both ways to look for an element agree")
		verifsym.Assert(i >= -1 && i < len(a), "helpers: an index is in the slice")
		if i < 0 {
			verifsym.Assert(!hHas(a, v), "helpers: an element of the slice is found")
		} else {
			verifsym.Assert(a[i] == v, "helpers: what is found is the element")
			verifsym.Assert(!hHas(a[:i], v), "helpers: the first position is found")
		}
	case 1:
		verifsym.Reach("merge")
		m := MergeSlicesUnique(a, b)
		verifsym.Assert(verifsym.Iff(hHas(m, v), verifsym.Or(hHas(a, v), hHas(b, v))), "helpers: the union has the elements of both slices")
		hUnique(m)
	case 2:
		verifsym.Reach("exclude")
		x, y := SliceExcludeOverlaps(a, b)
		verifsym.Assert(verifsym.Iff(hHas(x, v), verifsym.And(hHas(a, v), !hHas(b, v))), "helpers: the first difference")
		verifsym.Assert(verifsym.Iff(hHas(y, v), verifsym.And(hHas(b, v), !hHas(a, v))), "helpers: the second difference")
		hUnique(x)
	case 3:
		verifsym.Reach("common")
		x, y := SliceExludeUniqueS2(a, b)
		verifsym.Assert(verifsym.Iff(hHas(x, v), verifsym.And(hHas(a, v), !hHas(b, v))), "helpers: what is left of the first slice")
		verifsym.Assert(verifsym.Iff(hHas(y, v), verifsym.And(hHas(a, v), hHas(b, v))), "helpers: the common elements")
		hUnique(x)
		hUnique(y)
	}
	hSame(a, a0)
	hSame(b, b0)
}

func hUnique(s []int) {
	for i := range s {
		for j := 0; j < i; j++ {
			verifsym.Assert(s[i] != s[j], "helpers: every element is there once")
		}
	}
}

func hSame(s, w []int) {
	verifsym.Assert(len(s) == len(w), "helpers: the length of the slice")
	for i := range s {
		verifsym.Assert(s[i] == w[i], "helpers: the elements of the slice")
	}
}

// slices of 0..4 arbitrary ints, and of 0..130 ones to be filled: reversing, removing, copying and filling
//
//sym:harness prop=C36 budget=60s reach=reverse,remove,copy,fill
func HSlices() {
	switch verifsym.Choose("op", 4) {
	case 0:
		verifsym.Reach("reverse")
		a := hSlice("a", 4)
		a0 := append([]int(nil), a...)
		r := SliceReverse(a)
		verifsym.Assert(len(r) == len(a0), "helpers: the length of a reversed slice")
		for i := range r {
			verifsym.Assert(r[i] == a0[len(a0)-1-i] && a[i] == r[i], "helpers: the slice is reversed in place")
		}
	case 1:
		verifsym.Reach("remove")
		a := hSlice("a", 4)
		if len(a) == 0 {
			return
		}
		a0 := append([]int(nil), a...)
		i := verifsym.Choose("idx", len(a))
		r := SliceRemoveIdx(a, i)
		verifsym.Assert(len(r) == len(a0)-1, "helpers: one element is removed")
		v := verifsym.AnyInt("v")
		cnt := func(s []int) int {
			n := 0
			for _, x := range s {
				n += verifsym.IteInt(x == v, 1, 0)
			}
			return n
		}
		verifsym.Assert(cnt(r) == cnt(a0)-verifsym.IteInt(a0[i] == v, 1, 0), "helpers: the element at the index is removed, the others stay")
	case 2:
		verifsym.Reach("copy")
		a := hSlice("a", 4)
		a0 := append([]int(nil), a...)
		c := SliceCopy(a)
		hSame(c, a0)
		for i := range a {
			a[i]++
		}
		hSame(c, a0)
		var nilS []int
		verifsym.Assert(len(SliceCopy(nilS)) == 0, "helpers: a copy of nothing")
	case 3:
		verifsym.Reach("fill")
		n := []int{0, 1, 2, 3, 49, 50, 51, 63, 64, 65, 100, 127, 128, 129, 130}[verifsym.Choose("n", 15)]
		v := verifsym.AnyInt("v")
		all := make([]int, n+2)
		SliceFill(all[1:1+n], v)
		for i, x := range all {
			if i == 0 || i == n+1 {
				verifsym.Assert(x == 0, "helpers: nothing outside of the slice is filled")
			} else {
				verifsym.Assert(x == v, "helpers: every element is filled")
			}
		}
	}
}

// maps of 0..3 arbitrary keys and values, iterated in any order: the copy, the keys, the values and the first entry
//
//sym:harness prop=C36 budget=60s reach=end
func HMaps() {
	verifsym.MapOrder()
	m := map[int]int{}
	n := verifsym.Choose("n", 4)
	if n == 3 && verifsym.Choose("nil", 2) == 1 {
		n, m = 0, nil
	}
	var ks, vs []int
	for i := 0; i < n; i++ {
		k, v := verifsym.Int("k"+string(rune('0'+i)), 0, 5), verifsym.AnyInt("v"+string(rune('0'+i)))
		if verifsym.Branch(hHas(ks, k)) {
			return
		}
		ks, vs = append(ks, k), append(vs, v)
		m[k] = v
	}
	c := CopyMap(m)
	verifsym.Assert(len(c) == n && (c == nil) == (m == nil), "helpers: the copy of a map has as many entries")
	kk, vv := Keys(m), Values(m)
	verifsym.Assert(len(kk) == n && len(vv) == n, "helpers: as many keys and values as entries")
	for i := range ks {
		v, ok := c[ks[i]]
		verifsym.Assert(ok && v == vs[i], "helpers: the copy of a map has its entries")
		verifsym.Assert(hHas(kk, ks[i]), "helpers: every key is listed")
		verifsym.Assert(hHas(vv, vs[i]), "helpers: every value is listed")
	}
	k, v, ok := GetFirst(m)
	verifsym.Assert(ok == (n > 0), "helpers: a map with entries has a first one")
	if ok {
		w, in := c[k]
		verifsym.Assert(in && v == w, "helpers: the first entry is one of the map")
		c[k] = v + 1
		c[9] = 1
		_, in = m[9]
		verifsym.Assert(m[k] == v && !in, "helpers: a copy is independent of the map")
	}
	verifsym.Reach("end")
}
