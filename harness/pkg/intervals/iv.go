package intervals

import (
	"cmp"

	"github.com/solarisdb/solaris/golibs/verifsym"
)

func symIv(b Basis[int], name string) Interval[int] {
	l, r := verifsym.AnyInt(name+"L"), verifsym.AnyInt(name+"R")
	verifsym.Assume(verifsym.And(b.Min <= l, l <= r, r <= b.Max))
	switch verifsym.Choose(name+"kind", 4) {
	case 0:
		return b.Open(l, r)
	case 1:
		verifsym.Assume(l < r)
		return b.OpenL(l, r)
	case 2:
		verifsym.Assume(l < r)
		return b.OpenR(l, r)
	}
	return b.Closed(l, r)
}

func has(i Interval[int], p int) bool {
	return verifsym.And(verifsym.Or(p > i.L, verifsym.And(i.LIn, p == i.L)), verifsym.Or(p < i.R, verifsym.And(i.RIn, p == i.R)))
}

func symBasis() Basis[int] {
	lo, hi := verifsym.AnyInt("min"), verifsym.AnyInt("max")
	verifsym.Assume(lo < hi)
	return NewBasis(lo, hi, cmp.Compare[int])
}

// any basis [min,max] of 64-bit integers, any well formed interval inside it, any point of the basis
//
//sym:harness prop=C09 budget=60s reach=done
func HNegate() {
	b := symBasis()
	i := symIv(b, "i")
	p := verifsym.AnyInt("p")
	verifsym.Assume(verifsym.And(b.Min <= p, p <= b.Max))
	in := false
	for _, n := range b.Negate(i) {
		verifsym.Assert(verifsym.And(b.Min <= n.L, n.L <= n.R, n.R <= b.Max), "Negate: the intervals are well formed and inside the basis")
		in = verifsym.Or(in, has(n, p))
	}
	verifsym.Assert(in == !has(i, p), "Negate: a point is in the complement exactly when it is not in the interval")
	verifsym.Reach("done")
}

// any two well formed intervals of any 64-bit integer basis, any point
//
//sym:harness prop=C09 budget=60s reach=some,none
func HIntersect() {
	b := symBasis()
	i, j := symIv(b, "i"), symIv(b, "j")
	p := verifsym.AnyInt("p")
	both := verifsym.And(has(i, p), has(j, p))
	r, ok := b.Intersect(i, j)
	if ok {
		verifsym.Reach("some")
		verifsym.Assert(r.L <= r.R, "Intersect: the result is well formed")
		verifsym.Assert(has(r, p) == both, "Intersect: a point is in the result exactly when it is in both intervals")
	} else {
		verifsym.Reach("none")
		verifsym.Assert(!both, "Intersect: false only if the intervals share no point")
	}
	r2, ok2 := b.Intersect(j, i)
	verifsym.Assert(ok == ok2, "Intersect: commutes")
	if ok {
		verifsym.Assert(verifsym.And(r.L == r2.L, r.R == r2.R, r.LIn == r2.LIn, r.RIn == r2.RIn), "Intersect: commutes")
	}
}

// any two well formed intervals of any 64-bit integer basis, any point
//
//sym:harness prop=C09 budget=60s reach=some,none
func HUnion() {
	b := symBasis()
	i, j := symIv(b, "i"), symIv(b, "j")
	p := verifsym.AnyInt("p")
	either := verifsym.Or(has(i, p), has(j, p))
	r, ok := b.Union(i, j)
	if ok {
		verifsym.Reach("some")
		verifsym.Assert(has(r, p) == either, "Union: a point is in the result exactly when it is in one of the intervals")
	} else {
		verifsym.Reach("none")
		verifsym.Assert(!verifsym.And(has(i, p), has(j, p)), "Union: false only if the intervals share no point")
	}
}

// any two well formed intervals of any 64-bit integer basis, any two points
//
//sym:harness prop=C09 budget=60s reach=before,after,over
func HOrder() {
	b := symBasis()
	i, j := symIv(b, "i"), symIv(b, "j")
	p, q := verifsym.AnyInt("p"), verifsym.AnyInt("q")
	in := verifsym.And(has(i, p), has(j, q))
	bf, af := b.Before(i, j), b.After(i, j)
	verifsym.Assert(bf == b.After(j, i), "Before and After mirror each other")
	if bf {
		verifsym.Reach("before")
		verifsym.Assert(verifsym.Implies(in, p < q), "Before: every point of the first is below every point of the second")
	}
	if af {
		verifsym.Reach("after")
		verifsym.Assert(verifsym.Implies(in, p > q), "After: every point of the first is above every point of the second")
	}
	if !bf && !af {
		verifsym.Reach("over")
		verifsym.Assert(verifsym.And(i.L <= j.R, j.L <= i.R), "neither Before nor After: the borders overlap")
	}
	sb := b.StartsBefore(i, j)
	verifsym.Assert(sb == verifsym.Or(i.L < j.L, verifsym.And(i.L == j.L, i.LIn, !j.LIn)), "StartsBefore orders the left borders, a closed one first")
	ea := b.EndsAfter(i, j)
	verifsym.Assert(ea == verifsym.Or(i.R > j.R, verifsym.And(i.R == j.R, i.RIn, !j.RIn)), "EndsAfter orders the right borders, a closed one last")
}

// the interval constructors for any two 64-bit integers: a panic exactly for borders that describe no interval
//
//sym:harness prop=C09 budget=60s reach=ok,panic
func HMake() {
	b := BasisInt
	l, r := verifsym.AnyInt("l"), verifsym.AnyInt("r")
	p := verifsym.AnyInt("p")
	k := verifsym.Choose("kind", 4)
	var i Interval[int]
	res := verifsym.Try(func() {
		switch k {
		case 0:
			i = b.Open(l, r)
		case 1:
			i = b.OpenL(l, r)
		case 2:
			i = b.OpenR(l, r)
		default:
			i = b.Closed(l, r)
		}
	})
	good := verifsym.Or(l < r, verifsym.And(l == r, k == 0 || k == 3))
	verifsym.Assert(good == (res == ""), "an interval can be made exactly when its borders are in order")
	if res != "" {
		verifsym.Reach("panic")
		return
	}
	verifsym.Reach("ok")
	want := verifsym.And(l <= p, p <= r, verifsym.Or(p != l, k == 2 || k == 3), verifsym.Or(p != r, k == 1 || k == 3))
	verifsym.Assert(has(i, p) == want, "the interval holds the points between its borders")
	n := 0
	for _, x := range []bool{i.IsOpen(), i.IsOpenL(), i.IsOpenR(), i.IsClosed()} {
		if x {
			n++
		}
	}
	verifsym.Assert(n == 1, "an interval is of exactly one kind")
	verifsym.Assert(verifsym.And(i.IsOpen() == (k == 0), i.IsOpenL() == (k == 1), i.IsOpenR() == (k == 2), i.IsClosed() == (k == 3)), "the kind is the one asked for")
}
