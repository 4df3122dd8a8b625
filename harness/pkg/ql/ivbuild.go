package ql

import (
	"cmp"

	"github.com/solarisdb/solaris/golibs/verifsym"
	"github.com/solarisdb/solaris/pkg/intervals"
)

type ivWorld struct {
	vals   []int
	ops    []string
	leaves int
	other  bool
}

func (w *ivWorld) dialect() Dialect[int] {
	return Dialect[int]{
		StringParamID: {
			Flags:  PfRValue | PfComparable | PfConstValue,
			ValueF: func(p *Param, _ int) (any, error) { return w.vals[int((*p.Const.String)[0]-'0')], nil },
			Type:   VTString,
		},
		"t": {
			Flags:  PfLValue | PfComparable,
			ValueF: func(p *Param, r int) (any, error) { return r, nil },
			Type:   VTString,
		},
	}
}

func (w *ivWorld) leaf() *Condition {
	k := w.leaves
	w.leaves++
	s := string(rune('0' + k))
	w.vals = append(w.vals, verifsym.AnyInt("v"+s))
	op := OpsAll[verifsym.Choose("op"+s, len(OpsAll))]
	w.ops = append(w.ops, op)
	return &Condition{FirstParam: Param{Identifier: "t"}, Op: op, SecondParam: &Param{Const: &Const{String: &s}}}
}

// holds: what the expression says about the point p
func (w *ivWorld) holds(e *Expression, p int) bool {
	res := false
	for _, o := range e.Or {
		all := true
		for _, x := range o.And {
			var h bool
			if x.Expr != nil {
				h = w.holds(x.Expr, p)
			} else if x.Cond.FirstParam.Identifier == "o" {
				h = w.other
			} else {
				v := w.vals[int((*x.Cond.SecondParam.Const.String)[0]-'0')]
				switch x.Cond.Op {
				case "<":
					h = p < v
				case ">":
					h = p > v
				case "<=":
					h = p <= v
				case ">=":
					h = p >= v
				case "=":
					h = p == v
				default:
					h = p != v
				}
			}
			if x.Not {
				h = !h
			}
			all = verifsym.And(all, h)
		}
		res = verifsym.Or(res, all)
	}
	return res
}

func ivHas(i intervals.Interval[int], p int) bool {
	return verifsym.And(verifsym.Or(p > i.L, verifsym.And(i.LIn, p == i.L)), verifsym.Or(p < i.R, verifsym.And(i.RIn, p == i.R)))
}

func (w *ivWorld) check(e *Expression, inside bool) {
	lo, hi := verifsym.AnyInt("min"), verifsym.AnyInt("max")
	verifsym.Assume(lo < hi)
	p := verifsym.AnyInt("p")
	verifsym.Assume(verifsym.And(lo <= p, p <= hi))
	if inside {
		for _, v := range w.vals {
			verifsym.Assume(verifsym.And(lo < v, v < hi))
		}
	}
	ib := NewParamIntervalBuilder(intervals.NewBasis(lo, hi, cmp.Compare[int]), w.dialect(), "t", OpsAll)
	var res []intervals.Interval[int]
	var err error
	pan := verifsym.Try(func() { res, err = ib.Build(e) })
	verifsym.Assert(pan == "", "intervals: a condition with any constants can be turned into intervals without a panic")
	verifsym.Assert(err == nil, "intervals: a well formed condition is accepted")
	in := false
	for k, i := range res {
		in = verifsym.Or(in, ivHas(i, p))
		verifsym.Assert(verifsym.And(lo <= i.L, i.L <= i.R, i.R <= hi), "intervals: every interval is well formed and inside the basis")
		if k > 0 {
			verifsym.Assert(res[k-1].R <= i.L, "intervals: the intervals are sorted and do not overlap")
		}
	}
	verifsym.Assert(in == w.holds(e, p), "intervals: a value is in the intervals exactly when it satisfies the condition")
	verifsym.Reach("done")
}

func xc(not bool, c *Condition) *XCondition { return &XCondition{Not: not, Cond: c} }
func xe(not bool, os ...*OrCondition) *XCondition {
	return &XCondition{Not: not, Expr: &Expression{Or: os}}
}
func and(xs ...*XCondition) *OrCondition { return &OrCondition{And: xs} }

//sym:models common_noparse.go

// every condition of at most 2 comparisons of the parameter (any of 6 operations, any 64-bit constants, inside or outside of the basis), joined with AND or OR, negated or not at every level; any basis; any value
//
//sym:harness prop=C08 budget=100s reach=done
func HBuild2() {
	w := &ivWorld{}
	n1, n2, n := verifsym.Bool("n1"), verifsym.Bool("n2"), verifsym.Bool("n")
	var e *Expression
	switch verifsym.Choose("shape", 5) {
	case 0:
		e = &Expression{Or: []*OrCondition{and(xc(n, w.leaf()))}}
	case 1:
		e = &Expression{Or: []*OrCondition{and(xc(n1, w.leaf()), xc(n2, w.leaf()))}}
	case 2:
		e = &Expression{Or: []*OrCondition{and(xc(n1, w.leaf())), and(xc(n2, w.leaf()))}}
	case 3:
		e = &Expression{Or: []*OrCondition{and(xe(n, and(xc(n1, w.leaf()), xc(n2, w.leaf()))))}}
	default:
		e = &Expression{Or: []*OrCondition{and(xe(n, and(xc(n1, w.leaf())), and(xc(n2, w.leaf()))))}}
	}
	w.check(e, false)
}

// conditions of 3 comparisons (any of 6 operations, any 64-bit constants inside of the basis): a AND (b op c), a OR (b op c), with an optional negation of the nested group; any basis; any value
//
//sym:harness prop=C08 budget=200s reach=done
func HBuild3() {
	w := &ivWorld{}
	e := w.three()
	w.check(e, true)
}

// as HBuild3, the constants inside or outside of the basis
//
//sym:harness prop=C08 budget=700s reach=done tier=thorough
func HBuild3Out() {
	w := &ivWorld{}
	e := w.three()
	w.check(e, false)
}

func (w *ivWorld) three() *Expression {
	n := verifsym.Bool("n")
	a, b, c := w.leaf(), w.leaf(), w.leaf()
	var x *XCondition
	if verifsym.Choose("inner", 2) == 0 {
		x = xe(n, and(xc(false, b), xc(false, c)))
	} else {
		x = xe(n, and(xc(false, b)), and(xc(false, c)))
	}
	if verifsym.Choose("outer", 2) == 0 {
		return &Expression{Or: []*OrCondition{and(xc(false, a)), and(x)}}
	}
	return &Expression{Or: []*OrCondition{and(xc(false, a), x)}}
}

// conditions of 2 comparisons of the parameter (any of 6 operations, any 64-bit constants inside of the basis) and one of another parameter, in 4 shapes (the other comparison negated or not; no negated group mixes parameters); any basis; any value: non-empty intervals never leave out a value which may satisfy the condition
//
//sym:harness prop=C08 budget=60s reach=some
func HBuildOther() {
	w := &ivWorld{}
	n := verifsym.Bool("n")
	a, b := w.leaf(), w.leaf()
	other := verifsym.Bool("other")
	s := "0"
	o := &Condition{FirstParam: Param{Identifier: "o"}, Op: "=", SecondParam: &Param{Const: &Const{String: &s}}}
	var e *Expression
	switch verifsym.Choose("shape", 4) {
	case 0:
		e = &Expression{Or: []*OrCondition{and(xc(false, a), xe(false, and(xc(false, b), xc(false, o))))}}
	case 1:
		e = &Expression{Or: []*OrCondition{and(xc(false, a), xe(n, and(xc(false, b)), and(xc(false, o))))}}
	case 2:
		e = &Expression{Or: []*OrCondition{and(xc(false, a), xc(n, o)), and(xc(false, b))}}
	default:
		e = &Expression{Or: []*OrCondition{and(xc(false, a), xc(n, o)), and(xc(false, b), xc(false, o))}}
	}
	lo, hi := verifsym.AnyInt("min"), verifsym.AnyInt("max")
	verifsym.Assume(lo < hi)
	p := verifsym.AnyInt("p")
	verifsym.Assume(verifsym.And(lo <= p, p <= hi))
	for _, v := range w.vals {
		verifsym.Assume(verifsym.And(lo < v, v < hi))
	}
	d := w.dialect()
	d["o"] = d["t"]
	ib := NewParamIntervalBuilder(intervals.NewBasis(lo, hi, cmp.Compare[int]), d, "t", OpsAll)
	res, err := ib.Build(e)
	verifsym.Assert(err == nil, "intervals: a well formed condition is accepted")
	if len(res) == 0 {
		return
	}
	verifsym.Reach("some")
	in := false
	for _, i := range res {
		in = verifsym.Or(in, ivHas(i, p))
	}
	w.other = other
	verifsym.Assert(verifsym.Implies(w.holds(e, p), in), "intervals: no value which may satisfy the condition is left out because of another parameter")
}
