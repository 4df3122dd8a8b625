package ql

import (
	"time"

	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/verifsym"
	"google.golang.org/protobuf/types/known/timestamppb"
)

//sym:models common_noparse.go

// evLog is a log with up to 2 tags
func evLog(max int) *solaris.Log {
	l := &solaris.Log{ID: str("id", max)}
	switch verifsym.Choose("tags", 3) {
	case 1:
		l.Tags = map[string]string{"k": str("tag k", max)}
	case 2:
		l.Tags = map[string]string{"k": str("tag k", max), "l": "v"}
	}
	return l
}

func evalLog(c *Condition, l *solaris.Log) bool {
	f, err := BuildExprF(one(c), LogsCondValueDialect)
	verifsym.Assert(err == nil, "filter: a well formed condition is accepted")
	return f(l)
}

// the id or a tag of a log (there or not) compared by any of the 6 operators with a constant or a tag; the id, tags and the constant of up to 2 arbitrary bytes
//
//sym:harness prop=C10 budget=60s reach=end
func HEvalCompare() {
	l := evLog(2)
	c := &Condition{Op: OpsAll[verifsym.Choose("op", len(OpsAll))]}
	a := l.ID
	c.FirstParam = Param{Identifier: "logID"}
	if verifsym.Choose("first", 2) == 1 {
		c.FirstParam = *tagP("k")
		a = l.Tags["k"]
	}
	b := "v"
	switch verifsym.Choose("second", 3) {
	case 0:
		b = str("const", 2)
		c.SecondParam = strP(b)
	case 1:
		c.SecondParam = tagP("l")
		b = l.Tags["l"]
	case 2:
		n := str("tag name", 1)
		c.SecondParam = tagP(n)
		b = ""
		for k, v := range l.Tags {
			if k == n {
				b = v
			}
		}
	}
	verifsym.Assert(evalLog(c, l) == compareStr(c.Op, a, b), "filter: a comparison has the meaning of its operator")
	verifsym.Reach("end")
}

// the id of up to 3 arbitrary bytes or a tag of up to 2 (or none) LIKE a pattern of up to 3 arbitrary bytes
//
//sym:harness prop=C10 budget=60s reach=yes,no
func HEvalLike() { evalLike(3, 3) }

// the id of up to 2 arbitrary bytes LIKE a pattern of 4 arbitrary bytes
//
//sym:harness prop=C10 budget=60s reach=yes,no
func HEvalLikeLong() {
	l := &solaris.Log{ID: str("id", 2)}
	pat := verifsym.String("pattern", 4)
	c := &Condition{FirstParam: Param{Identifier: "logID"}, Op: "LIKE", SecondParam: strP(pat)}
	got := evalLog(c, l)
	verifsym.Assert(got == matches(l.ID, pat), "filter: LIKE matches its pattern")
	if got {
		verifsym.Reach("yes")
	} else {
		verifsym.Reach("no")
	}
}

// as HEvalLike with up to 4 bytes
//
//sym:harness prop=C10 tier=thorough budget=400s reach=yes,no
func HEvalLikeDeep() { evalLike(4, 4) }

func evalLike(n, m int) {
	l := &solaris.Log{ID: str("id", n)}
	s := l.ID
	pat := str("pattern", m)
	c := &Condition{FirstParam: Param{Identifier: "logID"}, Op: []string{"LIKE", "like"}[verifsym.Choose("case", 2)], SecondParam: strP(pat)}
	if verifsym.Choose("tag", 2) == 1 {
		c.FirstParam = *tagP("k")
		s = ""
		if verifsym.Choose("has", 2) == 1 {
			s = str("tag", 2)
			l.Tags = map[string]string{"k": s}
		}
	}
	got := evalLog(c, l)
	verifsym.Assert(got == matches(s, pat), "filter: LIKE matches its pattern")
	if got {
		verifsym.Reach("yes")
	} else {
		verifsym.Reach("no")
	}
}

// the id or a tag of up to 2 arbitrary bytes IN a list of up to 3 constants of up to 2 arbitrary bytes
//
//sym:harness prop=C10 budget=60s reach=end
func HEvalIn() {
	l := evLog(2)
	c := &Condition{FirstParam: Param{Identifier: "logID"}, Op: []string{"IN", "in"}[verifsym.Choose("case", 2)], SecondParam: &Param{}}
	s := l.ID
	if verifsym.Choose("first", 2) == 1 {
		c.FirstParam = *tagP("k")
		s = l.Tags["k"]
	}
	want := false
	for i := verifsym.Choose("n", 4); i > 0; i-- {
		v := str("const", 2)
		c.SecondParam.Array = append(c.SecondParam.Array, &Const{String: &v})
		want = verifsym.Or(want, s == v)
	}
	verifsym.Assert(evalLog(c, l) == want, "filter: IN finds the value in its list")
	verifsym.Reach("end")
}

// evBools is a dialect of boolean parameters b0, b1, ... which have the values of t
func evBools() Dialect[[]bool] {
	d := Dialect[[]bool]{}
	for i, n := range []string{"a", "b", "c", "d", "e", "f"} {
		d[n] = ParamDialect[[]bool]{Flags: PfLValue | PfNop, Type: VTBool, ValueF: func(p *Param, t []bool) (any, error) { return t[i], nil }}
	}
	return d
}

type evShape struct {
	t    []bool
	n    int
	neg  int
	want bool
}

// cond makes a condition: a parameter or a group, negated or not
func (s *evShape) cond(depth, max int) (*XCondition, bool) {
	x := &XCondition{Not: verifsym.Bool("not")}
	var v bool
	if depth > 0 && s.n < len(s.t)-1 && verifsym.Choose("group", 2) == 1 {
		x.Expr, v = s.expr(depth-1, max)
	} else {
		k := s.n
		s.n++
		x.Cond = &Condition{FirstParam: Param{Identifier: []string{"a", "b", "c", "d", "e", "f"}[k]}}
		v = s.t[k]
	}
	return x, v != x.Not
}

// expr makes an expression of up to max conditions at each level and its value
func (s *evShape) expr(depth, max int) (*Expression, bool) {
	e := &Expression{}
	res := false
	for i := verifsym.Choose("or", min(max, len(s.t)-s.n)); i >= 0 && s.n < len(s.t); i-- {
		o := &OrCondition{}
		all := true
		for j := verifsym.Choose("and", min(max, len(s.t)-s.n)); j >= 0 && s.n < len(s.t); j-- {
			x, v := s.cond(depth, max)
			o.And = append(o.And, x)
			all = verifsym.And(all, v)
		}
		e.Or = append(e.Or, o)
		res = verifsym.Or(res, all)
	}
	return e, res
}

func evShapes(leaves, depth, max int) {
	s := &evShape{}
	for i := 0; i < leaves; i++ {
		s.t = append(s.t, verifsym.Bool("value"))
	}
	e, want := s.expr(depth, max)
	f, err := BuildExprF(e, evBools())
	verifsym.Assert(err == nil, "filter: a well formed condition is accepted")
	verifsym.Assert(f(s.t) == want, "filter: an expression is an OR of ANDs of conditions and groups, each of them negated or not")
	verifsym.Assert(f(s.t) == want, "filter: the answer for a value is always the same")
	verifsym.Reach("end")
}

// every expression of up to 3 parameters of any truth values, up to 3 terms at every level, groups of depth 1, any of the terms negated
//
//sym:harness prop=C10 budget=90s reach=end
func HEvalShape() { evShapes(3, 1, 3) }

// every expression of up to 2 parameters of any truth values, up to 2 terms at every level, groups of depth up to 3, any of the terms negated
//
//sym:harness prop=C10 budget=90s reach=end
func HEvalNested() { evShapes(2, 3, 2) }

// as HEvalShape with up to 4 parameters and groups of depth up to 2
//
//sym:harness prop=C10 tier=thorough budget=900s reach=end
func HEvalShapeDeep() { evShapes(4, 2, 3) }

// no expression or an empty one: everything satisfies it
//
//sym:harness prop=C10 budget=20s reach=end
func HEvalEmpty() {
	var e *Expression
	if verifsym.Choose("nil", 2) == 1 {
		e = &Expression{}
	}
	f, err := BuildExprF(e, LogsCondValueDialect)
	verifsym.Assert(err == nil && f(evLog(1)), "filter: no condition is satisfied by everything")
	verifsym.Reach("end")
}

// every pair of kinds of parameters (the id, a tag, a tag without name, with a name which is not a text, with too many names, not called, an unknown parameter or function, a text, a number, a list, none) with every operator, none or an unknown one: it is accepted exactly if it has a meaning, else it is an error; it never crashes
//
//sym:harness prop=C10 budget=60s reach=accepted,refused
func HEvalKinds() {
	num := float32(1.5)
	kinds := []*Param{
		{Identifier: "logID"}, tagP("k"),
		{Identifier: "tag"}, {Function: &Function{Name: "tag"}}, {Function: &Function{Name: "tag", Params: []*Param{{Identifier: "logID"}}}},
		{Function: &Function{Name: "tag", Params: []*Param{strP("k"), strP("l")}}}, {Function: &Function{Name: "tag", Params: []*Param{{Const: &Const{Number: &num}}}}},
		{Identifier: "other"}, {Function: &Function{Name: "other", Params: []*Param{strP("k")}}},
		strP("x"), {Const: &Const{Number: &num}}, {}, nil,
	}
	ops := append([]string{"", "IN", "LIKE", "in", "like", "~"}, OpsAll...)
	f, s := verifsym.Choose("first", len(kinds)-1), verifsym.Choose("second", len(kinds))
	c := &Condition{FirstParam: *kinds[f], Op: ops[verifsym.Choose("op", len(ops))], SecondParam: kinds[s]}
	ok := false
	switch c.Op {
	case "", "~":
	case "IN", "in":
		ok = kinds[s] != nil && s == 11
	case "LIKE", "like":
		ok = s == 9
	default:
		ok = s == 1 || s == 9
	}
	ok = ok && f < 2
	var fn ExprF[*solaris.Log]
	var err error
	pan := verifsym.Try(func() { fn, err = BuildExprF(one(c), LogsCondValueDialect) })
	verifsym.Assert(pan == "", "filter: a condition without a meaning is an error, not a crash")
	verifsym.Assert((err == nil) == ok, "filter: a condition is accepted exactly if it has a meaning")
	if err != nil {
		verifsym.Assert(errors.Is(err, errors.ErrInvalid), "filter: a condition without a meaning is invalid")
		verifsym.Reach("refused")
		return
	}
	l := evLog(1)
	pan = verifsym.Try(func() { fn(l) })
	verifsym.Assert(pan == "", "filter: a condition which was accepted can be evaluated")
	verifsym.Reach("accepted")
}

// the constants of the harness in a symbolic run
var evTimes map[string]time.Time

//sym:replace github.com/solarisdb/solaris/pkg/ql.parseDateTime
func evParse(s string) (time.Time, error) {
	if t, ok := evTimes[s]; ok {
		return t, nil
	}
	return time.Time{}, errors.ErrInvalid
}

// evTime is any nanosecond of the seconds lo to hi
func evTime(n string, lo, hi int64) time.Time {
	return time.Unix(verifsym.Int64(n, lo, hi), verifsym.Int64(n+" ns", 0, 999999999)).UTC()
}

// the creation time of a record, any nanosecond of the years 1 to 9999 or none, before or after any nanosecond of the years 1000 to 2999; a constant which is no time
//
//sym:harness prop=C10 budget=60s reach=end,bad
func HEvalTime() {
	r := &solaris.Record{}
	var at time.Time
	if verifsym.Choose("has", 2) == 1 {
		at = evTime("created", -62135596800, 253402300799)
		r.CreatedAt = timestamppb.New(at)
	}
	c := &Condition{FirstParam: Param{Identifier: "ctime"}, Op: []string{"<", ">"}[verifsym.Choose("op", 2)]}
	k := evTime("const", -30610224000, 32503679999)
	s := "const"
	if !verifsym.Symbolic() {
		s = k.Format("2006-01-02T15:04:05.999999999Z07:00")
	}
	evTimes = map[string]time.Time{s: k}
	if verifsym.Choose("bad", 2) == 1 {
		s = "no time"
	}
	c.SecondParam = strP(s)
	f, err := BuildExprF(one(c), RecordsCondValueDialect)
	if s == "no time" {
		verifsym.Assert(err != nil, "filter: a constant which is no time is an error")
		verifsym.Reach("bad")
		return
	}
	verifsym.Assert(err == nil, "filter: a well formed condition is accepted")
	want := at.Before(k)
	if c.Op == ">" {
		want = at.After(k)
	}
	verifsym.Assert(f(r) == want, "filter: times are compared by their order")
	verifsym.Reach("end")
}
