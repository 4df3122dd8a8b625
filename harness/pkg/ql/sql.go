package ql

import (
	"strings"

	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/verifsym"
)

//sym:models common_noparse.go

// sqlP reads an SQL condition and tells what it says about a log, as SQL does:
// NOT binds tighter than AND, AND tighter than OR, two quotes in a text are one
type sqlP struct {
	s   string
	pos int
	log *solaris.Log
	bad string
}

func (p *sqlP) blanks() {
	for p.pos < len(p.s) && p.s[p.pos] == ' ' {
		p.pos++
	}
}

// word takes w if it comes next
func (p *sqlP) word(w string) bool {
	p.blanks()
	if p.pos+len(w) > len(p.s) || p.s[p.pos:p.pos+len(w)] != w {
		return false
	}
	p.pos += len(w)
	return true
}

func (p *sqlP) text() (string, bool) {
	if !p.word("'") {
		return "", false
	}
	var res []byte
	for p.pos < len(p.s) {
		c := p.s[p.pos]
		p.pos++
		if c == '\'' {
			if p.pos == len(p.s) || p.s[p.pos] != '\'' {
				return string(res), true
			}
			p.pos++
		}
		res = append(res, c)
	}
	p.bad = "a text does not end"
	return "", false
}

func (p *sqlP) value() string {
	if p.word("tags ->> ") {
		n, ok := p.text()
		if !ok {
			p.bad = "the name of a tag is expected"
		}
		res := ""
		for k, v := range p.log.Tags {
			if k == n {
				res = v
			}
		}
		return res
	}
	if p.word("id ") {
		return p.log.ID
	}
	v, ok := p.text()
	if !ok {
		p.bad = "a value is expected"
	}
	return v
}

func (p *sqlP) term() bool {
	if p.bad != "" {
		return false
	}
	if p.word("NOT ") {
		return !p.term()
	}
	if p.word("(") {
		v := p.expr()
		if !p.word(")") {
			p.bad = "a group does not end"
		}
		return v
	}
	a := p.value()
	for _, op := range []string{"<=", ">=", "!=", "<", ">", "="} {
		if p.word(op + " ") {
			return compareStr(op, a, p.value())
		}
	}
	if p.word("LIKE ") {
		b, ok := p.text()
		if !ok {
			p.bad = "a pattern is expected"
		}
		return matches(a, b)
	}
	if p.word("IN (") {
		res := false
		for !p.word(")") && p.bad == "" {
			v, ok := p.text()
			if !ok {
				p.bad = "a list does not end"
			}
			res = verifsym.Or(res, a == v)
			p.word(",")
		}
		return res
	}
	p.bad = "an operator is expected"
	return false
}

func (p *sqlP) ands() bool {
	res := p.term()
	for p.bad == "" && p.word("AND ") {
		res = verifsym.And(res, p.term())
	}
	return res
}

func (p *sqlP) expr() bool {
	res := p.ands()
	for p.bad == "" && p.word("OR ") {
		res = verifsym.Or(res, p.ands())
	}
	return res
}

// sqlSays gives what the SQL made of e says about l
func sqlSays(e *Expression, l *solaris.Log) bool {
	var sb strings.Builder
	err := NewTranslator(LogsCondTranslateDialect).Expression2Sql(&sb, e)
	verifsym.Assert(err == nil, "sql: a well formed condition is accepted")
	p := &sqlP{s: sb.String(), log: l}
	res := p.expr()
	p.blanks()
	verifsym.Assert(p.bad == "" && p.pos == len(p.s), "sql: the text is one SQL condition")
	return res
}

func sqlCond(l *solaris.Log, max int) (*Condition, bool) {
	c := &Condition{FirstParam: Param{Identifier: "logID"}}
	a := l.ID
	if verifsym.Choose("first", 2) == 1 {
		n := str("tag name", 1)
		c.FirstParam = *tagP(n)
		a = ""
		for k, v := range l.Tags {
			if k == n {
				a = v
			}
		}
	}
	switch verifsym.Choose("kind", 4) {
	case 0:
		c.Op = OpsAll[verifsym.Choose("op", len(OpsAll))]
		b := str("const", max)
		c.SecondParam = strP(b)
		return c, compareStr(c.Op, a, b)
	case 1:
		c.Op = OpsAll[verifsym.Choose("op", len(OpsAll))]
		c.SecondParam = tagP("l")
		return c, compareStr(c.Op, a, l.Tags["l"])
	case 2:
		c.Op = []string{"LIKE", "like"}[verifsym.Choose("case", 2)]
		b := str("const", max)
		c.SecondParam = strP(b)
		return c, matches(a, b)
	}
	c.Op = []string{"IN", "in"}[verifsym.Choose("case", 2)]
	c.SecondParam = &Param{}
	res := false
	for i := 1 + verifsym.Choose("n", 2); i > 0; i-- {
		b := str("const", max)
		c.SecondParam.Array = append(c.SecondParam.Array, &Const{String: &b})
		res = verifsym.Or(res, a == b)
	}
	return c, res
}

// one condition on the id or a tag of a log, of any kind, the id and the constants (the name of the tag too) of up to 2 arbitrary bytes
//
//sym:harness prop=C11 budget=90s reach=end
func HSqlCond() {
	l := &solaris.Log{ID: str("id", 1), Tags: map[string]string{"k": "x", "l": str("tag", 1)}}
	c, want := sqlCond(l, 2)
	verifsym.Assert(sqlSays(one(c), l) == want, "sql: the SQL says what the condition says, its constants are constants")
	verifsym.Reach("end")
}

// a constant of 3 or 4 arbitrary bytes
//
//sym:harness prop=C11 budget=60s reach=end
func HSqlConst() {
	l := &solaris.Log{ID: "abc", Tags: map[string]string{"k": "x"}}
	b := verifsym.String("const", 3+verifsym.Choose("len", 2))
	c := &Condition{FirstParam: *tagP("k"), Op: "=", SecondParam: strP(b)}
	not := verifsym.Choose("not", 2) == 1
	e := &Expression{Or: []*OrCondition{{And: []*XCondition{{Cond: c, Not: not}}}}}
	verifsym.Assert(sqlSays(e, l) == not, "sql: the SQL says what the condition says, its constants are constants")
	verifsym.Reach("end")
}

type sqlShape struct{ n, max int }

// sqlCond makes a comparison of a tag with a constant of its own or a group
func (s *sqlShape) sqlCond(depth, max int, l *solaris.Log) (*XCondition, bool) {
	x := &XCondition{Not: verifsym.Choose("not", 2) == 1}
	var v bool
	if depth > 0 && s.n < s.max-1 && verifsym.Choose("group", 2) == 1 {
		x.Expr, v = s.sqlExpr(depth-1, max, l)
	} else {
		k := string(rune('a' + s.n))
		s.n++
		x.Cond = &Condition{FirstParam: *tagP(k), Op: "=", SecondParam: strP("x")}
		v = l.Tags[k] == "x"
	}
	return x, v != x.Not
}

func (s *sqlShape) sqlExpr(depth, max int, l *solaris.Log) (*Expression, bool) {
	e := &Expression{}
	res := false
	for i := verifsym.Choose("or", min(max, s.max-s.n)); i >= 0 && s.n < s.max; i-- {
		o := &OrCondition{}
		all := true
		for j := verifsym.Choose("and", min(max, s.max-s.n)); j >= 0 && s.n < s.max; j-- {
			x, v := s.sqlCond(depth, max, l)
			o.And = append(o.And, x)
			all = verifsym.And(all, v)
		}
		e.Or = append(e.Or, o)
		res = verifsym.Or(res, all)
	}
	return e, res
}

func sqlShapes(leaves, depth, max int) {
	s := &sqlShape{max: leaves}
	l := &solaris.Log{Tags: map[string]string{}}
	for i := 0; i < leaves; i++ {
		l.Tags[string(rune('a'+i))] = string([]byte{verifsym.Byte("tag")})
	}
	e, want := s.sqlExpr(depth, max, l)
	verifsym.Assert(sqlSays(e, l) == want, "sql: the SQL has the OR, AND, NOT and the groups of the condition")
	verifsym.Reach("end")
}

// every expression of up to 3 comparisons of any truth values, up to 3 terms at every level, groups of depth 1, any of the terms negated
//
//sym:harness prop=C11 budget=90s reach=end
func HSqlShape() { sqlShapes(3, 1, 3) }

// as HSqlShape with groups of depth up to 2
//
//sym:harness prop=C11 tier=thorough budget=600s reach=end
func HSqlShapeDeep() { sqlShapes(3, 2, 3) }

// every pair of kinds of parameters with every operator, none or an unknown one: translated exactly if it has a meaning, else an error; it never crashes
//
//sym:harness prop=C11 budget=60s reach=accepted,refused
func HSqlKinds() {
	num := float32(1.5)
	x := "x"
	kinds := []*Param{
		{Identifier: "logID"}, tagP("k"),
		{Identifier: "tag"}, {Function: &Function{Name: "tag"}}, {Function: &Function{Name: "tag", Params: []*Param{{Identifier: "logID"}}}},
		{Function: &Function{Name: "tag", Params: []*Param{strP("k"), strP("l")}}}, {Function: &Function{Name: "tag", Params: []*Param{{Const: &Const{Number: &num}}}}},
		{Identifier: "other"}, {Function: &Function{Name: "other", Params: []*Param{strP("k")}}},
		strP("x"), {Const: &Const{Number: &num}}, {Array: []*Const{{String: &x}}}, {Array: []*Const{{String: &x}, {Number: &num}}}, nil,
	}
	ops := append([]string{"", "IN", "LIKE", "in", "like", "~"}, OpsAll...)
	f, s := verifsym.Choose("first", len(kinds)-1), verifsym.Choose("second", len(kinds))
	c := &Condition{FirstParam: *kinds[f], Op: ops[verifsym.Choose("op", len(ops))], SecondParam: kinds[s]}
	ok := false
	switch c.Op {
	case "", "~":
	case "IN", "in":
		ok = s == 11
	case "LIKE", "like":
		ok = s == 9
	default:
		ok = s == 1 || s == 9
	}
	ok = ok && f < 2
	var sb strings.Builder
	var err error
	pan := verifsym.Try(func() { err = NewTranslator(LogsCondTranslateDialect).Expression2Sql(&sb, one(c)) })
	verifsym.Assert(pan == "", "sql: a condition without a meaning is an error, not a crash")
	verifsym.Assert((err == nil) == ok, "sql: a condition is accepted exactly if it has a meaning")
	if err != nil {
		verifsym.Assert(errors.Is(err, errors.ErrInvalid), "sql: a condition without a meaning is invalid")
		verifsym.Reach("refused")
		return
	}
	verifsym.Reach("accepted")
}
