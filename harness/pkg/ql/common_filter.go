package ql

import "github.com/solarisdb/solaris/golibs/verifsym"

// str is a text of up to max arbitrary bytes
func str(n string, max int) string { return verifsym.String(n, verifsym.Choose("len "+n, max+1)) }

func strP(s string) *Param { return &Param{Const: &Const{String: &s}} }

func tagP(s string) *Param {
	return &Param{Function: &Function{Name: "tag", Params: []*Param{strP(s)}}}
}

// compareStr says what the operator says about two texts
func compareStr(op, a, b string) bool {
	switch op {
	case "<":
		return a < b
	case ">":
		return a > b
	case "<=":
		return a <= b
	case ">=":
		return a >= b
	case "=":
		return a == b
	}
	return a != b
}

func one(c *Condition) *Expression {
	return &Expression{Or: []*OrCondition{{And: []*XCondition{{Cond: c}}}}}
}

// matches is the meaning of LIKE
func matches(s, pat string) bool {
	if len(pat) == 0 {
		return len(s) == 0
	}
	var any, same bool
	for i := 0; i <= len(s); i++ {
		any = verifsym.Or(any, matches(s[i:], pat[1:]))
	}
	if len(s) > 0 {
		same = verifsym.And(pat[0] == s[0], matches(s[1:], pat[1:]))
	}
	return verifsym.Or(verifsym.And(pat[0] == '%', any), verifsym.And(pat[0] != '%', same))
}
