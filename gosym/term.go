package main

// Term layer: hash-consed bit-vector/boolean terms with local simplification.
// Integers have width 1..64, booleans have width 0.

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OApp // uninterpreted byte array select: name(idx)
	ONot
	OAnd
	OOr
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OLin // sum coef[i]*args[i] + val
	OMul
	OUdiv
	OSdiv
	OUrem
	OSrem
	OBAnd
	OBOr
	OBXor
	OBNot
	OShl
	OLshr
	OAshr
	OConcat
	OExtract // val = lo; w = width
	OSext
	OIte
)

type Term struct {
	op    Op
	w     uint8
	val   uint64
	name  string
	args  []*Term
	coefs []uint64
	id    int
	gen   int // solver generation in which this term was defined
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.val == 0 }

type tkey struct {
	op      Op
	w       uint8
	val     uint64
	name    string
	a, b, c int
	rest    string
}

type Ctx struct {
	tab         map[tkey]*Term
	nextID      int
	True, False *Term
	small       [4][300]*Term

	bounds map[*Term][2]int64
	memo   map[*Term][2]int64
}

func NewCtx() *Ctx {
	c := &Ctx{tab: make(map[tkey]*Term)}
	c.False = c.mk(OConst, 0, 0, "", nil, nil)
	c.True = c.mk(OConst, 0, 1, "", nil, nil)
	c.resetBounds()
	return c
}

func (c *Ctx) resetBounds() {
	c.bounds = make(map[*Term][2]int64)
	c.memo = make(map[*Term][2]int64)
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (c *Ctx) mk(op Op, w uint8, val uint64, name string, args []*Term, coefs []uint64) *Term {
	k := tkey{op: op, w: w, val: val, name: name, a: -1, b: -1, c: -1}
	n := len(args)
	if n > 0 {
		k.a = args[0].id
	}
	if n > 1 {
		k.b = args[1].id
	}
	if n > 2 {
		k.c = args[2].id
	}
	if n > 3 || coefs != nil {
		var sb []byte
		for i, a := range args {
			if i >= 3 {
				sb = appendInt(sb, uint64(a.id))
			}
			if coefs != nil {
				sb = appendInt(sb, coefs[i])
			}
		}
		k.rest = string(sb)
		if k.rest == "" {
			k.rest = fmt.Sprint(n)
		}
	}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, val: val, name: name, args: args, coefs: coefs, id: c.nextID}
	c.nextID++
	c.tab[k] = t
	return t
}

func appendInt(b []byte, v uint64) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v), ',')
}

func (c *Ctx) BV(v uint64, w uint8) *Term {
	v &= mask(w)
	var si = -1
	switch w {
	case 64:
		si = 0
	case 8:
		si = 1
	case 32:
		si = 2
	case 16:
		si = 3
	}
	if si >= 0 && v < 300 {
		if t := c.small[si][v]; t != nil {
			return t
		}
		t := c.mk(OConst, w, v, "", nil, nil)
		c.small[si][v] = t
		return t
	}
	return c.mk(OConst, w, v, "", nil, nil)
}
func (c *Ctx) Int(v int64) *Term { return c.BV(uint64(v), 64) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}
func (c *Ctx) Var(name string, w uint8) *Term { return c.mk(OVar, w, 0, name, nil, nil) }
func (c *Ctx) App(name string, idx *Term, w uint8) *Term {
	return c.mk(OApp, w, 0, name, []*Term{idx}, nil)
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	if v&(1<<(w-1)) != 0 {
		return int64(v | ^mask(w))
	}
	return int64(v)
}

// ---------- booleans ----------

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return c.Bool(a.val == 0)
	case ONot:
		return a.args[0]
	case OUlt:
		return c.mk(OUle, 0, 0, "", []*Term{a.args[1], a.args[0]}, nil)
	case OUle:
		return c.mk(OUlt, 0, 0, "", []*Term{a.args[1], a.args[0]}, nil)
	case OSlt:
		return c.mk(OSle, 0, 0, "", []*Term{a.args[1], a.args[0]}, nil)
	case OSle:
		return c.mk(OSlt, 0, 0, "", []*Term{a.args[1], a.args[0]}, nil)
	}
	return c.mk(ONot, 0, 0, "", []*Term{a}, nil)
}

func (c *Ctx) nary(op Op, xs []*Term) *Term {
	unit, zero := c.True, c.False
	if op == OOr {
		unit, zero = c.False, c.True
	}
	var out []*Term
	seen := make(map[*Term]bool, len(xs))
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit {
			return true
		}
		if t == zero {
			return false
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t] {
			return true
		}
		if seen[c.Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.mk(op, 0, 0, "", out, nil)
}
func (c *Ctx) And(xs ...*Term) *Term { return c.nary(OAnd, xs) }
func (c *Ctx) Or(xs ...*Term) *Term  { return c.nary(OOr, xs) }

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond.isTrue() {
		return a
	}
	if cond.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if cond.op == ONot {
		return c.Ite(cond.args[0], b, a)
	}
	if a.w == 0 {
		return c.Or(c.And(cond, a), c.And(c.Not(cond), b))
	}
	if a.op == OIte && a.args[0] == cond {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == cond {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	return c.mk(OIte, a.w, 0, "", []*Term{cond, a, b}, nil)
}

// constLeaves reports whether t is an ite-tree with constant leaves (bounded).
func constLeaves(t *Term, budget *int) bool {
	*budget--
	if *budget < 0 {
		return false
	}
	if t.op == OConst {
		return true
	}
	if t.op == OIte {
		return constLeaves(t.args[1], budget) && constLeaves(t.args[2], budget)
	}
	return false
}

func isConstIte(t *Term) bool {
	if t.op != OIte {
		return false
	}
	b := 40
	return constLeaves(t, &b)
}

func (c *Ctx) mapLeaves(t *Term, f func(*Term) *Term) *Term {
	if t.op == OIte {
		return c.Ite(t.args[0], c.mapLeaves(t.args[1], f), c.mapLeaves(t.args[2], f))
	}
	return f(t)
}

// widen returns the 64-bit term which the narrow one is cut from without a loss (as a signed value), nil if there is none.
func (c *Ctx) widen(t *Term) *Term {
	if t.w < 8 || t.w == 64 {
		return nil
	}
	if t.isConst() {
		return c.BV(uint64(sx(t.val, t.w)), 64)
	}
	if t.op == OExtract && t.val == 0 && t.args[0].w == 64 {
		if lo, hi := c.rng(t.args[0], 10); lo >= -(int64(1)<<(t.w-1)) && hi < int64(1)<<(t.w-1) {
			return t.args[0]
		}
	}
	if t.op == OLin {
		as, cs := make([]*Term, len(t.args)), make([]uint64, len(t.args))
		for i, a := range t.args {
			if as[i] = c.widen(a); as[i] == nil {
				return nil
			}
			cs[i] = uint64(sx(t.coefs[i], t.w))
		}
		x := c.lin(64, uint64(sx(t.val, t.w)), as, cs)
		if lo, hi := c.rng(x, 10); lo >= -(int64(1)<<(t.w-1)) && hi < int64(1)<<(t.w-1) {
			return x
		}
	}
	return nil
}

func (c *Ctx) widen2(a, b *Term) (*Term, *Term, bool) {
	if a.isConst() && b.isConst() {
		return nil, nil, false
	}
	x := c.widen(a)
	if x == nil {
		return nil, nil, false
	}
	y := c.widen(b)
	return x, y, y != nil
}

// uwiden2 is widen2 for unsigned values.
func (c *Ctx) uwiden2(a, b *Term) (*Term, *Term, bool) {
	if a.w < 8 || a.w == 64 || a.op != OExtract && b.op != OExtract {
		return nil, nil, false
	}
	one := false
	f := func(t *Term) *Term {
		switch {
		case t.isConst():
			return c.BV(t.val, 64)
		case t.op == OVar:
			return c.Zext(t, 64)
		case t.op == OExtract && t.val == 0 && t.args[0].w == 64:
			if lo, hi := c.rng(t.args[0], 10); lo >= 0 && hi < int64(1)<<t.w {
				one = true
				return t.args[0]
			}
		}
		return nil
	}
	x := f(a)
	if x == nil {
		return nil, nil, false
	}
	y := f(b)
	return x, y, y != nil && one
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if x, y, ok := c.uwiden2(a, b); ok {
		return c.Eq(x, y)
	}
	if x, y, ok := c.widen2(a, b); ok {
		return c.Eq(x, y)
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return c.Not(a)
		}
		if a.id > b.id {
			a, b = b, a
		}
		return c.Or(c.And(a, b), c.And(c.Not(a), c.Not(b)))
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.val == b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if isConstIte(a) {
			return c.mapLeaves(a, func(l *Term) *Term { return c.Bool(l.val == b.val) })
		}
		if a.op == OConcat {
			var cs []*Term
			pos := int(a.w)
			for _, s := range a.args {
				pos -= int(s.w)
				cs = append(cs, c.Eq(s, c.BV(b.val>>uint(pos), s.w)))
			}
			return c.And(cs...)
		}
		if a.op == OLin && len(a.args) == 1 && a.coefs[0] == 1 {
			return c.Eq(a.args[0], c.BV(b.val-a.val, a.w))
		}
	}
	if a.op == OLin || b.op == OLin {
		d := c.Sub(a, b)
		if d.isConst() {
			return c.Bool(d.val == 0)
		}
		if d.op == OLin && len(d.args) == 1 && d.coefs[0] == 1 && !(b.isConst()) {
			return c.Eq(d.args[0], c.BV(-d.val, a.w))
		}
		if c.noOvf(a) && c.noOvf(b) {
			if x, y, ok := c.scaleDown(a, b); ok {
				return c.Eq(x, y)
			}
		}
	}
	if a.op == OConcat && b.op == OConcat && len(a.args) == len(b.args) {
		same := true
		for i := range a.args {
			if a.args[i].w != b.args[i].w {
				same = false
			}
		}
		if same {
			var cs []*Term
			for i := range a.args {
				cs = append(cs, c.Eq(a.args[i], b.args[i]))
			}
			return c.And(cs...)
		}
	}
	al, ah := c.rng(a, 10)
	bl, bh := c.rng(b, 10)
	if ah < bl || bh < al {
		return c.False
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return c.mk(OEq, 0, 0, "", []*Term{a, b}, nil)
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if x, y, ok := c.uwiden2(a, b); ok {
		return c.Ult(x, y)
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.val < b.val)
	}
	if b.isConst() && b.val == 0 {
		return c.False
	}
	if b.isConst() && b.val == 1 {
		return c.Eq(a, c.BV(0, a.w))
	}
	if b.isConst() && isConstIte(a) {
		return c.mapLeaves(a, func(l *Term) *Term { return c.Bool(l.val < b.val) })
	}
	if a.isConst() && isConstIte(b) {
		return c.mapLeaves(b, func(l *Term) *Term { return c.Bool(a.val < l.val) })
	}
	al, ah := c.rng(a, 10)
	bl, bh := c.rng(b, 10)
	if al >= 0 && bl >= 0 {
		if ah < bl {
			return c.True
		}
		if al >= bh {
			return c.False
		}
	}
	if al >= 0 && bh < 0 {
		return c.True
	}
	if ah < 0 && bl >= 0 {
		return c.False
	}
	if a.op == OConcat && b.op == OConcat && len(a.args) == 2 && len(b.args) == 2 && a.args[0].w == b.args[0].w && a.args[0] != b.args[0] && !a.args[0].isConst() && !b.args[0].isConst() {
		return c.Or(c.Ult(a.args[0], b.args[0]), c.And(c.Eq(a.args[0], b.args[0]), c.Ult(a.args[1], b.args[1])))
	}
	if a.op == OConcat && b.op == OConcat && a.args[0] == b.args[0] {
		// drop a common high prefix
		return c.Ult(c.Extract(a, int(a.w-a.args[0].w)-1, 0), c.Extract(b, int(a.w-a.args[0].w)-1, 0))
	}
	return c.mk(OUlt, 0, 0, "", []*Term{a, b}, nil)
}
func (c *Ctx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }

// scaleDown divides both sums by the common factor of all their coefficients.
func (c *Ctx) scaleDown(a, b *Term) (*Term, *Term, bool) {
	if a.w != 64 {
		return nil, nil, false
	}
	var g uint64
	gcd := func(v uint64) {
		if int64(v) < 0 {
			v = -v
		}
		for v != 0 {
			g, v = v, g%v
		}
	}
	for _, t := range []*Term{a, b} {
		if t.op == OLin {
			gcd(t.val)
			for _, k := range t.coefs {
				gcd(k)
			}
		} else if t.isConst() {
			gcd(t.val)
		} else {
			return nil, nil, false
		}
	}
	if g < 2 || int64(g) < 0 {
		return nil, nil, false
	}
	f := func(t *Term) *Term {
		if t.isConst() {
			return c.BV(uint64(int64(t.val)/int64(g)), 64)
		}
		cs := make([]uint64, len(t.coefs))
		for i, k := range t.coefs {
			cs[i] = uint64(int64(k) / int64(g))
		}
		return c.lin(64, uint64(int64(t.val)/int64(g)), t.args, cs)
	}
	return f(a), f(b), true
}

func (c *Ctx) Slt(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if x, y, ok := c.widen2(a, b); ok {
		return c.Slt(x, y)
	}
	if a.isConst() && b.isConst() {
		return c.Bool(sx(a.val, a.w) < sx(b.val, b.w))
	}
	if b.isConst() && isConstIte(a) {
		return c.mapLeaves(a, func(l *Term) *Term { return c.Bool(sx(l.val, l.w) < sx(b.val, b.w)) })
	}
	if a.isConst() && isConstIte(b) {
		return c.mapLeaves(b, func(l *Term) *Term { return c.Bool(sx(a.val, a.w) < sx(l.val, l.w)) })
	}
	al, ah := c.rng(a, 10)
	bl, bh := c.rng(b, 10)
	if ah < bl {
		return c.True
	}
	if al >= bh {
		return c.False
	}
	// difference reasoning: a = x + k1, b = x + k2 with no overflow in either
	if a.op == OLin || b.op == OLin {
		if c.noOvf(a) && c.noOvf(b) {
			d := c.Sub(a, b)
			if d.isConst() {
				return c.Bool(sx(d.val, d.w) < 0)
			}
			if x, y, ok := c.scaleDown(a, b); ok {
				return c.Slt(x, y)
			}
		}
	}
	return c.mk(OSlt, 0, 0, "", []*Term{a, b}, nil)
}
func (c *Ctx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

// noOvf: the linear term's mathematical value lies within the signed range by interval analysis
// with small magnitude, so that differences of such terms do not wrap.
func (c *Ctx) noOvf(t *Term) bool {
	if t.op != OLin {
		lo, hi := c.rng(t, 8)
		return lo > -(1<<60) && hi < 1<<60
	}
	lo, hi, ok := c.linRange(t, 8)
	return ok && lo > -(1<<60) && hi < 1<<60
}

// ---------- ranges (signed interpretation) ----------

func fullRange(w uint8) (int64, int64) {
	if w == 0 {
		return 0, 1
	}
	h := int64(mask(w - 1))
	return -h - 1, h
}

func satMul(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	r := a * b
	if r/b != a || (a == -1 && b == -1<<63) || (b == -1 && a == -1<<63) {
		return 0, false
	}
	return r, true
}
func addOK(a, b int64) (int64, bool) {
	r := a + b
	if (r > a) == (b > 0) || b == 0 {
		return r, true
	}
	return 0, false
}

func (c *Ctx) linRange(t *Term, depth int) (int64, int64, bool) {
	lo, hi := sx(t.val, t.w), sx(t.val, t.w)
	for i, a := range t.args {
		k := sx(t.coefs[i], t.w)
		l, h := c.rng(a, depth-1)
		if k < 0 {
			l, h = h, l
		}
		var ok1, ok2 bool
		l, ok1 = satMul(l, k)
		h, ok2 = satMul(h, k)
		if !ok1 || !ok2 {
			return 0, 0, false
		}
		lo, ok1 = addOK(lo, l)
		hi, ok2 = addOK(hi, h)
		if !ok1 || !ok2 {
			return 0, 0, false
		}
	}
	fl, fh := fullRange(t.w)
	if lo < fl || hi > fh {
		return 0, 0, false
	}
	return lo, hi, true
}

func (c *Ctx) rng(t *Term, depth int) (int64, int64) {
	if t.op == OConst {
		if t.w == 0 {
			return int64(t.val), int64(t.val)
		}
		v := sx(t.val, t.w)
		return v, v
	}
	if m, ok := c.memo[t]; ok {
		return m[0], m[1]
	}
	lo, hi := fullRange(t.w)
	if depth <= 0 {
		if b, ok := c.bounds[t]; ok {
			return b[0], b[1]
		}
		return lo, hi
	}
	switch t.op {
	case OLin:
		if l, h, ok := c.linRange(t, depth); ok {
			lo, hi = l, h
		}
	case OIte:
		l1, h1 := c.rng(t.args[1], depth-1)
		l2, h2 := c.rng(t.args[2], depth-1)
		lo, hi = min(l1, l2), max(h1, h2)
	case OConcat:
		f := t.args[0]
		if f.op == OConst && t.w > f.w && sx(f.val, f.w) >= 0 {
			// top bits constant, non negative
			sh := t.w - f.w
			lo = int64(f.val << sh)
			hi = lo | int64(mask(sh))
			if f.val == 0 && len(t.args) == 2 {
				l, h := c.rng(t.args[1], depth-1)
				if l >= 0 {
					lo, hi = l, h
				}
			}
		}
	case OExtract:
		l, h := c.rng(t.args[0], depth-1)
		if t.val == 0 && l >= 0 && t.w > 1 && h <= int64(mask(t.w-1)) {
			lo, hi = l, h
		}
	case OSext:
		lo, hi = c.rng(t.args[0], depth-1)
	case OUrem:
		if t.args[1].isConst() {
			if m := sx(t.args[1].val, t.w); m > 0 {
				lo, hi = 0, m-1
			}
		}
	case OSrem:
		if t.args[1].isConst() {
			if m := sx(t.args[1].val, t.w); m > 0 {
				l, h := c.rng(t.args[0], depth-1)
				lo, hi = -(m - 1), m-1
				if l >= 0 {
					lo = 0
					hi = min(hi, h)
				}
			}
		}
	case OUdiv, OSdiv:
		if t.args[1].isConst() {
			if m := sx(t.args[1].val, t.w); m > 0 {
				l, h := c.rng(t.args[0], depth-1)
				if l >= 0 {
					lo, hi = l/m, h/m
				} else if t.op == OSdiv {
					lo, hi = l/m, h/m
				}
			}
		}
	case OBAnd:
		for _, a := range t.args {
			l, h := c.rng(a, depth-1)
			if l >= 0 {
				lo = 0
				hi = min(hi, h)
			}
		}
	case OLshr:
		if t.args[1].isConst() && t.args[1].val > 0 && t.args[1].val < uint64(t.w) {
			lo, hi = 0, int64(mask(t.w-uint8(t.args[1].val)))
		}
	}
	if b, ok := c.bounds[t]; ok {
		lo, hi = max(lo, b[0]), min(hi, b[1])
		if lo > hi {
			lo, hi = b[0], b[1]
		}
	}
	c.memo[t] = [2]int64{lo, hi}
	return lo, hi
}

// learn refines the bounds with an asserted literal.
func (c *Ctx) learn(t *Term) {
	set := func(x *Term, lo, hi int64) {
		if x.isConst() || x.w == 0 {
			return
		}
		l, h := c.rng(x, 10)
		nl, nh := max(l, lo), min(h, hi)
		if nl > nh || (nl == l && nh == h) {
			return
		}
		c.bounds[x] = [2]int64{nl, nh}
		c.memo = make(map[*Term][2]int64)
		if x.op == OLin && len(x.args) == 1 && x.coefs[0] == 1 {
			// x = y + k
			k := sx(x.val, x.w)
			yl, yh := c.rng(x.args[0], 10)
			a, ok1 := addOK(nl, -k)
			b, ok2 := addOK(nh, -k)
			if _, ok := addOK(yl, k); !ok {
				return
			}
			if _, ok := addOK(yh, k); !ok {
				return
			}
			if ok1 && ok2 {
				a, b = max(a, yl), min(b, yh)
				if a <= b && (a > yl || b < yh) {
					c.bounds[x.args[0]] = [2]int64{a, b}
					c.memo = make(map[*Term][2]int64)
				}
			}
		}
		if x.op == OConcat && len(x.args) == 2 && x.args[0].isConst() && x.args[0].val == 0 && nl >= 0 {
			y := x.args[1]
			yl, yh := c.rng(y, 10)
			if yl >= 0 {
				a, b := max(nl, yl), min(nh, yh)
				if a <= b {
					c.bounds[y] = [2]int64{a, b}
					c.memo = make(map[*Term][2]int64)
				}
			}
		}
	}
	switch t.op {
	case OAnd:
		for _, a := range t.args {
			c.learn(a)
		}
	case OEq:
		a, b := t.args[0], t.args[1]
		if a.w == 0 {
			return
		}
		al, ah := c.rng(a, 10)
		bl, bh := c.rng(b, 10)
		set(a, bl, bh)
		set(b, al, ah)
	case ONot:
		e := t.args[0]
		if e.op == OEq && e.args[0].w != 0 {
			a, b := e.args[0], e.args[1]
			if a.isConst() {
				a, b = b, a
			}
			if b.isConst() {
				l, h := c.rng(a, 10)
				v := sx(b.val, b.w)
				if l == v {
					set(a, l+1, h)
				} else if h == v {
					set(a, l, h-1)
				}
			}
		}
	case OSlt, OSle:
		a, b := t.args[0], t.args[1]
		d := int64(0)
		if t.op == OSlt {
			d = 1
		}
		fl, fh := fullRange(a.w)
		al, _ := c.rng(a, 10)
		_, bh := c.rng(b, 10)
		if bh-d >= fl && (d == 0 || bh > fl) {
			set(a, fl, bh-d)
		}
		if al+d <= fh && (d == 0 || al < fh) {
			set(b, al+d, fh)
		}
	case OUlt, OUle:
		a, b := t.args[0], t.args[1]
		d := int64(0)
		if t.op == OUlt {
			d = 1
		}
		bl, bh := c.rng(b, 10)
		if bl >= 0 { // b nonneg => a in [0, bh-d]
			if bh-d >= 0 {
				set(a, 0, bh-d)
			}
			al, _ := c.rng(a, 10)
			_, fh := fullRange(a.w)
			if al >= 0 && al+d <= fh && (d == 0 || al < fh) {
				set(b, al+d, fh)
			}
		}
	}
}

// ---------- arithmetic ----------

func (c *Ctx) lin(w uint8, k uint64, ts []*Term, cs []uint64) *Term {
	m := mask(w)
	k &= m
	type e struct {
		t *Term
		c uint64
	}
	var es []e
	var add func(t *Term, co uint64)
	add = func(t *Term, co uint64) {
		co &= m
		if co == 0 {
			return
		}
		if t.op == OConst {
			k = (k + t.val*co) & m
			return
		}
		if t.op == OLin {
			k = (k + t.val*co) & m
			for i, a := range t.args {
				add(a, t.coefs[i]*co)
			}
			return
		}
		for i := range es {
			if es[i].t == t {
				es[i].c = (es[i].c + co) & m
				return
			}
		}
		es = append(es, e{t, co})
	}
	for i, t := range ts {
		add(t, cs[i])
	}
	n := 0
	for _, x := range es {
		if x.c != 0 {
			es[n] = x
			n++
		}
	}
	es = es[:n]
	if n == 0 {
		return c.BV(k, w)
	}
	// d*(x mod q) + d*q*(x div q) is d*x; m*x - m*q*(x div q) is m*(x mod q)
	for i := 0; i < n && n > 1 && w == 64; i++ {
		t := es[i].t
		if t.op != OUdiv && t.op != OSdiv || !t.args[1].isConst() {
			continue
		}
		x, q, rop := t.args[0], t.args[1].val, OUrem
		if t.op == OSdiv {
			rop = OSrem
		}
		rebuild := func(drop func(j int) bool, nt *Term, nc, nk uint64) *Term {
			var as []*Term
			var cs []uint64
			for j := range es {
				if !drop(j) {
					as, cs = append(as, es[j].t), append(cs, es[j].c)
				}
			}
			return c.lin(w, nk, append(as, nt), append(cs, nc))
		}
		for j := range es {
			if r := es[j].t; r.op == rop && r.args[0] == x && r.args[1].val == q && es[i].c == es[j].c*q {
				return rebuild(func(l int) bool { return l == i || l == j }, x, es[j].c, k)
			}
		}
		// d*((x mod q*p) div q) + d*p*(x div q*p) is d*(x div q)
		if t.op == OUdiv && x.op == OUrem && x.args[1].isConst() && x.args[1].val%q == 0 {
			for j := range es {
				if r := es[j].t; r.op == OUdiv && r.args[0] == x.args[0] && r.args[1].isConst() && r.args[1].val == x.args[1].val && es[j].c == es[i].c*(x.args[1].val/q) {
					return rebuild(func(l int) bool { return l == i || l == j }, c.Udiv(x.args[0], t.args[1]), es[i].c, k)
				}
			}
		}
		if int64(es[i].c)%int64(q) != 0 {
			continue
		}
		mm := uint64(-(int64(es[i].c) / int64(q)))
		xa, xc, xk := []*Term{x}, []uint64{1}, uint64(0)
		if x.op == OLin {
			xa, xc, xk = x.args, x.coefs, x.val
		}
		found := map[int]bool{i: true}
		for l, a := range xa {
			for j := range es {
				if es[j].t == a && es[j].c == mm*xc[l] {
					found[j] = true
				}
			}
		}
		if len(found) == len(xa)+1 {
			return rebuild(func(l int) bool { return found[l] }, c.mk(rop, w, 0, "", []*Term{x, t.args[1]}, nil), mm, k-mm*xk)
		}
	}
	if n == 1 && k == 0 && es[0].c == 1 {
		return es[0].t
	}
	sort.Slice(es, func(i, j int) bool { return es[i].t.id < es[j].t.id })
	args := make([]*Term, n)
	coefs := make([]uint64, n)
	for i, x := range es {
		args[i], coefs[i] = x.t, x.c
	}
	return c.mk(OLin, w, k, "", args, coefs)
}

func (c *Ctx) Add(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.BV(a.val+b.val, a.w)
	}
	if a.isConst() && a.val == 0 {
		return b
	}
	if b.isConst() && b.val == 0 {
		return a
	}
	return c.lin(a.w, 0, []*Term{a, b}, []uint64{1, 1})
}
func (c *Ctx) Sub(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.BV(a.val-b.val, a.w)
	}
	if b.isConst() && b.val == 0 {
		return a
	}
	return c.lin(a.w, 0, []*Term{a, b}, []uint64{1, mask(a.w)})
}
func (c *Ctx) Neg(a *Term) *Term { return c.lin(a.w, 0, []*Term{a}, []uint64{mask(a.w)}) }
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return c.BV(a.val*b.val, a.w)
		}
		return c.lin(a.w, 0, []*Term{a}, []uint64{b.val})
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OMul, a.w, 0, "", []*Term{a, b}, nil)
}

// divSplit writes a sum that does not wrap as k*q + r, r being what has no factor k, both not negative.
func (c *Ctx) divSplit(a *Term, k uint64) (q, r *Term, ok bool) {
	if a.op != OLin || a.w != 64 || int64(k) <= 0 {
		return nil, nil, false
	}
	if lo, _, ok := c.linRange(a, 10); !ok || lo < 0 {
		return nil, nil, false
	}
	var qa, ra []*Term
	var qc, rc []uint64
	for i, t := range a.args {
		if x := int64(a.coefs[i]); x%int64(k) == 0 {
			qa, qc = append(qa, t), append(qc, uint64(x/int64(k)))
		} else {
			ra, rc = append(ra, t), append(rc, a.coefs[i])
		}
	}
	if len(qa) == 0 {
		return nil, nil, false
	}
	q, r = c.lin(64, 0, qa, qc), c.lin(64, a.val, ra, rc)
	for _, t := range []*Term{q, r} {
		lo, _ := c.rng(t, 10)
		if t.op == OLin {
			l, _, ok := c.linRange(t, 10)
			if !ok {
				return nil, nil, false
			}
			lo = l
		}
		if lo < 0 {
			return nil, nil, false
		}
	}
	return q, r, true
}

func (c *Ctx) Udiv(a, b *Term) *Term {
	if b.isConst() && b.val != 0 {
		if a.isConst() {
			return c.BV(a.val/b.val, a.w)
		}
		if b.val == 1 {
			return a
		}
		if b.val&(b.val-1) == 0 {
			return c.Lshr(a, c.BV(uint64(bits.TrailingZeros64(b.val)), a.w))
		}
		if l, h := c.rng(a, 10); l >= 0 && h < sx(b.val, b.w) {
			return c.BV(0, a.w)
		}
		if q, r, ok := c.divSplit(a, b.val); ok {
			return c.Add(q, c.Udiv(r, b))
		}
	}
	return c.mk(OUdiv, a.w, 0, "", []*Term{a, b}, nil)
}
func (c *Ctx) Urem(a, b *Term) *Term {
	if b.isConst() && b.val != 0 {
		if a.isConst() {
			return c.BV(a.val%b.val, a.w)
		}
		if b.val == 1 {
			return c.BV(0, a.w)
		}
		if b.val&(b.val-1) == 0 {
			n := bits.TrailingZeros64(b.val)
			return c.Zext(c.Extract(a, n-1, 0), a.w)
		}
		if l, h := c.rng(a, 10); l >= 0 && h < sx(b.val, b.w) {
			return a
		}
		if _, r, ok := c.divSplit(a, b.val); ok {
			return c.Urem(r, b)
		}
	}
	return c.mk(OUrem, a.w, 0, "", []*Term{a, b}, nil)
}
func (c *Ctx) Sdiv(a, b *Term) *Term {
	if b.isConst() && b.val != 0 {
		if a.isConst() {
			x, y := sx(a.val, a.w), sx(b.val, b.w)
			if y == -1 {
				return c.BV(uint64(-x), a.w)
			}
			return c.BV(uint64(x/y), a.w)
		}
		if b.val == 1 {
			return a
		}
		if l, _ := c.rng(a, 10); l >= 0 && sx(b.val, b.w) > 0 {
			return c.Udiv(a, b)
		}
	}
	return c.mk(OSdiv, a.w, 0, "", []*Term{a, b}, nil)
}
func (c *Ctx) Srem(a, b *Term) *Term {
	if b.isConst() && b.val != 0 {
		if a.isConst() {
			x, y := sx(a.val, a.w), sx(b.val, b.w)
			if y == -1 {
				return c.BV(0, a.w)
			}
			return c.BV(uint64(x%y), a.w)
		}
		if l, _ := c.rng(a, 10); l >= 0 && sx(b.val, b.w) > 0 {
			return c.Urem(a, b)
		}
	}
	return c.mk(OSrem, a.w, 0, "", []*Term{a, b}, nil)
}

// ---------- bit structure ----------

// segs: list of segments hi to lo; each a non-concat term.
func segs(t *Term) []*Term {
	if t.op == OConcat {
		return t.args
	}
	return []*Term{t}
}

func (c *Ctx) Concat(parts ...*Term) *Term {
	var out []*Term
	var w int
	for _, p := range parts {
		w += int(p.w)
		for _, s := range segs(p) {
			if n := len(out); n > 0 {
				l := out[n-1]
				if l.isConst() && s.isConst() {
					out[n-1] = c.BV(l.val<<s.w|s.val, l.w+s.w)
					continue
				}
				// adjacent extracts of the same base
				lb, llo := extBase(l)
				sb, slo := extBase(s)
				if lb == sb && int(slo)+int(s.w) == int(llo) && (l.op == OExtract || s.op == OExtract) {
					out[n-1] = c.Extract(lb, int(llo)+int(l.w)-1, int(slo))
					continue
				}
			}
			out = append(out, s)
		}
	}
	if w > 64 {
		panic("concat too wide")
	}
	if len(out) == 1 {
		return out[0]
	}
	if len(out) == 2 && out[0].isConst() && out[0].val == 0 && out[1].op == OExtract && out[1].val == 0 && int(out[1].args[0].w) == w && out[1].w < 63 {
		if lo, hi := c.rng(out[1].args[0], 10); lo >= 0 && hi < int64(1)<<out[1].w {
			return out[1].args[0]
		}
	}
	return c.mk(OConcat, uint8(w), 0, "", append([]*Term(nil), out...), nil)
}

func extBase(t *Term) (*Term, int) {
	if t.op == OExtract {
		return t.args[0], int(t.val)
	}
	return t, 0
}

func (c *Ctx) Extract(t *Term, hi, lo int) *Term {
	w := uint8(hi - lo + 1)
	if w == t.w {
		return t
	}
	switch t.op {
	case OConst:
		return c.BV(t.val>>uint(lo), w)
	case OExtract:
		return c.Extract(t.args[0], hi+int(t.val), lo+int(t.val))
	case OConcat:
		var out []*Term
		pos := int(t.w)
		for _, s := range t.args {
			shi := pos - 1
			slo := pos - int(s.w)
			pos = slo
			if slo > hi || shi < lo {
				continue
			}
			out = append(out, c.Extract(s, min(hi, shi)-slo, max(lo, slo)-slo))
		}
		return c.Concat(out...)
	case OIte:
		if isConstIte(t) {
			return c.mapLeaves(t, func(l *Term) *Term { return c.Extract(l, hi, lo) })
		}
	case OSext:
		if hi < int(t.args[0].w) {
			return c.Extract(t.args[0], hi, lo)
		}
	case OLin:
		if lo == 0 {
			ok := true
			for _, a := range t.args {
				if a.op != OConcat && a.op != OSext {
					ok = false
				}
			}
			if ok {
				as := make([]*Term, len(t.args))
				for i, a := range t.args {
					as[i] = c.Extract(a, hi, 0)
				}
				return c.lin(w, t.val, as, t.coefs)
			}
		}
	case OBAnd, OBOr, OBXor:
		return c.bitop(t.op, c.Extract(t.args[0], hi, lo), c.Extract(t.args[1], hi, lo))
	}
	return c.mk(OExtract, w, uint64(lo), "", []*Term{t}, nil)
}

func (c *Ctx) Zext(t *Term, w uint8) *Term {
	if t.w == w {
		return t
	}
	if w == 64 && t.op == OLin {
		if x := c.widen(t); x != nil {
			if lo, _ := c.rng(x, 10); lo >= 0 {
				return x
			}
		}
	}
	return c.Concat(c.BV(0, w-t.w), t)
}
func (c *Ctx) Sext(t *Term, w uint8) *Term {
	if t.w == w {
		return t
	}
	if t.isConst() {
		return c.BV(uint64(sx(t.val, t.w)), w)
	}
	if t.op == OExtract && t.val == 0 && t.args[0].w == w {
		if lo, hi := c.rng(t.args[0], 10); lo >= -(int64(1)<<(t.w-1)) && hi < int64(1)<<(t.w-1) {
			return t.args[0]
		}
	}
	if w == 64 && t.op == OLin {
		if x := c.widen(t); x != nil {
			return x
		}
	}
	if l, _ := c.rng(t, 10); l >= 0 {
		return c.Zext(t, w)
	}
	return c.mk(OSext, w, 0, "", []*Term{t}, nil)
}

func (c *Ctx) Shl(a, b *Term) *Term {
	if b.isConst() {
		s := b.val
		if s == 0 {
			return a
		}
		if s >= uint64(a.w) {
			return c.BV(0, a.w)
		}
		if a.isConst() {
			return c.BV(a.val<<s, a.w)
		}
		return c.Concat(c.Extract(a, int(a.w)-1-int(s), 0), c.BV(0, uint8(s)))
	}
	return c.mk(OShl, a.w, 0, "", []*Term{a, b}, nil)
}
func (c *Ctx) Lshr(a, b *Term) *Term {
	if b.isConst() {
		s := b.val
		if s == 0 {
			return a
		}
		if s >= uint64(a.w) {
			return c.BV(0, a.w)
		}
		return c.Concat(c.BV(0, uint8(s)), c.Extract(a, int(a.w)-1, int(s)))
	}
	return c.mk(OLshr, a.w, 0, "", []*Term{a, b}, nil)
}
func (c *Ctx) Ashr(a, b *Term) *Term {
	if b.isConst() {
		s := b.val
		if s == 0 {
			return a
		}
		if a.isConst() {
			if s >= 64 {
				s = 63
			}
			return c.BV(uint64(sx(a.val, a.w)>>s), a.w)
		}
		if l, _ := c.rng(a, 10); l >= 0 {
			return c.Lshr(a, b)
		}
	}
	return c.mk(OAshr, a.w, 0, "", []*Term{a, b}, nil)
}

func (c *Ctx) BAnd(a, b *Term) *Term { return c.bitop(OBAnd, a, b) }
func (c *Ctx) BOr(a, b *Term) *Term  { return c.bitop(OBOr, a, b) }
func (c *Ctx) BXor(a, b *Term) *Term { return c.bitop(OBXor, a, b) }

func cutPoints(t *Term) []int {
	var out []int
	if t.op == OConcat {
		pos := int(t.w)
		for _, s := range t.args {
			pos -= int(s.w)
			if pos > 0 {
				out = append(out, pos)
			}
		}
	}
	if t.op == OConst {
		for i := 1; i < int(t.w); i++ {
			if (t.val>>uint(i))&1 != (t.val>>uint(i-1))&1 {
				out = append(out, i)
			}
		}
	}
	return out
}

// bandRange: a&k is a (1), is 0 (0), or neither (-1), by the range of a.
func (c *Ctx) bandRange(a *Term, k uint64) int {
	lo, hi := c.rng(a, 10)
	if lo < 0 {
		return -1
	}
	m := uint64(1)<<bits.Len64(uint64(hi)) - 1
	if k&m == 0 {
		return 0
	}
	if k&m == m {
		return 1
	}
	return -1
}

func (c *Ctx) bitop(op Op, a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	m := mask(a.w)
	if a.isConst() && b.isConst() {
		switch op {
		case OBAnd:
			return c.BV(a.val&b.val, a.w)
		case OBOr:
			return c.BV(a.val|b.val, a.w)
		default:
			return c.BV(a.val^b.val, a.w)
		}
	}
	if a == b {
		if op == OBXor {
			return c.BV(0, a.w)
		}
		return a
	}
	if b.isConst() {
		switch {
		case op == OBAnd && b.val == 0:
			return b
		case op == OBAnd && b.val == m:
			return a
		case op == OBAnd && a.w == 64 && c.bandRange(a, b.val) == 1:
			return a
		case op == OBAnd && a.w == 64 && c.bandRange(a, b.val) == 0:
			return c.BV(0, a.w)
		case op != OBAnd && b.val == 0:
			return a
		case op == OBOr && b.val == m:
			return b
		case op == OBXor && b.val == m:
			return c.BNot(a)
		}
	}
	if isConstIte(a) && b.isConst() {
		return c.mapLeaves(a, func(l *Term) *Term { return c.bitop(op, l, b) })
	}
	if a.op == OConcat || b.op == OConcat || (b.isConst() && op == OBAnd) {
		cs := append(cutPoints(a), cutPoints(b)...)
		if len(cs) > 0 {
			sort.Sort(sort.Reverse(sort.IntSlice(cs)))
			hi := int(a.w) - 1
			var parts []*Term
			prev := -1
			for _, p := range append(cs, 0) {
				if p == prev || p > hi {
					continue
				}
				prev = p
				parts = append(parts, c.bitop(op, c.Extract(a, hi, p), c.Extract(b, hi, p)))
				hi = p - 1
			}
			return c.Concat(parts...)
		}
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return c.mk(op, a.w, 0, "", []*Term{a, b}, nil)
}
func (c *Ctx) BNot(a *Term) *Term {
	// ~a = -a-1
	return c.lin(a.w, mask(a.w), []*Term{a}, []uint64{mask(a.w)})
}

// ---------- evaluation under a model ----------

type Model struct {
	vals map[string]uint64            // variables
	apps map[string]map[uint64]uint64 // uninterpreted arrays
	memo map[*Term]uint64
}

func NewModel() *Model {
	return &Model{vals: map[string]uint64{}, apps: map[string]map[uint64]uint64{}, memo: map[*Term]uint64{}}
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (m *Model) eval(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		return m.vals[t.name]
	}
	if v, ok := m.memo[t]; ok {
		return v
	}
	var r uint64
	ev := func(i int) uint64 { return m.eval(t.args[i]) }
	switch t.op {
	case OApp:
		r = m.apps[t.name][ev(0)]
	case ONot:
		r = 1 - ev(0)
	case OAnd:
		r = 1
		for i := range t.args {
			if ev(i) == 0 {
				r = 0
				break
			}
		}
	case OOr:
		for i := range t.args {
			if ev(i) == 1 {
				r = 1
				break
			}
		}
	case OEq:
		r = b2u(ev(0) == ev(1))
	case OUlt:
		r = b2u(ev(0) < ev(1))
	case OUle:
		r = b2u(ev(0) <= ev(1))
	case OSlt:
		r = b2u(sx(ev(0), t.args[0].w) < sx(ev(1), t.args[1].w))
	case OSle:
		r = b2u(sx(ev(0), t.args[0].w) <= sx(ev(1), t.args[1].w))
	case OLin:
		r = t.val
		for i := range t.args {
			r += t.coefs[i] * ev(i)
		}
	case OMul:
		r = ev(0) * ev(1)
	case OUdiv:
		if d := ev(1); d == 0 {
			r = mask(t.w)
		} else {
			r = ev(0) / d
		}
	case OUrem:
		if d := ev(1); d == 0 {
			r = ev(0)
		} else {
			r = ev(0) % d
		}
	case OSdiv:
		a, d := sx(ev(0), t.w), sx(ev(1), t.w)
		if d == 0 {
			if a < 0 {
				r = 1
			} else {
				r = mask(t.w)
			}
		} else if d == -1 {
			r = uint64(-a)
		} else {
			r = uint64(a / d)
		}
	case OSrem:
		a, d := sx(ev(0), t.w), sx(ev(1), t.w)
		if d == 0 {
			r = uint64(a)
		} else if d == -1 {
			r = 0
		} else {
			r = uint64(a % d)
		}
	case OBAnd:
		r = ev(0) & ev(1)
	case OBOr:
		r = ev(0) | ev(1)
	case OBXor:
		r = ev(0) ^ ev(1)
	case OShl:
		if s := ev(1); s < uint64(t.w) {
			r = ev(0) << s
		}
	case OLshr:
		if s := ev(1); s < uint64(t.w) {
			r = ev(0) >> s
		}
	case OAshr:
		s := ev(1)
		if s >= uint64(t.w) {
			s = uint64(t.w) - 1
		}
		r = uint64(sx(ev(0), t.w) >> s)
	case OConcat:
		for i, a := range t.args {
			r = r<<a.w | ev(i)
		}
	case OExtract:
		r = ev(0) >> t.val
	case OSext:
		r = uint64(sx(ev(0), t.args[0].w))
	case OIte:
		if ev(0) == 1 {
			r = ev(1)
		} else {
			r = ev(2)
		}
	default:
		panic("eval: op")
	}
	if t.w > 0 {
		r &= mask(t.w)
	}
	m.memo[t] = r
	return r
}

// ---------- printing ----------

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constStr(v uint64, w uint8) string {
	if w == 0 {
		if v == 1 {
			return "true"
		}
		return "false"
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w)/4, v)
	}
	return fmt.Sprintf("#b%0*b", int(w), v)
}

// smt writes the operator application of t using ref for the arguments.
func (t *Term) smt(ref func(*Term) string) string {
	var sb strings.Builder
	bin := func(op string) string {
		sb.WriteString("(" + op)
		for _, a := range t.args {
			sb.WriteByte(' ')
			sb.WriteString(ref(a))
		}
		sb.WriteByte(')')
		return sb.String()
	}
	switch t.op {
	case OApp:
		return "(" + t.name + " " + ref(t.args[0]) + ")"
	case ONot:
		return bin("not")
	case OAnd:
		return bin("and")
	case OOr:
		return bin("or")
	case OEq:
		return bin("=")
	case OUlt:
		return bin("bvult")
	case OUle:
		return bin("bvule")
	case OSlt:
		return bin("bvslt")
	case OSle:
		return bin("bvsle")
	case OMul:
		return bin("bvmul")
	case OUdiv:
		return bin("bvudiv")
	case OSdiv:
		return bin("bvsdiv")
	case OUrem:
		return bin("bvurem")
	case OSrem:
		return bin("bvsrem")
	case OBAnd:
		return bin("bvand")
	case OBOr:
		return bin("bvor")
	case OBXor:
		return bin("bvxor")
	case OShl:
		return bin("bvshl")
	case OLshr:
		return bin("bvlshr")
	case OAshr:
		return bin("bvashr")
	case OConcat:
		return bin("concat")
	case OIte:
		return bin("ite")
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", int(t.val)+int(t.w)-1, t.val, ref(t.args[0]))
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.args[0].w, ref(t.args[0]))
	case OLin:
		var parts []string
		for i, a := range t.args {
			switch t.coefs[i] {
			case 1:
				parts = append(parts, ref(a))
			case mask(t.w):
				parts = append(parts, "(bvneg "+ref(a)+")")
			default:
				parts = append(parts, "(bvmul "+constStr(t.coefs[i], t.w)+" "+ref(a)+")")
			}
		}
		if t.val != 0 {
			parts = append(parts, constStr(t.val, t.w))
		}
		r := parts[0]
		for _, p := range parts[1:] {
			r = "(bvadd " + r + " " + p + ")"
		}
		return r
	}
	panic("smt: op")
}
