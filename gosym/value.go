package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Value is one of:
//
//	*Term            bool and integers
//	float64          floats (concrete only)
//	string, *SymStr  strings
//	Ptr              pointers (and unsafe.Pointer)
//	Slice            slices
//	*Arr             array values
//	*Struct          struct values
//	Tuple            multi results
//	Iface            interface values
//	*Map, *Chan, *Func
type Value any

type Cell struct {
	v  Value
	rw *raceInfo
}

type Struct struct{ f []Cell }

type Tuple []Value

type Iface struct {
	t types.Type
	v Value
}

type Ptr struct {
	c *Cell
	a *Arr
	i *Term
}

func (p Ptr) isNil() bool { return p.c == nil && p.a == nil }

type Slice struct {
	a             *Arr
	off, len, cap *Term
}

type Func struct {
	fn     *ssa.Function
	env    []Value
	recv   Value // bound natives
	native func(in *Interp, args []Value) Value
}

type SymStr struct {
	mem      *Mem
	live     *Arr // unsafe string aliasing a byte array
	off, len *Term
}

type Poison struct{ why string }

// Arr is an array object.
type Arr struct {
	elem  types.Type
	w     uint8 // scalar width, 255 for cells
	n     *Term
	cells []Cell
	dense []*Term
	mem   *Mem
	dead  string // non-empty: accessing it is a memory fault
	rw    *raceInfo
}

const nonScalar = 255

func scalarWidth(t types.Type) uint8 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nonScalar
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return 64
	}
	return nonScalar
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	return b.Info()&types.IsUnsigned == 0
}

// ---------- log structured memory ----------

type memKind uint8

const (
	mZero memKind = iota
	mUF
	mStr
	mDense
	mOv
	mStore
	mCopy
)

type Mem struct {
	kind   memKind
	w      uint8
	prev   *Mem
	name   string // mUF
	str    string
	dense  []*Term
	ov     map[uint64]*Term
	frozen bool
	idx    *Term // mStore idx, mCopy dst
	val    *Term
	n      *Term
	src    *Mem
	srcOff *Term
	depth  int
}

func (m *Mem) freeze() *Mem {
	if m.kind == mOv {
		m.frozen = true
	}
	return m
}

func (in *Interp) memRead(m *Mem, idx *Term) *Term {
	c := in.c
	for {
		switch m.kind {
		case mZero:
			return c.BV(0, m.w)
		case mUF:
			return c.App(m.name, idx, m.w)
		case mStr:
			if idx.isConst() {
				if idx.val < uint64(len(m.str)) {
					return c.BV(uint64(m.str[idx.val]), 8)
				}
				return c.BV(0, 8)
			}
			lo, hi := in.idxRange(idx, len(m.str))
			r := c.BV(0, 8)
			for k := hi; k >= lo; k-- {
				r = c.Ite(c.Eq(idx, c.Int(int64(k))), c.BV(uint64(m.str[k]), 8), r)
			}
			return r
		case mDense:
			return in.denseRead(m.dense, idx, m.w)
		case mOv:
			if idx.isConst() {
				if v, ok := m.ov[idx.val]; ok {
					return v
				}
				m = m.prev
				continue
			}
			lo, hi := c.rng(idx, 10)
			var ks []uint64
			for k := range m.ov {
				if int64(k) >= lo && int64(k) <= hi {
					ks = append(ks, k)
				}
			}
			sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
			if len(ks) > 4 {
				// ask whether the whole cluster can be hit at all
				in.stats.memQ++
				cond := c.And(c.Ule(c.BV(ks[0], 64), idx), c.Ule(idx, c.BV(ks[len(ks)-1], 64)))
				if in.decide(cond) == 0 {
					m = m.prev
					continue
				}
			}
			r := in.memRead(m.prev, idx)
			for i := len(ks) - 1; i >= 0; i-- {
				r = c.Ite(c.Eq(idx, c.BV(ks[i], 64)), m.ov[ks[i]], r)
			}
			return r
		case mStore:
			e := c.Eq(idx, m.idx)
			d := in.decide(e)
			if d == 1 {
				return m.val
			}
			if d == 0 {
				m = m.prev
				continue
			}
			return c.Ite(e, m.val, in.memRead(m.prev, idx))
		case mCopy:
			rel := c.Sub(idx, m.idx)
			e := c.Ult(rel, m.n)
			d := in.decide(e)
			if d == 1 {
				idx = c.Add(rel, m.srcOff)
				m = m.src
				continue
			}
			if d == 0 {
				m = m.prev
				continue
			}
			return c.Ite(e, in.memRead(m.src, c.Add(rel, m.srcOff)), in.memRead(m.prev, idx))
		}
	}
}

// idxRange returns the inclusive concrete index interval possible for idx within [0,n).
func (in *Interp) idxRange(idx *Term, n int) (int, int) {
	lo, hi := in.c.rng(idx, 10)
	if lo < 0 {
		lo = 0
	}
	if hi > int64(n-1) || hi < 0 {
		hi = int64(n - 1)
	}
	return int(lo), int(hi)
}

func (in *Interp) denseRead(d []*Term, idx *Term, w uint8) *Term {
	c := in.c
	if idx.isConst() {
		if idx.val < uint64(len(d)) {
			return d[idx.val]
		}
		return c.BV(0, w)
	}
	lo, hi := in.idxRange(idx, len(d))
	if hi < lo {
		return in.zeroT(w)
	}
	r := d[hi]
	for k := hi - 1; k >= lo; k-- {
		r = c.Ite(c.Eq(idx, c.Int(int64(k))), d[k], r)
	}
	return r
}

func (in *Interp) zeroT(w uint8) *Term {
	if w == 0 {
		return in.c.False
	}
	return in.c.BV(0, w)
}

func (in *Interp) newArr(elem types.Type, n *Term) *Arr {
	a := &Arr{elem: elem, w: scalarWidth(elem), n: n}
	if a.w == nonScalar {
		if !n.isConst() {
			n = in.c.Int(in.concretize(n, "array size"))
			a.n = n
		}
		k := int(n.val)
		if k > 1<<20 {
			in.unsupported("huge array of cells: %d", k)
		}
		a.cells = make([]Cell, k)
		for i := range a.cells {
			a.cells[i].v = in.zero(elem)
		}
		return a
	}
	if n.isConst() && n.val <= 600 || a.w == 0 {
		if !n.isConst() {
			a.n = in.c.Int(in.concretize(n, "bool array size"))
		}
		a.dense = make([]*Term, a.n.val)
		z := in.zeroT(a.w)
		for i := range a.dense {
			a.dense[i] = z
		}
		return a
	}
	a.mem = &Mem{kind: mZero, w: a.w}
	return a
}

func (in *Interp) arrOf(elem types.Type, dense []*Term) *Arr {
	return &Arr{elem: elem, w: scalarWidth(elem), n: in.c.Int(int64(len(dense))), dense: dense}
}

func (in *Interp) checkAlive(a *Arr) {
	if a.dead != "" {
		in.fault("memory fault: access to " + a.dead)
	}
}

// snapshot returns an immutable view of the scalar array.
func (in *Interp) snapshot(a *Arr) *Mem {
	in.checkAlive(a)
	if a.mem != nil {
		return a.mem.freeze()
	}
	return &Mem{kind: mDense, w: a.w, dense: append([]*Term(nil), a.dense...)}
}

func (in *Interp) toMem(a *Arr) {
	if a.mem == nil {
		a.mem = &Mem{kind: mDense, w: a.w, dense: a.dense}
		a.dense = nil
	}
}

func (in *Interp) arrGet(a *Arr, idx *Term) Value {
	in.checkAlive(a)
	if a.w == nonScalar {
		k := in.concIdx(idx, len(a.cells))
		return in.copyVal(a.cells[k].v)
	}
	if a.mem != nil {
		return in.memRead(a.mem, idx)
	}
	return in.denseRead(a.dense, idx, a.w)
}

func (in *Interp) concIdx(idx *Term, n int) int {
	if idx.isConst() {
		return int(idx.val)
	}
	return int(in.concretize(idx, "index"))
}

func (in *Interp) arrSet(a *Arr, idx *Term, v *Term) {
	in.checkAlive(a)
	if a.mem == nil {
		if idx.isConst() {
			a.dense[idx.val] = v
			return
		}
		lo, hi := in.idxRange(idx, len(a.dense))
		if hi-lo <= 64 {
			for k := lo; k <= hi; k++ {
				a.dense[k] = in.c.Ite(in.c.Eq(idx, in.c.Int(int64(k))), v, a.dense[k])
			}
			return
		}
		in.toMem(a)
	}
	if idx.isConst() {
		if a.mem.kind == mOv && !a.mem.frozen {
			a.mem.ov[idx.val] = v
			return
		}
		a.mem = &Mem{kind: mOv, w: a.w, prev: a.mem.freeze(), ov: map[uint64]*Term{idx.val: v}}
		return
	}
	a.mem = &Mem{kind: mStore, w: a.w, prev: a.mem.freeze(), idx: idx, val: v}
}

// arrCopy copies n scalars from src[srcOff:] to a[dst:].
func (in *Interp) arrCopy(a *Arr, dst *Term, src *Mem, srcOff, n *Term) {
	in.checkAlive(a)
	if n.isConst() && n.val == 0 {
		return
	}
	if n.isConst() && n.val <= 64 && dst.isConst() {
		for i := uint64(0); i < n.val; i++ {
			in.arrSet(a, in.c.Add(dst, in.c.Int(int64(i))), in.memRead(src, in.c.Add(srcOff, in.c.Int(int64(i)))))
		}
		return
	}
	if n.isConst() && dst.isConst() && a.mem == nil && n.val <= 600 {
		for i := uint64(0); i < n.val; i++ {
			a.dense[dst.val+i] = in.memRead(src, in.c.Add(srcOff, in.c.Int(int64(i))))
		}
		return
	}
	in.toMem(a)
	a.mem = &Mem{kind: mCopy, w: a.w, prev: a.mem.freeze(), idx: dst, src: src, srcOff: srcOff, n: n}
}

// ---------- generic values ----------

func (in *Interp) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return Ptr{}
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		case u.Kind() == types.UntypedNil:
			return Ptr{}
		}
		return in.zeroT(scalarWidth(t))
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{}
	case *types.Array:
		return in.newArr(u.Elem(), in.c.Int(u.Len()))
	case *types.Struct:
		s := &Struct{f: make([]Cell, u.NumFields())}
		for i := range s.f {
			s.f[i].v = in.zero(u.Field(i).Type())
		}
		return s
	case *types.Interface:
		return Iface{}
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*Func)(nil)
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = in.zero(u.At(i).Type())
		}
		return r
	}
	in.unsupported("zero value of %s", t)
	return nil
}

func (in *Interp) copyVal(v Value) Value {
	switch v := v.(type) {
	case *Struct:
		s := &Struct{f: make([]Cell, len(v.f))}
		for i := range v.f {
			s.f[i].v = in.copyVal(v.f[i].v)
		}
		return s
	case *Arr:
		if v.rw == nil && v.dead == "" {
			n := *v
			n.rw = nil
			if v.dense != nil {
				n.dense = append([]*Term(nil), v.dense...)
			} else if v.mem != nil {
				v.mem.freeze()
			} else if v.cells != nil {
				n.cells = make([]Cell, len(v.cells))
				for i := range v.cells {
					n.cells[i].v = in.copyVal(v.cells[i].v)
				}
			}
			return &n
		}
		in.checkAlive(v)
		n := *v
		n.rw = nil
		if v.dense != nil {
			n.dense = append([]*Term(nil), v.dense...)
		}
		return &n
	}
	return v
}

func (in *Interp) assign(c *Cell, v Value) {
	switch old := c.v.(type) {
	case *Struct:
		nv, ok := v.(*Struct)
		if !ok {
			in.unsupported("store of %T into struct", v)
		}
		if nv == old {
			return
		}
		for i := range old.f {
			in.assign(&old.f[i], nv.f[i].v)
		}
	case *Arr:
		nv, ok := v.(*Arr)
		if !ok {
			in.unsupported("store of %T into array", v)
		}
		if nv == old {
			return
		}
		switch {
		case nv.cells != nil:
			for i := range old.cells {
				in.assign(&old.cells[i], nv.cells[i].v)
			}
		case nv.mem != nil:
			nv.mem.freeze()
			old.mem, old.dense = nv.mem, nil
		default:
			old.mem = nil
			old.dense = append([]*Term(nil), nv.dense...)
		}
	default:
		c.v = v
	}
}

func (in *Interp) load(p Ptr) Value {
	if p.c != nil {
		in.access(p, false)
		return in.copyVal(p.c.v)
	}
	if p.a == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	in.access(p, false)
	return in.arrGet(p.a, p.i)
}

func (in *Interp) store(p Ptr, v Value) {
	if p.c != nil {
		in.access(p, true)
		in.assign(p.c, v)
		return
	}
	if p.a == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	in.access(p, true)
	in.arrSet(p.a, p.i, v.(*Term))
}

// ---------- strings ----------

func (in *Interp) strLen(v Value) *Term {
	switch s := v.(type) {
	case string:
		return in.c.Int(int64(len(s)))
	case *SymStr:
		return s.len
	}
	in.unsupported("strLen %T", v)
	return nil
}

func (in *Interp) strMem(v Value) (*Mem, *Term) {
	switch s := v.(type) {
	case string:
		return &Mem{kind: mStr, w: 8, str: s}, in.c.Int(0)
	case *SymStr:
		if s.live != nil {
			return in.snapshot(s.live), s.off
		}
		return s.mem, s.off
	}
	in.unsupported("strMem %T", v)
	return nil, nil
}

func (in *Interp) strAt(v Value, i *Term) *Term {
	if s, ok := v.(string); ok && i.isConst() {
		return in.c.BV(uint64(s[i.val]), 8)
	}
	m, off := in.strMem(v)
	return in.memRead(m, in.c.Add(off, i))
}

// strBytes returns the bytes of a string with a concrete length (concretizing it if needed).
func (in *Interp) strBytes(v Value) []*Term {
	if s, ok := v.(string); ok {
		out := make([]*Term, len(s))
		for i := range out {
			out[i] = in.c.BV(uint64(s[i]), 8)
		}
		return out
	}
	ln := in.strLen(v)
	n := ln
	if !n.isConst() {
		n = in.c.Int(in.concretize(ln, "string length"))
	}
	m, off := in.strMem(v)
	return in.memBytes(m, off, int(n.val))
}

func (in *Interp) memBytes(m *Mem, off *Term, n int) []*Term {
	out := make([]*Term, n)
	for i := range out {
		out[i] = in.memRead(m, in.c.Add(off, in.c.Int(int64(i))))
	}
	return out
}

// mkStr builds a string value from bytes; concrete when all bytes are constants.
func (in *Interp) mkStr(bs []*Term) Value {
	conc := true
	for _, b := range bs {
		if !b.isConst() {
			conc = false
			break
		}
	}
	if conc {
		x := make([]byte, len(bs))
		for i, b := range bs {
			x[i] = byte(b.val)
		}
		return string(x)
	}
	return &SymStr{mem: &Mem{kind: mDense, w: 8, dense: bs}, off: in.c.Int(0), len: in.c.Int(int64(len(bs)))}
}

// norm turns a symbolic string with constant bytes into a Go string.
func (in *Interp) norm(v Value) Value {
	s, ok := v.(*SymStr)
	if !ok || s.live != nil || !s.len.isConst() || !s.off.isConst() || s.len.val > 4096 {
		return v
	}
	if s.mem.kind == mUF {
		return v
	}
	return in.mkStr(in.memBytes(s.mem, s.off, int(s.len.val)))
}

func (in *Interp) concStr(v Value, what string) string {
	if s, ok := v.(string); ok {
		return s
	}
	bs := in.strBytes(v)
	x := make([]byte, len(bs))
	for i, b := range bs {
		if !b.isConst() {
			x[i] = byte(in.concretize(b, what))
		} else {
			x[i] = byte(b.val)
		}
	}
	return string(x)
}

func (in *Interp) word(bs []*Term) *Term { return in.c.Concat(bs...) }

func (in *Interp) bytesEq(a, b []*Term) *Term {
	if len(a) != len(b) {
		return in.c.False
	}
	if len(a) == 26 {
		if x, y := in.ulidDec(a), in.ulidDec(b); x != nil && y != nil {
			a, b = x, y
		}
	}
	var cs []*Term
	for i := 0; i < len(a); i += 8 {
		j := min(i+8, len(a))
		e := in.c.Eq(in.word(a[i:j]), in.word(b[i:j]))
		if e.isFalse() {
			return e
		}
		cs = append(cs, e)
	}
	return in.c.And(cs...)
}

// bytesCmp returns (lt, eq) of the lexicographic order.
func (in *Interp) bytesCmp(a, b []*Term) (lt, eq *Term) {
	c := in.c
	if len(a) == 26 && len(b) == 26 {
		if x, y := in.ulidDec(a), in.ulidDec(b); x != nil && y != nil {
			a, b = x, y
		}
	}
	n := min(len(a), len(b))
	// tail: common prefix equal
	lt = c.Bool(len(a) < len(b))
	eq = c.Bool(len(a) == len(b))
	var starts []int
	for i := 0; i < n; i += 8 {
		starts = append(starts, i)
	}
	for k := len(starts) - 1; k >= 0; k-- {
		i := starts[k]
		j := min(i+8, n)
		wa, wb := in.word(a[i:j]), in.word(b[i:j])
		l, e := c.Ult(wa, wb), c.Eq(wa, wb)
		lt = c.Or(l, c.And(e, lt))
		eq = c.And(e, eq)
	}
	return
}

func (in *Interp) strEq(a, b Value) *Term {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return in.c.Bool(x == y)
		}
	}
	la, lb := in.strLen(a), in.strLen(b)
	e := in.c.Eq(la, lb)
	if e.isFalse() {
		return e
	}
	if la.isConst() && !lb.isConst() {
		if !in.branch(e) {
			return in.c.False
		}
		return in.bytesEq(in.strBytes(a), in.prefixBytes(b, int(la.val)))
	}
	if lb.isConst() && !la.isConst() {
		if !in.branch(e) {
			return in.c.False
		}
		return in.bytesEq(in.strBytes(b), in.prefixBytes(a, int(lb.val)))
	}
	return in.bytesEq(in.strBytes(a), in.strBytes(b))
}

func (in *Interp) prefixBytes(v Value, n int) []*Term {
	m, off := in.strMem(v)
	return in.memBytes(m, off, n)
}

func (in *Interp) strConcat(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	}
	if y, ok := b.(string); ok && y == "" {
		return a
	}
	la, lb := in.strLen(a), in.strLen(b)
	if la.isConst() && lb.isConst() && la.val+lb.val <= 4096 {
		return in.mkStr(append(append([]*Term{}, in.strBytes(a)...), in.strBytes(b)...))
	}
	ma, oa := in.strMem(a)
	mb, ob := in.strMem(b)
	m := &Mem{kind: mZero, w: 8}
	z := in.c.Int(0)
	m = &Mem{kind: mCopy, w: 8, prev: m, idx: z, src: ma, srcOff: oa, n: la}
	m = &Mem{kind: mCopy, w: 8, prev: m, idx: la, src: mb, srcOff: ob, n: lb}
	return &SymStr{mem: m, off: z, len: in.c.Add(la, lb)}
}

func (in *Interp) subStr(v Value, lo, hi *Term) Value {
	if s, ok := v.(string); ok && lo.isConst() && hi.isConst() {
		return s[lo.val:hi.val]
	}
	if s, ok := v.(*SymStr); ok && s.live != nil {
		return &SymStr{live: s.live, off: in.c.Add(s.off, lo), len: in.c.Sub(hi, lo)}
	}
	m, off := in.strMem(v)
	return in.norm(&SymStr{mem: m, off: in.c.Add(off, lo), len: in.c.Sub(hi, lo)})
}

// ---------- equality ----------

func (in *Interp) eqVal(a, b Value) *Term {
	c := in.c
	switch x := a.(type) {
	case *Term:
		return c.Eq(x, b.(*Term))
	case float64:
		return c.Bool(x == b.(float64))
	case complex128:
		return c.Bool(x == b.(complex128))
	case string, *SymStr:
		return in.strEq(a, b)
	case Ptr:
		y := b.(Ptr)
		if x.c != nil || y.c != nil {
			return c.Bool(x.c == y.c && x.a == y.a)
		}
		if x.a != y.a {
			return c.False
		}
		if x.a == nil {
			return c.True
		}
		return c.Eq(x.i, y.i)
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			in.unsupported("compare iface with %T", b)
		}
		if x.t == nil || y.t == nil {
			return c.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return c.False
		}
		if !types.Comparable(x.t) {
			in.rtPanic("comparing uncomparable type " + x.t.String())
		}
		return in.eqVal(x.v, y.v)
	case *Struct:
		y := b.(*Struct)
		var cs []*Term
		for i := range x.f {
			e := in.eqVal(x.f[i].v, y.f[i].v)
			if e.isFalse() {
				return e
			}
			cs = append(cs, e)
		}
		return c.And(cs...)
	case *Arr:
		y := b.(*Arr)
		n := int(x.n.val)
		if x.w == 8 {
			return in.bytesEq(in.memBytes(in.snapshot(x), c.Int(0), n), in.memBytes(in.snapshot(y), c.Int(0), n))
		}
		var cs []*Term
		for i := 0; i < n; i++ {
			e := in.eqVal(in.arrGet(x, c.Int(int64(i))), in.arrGet(y, c.Int(int64(i))))
			if e.isFalse() {
				return e
			}
			cs = append(cs, e)
		}
		return c.And(cs...)
	case *Map:
		return c.Bool(x == b.(*Map))
	case *Chan:
		return c.Bool(x == b.(*Chan))
	case *Func:
		y := b.(*Func)
		if x != nil && y != nil {
			in.unsupported("func comparison")
		}
		return c.Bool(x == y)
	case Slice:
		y := b.(Slice)
		if x.a != nil && y.a != nil {
			in.unsupported("slice comparison")
		}
		return c.Bool(x.a == y.a)
	}
	in.unsupported("compare %T", a)
	return nil
}

// ---------- maps ----------

type mapEnt struct {
	k    Value
	cell Cell
	dead bool
}

type Map struct {
	ents []*mapEnt
	idx  map[string]*mapEnt // entries with concrete keys
	sym  int                // number of live entries with symbolic keys
	n    int
	rw   *raceInfo
	rwA  Arr
}

// concKey encodes a fully concrete key.
func concKey(v Value) (string, bool) {
	switch x := v.(type) {
	case *Term:
		if x.isConst() {
			return fmt.Sprintf("i%d", x.val), true
		}
	case string:
		return "s" + x, true
	case float64:
		return fmt.Sprintf("f%v", x), true
	case Ptr:
		if x.a == nil {
			return fmt.Sprintf("p%p", x.c), true
		}
	case *Chan:
		return fmt.Sprintf("c%p", x), true
	case Iface:
		if x.t == nil {
			return "n", true
		}
		if s, ok := concKey(x.v); ok {
			return "I" + x.t.String() + "|" + s, true
		}
	case *Struct:
		r := "{"
		for i := range x.f {
			s, ok := concKey(x.f[i].v)
			if !ok {
				return "", false
			}
			r += fmt.Sprintf("%d:%s,", len(s), s)
		}
		return r, true
	case *Arr:
		if x.dense != nil {
			r := "["
			for _, t := range x.dense {
				if !t.isConst() {
					return "", false
				}
				r += fmt.Sprintf("%x,", t.val)
			}
			return r, true
		}
		if x.n.isConst() && x.n.val == 0 {
			return "[", true
		}
	}
	return "", false
}

func (in *Interp) mapFind(m *Map, k Value) *mapEnt {
	if m == nil {
		return nil
	}
	if s, ok := k.(*SymStr); ok {
		k = in.norm(s)
	}
	ck, conc := concKey(k)
	if i, ok := k.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
		in.rtPanic("hash of unhashable type " + i.t.String())
	}
	if conc {
		if e, ok := m.idx[ck]; ok {
			return e
		}
		if m.sym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if conc {
			if _, c2 := concKey(e.k); c2 {
				continue
			}
		}
		if in.branch(in.eqVal(e.k, k)) {
			return e
		}
	}
	return nil
}

func (in *Interp) mapSet(m *Map, k, v Value) {
	if m == nil {
		in.rtPanic("assignment to entry in nil map")
	}
	if s, ok := k.(*SymStr); ok {
		k = in.norm(s)
	}
	if e := in.mapFind(m, k); e != nil {
		e.cell.v = v
		return
	}
	e := &mapEnt{k: k, cell: Cell{v: v}}
	m.ents = append(m.ents, e)
	m.n++
	if ck, ok := concKey(k); ok {
		if m.idx == nil {
			m.idx = map[string]*mapEnt{}
		}
		m.idx[ck] = e
	} else {
		m.sym++
	}
}

func (in *Interp) mapDelete(m *Map, k Value) {
	e := in.mapFind(m, k)
	if e == nil {
		return
	}
	e.dead = true
	m.n--
	if ck, ok := concKey(e.k); ok {
		delete(m.idx, ck)
	} else {
		m.sym--
	}
	// compact
	if len(m.ents) > 2*m.n+16 {
		var es []*mapEnt
		for _, x := range m.ents {
			if !x.dead {
				es = append(es, x)
			}
		}
		m.ents = es
	}
}
