package main

import (
	"fmt"
	"go/types"
	"runtime/debug"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func stack() string {
	s := string(debug.Stack())
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

type callCtx struct {
	fn     *ssa.Function
	caller *Frame
}

type intrinsic func(in *Interp, cc *callCtx, a []Value) Value

var intrinsics map[string]intrinsic

const symPkg = "github.com/solarisdb/solaris/golibs/verifsym."

func (in *Interp) freshName(n string) string {
	var sb strings.Builder
	for _, r := range n {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' {
			sb.WriteRune(r)
		} else {
			sb.WriteByte('_')
		}
	}
	k := in.nvar[n]
	in.nvar[n]++
	return fmt.Sprintf("v_%s_%d", sb.String(), k)
}

func (in *Interp) fresh(name string, w uint8) *Term {
	return in.c.Var(in.freshName(name), w)
}

func (in *Interp) freshInput(name, kind string, w uint8) *Term {
	t := in.fresh(name, w)
	in.inputs = append(in.inputs, Input{Name: name, Kind: kind, T: t})
	return t
}

func (in *Interp) boundInput(name, kind string, w uint8, lo, hi int64) *Term {
	if lo > hi {
		panic(&pathEnd{kind: oInfeasible})
	}
	t := in.freshInput(name, kind, w)
	if in.model != nil {
		in.model.vals[t.name] = uint64(lo) & mask(w)
	}
	in.addLit(in.c.Sle(in.c.BV(uint64(lo), w), t))
	in.addLit(in.c.Sle(t, in.c.BV(uint64(hi), w)))
	return t
}

func (in *Interp) symBytes(name string, n *Term) *Arr {
	nm := in.freshName(name)
	if n.isConst() && n.val <= 128 {
		bs := make([]*Term, n.val)
		for i := range bs {
			bs[i] = in.c.Var(fmt.Sprintf("%s_b%d", nm, i), 8)
		}
		in.inputs = append(in.inputs, Input{Name: name, Kind: "bytes", Bytes: bs, T: n})
		return in.arrOf(types.Typ[types.Uint8], bs)
	}
	in.inputs = append(in.inputs, Input{Name: name, Kind: "bytes", Mem: nm, T: n})
	return &Arr{elem: types.Typ[types.Uint8], w: 8, n: n, mem: &Mem{kind: mUF, w: 8, name: nm}}
}

func (in *Interp) ulidVar(name string, input bool) (*Arr, *Term, *Term) {
	nm := in.freshName(name)
	// the time of the id, in milliseconds, and the rest
	hi, lo := in.c.Concat(in.c.Var(nm+"_ms", 48), in.c.Var(nm+"_r", 16)), in.c.Var(nm+"_lo", 64)
	var bs []*Term
	for _, w := range []*Term{hi, lo} {
		for k := 7; k >= 0; k-- {
			bs = append(bs, in.c.Extract(w, k*8+7, k*8))
		}
	}
	if input {
		in.inputs = append(in.inputs, Input{Name: name, Kind: "bytes", Bytes: bs, T: in.c.Int(16)})
	}
	return in.arrOf(types.Typ[types.Uint8], bs), hi, lo
}

func (in *Interp) str(v Value) string { return in.concStr(v, "name") }

func (in *Interp) sliceVals(v Value) []Value {
	s := v.(Slice)
	if s.a == nil {
		return nil
	}
	n := int(in.concretize(s.len, "variadic"))
	var out []Value
	for i := 0; i < n; i++ {
		out = append(out, in.arrGet(s.a, in.c.Add(s.off, in.c.Int(int64(i)))))
	}
	return out
}

func (in *Interp) bytesOf(v Value) []*Term {
	s := v.(Slice)
	if s.a == nil {
		return nil
	}
	n := int(in.concretize(s.len, "bytes length"))
	if s.a.dense != nil && s.off.isConst() {
		return append([]*Term(nil), s.a.dense[int(s.off.val):int(s.off.val)+n]...)
	}
	return in.memBytes(in.snapshot(s.a), s.off, n)
}

func (in *Interp) cmp3(lt, eq *Term) *Term {
	return in.c.Ite(eq, in.c.Int(0), in.c.Ite(lt, in.c.Int(-1), in.c.Int(1)))
}

func (in *Interp) mkErr(msg Value) Value {
	f := in.p.lookupFn("errors", "New")
	return in.call(nil, &Func{fn: f}, []Value{msg})
}

func (p *Prog) lookupFn(pkg, name string) *ssa.Function {
	k := p.prog.ImportedPackage(pkg)
	if k == nil {
		return nil
	}
	return k.Func(name)
}

func (p *Prog) lookupType(pkg, name string) types.Type {
	k := p.prog.ImportedPackage(pkg)
	if k == nil {
		return nil
	}
	t := k.Type(name)
	if t == nil {
		return nil
	}
	return t.Type()
}

func (in *Interp) timeStruct(sec, nsec *Term) Value {
	t := in.p.lookupType("time", "Time")
	if t == nil {
		in.unsupported("package time is not loaded")
	}
	s := in.zero(t).(*Struct)
	s.f[0].v = nsec
	s.f[1].v = in.c.Add(sec, in.c.Int(62135596800))
	return s
}

func (in *Interp) now() Value {
	ns := in.virtNow
	in.virtNow = in.c.Add(ns, in.c.Int(in.clockTick))
	return in.timeOfNs(ns)
}

// timeOfNs is the instant ns nanoseconds after 1970
func (in *Interp) timeOfNs(ns *Term) Value {
	k := in.c.Int(1e9)
	sec, nsec := in.c.Sdiv(ns, k), in.c.Srem(ns, k)
	v := in.timeStruct(sec, nsec)
	if !ns.isConst() {
		st := v.(*Struct)
		in.timeOf[[2]*Term{st.f[0].v.(*Term), st.f[1].v.(*Term)}] = ns
	}
	return v
}

func ret(v Value) intrinsic { return func(*Interp, *callCtx, []Value) Value { return v } }

func atomicPtr(in *Interp, v Value) Ptr {
	in.yield("atomic")
	p := v.(Ptr)
	if p.isNil() {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	return p
}

// atomicAcc performs f on the location with acquire/release ordering.
func atomicAcc(in *Interp, v Value, f func(p Ptr) Value) Value {
	p := atomicPtr(in, v)
	raw := in.raceOn
	in.raceOn = false
	r := f(p)
	in.raceOn = raw
	if raw {
		k := "vc"
		var key any = struct {
			k string
			c *Cell
		}{k, p.c}
		m, _ := in.side[key].(*mutexSt)
		if m == nil {
			m = &mutexSt{}
			in.side[key] = m
		}
		in.acquire(m.vc)
		in.release(&m.vc)
	}
	return r
}

func (in *Interp) errUnwrap(e Iface) []Iface {
	if e.t == nil || e.t == rtErrType {
		return nil
	}
	ms := in.p.prog.MethodSets.MethodSet(e.t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() != "Unwrap" {
			continue
		}
		r, ok := in.callMethod(nil, e, "Unwrap")
		if !ok {
			return nil
		}
		switch x := r.(type) {
		case Iface:
			if x.t == nil {
				return nil
			}
			return []Iface{x}
		case Slice:
			var out []Iface
			for _, v := range in.sliceVals(x) {
				if i := v.(Iface); i.t != nil {
					out = append(out, i)
				}
			}
			return out
		}
	}
	return nil
}

func (in *Interp) hasMethod(t types.Type, name string) bool {
	if t == rtErrType {
		return name == "Error"
	}
	ms := in.p.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

func (in *Interp) errIs(e, target Iface) bool {
	if e.t == nil || target.t == nil {
		return e.t == nil && target.t == nil
	}
	cmp := target.t == rtErrType || types.Comparable(target.t)
	if cmp && types.Identical(e.t, target.t) && (e.t == rtErrType || types.Comparable(e.t)) && in.branch(in.eqVal(e.v, target.v)) {
		return true
	}
	if in.hasMethod(e.t, "Is") {
		if r, ok := in.callMethod(nil, e, "Is", target); ok {
			if t, ok := r.(*Term); ok && in.branch(t) {
				return true
			}
		}
	}
	for _, u := range in.errUnwrap(e) {
		if in.errIs(u, target) {
			return true
		}
	}
	return false
}

func (in *Interp) errAs(e Iface, target Ptr, tt types.Type) bool {
	if e.t == nil {
		return false
	}
	if it, ok := tt.Underlying().(*types.Interface); ok {
		if in.implements(e.t, it) {
			in.store(target, e)
			return true
		}
	} else if types.Identical(e.t, tt) {
		in.store(target, e.v)
		return true
	}
	if in.hasMethod(e.t, "As") {
		if r, ok := in.callMethod(nil, e, "As", Iface{t: types.NewPointer(tt), v: target}); ok {
			if t, ok := r.(*Term); ok && in.branch(t) {
				return true
			}
		}
	}
	for _, u := range in.errUnwrap(e) {
		if in.errAs(u, target, tt) {
			return true
		}
	}
	return false
}

// ---- formatting (best effort) ----

func (in *Interp) fmtVal(verb byte, v Value, depth int) Value {
	i, ok := v.(Iface)
	if !ok {
		return "?"
	}
	if i.t == nil {
		return "<nil>"
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		if in.hasMethod(i.t, "Error") {
			if p, ok := i.v.(Ptr); !(ok && p.isNil()) {
				if r, ok := in.callMethod(nil, i, "Error"); ok {
					return in.quoteIf(verb, r)
				}
			}
		} else if in.hasMethod(i.t, "String") && depth < 3 {
			if p, ok := i.v.(Ptr); !(ok && p.isNil()) {
				if r, ok := in.callMethod(nil, i, "String"); ok {
					return in.quoteIf(verb, r)
				}
			}
		}
	}
	switch x := i.v.(type) {
	case string, *SymStr:
		return in.quoteIf(verb, x)
	case *Term:
		if x.w == 0 {
			if x.isConst() {
				return strconv.FormatBool(x.val == 1)
			}
			return "<sym>"
		}
		if x.isConst() {
			if verb == 'x' {
				return strconv.FormatUint(x.val, 16)
			}
			if verb == 'c' {
				return string(rune(x.val))
			}
			if isSigned(i.t) {
				return strconv.FormatInt(sx(x.val, x.w), 10)
			}
			return strconv.FormatUint(x.val, 10)
		}
		return "<sym>"
	case float64:
		return strconv.FormatFloat(x, 'g', -1, 64)
	case Slice:
		if scalarWidth(sliceElem(i.t)) == 8 && verb == 's' {
			return in.bytesToStr(x)
		}
	}
	return "<" + i.t.String() + ">"
}

func sliceElem(t types.Type) types.Type {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return types.Typ[types.String]
}

func (in *Interp) quoteIf(verb byte, v Value) Value {
	if verb != 'q' {
		return v
	}
	if s, ok := v.(string); ok {
		return strconv.Quote(s)
	}
	// symbolic content: fork on bytes that need escaping
	out := Value("\"")
	for _, b := range in.strBytes(v) {
		plain := in.c.And(in.c.Ule(in.c.BV(0x20, 8), b), in.c.Ult(b, in.c.BV(0x7f, 8)),
			in.c.Not(in.c.Eq(b, in.c.BV('"', 8))), in.c.Not(in.c.Eq(b, in.c.BV('\\', 8))))
		if in.branch(plain) {
			out = in.strConcat(out, in.mkStr([]*Term{b}))
			continue
		}
		k := byte(in.concretize(b, "quoted byte"))
		q := strconv.Quote(string([]byte{k}))
		out = in.strConcat(out, q[1:len(q)-1])
	}
	return in.strConcat(out, "\"")
}

func (in *Interp) sprintf(format string, args []Value) (Value, []Iface) {
	var out Value = ""
	var wrapped []Iface
	ai := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			j := i
			for j < len(format) && format[j] != '%' {
				j++
			}
			out = in.strConcat(out, format[i:j])
			i = j - 1
			continue
		}
		i++
		start := i
		for i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0 {
			i++
		}
		if i >= len(format) {
			break
		}
		verb := format[i]
		if verb == '%' {
			out = in.strConcat(out, "%")
			continue
		}
		if ai >= len(args) {
			out = in.strConcat(out, "%!"+string(verb)+"(MISSING)")
			continue
		}
		a := args[ai]
		ai++
		if verb == 'w' {
			if e, ok := a.(Iface); ok && e.t != nil {
				wrapped = append(wrapped, e)
			}
			verb = 'v'
		}
		flags := format[start:i]
		if verb == 'T' {
			if x, ok := a.(Iface); ok && x.t != nil {
				out = in.strConcat(out, x.t.String())
			} else {
				out = in.strConcat(out, "<nil>")
			}
			continue
		}
		if flags != "" {
			if x, ok := a.(Iface); ok {
				if t, ok := x.v.(*Term); ok && t.isConst() && t.w > 0 {
					if isSigned(x.t) {
						out = in.strConcat(out, fmt.Sprintf("%"+flags+string(verb), sx(t.val, t.w)))
					} else {
						out = in.strConcat(out, fmt.Sprintf("%"+flags+string(verb), t.val))
					}
					continue
				}
				if s, ok := x.v.(string); ok && !in.hasMethod(x.t, "String") && !in.hasMethod(x.t, "Error") {
					out = in.strConcat(out, fmt.Sprintf("%"+flags+string(verb), s))
					continue
				}
			}
		}
		out = in.strConcat(out, in.fmtVal(verb, a, 0))
	}
	return out, wrapped
}

func (in *Interp) safeSprintf(format string, args []Value) (v Value, wrapped []Iface) {
	return in.sprintf(format, args)
}

func (in *Interp) errorf(format string, args []Value) Value {
	v, wrapped := in.safeSprintf(format, args)
	switch len(wrapped) {
	case 0:
		return in.mkErr(v)
	case 1:
		t := in.p.lookupType("fmt", "wrapError")
		p := in.alloc(t)
		s := p.c.v.(*Struct)
		s.f[0].v = v
		s.f[1].v = wrapped[0]
		return Iface{t: types.NewPointer(t), v: p}
	}
	t := in.p.lookupType("fmt", "wrapErrors")
	p := in.alloc(t)
	s := p.c.v.(*Struct)
	s.f[0].v = v
	a := &Arr{elem: types.Universe.Lookup("error").Type(), w: nonScalar, n: in.c.Int(int64(len(wrapped)))}
	a.cells = make([]Cell, len(wrapped))
	for i, w := range wrapped {
		a.cells[i].v = w
	}
	s.f[1].v = Slice{a: a, off: in.c.Int(0), len: a.n, cap: a.n}
	return Iface{t: types.NewPointer(t), v: p}
}

// insertion sort with an interpreted less
func (in *Interp) sortBy(n int, less func(i, j int) bool, swap func(i, j int)) {
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			swap(j, j-1)
		}
	}
}

func (in *Interp) sortSlice(a []Value) Value {
	x := a[0].(Iface)
	s := x.v.(Slice)
	if s.a == nil {
		return nil
	}
	n := int(in.concretize(s.len, "sort length"))
	off := int(in.concretize(s.off, "sort offset"))
	f := a[1].(*Func)
	in.sortBy(n, func(i, j int) bool {
		return in.branch(in.call(nil, f, []Value{in.c.Int(int64(i)), in.c.Int(int64(j))}).(*Term))
	}, func(i, j int) {
		if s.a.w == nonScalar {
			vi, vj := in.copyVal(s.a.cells[off+i].v), in.copyVal(s.a.cells[off+j].v)
			in.assign(&s.a.cells[off+i], vj)
			in.assign(&s.a.cells[off+j], vi)
			return
		}
		ti, tj := in.c.Int(int64(off+i)), in.c.Int(int64(off+j))
		vi, vj := in.arrGet(s.a, ti).(*Term), in.arrGet(s.a, tj).(*Term)
		in.arrSet(s.a, ti, vj)
		in.arrSet(s.a, tj, vi)
	})
	return nil
}

func fieldByName(t types.Type, name string) int {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func (in *Interp) mkTimer(cc *callCtx, tname string, d *Term, cb func()) (Ptr, *timer) {
	tt := in.p.lookupType("time", tname)
	p := in.alloc(tt)
	s := p.c.v.(*Struct)
	ch := &Chan{cap: 1, elem: in.p.lookupType("time", "Time")}
	if cb == nil {
		s.f[fieldByName(tt, "C")].v = ch
		cb = func() {
			if len(ch.buf) == 0 {
				ch.buf = append(ch.buf, chItem{v: in.now()})
			}
		}
	}
	tm := in.addTimer(d, cb)
	in.side[p.c] = tm
	return p, tm
}

func init() {
	I := map[string]intrinsic{}
	intrinsics = I
	nop := func(in *Interp, cc *callCtx, a []Value) Value { return nil }

	// ---- sync ----
	I["(*sync.Mutex).Lock"] = func(in *Interp, cc *callCtx, a []Value) Value { in.lock(a[0].(Ptr)); return nil }
	I["(*sync.Mutex).Unlock"] = func(in *Interp, cc *callCtx, a []Value) Value { in.unlock(a[0].(Ptr)); return nil }
	I["(*sync.Mutex).TryLock"] = func(in *Interp, cc *callCtx, a []Value) Value { return in.c.Bool(in.tryLock(a[0].(Ptr))) }
	I["(*sync.RWMutex).Lock"] = I["(*sync.Mutex).Lock"]
	I["(*sync.RWMutex).Unlock"] = I["(*sync.Mutex).Unlock"]
	I["(*sync.RWMutex).TryLock"] = I["(*sync.Mutex).TryLock"]
	I["(*sync.RWMutex).RLock"] = func(in *Interp, cc *callCtx, a []Value) Value { in.rlock(a[0].(Ptr)); return nil }
	I["(*sync.RWMutex).RUnlock"] = func(in *Interp, cc *callCtx, a []Value) Value { in.runlock(a[0].(Ptr)); return nil }
	type wgSt struct {
		n  int64
		vc vclock
	}
	wg := func(in *Interp, v Value) *wgSt {
		p := v.(Ptr)
		w, _ := in.side[p.c].(*wgSt)
		if w == nil {
			w = &wgSt{}
			in.side[p.c] = w
		}
		return w
	}
	wgAdd := func(in *Interp, v Value, d int64) {
		w := wg(in, v)
		w.n += d
		if d < 0 {
			in.release(&w.vc)
		}
		if w.n < 0 {
			in.plainPanic("sync: negative WaitGroup counter")
		}
	}
	I["(*sync.WaitGroup).Add"] = func(in *Interp, cc *callCtx, a []Value) Value {
		wgAdd(in, a[0], in.concretize(a[1].(*Term), "wg"))
		return nil
	}
	I["(*sync.WaitGroup).Done"] = func(in *Interp, cc *callCtx, a []Value) Value { wgAdd(in, a[0], -1); return nil }
	I["(*sync.WaitGroup).Wait"] = func(in *Interp, cc *callCtx, a []Value) Value {
		w := wg(in, a[0])
		in.yield("wg")
		in.block("WaitGroup", func() bool { return w.n == 0 })
		in.acquire(w.vc)
		return nil
	}
	type poolSt struct{ items []Value }
	I["(*sync.Pool).Get"] = func(in *Interp, cc *callCtx, a []Value) Value {
		p := a[0].(Ptr)
		ps, _ := in.side[p.c].(*poolSt)
		if ps != nil && len(ps.items) > 0 {
			v := ps.items[len(ps.items)-1]
			ps.items = ps.items[:len(ps.items)-1]
			return v
		}
		t := in.p.lookupType("sync", "Pool")
		f, _ := p.c.v.(*Struct).f[fieldByName(t, "New")].v.(*Func)
		if f == nil {
			return Iface{}
		}
		return in.call(nil, f, nil)
	}
	I["(*sync.Pool).Put"] = func(in *Interp, cc *callCtx, a []Value) Value {
		p := a[0].(Ptr)
		ps, _ := in.side[p.c].(*poolSt)
		if ps == nil {
			ps = &poolSt{}
			in.side[p.c] = ps
		}
		ps.items = append(ps.items, a[1])
		return nil
	}
	I["(*sync.Cond).Wait"] = func(in *Interp, cc *callCtx, a []Value) Value {
		p := a[0].(Ptr)
		q, _ := in.side[p.c].(*waitQ)
		if q == nil {
			q = &waitQ{}
			in.side[p.c] = q
		}
		t := in.p.lookupType("sync", "Cond")
		l := p.c.v.(*Struct).f[fieldByName(t, "L")].v.(Iface)
		fl := new(bool)
		q.items = append(q.items, fl)
		in.callMethod(nil, l, "Unlock")
		in.block("cond", func() bool { return *fl })
		in.callMethod(nil, l, "Lock")
		return nil
	}
	sig := func(all bool) intrinsic {
		return func(in *Interp, cc *callCtx, a []Value) Value {
			q, _ := in.side[a[0].(Ptr).c].(*waitQ)
			if q == nil {
				return nil
			}
			for len(q.items) > 0 {
				*q.items[0] = true
				q.items = q.items[1:]
				if !all {
					break
				}
			}
			return nil
		}
	}
	I["(*sync.Cond).Signal"] = sig(false)
	I["(*sync.Cond).Broadcast"] = sig(true)
	smap := func(in *Interp, v Value) *Map {
		p := v.(Ptr)
		in.yield("sync.Map")
		m, _ := in.side[p.c].(*Map)
		if m == nil {
			m = &Map{}
			in.side[p.c] = m
		}
		return m
	}
	I["(*sync.Map).Load"] = func(in *Interp, cc *callCtx, a []Value) Value {
		if e := in.mapFind(smap(in, a[0]), a[1]); e != nil {
			return Tuple{e.cell.v, in.c.True}
		}
		return Tuple{Iface{}, in.c.False}
	}
	I["(*sync.Map).Store"] = func(in *Interp, cc *callCtx, a []Value) Value { in.mapSet(smap(in, a[0]), a[1], a[2]); return nil }
	I["(*sync.Map).Delete"] = func(in *Interp, cc *callCtx, a []Value) Value { in.mapDelete(smap(in, a[0]), a[1]); return nil }
	I["(*sync.Map).LoadOrStore"] = func(in *Interp, cc *callCtx, a []Value) Value {
		m := smap(in, a[0])
		if e := in.mapFind(m, a[1]); e != nil {
			return Tuple{e.cell.v, in.c.True}
		}
		in.mapSet(m, a[1], a[2])
		return Tuple{a[2], in.c.False}
	}
	I["(*sync.Map).LoadAndDelete"] = func(in *Interp, cc *callCtx, a []Value) Value {
		m := smap(in, a[0])
		if e := in.mapFind(m, a[1]); e != nil {
			v := e.cell.v
			in.mapDelete(m, a[1])
			return Tuple{v, in.c.True}
		}
		return Tuple{Iface{}, in.c.False}
	}
	I["(*sync.Map).Range"] = func(in *Interp, cc *callCtx, a []Value) Value {
		m := smap(in, a[0])
		for _, e := range append([]*mapEnt(nil), m.ents...) {
			if e.dead {
				continue
			}
			if !in.branch(in.call(nil, a[1].(*Func), []Value{e.k, e.cell.v}).(*Term)) {
				break
			}
		}
		return nil
	}
	// ---- atomics ----
	for _, w := range []struct {
		n string
	}{{"Int32"}, {"Int64"}, {"Uint32"}, {"Uint64"}, {"Uintptr"}} {
		n := w.n
		I["sync/atomic.Load"+n] = func(in *Interp, cc *callCtx, a []Value) Value {
			return atomicAcc(in, a[0], func(p Ptr) Value { return in.load(p) })
		}
		I["sync/atomic.Store"+n] = func(in *Interp, cc *callCtx, a []Value) Value {
			return atomicAcc(in, a[0], func(p Ptr) Value { in.store(p, a[1]); return nil })
		}
		I["sync/atomic.Add"+n] = func(in *Interp, cc *callCtx, a []Value) Value {
			return atomicAcc(in, a[0], func(p Ptr) Value {
				v := in.c.Add(in.load(p).(*Term), a[1].(*Term))
				in.store(p, v)
				return v
			})
		}
		I["sync/atomic.Swap"+n] = func(in *Interp, cc *callCtx, a []Value) Value {
			return atomicAcc(in, a[0], func(p Ptr) Value { v := in.load(p); in.store(p, a[1]); return v })
		}
		I["sync/atomic.CompareAndSwap"+n] = func(in *Interp, cc *callCtx, a []Value) Value {
			return atomicAcc(in, a[0], func(p Ptr) Value {
				if in.branch(in.c.Eq(in.load(p).(*Term), a[1].(*Term))) {
					in.store(p, a[2])
					return in.c.True
				}
				return in.c.False
			})
		}
	}
	I["sync/atomic.LoadPointer"] = I["sync/atomic.LoadInt32"]
	I["sync/atomic.StorePointer"] = I["sync/atomic.StoreInt32"]
	I["sync/atomic.SwapPointer"] = I["sync/atomic.SwapInt32"]
	I["sync/atomic.CompareAndSwapPointer"] = func(in *Interp, cc *callCtx, a []Value) Value {
		return atomicAcc(in, a[0], func(p Ptr) Value {
			if in.branch(in.eqVal(in.load(p), a[1])) {
				in.store(p, a[2])
				return in.c.True
			}
			return in.c.False
		})
	}
	I["(*sync/atomic.Value).Load"] = func(in *Interp, cc *callCtx, a []Value) Value {
		return atomicAcc(in, a[0], func(p Ptr) Value { return in.copyVal(p.c.v.(*Struct).f[0].v) })
	}
	I["(*sync/atomic.Value).Store"] = func(in *Interp, cc *callCtx, a []Value) Value {
		return atomicAcc(in, a[0], func(p Ptr) Value { p.c.v.(*Struct).f[0].v = a[1]; return nil })
	}
	I["(*sync/atomic.Value).CompareAndSwap"] = func(in *Interp, cc *callCtx, a []Value) Value {
		return atomicAcc(in, a[0], func(p Ptr) Value {
			f := &p.c.v.(*Struct).f[0]
			if in.branch(in.eqVal(f.v, a[1])) {
				f.v = a[2]
				return in.c.True
			}
			return in.c.False
		})
	}

	// ---- errors / fmt ----
	I["errors.Is"] = func(in *Interp, cc *callCtx, a []Value) Value {
		return in.c.Bool(in.errIs(a[0].(Iface), a[1].(Iface)))
	}
	I["errors.As"] = func(in *Interp, cc *callCtx, a []Value) Value {
		t := a[1].(Iface)
		if t.t == nil {
			in.plainPanic("errors: target cannot be nil")
		}
		return in.c.Bool(in.errAs(a[0].(Iface), t.v.(Ptr), t.t.Underlying().(*types.Pointer).Elem()))
	}
	I["context.WithValue"] = func(in *Interp, cc *callCtx, a []Value) Value {
		if a[0].(Iface).t == nil || a[1].(Iface).t == nil {
			in.plainPanic("context: nil parent or key")
		}
		t := in.p.prog.ImportedPackage("context").Type("valueCtx").Type()
		c := &Cell{v: in.zero(t)}
		st := c.v.(*Struct)
		for i := range a {
			st.f[i].v = a[i]
		}
		return Iface{t: types.NewPointer(t), v: Ptr{c: c}}
	}
	I["fmt.Errorf"] = func(in *Interp, cc *callCtx, a []Value) Value {
		return in.errorf(in.str(a[0]), in.sliceVals(a[1]))
	}
	I["fmt.Sprintf"] = func(in *Interp, cc *callCtx, a []Value) Value {
		v, _ := in.sprintf(in.str(a[0]), in.sliceVals(a[1]))
		return v
	}
	sprint := func(sep bool) intrinsic {
		return func(in *Interp, cc *callCtx, a []Value) Value {
			var out Value = ""
			for i, x := range in.sliceVals(a[0]) {
				if sep && i > 0 {
					out = in.strConcat(out, " ")
				}
				out = in.strConcat(out, in.fmtVal('v', x, 0))
			}
			if sep {
				out = in.strConcat(out, "\n")
			}
			return out
		}
	}
	I["fmt.Sprint"] = sprint(false)
	I["fmt.Sprintln"] = sprint(true)
	prt := func(in *Interp, cc *callCtx, a []Value) Value { return Tuple{in.c.Int(0), Iface{}} }
	for _, n := range []string{"Printf", "Println", "Print", "Fprintf", "Fprintln", "Fprint"} {
		I["fmt."+n] = prt
	}

	// ---- time ----
	I["time.Now"] = func(in *Interp, cc *callCtx, a []Value) Value { return in.now() }
	I["time.now"] = func(in *Interp, cc *callCtx, a []Value) Value {
		ns := in.virtNow
		return Tuple{in.c.Sdiv(ns, in.c.Int(1e9)), in.c.Extract(in.c.Srem(ns, in.c.Int(1e9)), 31, 0), ns}
	}
	I["time.runtimeNano"] = func(in *Interp, cc *callCtx, a []Value) Value { return in.virtNow }
	// comparisons of instants: over the number of nanoseconds since 1970 where it fits into 64 bits (the seconds and
	// nanoseconds of both are normalised then), the code of package time otherwise
	timeNs := func(in *Interp, v Value) *Term {
		st, ok := v.(*Struct)
		if !ok {
			return nil
		}
		wall, ext := st.f[0].v.(*Term), st.f[1].v.(*Term)
		if ns := in.timeOf[[2]*Term{wall, ext}]; ns != nil {
			return ns
		}
		if lo, hi := in.c.rng(wall, 10); lo < 0 || hi > 999999999 {
			return nil
		}
		sec := in.c.Sub(ext, in.c.Int(62135596800))
		if lo, hi := in.c.rng(sec, 10); lo < -9000000000 || hi > 9000000000 {
			return nil
		}
		return in.c.lin(64, 0, []*Term{sec, wall}, []uint64{1000000000, 1})
	}
	timeCmp := func(f func(c *Ctx, x, y *Term) *Term) intrinsic {
		return func(in *Interp, cc *callCtx, a []Value) Value {
			x, y := timeNs(in, a[0]), timeNs(in, a[1])
			if x == nil || y == nil {
				return useBody{}
			}
			return f(in.c, x, y)
		}
	}
	I["(time.Time).Before"] = timeCmp(func(c *Ctx, x, y *Term) *Term { return c.Slt(x, y) })
	I["(time.Time).After"] = timeCmp(func(c *Ctx, x, y *Term) *Term { return c.Slt(y, x) })
	I["(time.Time).Equal"] = timeCmp(func(c *Ctx, x, y *Term) *Term { return c.Eq(x, y) })
	I["(time.Time).Compare"] = timeCmp(func(c *Ctx, x, y *Term) *Term {
		return c.Ite(c.Slt(x, y), c.Int(-1), c.Ite(c.Eq(x, y), c.Int(0), c.Int(1)))
	})
	// Add and Sub over the number of nanoseconds: for instants of the virtual clock only; for symbolic instants of another
	// kind (record times) the code of package time is easier to decide
	virt := func(in *Interp, v Value) bool {
		if !in.virtNow.isConst() {
			return true
		}
		st := v.(*Struct)
		wall, ext := st.f[0].v.(*Term), st.f[1].v.(*Term)
		return wall.isConst() && ext.isConst() || in.timeOf[[2]*Term{wall, ext}] != nil
	}
	I["(time.Time).Add"] = func(in *Interp, cc *callCtx, a []Value) Value {
		x, d := timeNs(in, a[0]), a[1].(*Term)
		if x == nil || !virt(in, a[0]) || x.isConst() && d.isConst() {
			return useBody{}
		}
		if lo, hi := in.c.rng(d, 10); lo < -4e18 || hi > 4e18 {
			return useBody{}
		}
		if lo, hi := in.c.rng(x, 10); lo < 0 || hi > 4e18 {
			return useBody{}
		}
		return in.timeOfNs(in.c.Add(x, d))
	}
	I["(time.Time).Format"] = func(in *Interp, cc *callCtx, a []Value) Value {
		if x := timeNs(in, a[0]); x != nil && !x.isConst() && cc.caller != nil && in.inOneStep(cc.caller) {
			return "a time" // of a log message
		}
		return useBody{}
	}
	I["(time.Time).Sub"] = func(in *Interp, cc *callCtx, a []Value) Value {
		x, y := timeNs(in, a[0]), timeNs(in, a[1])
		if x == nil || y == nil || !virt(in, a[0]) || !virt(in, a[1]) || x.isConst() && y.isConst() {
			return useBody{}
		}
		for _, t := range []*Term{x, y} {
			if lo, hi := in.c.rng(t, 10); lo < 0 || hi > 8e18 {
				return useBody{}
			}
		}
		return in.c.Sub(x, y)
	}
	I["time.Sleep"] = func(in *Interp, cc *callCtx, a []Value) Value {
		done := false
		in.addTimer(a[0].(*Term), func() { done = true })
		in.block("sleep", func() bool { return done })
		return nil
	}
	I["time.After"] = func(in *Interp, cc *callCtx, a []Value) Value {
		p, _ := in.mkTimer(cc, "Timer", a[0].(*Term), nil)
		return p.c.v.(*Struct).f[0].v
	}
	I["time.NewTimer"] = func(in *Interp, cc *callCtx, a []Value) Value {
		p, _ := in.mkTimer(cc, "Timer", a[0].(*Term), nil)
		return p
	}
	I["time.AfterFunc"] = func(in *Interp, cc *callCtx, a []Value) Value {
		f := a[1].(*Func)
		p, _ := in.mkTimer(cc, "Timer", a[0].(*Term), func() {
			g := in.newG(fmt.Sprintf("afterfunc#%d", in.nextG))
			in.startG(g, func() { in.call(nil, f, nil) })
		})
		return p
	}
	I["(*time.Timer).Stop"] = func(in *Interp, cc *callCtx, a []Value) Value {
		t := in.side[a[0].(Ptr).c].(*timer)
		was := t.active
		t.active = false
		return in.c.Bool(was)
	}
	I["(*time.Timer).Reset"] = func(in *Interp, cc *callCtx, a []Value) Value {
		p := a[0].(Ptr)
		t := in.side[p.c].(*timer)
		was := t.active
		t.active = false
		in.side[p.c] = in.addTimer(a[1].(*Term), t.fn)
		return in.c.Bool(was)
	}
	I["(*time.Location).get"] = func(in *Interp, cc *callCtx, a []Value) Value {
		k := in.p.prog.ImportedPackage("time")
		return Ptr{c: in.global(k.Var("utcLoc"))}
	}

	// ---- runtime & co ----
	I["runtime.Gosched"] = func(in *Interp, cc *callCtx, a []Value) Value { in.yield("gosched"); return nil }
	I["runtime.KeepAlive"] = nop
	I["runtime.SetFinalizer"] = nop
	I["runtime.GC"] = nop
	I["runtime.NumCPU"] = func(in *Interp, cc *callCtx, a []Value) Value { return in.c.Int(4) }
	I["os.Getpagesize"] = func(in *Interp, cc *callCtx, a []Value) Value { return in.c.Int(4096) }
	I["runtime.GOMAXPROCS"] = I["runtime.NumCPU"]
	I["internal/race.Enable"] = nop
	I["internal/race.Disable"] = nop
	I["(*strings.Builder).copyCheck"] = nop
	I["internal/godebug.New"] = func(in *Interp, cc *callCtx, a []Value) Value { return Ptr{} }
	I["(*internal/godebug.Setting).Value"] = func(in *Interp, cc *callCtx, a []Value) Value { return "" }
	I["os.Getenv"] = func(in *Interp, cc *callCtx, a []Value) Value { return "" }
	I["internal/bytealg.MakeNoZero"] = func(in *Interp, cc *callCtx, a []Value) Value {
		n := a[0].(*Term)
		return in.makeSlice(types.Typ[types.Uint8], n, n)
	}

	// ---- bytes / strings kernels ----
	indexByte := func(in *Interp, bs []*Term, b *Term) Value {
		for i, x := range bs {
			if in.branch(in.c.Eq(x, b)) {
				return in.c.Int(int64(i))
			}
		}
		return in.c.Int(-1)
	}
	I["internal/bytealg.IndexByte"] = func(in *Interp, cc *callCtx, a []Value) Value {
		return indexByte(in, in.bytesOf(a[0]), a[1].(*Term))
	}
	I["internal/bytealg.IndexByteString"] = func(in *Interp, cc *callCtx, a []Value) Value {
		return indexByte(in, in.strBytes(a[0]), a[1].(*Term))
	}
	lastIdx := func(in *Interp, bs []*Term, b *Term) Value {
		for i := len(bs) - 1; i >= 0; i-- {
			if in.branch(in.c.Eq(bs[i], b)) {
				return in.c.Int(int64(i))
			}
		}
		return in.c.Int(-1)
	}
	I["internal/bytealg.LastIndexByte"] = func(in *Interp, cc *callCtx, a []Value) Value {
		return lastIdx(in, in.bytesOf(a[0]), a[1].(*Term))
	}
	I["internal/bytealg.LastIndexByteString"] = func(in *Interp, cc *callCtx, a []Value) Value {
		return lastIdx(in, in.strBytes(a[0]), a[1].(*Term))
	}
	count := func(in *Interp, bs []*Term, b *Term) Value {
		r := in.c.Int(0)
		for _, x := range bs {
			r = in.c.Add(r, in.c.Ite(in.c.Eq(x, b), in.c.Int(1), in.c.Int(0)))
		}
		return r
	}
	I["internal/bytealg.Count"] = func(in *Interp, cc *callCtx, a []Value) Value {
		return count(in, in.bytesOf(a[0]), a[1].(*Term))
	}
	I["internal/bytealg.CountString"] = func(in *Interp, cc *callCtx, a []Value) Value {
		return count(in, in.strBytes(a[0]), a[1].(*Term))
	}
	index := func(in *Interp, s, sub []*Term) Value {
		for i := 0; i+len(sub) <= len(s); i++ {
			if in.branch(in.bytesEq(s[i:i+len(sub)], sub)) {
				return in.c.Int(int64(i))
			}
		}
		return in.c.Int(-1)
	}
	I["strings.Index"] = func(in *Interp, cc *callCtx, a []Value) Value {
		return index(in, in.strBytes(a[0]), in.strBytes(a[1]))
	}
	I["bytes.Index"] = func(in *Interp, cc *callCtx, a []Value) Value {
		return index(in, in.bytesOf(a[0]), in.bytesOf(a[1]))
	}
	I["internal/bytealg.Compare"] = func(in *Interp, cc *callCtx, a []Value) Value {
		return in.cmp3(in.bytesCmp(in.bytesOf(a[0]), in.bytesOf(a[1])))
	}
	I["bytes.Compare"] = I["internal/bytealg.Compare"]
	I["internal/bytealg.CompareString"] = func(in *Interp, cc *callCtx, a []Value) Value {
		return in.cmp3(in.bytesCmp(in.strBytes(a[0]), in.strBytes(a[1])))
	}
	I["strings.Compare"] = I["internal/bytealg.CompareString"]
	I["internal/bytealg.Equal"] = func(in *Interp, cc *callCtx, a []Value) Value {
		return in.bytesEq(in.bytesOf(a[0]), in.bytesOf(a[1]))
	}
	I["bytes.Equal"] = I["internal/bytealg.Equal"]
	I["internal/stringslite.Clone"] = func(in *Interp, cc *callCtx, a []Value) Value {
		if s, ok := a[0].(*SymStr); ok && s.live != nil {
			return in.norm(s)
		}
		return a[0]
	}
	I["strings.Clone"] = I["internal/stringslite.Clone"]

	// ---- sort ----
	I["sort.Slice"] = func(in *Interp, cc *callCtx, a []Value) Value { return in.sortSlice(a) }
	I["sort.SliceStable"] = I["sort.Slice"]

	// ---- math ----
	I["math.Float64bits"] = func(in *Interp, cc *callCtx, a []Value) Value {
		return in.c.BV(f64bits(a[0].(float64)), 64)
	}
	I["math.Float64frombits"] = func(in *Interp, cc *callCtx, a []Value) Value {
		return f64frombits(uint64(in.concretize(a[0].(*Term), "float bits")))
	}
	I["math.Float32bits"] = func(in *Interp, cc *callCtx, a []Value) Value {
		return in.c.BV(uint64(f32bits(float32(a[0].(float64)))), 32)
	}
	I["math.Float32frombits"] = func(in *Interp, cc *callCtx, a []Value) Value {
		return float64(f32frombits(uint32(in.concretize(a[0].(*Term), "float bits"))))
	}

	// ---- ulid ----
	// The textual form is computed symbolically and its inverse and order are remembered (HTextForm of
	// golibs/ulidutils checks both facts on the real code for all 2^128 ids).
	I["(github.com/oklog/ulid/v2.ULID).String"] = func(in *Interp, cc *callCtx, a []Value) Value {
		arr := a[0].(*Arr)
		bs := make([]*Term, 16)
		for i := range bs {
			bs[i] = in.arrGet(arr, in.c.Int(int64(i))).(*Term)
		}
		return in.mkStr(in.ulidEncode(bs))
	}
	I["github.com/oklog/ulid/v2.Parse"] = func(in *Interp, cc *callCtx, a []Value) Value {
		if ln := in.strLen(a[0]); !ln.isConst() || ln.val == 26 {
			bs := in.strBytes(a[0])
			if d := in.ulidDec(bs); d != nil {
				return Tuple{in.arrOf(types.Typ[types.Uint8], append([]*Term(nil), d...)), Iface{}}
			}
		}
		// The compiler evaluates "return id, parse(..., &id)" with the value of id after the call.
		f := in.p.lookupFn("github.com/oklog/ulid/v2", "parse")
		t := cc.fn.Signature.Results().At(0).Type()
		cell := &Cell{v: in.zero(t)}
		bs := in.convert(types.NewSlice(types.Typ[types.Uint8]), types.Typ[types.String], a[0])
		err := in.call(cc.caller, &Func{fn: f}, []Value{bs, in.c.False, Ptr{c: cell}})
		return Tuple{in.copyVal(cell.v), err}
	}
	I["(*github.com/oklog/ulid/v2.ULID).UnmarshalText"] = func(in *Interp, cc *callCtx, a []Value) Value {
		bs := in.strBytes(in.convert(types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8]), a[1]))
		if d := in.ulidDec(bs); d != nil {
			in.store(a[0].(Ptr), in.arrOf(types.Typ[types.Uint8], append([]*Term(nil), d...)))
			return Iface{}
		}
		f := in.p.lookupFn("github.com/oklog/ulid/v2", "parse")
		return in.call(cc.caller, &Func{fn: f}, []Value{a[1], in.c.False, a[0]})
	}
	I["github.com/oklog/ulid/v2.Make"] = func(in *Interp, cc *callCtx, a []Value) Value {
		// any ULID greater than all produced before (documented contract of the monotonic entropy source)
		arr, hi, lo := in.ulidVar("ulidMake", true)
		type last struct{ hi, lo *Term }
		c := in.c
		in.model = nil
		if k, ok := in.side["fixedids"].(int); ok {
			in.side["fixedids"] = k + 1
			b := make([]*Term, 16)
			h, l := uint64(1700000000000+int64(k))<<16, uint64(k+1)
			for i := 0; i < 8; i++ {
				b[i], b[8+i] = c.BV(h>>(56-8*i)&255, 8), c.BV(l>>(56-8*i)&255, 8)
			}
			in.assume(c.And(c.Eq(hi, c.BV(h, 64)), c.Eq(lo, c.BV(l, 64))))
			return in.arrOf(types.Typ[types.Uint8], b)
		}
		if l, ok := in.side["ulid"].(last); ok {
			in.assume(c.Or(c.Ult(l.hi, hi), c.And(c.Eq(l.hi, hi), c.Ult(l.lo, lo))))
		} else {
			in.assume(c.Ult(c.Int(0), hi))
		}
		in.assume(c.Ult(hi, c.BV(^uint64(0)-16, 64)))
		in.side["ulid"] = last{hi, lo}
		return arr
	}

	jsonIntrinsics(I)

	// ---- golibs/cast: the conversions without copying (read-only uses) ----
	I["github.com/solarisdb/solaris/golibs/cast.StringToByteArray"] = func(in *Interp, cc *callCtx, a []Value) Value {
		return in.convert(types.NewSlice(types.Typ[types.Uint8]), types.Typ[types.String], a[0])
	}
	I["github.com/solarisdb/solaris/golibs/cast.ByteArrayToString"] = func(in *Interp, cc *callCtx, a []Value) Value {
		if sl, ok := a[0].(Slice); ok && sl.a != nil {
			old, _ := in.side["aliases"].([]any)
			in.side["aliases"] = append(old[:len(old):len(old)], any(sl.a))
		}
		return in.convert(types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8]), a[0])
	}

	// ---- harness primitives ----
	S := func(n string, f intrinsic) { I[symPkg+n] = f }
	S("Symbolic", func(in *Interp, cc *callCtx, a []Value) Value { return in.c.True })
	S("Int", func(in *Interp, cc *callCtx, a []Value) Value {
		lo, hi := a[1].(*Term), a[2].(*Term)
		if lo.isConst() && hi.isConst() {
			return in.boundInput(in.str(a[0]), "int", 64, sx(lo.val, 64), sx(hi.val, 64))
		}
		t := in.freshInput(in.str(a[0]), "int", 64)
		in.assume(in.c.And(in.c.Sle(lo, t), in.c.Sle(t, hi)))
		return t
	})
	I[symPkg+"Int64"] = I[symPkg+"Int"]
	sc := func(kind string, w uint8) intrinsic {
		return func(in *Interp, cc *callCtx, a []Value) Value { return in.freshInput(in.str(a[0]), kind, w) }
	}
	S("Uint64", sc("uint", 64))
	S("AnyInt", sc("int", 64))
	S("AnyInt32", sc("int", 32))
	S("Uint32", sc("uint", 32))
	S("Uint16", sc("uint", 16))
	S("Byte", sc("uint", 8))
	S("Bool", sc("bool", 0))
	S("Choose", func(in *Interp, cc *callCtx, a []Value) Value {
		n := int(in.concretize(a[1].(*Term), "choose"))
		k := in.choose(n)
		in.inputs = append(in.inputs, Input{Name: in.str(a[0]), Kind: "int", T: in.c.Int(int64(k))})
		return in.c.Int(int64(k))
	})
	S("Bytes", func(in *Interp, cc *callCtx, a []Value) Value {
		n := a[1].(*Term)
		arr := in.symBytes(in.str(a[0]), n)
		return Slice{a: arr, off: in.c.Int(0), len: n, cap: n}
	})
	S("String", func(in *Interp, cc *callCtx, a []Value) Value {
		n := a[1].(*Term)
		arr := in.symBytes(in.str(a[0]), n)
		return &SymStr{mem: in.snapshot(arr), off: in.c.Int(0), len: n}
	})
	S("ULID", func(in *Interp, cc *callCtx, a []Value) Value {
		arr, _, _ := in.ulidVar(in.str(a[0]), true)
		return arr
	})
	S("Assume", func(in *Interp, cc *callCtx, a []Value) Value { in.assume(a[0].(*Term)); return nil })
	S("Assert", func(in *Interp, cc *callCtx, a []Value) Value { in.assert(a[0].(*Term), in.str(a[1])); return nil })
	S("CheckSame", func(in *Interp, cc *callCtx, a []Value) Value {
		x, y, msg := a[0].(Slice), a[1].(Slice), in.str(a[2])
		lx, ly := in.slLen(x), in.slLen(y)
		in.assert(in.c.Eq(lx, ly), msg+" (length)")
		if x.a == nil || y.a == nil {
			return nil
		}
		if lx.isConst() && ly.isConst() && lx.val <= 16 {
			eq := in.c.True
			for i := 0; i < int(lx.val); i++ {
				k := in.c.Int(int64(i))
				eq = in.c.And(eq, in.c.Eq(in.arrGet(x.a, in.c.Add(in.slOff(x), k)).(*Term), in.arrGet(y.a, in.c.Add(in.slOff(y), k)).(*Term)))
			}
			in.assert(eq, msg+" (bytes)")
			return nil
		}
		// a separate path checks an arbitrary position; this one goes on
		if in.choose(2) == 1 {
			return nil
		}
		k := in.freshInput("at", "int", 64)
		in.model = nil
		in.assume(in.c.And(in.c.Sle(in.c.Int(0), k), in.c.Slt(k, lx)))
		in.assert(in.c.Eq(in.arrGet(x.a, in.c.Add(in.slOff(x), k)).(*Term), in.arrGet(y.a, in.c.Add(in.slOff(y), k)).(*Term)), msg+" (bytes)")
		panic(&pathEnd{kind: oSideDone})
	})
	S("Fail", func(in *Interp, cc *callCtx, a []Value) Value { in.violate(in.str(a[0]), nil); return nil })
	S("Reach", func(in *Interp, cc *callCtx, a []Value) Value { in.reached[in.str(a[0])] = true; return nil })
	S("Observe", func(in *Interp, cc *callCtx, a []Value) Value {
		for _, v := range in.sliceVals(a[1]) {
			in.obs = append(in.obs, obsRec{in.str(a[0]), in.copyVal(v)})
		}
		return nil
	})
	S("And", func(in *Interp, cc *callCtx, a []Value) Value {
		var ts []*Term
		for _, v := range in.sliceVals(a[0]) {
			ts = append(ts, v.(*Term))
		}
		return in.c.And(ts...)
	})
	S("Or", func(in *Interp, cc *callCtx, a []Value) Value {
		var ts []*Term
		for _, v := range in.sliceVals(a[0]) {
			ts = append(ts, v.(*Term))
		}
		return in.c.Or(ts...)
	})
	S("Implies", func(in *Interp, cc *callCtx, a []Value) Value {
		return in.c.Or(in.c.Not(a[0].(*Term)), a[1].(*Term))
	})
	S("Iff", func(in *Interp, cc *callCtx, a []Value) Value { return in.c.Eq(a[0].(*Term), a[1].(*Term)) })
	S("IteInt", func(in *Interp, cc *callCtx, a []Value) Value {
		return in.c.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
	})
	S("Concretize", func(in *Interp, cc *callCtx, a []Value) Value {
		return in.c.Int(in.concretize(a[0].(*Term), "harness"))
	})
	S("Branch", func(in *Interp, cc *callCtx, a []Value) Value {
		return in.c.Bool(in.branch(a[0].(*Term)))
	})
	S("Schedule", func(in *Interp, cc *callCtx, a []Value) Value {
		in.schedOn = true
		in.preempt = int(in.concretize(a[0].(*Term), "preemptions"))
		return nil
	})
	S("Delays", func(in *Interp, cc *callCtx, a []Value) Value {
		in.schedOn, in.delays = true, true
		in.preempt = int(in.concretize(a[0].(*Term), "delays"))
		return nil
	})
	S("Goroutines", func(in *Interp, cc *callCtx, a []Value) Value {
		// the others go on until nothing but a timer is left
		done := false
		t := in.addTimer(in.c.Int(0), func() { done = true })
		t.seq = 1 << 60
		in.block("goroutines", func() bool { return done })
		n := 0
		for _, g := range in.gs {
			if !g.done && g != in.cur {
				n++
			}
		}
		return in.c.Int(int64(n))
	})
	S("Pause", func(in *Interp, cc *callCtx, a []Value) Value { in.yield("pause"); return nil })
	S("Races", func(in *Interp, cc *callCtx, a []Value) Value { in.raceOn = true; return nil })
	S("MapOrder", func(in *Interp, cc *callCtx, a []Value) Value { in.mapPerm = true; return nil })
	S("Kill", func(in *Interp, cc *callCtx, a []Value) Value {
		s := a[0].(Slice)
		if s.a != nil {
			s.a.dead = in.str(a[1])
		}
		return nil
	})
	S("AdvanceClock", func(in *Interp, cc *callCtx, a []Value) Value {
		in.virtNow = in.c.Add(in.virtNow, a[0].(*Term))
		return nil
	})
	S("TimePasses", func(in *Interp, cc *callCtx, a []Value) Value { in.timePasses = true; return nil })
	S("ClockTick", func(in *Interp, cc *callCtx, a []Value) Value {
		in.clockTick = in.concretize(a[0].(*Term), "clock")
		return nil
	})
	S("RealNewIDs", nop)
	S("FixedIDs", func(in *Interp, cc *callCtx, a []Value) Value {
		in.side["fixedids"] = 0
		return nil
	})
	S("Tag", func(in *Interp, cc *callCtx, a []Value) Value { return nil })
	S("StringOf", func(in *Interp, cc *callCtx, a []Value) Value {
		y := a[1].(Slice)
		old, _ := in.side["aliases"].([]any)
		for _, x := range old {
			if y.a != nil && x == any(y.a) {
				return in.c.True
			}
		}
		return in.c.False
	})
	S("SameArray", func(in *Interp, cc *callCtx, a []Value) Value {
		x, y := a[0].(Slice), a[1].(Slice)
		return in.c.Bool(x.a != nil && x.a == y.a)
	})
}

const ulidAlphabet = "0123456789ABCDEFGHJKMNPQRSTVWXYZ"

func termKey(bs []*Term) string {
	k := make([]byte, 0, len(bs)*4)
	for _, b := range bs {
		k = append(k, byte(b.id), byte(b.id>>8), byte(b.id>>16), byte(b.id>>24))
	}
	return string(k)
}

// ulidEncode returns the 26 characters of the id.
func (in *Interp) ulidEncode(bs []*Term) []*Term {
	c := in.c
	hi, lo := c.Concat(bs[:8]...), c.Concat(bs[8:]...)
	tbl := make([]*Term, 32)
	for i := range tbl {
		tbl[i] = c.BV(uint64(ulidAlphabet[i]), 8)
	}
	bit := func(k int) *Term { // bit k of the 130-bit number
		switch {
		case k >= 128:
			return c.BV(0, 1)
		case k >= 64:
			return c.Extract(hi, k-64, k-64)
		}
		return c.Extract(lo, k, k)
	}
	out := make([]*Term, 26)
	sym := false
	for i := range out {
		top := 129 - 5*i
		var d *Term
		switch {
		case top < 64:
			d = c.Extract(lo, top, top-4)
		case top-4 >= 64 && top < 128:
			d = c.Extract(hi, top-64, top-68)
		default:
			d = c.Concat(bit(top), bit(top-1), bit(top-2), bit(top-3), bit(top-4))
		}
		if d.isConst() {
			out[i] = tbl[d.val]
			continue
		}
		sym = true
		// contiguous alphabet ranges keep the term small
		d8 := c.Zext(d, 8)
		off := c.BV('A'-10, 8)
		for _, r := range []struct {
			from uint64
			add  uint64
		}{{18, 1}, {20, 2}, {22, 3}, {27, 4}} {
			off = c.Ite(c.Ule(c.BV(r.from, 8), d8), c.BV('A'-10+r.add, 8), off)
		}
		off = c.Ite(c.Ult(d8, c.BV(10, 8)), c.BV('0', 8), off)
		out[i] = c.Add(d8, off)
	}
	if sym {
		m, _ := in.side["ulidenc"].(map[string][]*Term)
		if m == nil {
			m = map[string][]*Term{}
			in.side["ulidenc"] = m
		}
		m[termKey(out)] = append([]*Term(nil), bs...)
	}
	return out
}

// ulidDec returns the 16 bytes of a string known to be the text of an id.
func (in *Interp) ulidDec(bs []*Term) []*Term {
	if len(bs) != 26 {
		return nil
	}
	if m, _ := in.side["ulidenc"].(map[string][]*Term); m != nil {
		if d, ok := m[termKey(bs)]; ok {
			return d
		}
	}
	var hi, lo uint64
	for i, b := range bs {
		if !b.isConst() {
			return nil
		}
		d := strings.IndexByte(ulidAlphabet, byte(b.val))
		if d < 0 || i == 0 && d > 7 {
			return nil
		}
		hi = hi<<5 | lo>>59
		lo = lo<<5 | uint64(d)
	}
	out := make([]*Term, 16)
	for i := 0; i < 8; i++ {
		out[i] = in.c.BV(hi>>(56-8*i)&255, 8)
		out[8+i] = in.c.BV(lo>>(56-8*i)&255, 8)
	}
	return out
}
