package main

import (
	"go/types"
	"reflect"
	"strconv"
	"strings"
)

// A model of encoding/json for values which are encoded and decoded again by the code: the text is opaque (a reference
// to what was encoded); what is in it is decided by the exported fields, their tags and omitempty, embedded fields and
// the types with an encoding of their own (which are taken to decode what they encoded).

type jnode struct {
	kind  string // obj, leaf, null, map
	names []string
	subs  []*jnode
	v     Value
	t     types.Type
}

func jsonOwn(t types.Type) bool {
	for _, m := range []string{"MarshalJSON", "MarshalText"} {
		if o, _, _ := types.LookupFieldOrMethod(t, true, nil, m); o != nil {
			if _, ok := o.(*types.Func); ok {
				return true
			}
		}
	}
	return false
}

type jfield struct {
	name  string
	index []int // through embedded structures
	empty bool  // omitempty
	t     types.Type
}

// jsonFields are the fields of a structure as encoding/json sees them (shallower ones hide deeper ones)
func jsonFields(st *types.Struct) []jfield {
	type lvl struct {
		st  *types.Struct
		idx []int
	}
	var res []jfield
	seen := map[string]bool{}
	cur := []lvl{{st, nil}}
	for len(cur) > 0 {
		var next []lvl
		n := map[string]int{}
		var here []jfield
		for _, l := range cur {
			for i := 0; i < l.st.NumFields(); i++ {
				f := l.st.Field(i)
				name, opts, _ := strings.Cut(reflect.StructTag(l.st.Tag(i)).Get("json"), ",")
				if name == "-" && opts == "" {
					continue
				}
				idx := append(append([]int(nil), l.idx...), i)
				if f.Embedded() && name == "" {
					t := f.Type()
					if p, ok := t.Underlying().(*types.Pointer); ok {
						t = p.Elem()
					}
					if s, ok := t.Underlying().(*types.Struct); ok {
						if f.Exported() || t == f.Type() {
							next = append(next, lvl{s, idx})
						}
						continue
					}
				}
				if !f.Exported() {
					continue
				}
				if name == "" {
					name = f.Name()
				}
				here = append(here, jfield{name, idx, strings.Contains(","+opts+",", ",omitempty,"), f.Type()})
				n[name]++
			}
		}
		for _, f := range here {
			if !seen[f.name] && n[f.name] == 1 {
				res = append(res, f)
			}
		}
		for k := range n {
			seen[k] = true
		}
		cur = next
	}
	return res
}

func (in *Interp) jsonEnc(t types.Type, v Value) *jnode {
	if jsonOwn(t) {
		return &jnode{kind: "leaf", v: in.copyVal(v), t: t}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return &jnode{kind: "leaf", v: v, t: t}
	case *types.Interface:
		i := v.(Iface)
		if i.t == nil {
			return &jnode{kind: "null"}
		}
		return in.jsonEnc(i.t, i.v)
	case *types.Pointer:
		p := v.(Ptr)
		if p.isNil() {
			return &jnode{kind: "null"}
		}
		return in.jsonEnc(u.Elem(), in.load(p))
	case *types.Map:
		m := v.(*Map)
		if m == nil {
			return &jnode{kind: "null"}
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
			break
		}
		return &jnode{kind: "map", v: in.jsonMap(m, nil), t: t}
	case *types.Struct:
		n := &jnode{kind: "obj"}
	fields:
		for _, f := range jsonFields(u) {
			var x Value = v
			for k, i := range f.index {
				if k > 0 {
					if p, ok := x.(Ptr); ok {
						if p.isNil() {
							continue fields
						}
						x = in.load(p)
					}
				}
				x = x.(*Struct).f[i].v
			}
			if f.empty && in.jsonEmpty(x) {
				continue
			}
			n.names = append(n.names, f.name)
			n.subs = append(n.subs, in.jsonEnc(f.t, x))
		}
		return n
	}
	in.unsupported("JSON of %s", t)
	return nil
}

func (in *Interp) jsonMap(m, into *Map) *Map {
	if into == nil {
		into = &Map{}
	}
	for _, e := range m.ents {
		if !e.dead {
			in.mapSet(into, e.k, in.copyVal(e.cell.v))
		}
	}
	return into
}

// jsonEmpty says whether a value is certainly an empty one (for others omitempty makes no difference to the decoder of
// a fresh object)
func (in *Interp) jsonEmpty(v Value) bool {
	switch x := v.(type) {
	case *Term:
		return x.isConst() && x.val == 0
	case string:
		return x == ""
	case Ptr:
		return x.isNil()
	case *Map:
		return x == nil || x.n == 0
	case Iface:
		return x.t == nil
	}
	return false
}

func (in *Interp) jsonDec(n *jnode, p Ptr, t types.Type) {
	if n.kind == "null" {
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Interface, *types.Slice:
			in.store(p, in.zero(t))
		}
		return
	}
	if n.kind == "leaf" && types.Identical(n.t, t) {
		in.store(p, in.copyVal(n.v))
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		q := in.load(p).(Ptr)
		if q.isNil() {
			c := &Cell{v: in.zero(u.Elem())}
			q = Ptr{c: c}
			in.store(p, q)
		}
		in.jsonDec(n, q, u.Elem())
		return
	case *types.Basic:
		if b, ok := n.t.Underlying().(*types.Basic); n.kind == "leaf" && ok && b.Kind() == u.Kind() {
			in.store(p, n.v)
			return
		}
	case *types.Map:
		if n.kind != "map" {
			break
		}
		m, _ := in.load(p).(*Map)
		in.store(p, in.jsonMap(n.v.(*Map), m))
		return
	case *types.Struct:
		if n.kind != "obj" {
			break
		}
		fs := jsonFields(u)
		for k, name := range n.names {
			var f *jfield
			for i := range fs {
				if fs[i].name == name {
					f = &fs[i]
				}
			}
			for i := range fs {
				if f == nil && strings.EqualFold(fs[i].name, name) {
					f = &fs[i]
				}
			}
			if f == nil {
				continue
			}
			q, qt := p, types.Type(u)
			for j, i := range f.index {
				if j > 0 {
					if e, ok := qt.Underlying().(*types.Pointer); ok {
						x := in.load(q).(Ptr)
						if x.isNil() {
							x = Ptr{c: &Cell{v: in.zero(e.Elem())}}
							in.store(q, x)
						}
						q, qt = x, e.Elem()
					}
				}
				q, qt = Ptr{c: &q.c.v.(*Struct).f[i]}, qt.Underlying().(*types.Struct).Field(i).Type()
			}
			in.jsonDec(n.subs[k], q, f.t)
		}
		return
	}
	in.unsupported("JSON into %s", t)
}

func jsonIntrinsics(I map[string]intrinsic) {
	type jkey struct{}
	bytesT := types.NewSlice(types.Typ[types.Uint8])
	I["encoding/json.Marshal"] = func(in *Interp, cc *callCtx, a []Value) Value {
		docs, _ := in.side[jkey{}].([]*jnode)
		docs = append(docs[:len(docs):len(docs)], in.jsonEnc(types.NewInterfaceType(nil, nil), a[0]))
		in.side[jkey{}] = docs
		s := "{\"json\":" + strconv.Itoa(len(docs)-1) + "}"
		return Tuple{in.convert(bytesT, types.Typ[types.String], s), Iface{}}
	}
	I["encoding/json.Unmarshal"] = func(in *Interp, cc *callCtx, a []Value) Value {
		s, ok := in.convert(types.Typ[types.String], bytesT, a[0]).(string)
		docs, _ := in.side[jkey{}].([]*jnode)
		k, err := strconv.Atoi(strings.TrimSuffix(strings.TrimPrefix(s, "{\"json\":"), "}"))
		if !ok || err != nil || k >= len(docs) {
			in.unsupported("JSON text which was not encoded here")
		}
		i := a[1].(Iface)
		in.jsonDec(docs[k], i.v.(Ptr), i.t.Underlying().(*types.Pointer).Elem())
		return Iface{}
	}
}
