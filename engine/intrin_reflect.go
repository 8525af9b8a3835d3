package main

import (
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// RType is the engine value behind a reflect.Type.
type RType struct{ t types.Type }

// RV is the engine value behind a reflect.Value.
type RV struct {
	t  types.Type
	v  Value
	p  *Value // non-nil: addressable
	ro bool
}

func rtString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (r RV) get() Value {
	if r.p != nil {
		return copyVal(*r.p)
	}
	return r.v
}

func (r RV) raw() Value {
	if r.p != nil {
		return *r.p
	}
	return r.v
}

func (fr *frame) rv(v Value) RV {
	if r, ok := v.(RV); ok {
		return r
	}
	if s, ok := v.(Struct); ok && len(s) == 3 {
		return RV{}
	}
	panic(engineErr{"not a reflect.Value"})
}

func kindOf(t types.Type) reflect.Kind {
	if t == nil {
		return reflect.Invalid
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Struct:
		return reflect.Struct
	case *types.Map:
		return reflect.Map
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	}
	return reflect.Invalid
}

func (fr *frame) rtypeIface(t types.Type) Iface {
	if t == nil {
		return Iface{}
	}
	pk := fr.i.P.pkgs["reflect"]
	rt := types.NewPointer(pk.Pkg.Scope().Lookup("rtype").Type())
	return Iface{t: rt, v: RType{types.Unalias(t)}}
}

func ifaceToRV(x Iface) Value {
	if x.t == nil {
		return RV{}
	}
	return RV{t: x.t, v: x.v}
}

func (fr *frame) rvToIface(r RV) Value {
	if r.t == nil {
		fr.rtPanic("reflect: call of reflect.Value.Interface on zero Value")
	}
	if r.ro {
		fr.rtPanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
	}
	v := r.get()
	if types.IsInterface(r.t) {
		if i, ok := v.(Iface); ok {
			return i
		}
		return Iface{}
	}
	return Iface{t: r.t, v: v}
}

func (fr *frame) needKind(r RV, m string, ks ...reflect.Kind) {
	k := kindOf(r.t)
	for _, x := range ks {
		if x == k {
			return
		}
	}
	fr.rtPanic("reflect: call of reflect.Value.%s on %s Value", m, k)
}

func (fr *frame) needSet(r RV, m string) {
	if r.p == nil || r.ro {
		fr.rtPanic("reflect: reflect.Value.%s using unaddressable value or unexported field", m)
	}
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	return nil
}

func isExportedField(f *types.Var) bool { return f.Exported() }

func init() {
	R := func(n string, f func(fr *frame, a []Value) Value) {
		reg(n, func(fr *frame, fn *ssa.Function, a []Value) Value { return f(fr, a) })
	}
	R("reflect.TypeOf", func(fr *frame, a []Value) Value {
		x := a[0].(Iface)
		return fr.rtypeIface(x.t)
	})
	R("reflect.ValueOf", func(fr *frame, a []Value) Value { return ifaceToRV(a[0].(Iface)) })
	R("reflect.New", func(fr *frame, a []Value) Value {
		t := a[0].(Iface).v.(RType).t
		return RV{t: types.NewPointer(t), v: newCell(zero(t))}
	})
	R("reflect.Zero", func(fr *frame, a []Value) Value {
		t := a[0].(Iface).v.(RType).t
		return RV{t: t, v: zero(t)}
	})
	R("reflect.MakeSlice", func(fr *frame, a []Value) Value {
		t := a[0].(Iface).v.(RType).t
		n := int(fr.concInt(a[1].(*Term), 4096))
		c := int(fr.concInt(a[2].(*Term), 4096))
		if n < 0 || c < n {
			fr.rtPanic("reflect.MakeSlice: bad len/cap")
		}
		return RV{t: t, v: allocSlice(elemType(t), n, c)}
	})
	R("reflect.MakeMap", func(fr *frame, a []Value) Value {
		t := a[0].(Iface).v.(RType).t
		return RV{t: t, v: newMap(t.Underlying().(*types.Map))}
	})
	R("reflect.Copy", func(fr *frame, a []Value) Value {
		d, s := fr.rv(a[0]), fr.rv(a[1])
		cells := func(r RV) []Value {
			switch x := r.raw().(type) {
			case Slice:
				return x
			case Array:
				return x
			case Str:
				return termsSlice(x.terms())
			}
			panic(engineErr{"reflect.Copy"})
		}
		dc, sc := cells(d), cells(s)
		if kindOf(d.t) == reflect.Array {
			fr.needSet(d, "Copy")
		}
		n := len(dc)
		if len(sc) < n {
			n = len(sc)
		}
		tmp := make([]Value, n)
		for k := range tmp {
			tmp[k] = copyVal(sc[k])
		}
		for k := range tmp {
			storeCell(&dc[k], tmp[k])
		}
		return mkC(uint64(n), 64)
	})
	R("reflect.Indirect", func(fr *frame, a []Value) Value {
		r := fr.rv(a[0])
		if kindOf(r.t) != reflect.Ptr {
			return r
		}
		p := r.raw().(*Value)
		if p == nil {
			return RV{}
		}
		return RV{t: elemType(r.t), p: p, ro: r.ro}
	})
	R("reflect.DeepEqual", func(fr *frame, a []Value) Value {
		x, y := a[0].(Iface), a[1].(Iface)
		return fr.deepEq(x, y, 0)
	})
	R("reflect.Swapper", func(fr *frame, a []Value) Value { return fr.swapper(a[0].(Iface)) })
	R("internal/reflectlite.Swapper", func(fr *frame, a []Value) Value { return fr.swapper(a[0].(Iface)) })
	R("internal/reflectlite.ValueOf", func(fr *frame, a []Value) Value { return ifaceToRV(a[0].(Iface)) })
	R("internal/reflectlite.TypeOf", func(fr *frame, a []Value) Value { return fr.rtypeIface(a[0].(Iface).t) })

	V := func(m string, f func(fr *frame, r RV, a []Value) Value) {
		h := func(fr *frame, fn *ssa.Function, a []Value) Value { return f(fr, fr.rv(a[0]), a[1:]) }
		reg("(reflect.Value)."+m, h)
		reg("(internal/reflectlite.Value)."+m, h)
	}
	V("Kind", func(fr *frame, r RV, a []Value) Value { return mkC(uint64(kindOf(r.t)), 64) })
	V("Type", func(fr *frame, r RV, a []Value) Value {
		if r.t == nil {
			fr.rtPanic("reflect: call of reflect.Value.Type on zero Value")
		}
		return fr.rtypeIface(r.t)
	})
	V("IsValid", func(fr *frame, r RV, a []Value) Value { return mkBool(r.t != nil) })
	V("CanAddr", func(fr *frame, r RV, a []Value) Value { return mkBool(r.p != nil) })
	V("CanSet", func(fr *frame, r RV, a []Value) Value { return mkBool(r.p != nil && !r.ro) })
	V("CanInterface", func(fr *frame, r RV, a []Value) Value {
		if r.t == nil {
			fr.rtPanic("reflect: call of reflect.Value.CanInterface on zero Value")
		}
		return mkBool(!r.ro)
	})
	V("Addr", func(fr *frame, r RV, a []Value) Value {
		if r.p == nil {
			fr.rtPanic("reflect.Value.Addr of unaddressable value")
		}
		return RV{t: types.NewPointer(r.t), v: r.p, ro: r.ro}
	})
	V("Interface", func(fr *frame, r RV, a []Value) Value { return fr.rvToIface(r) })
	V("IsNil", func(fr *frame, r RV, a []Value) Value {
		fr.needKind(r, "IsNil", reflect.Ptr, reflect.Slice, reflect.Map, reflect.Interface, reflect.Func, reflect.Chan, reflect.UnsafePointer)
		return mkBool(isNilVal(r.raw()))
	})
	V("IsZero", func(fr *frame, r RV, a []Value) Value {
		if r.t == nil {
			fr.rtPanic("reflect: call of reflect.Value.IsZero on zero Value")
		}
		return fr.deepEq(Iface{r.t, r.get()}, Iface{r.t, zero(r.t)}, 0)
	})
	V("Elem", func(fr *frame, r RV, a []Value) Value {
		switch kindOf(r.t) {
		case reflect.Ptr:
			p, ok := r.raw().(*Value)
			if !ok {
				unsupported("reflect Elem of %T", r.raw())
			}
			if p == nil {
				return RV{}
			}
			return RV{t: elemType(r.t), p: p, ro: r.ro}
		case reflect.Interface:
			x := r.raw().(Iface)
			if x.t == nil {
				return RV{}
			}
			return RV{t: x.t, v: x.v, ro: r.ro}
		}
		fr.needKind(r, "Elem", reflect.Ptr)
		return nil
	})
	V("NumField", func(fr *frame, r RV, a []Value) Value {
		fr.needKind(r, "NumField", reflect.Struct)
		return mkC(uint64(r.t.Underlying().(*types.Struct).NumFields()), 64)
	})
	V("Field", func(fr *frame, r RV, a []Value) Value {
		fr.needKind(r, "Field", reflect.Struct)
		st := r.t.Underlying().(*types.Struct)
		k := int(fr.concInt(a[0].(*Term), 64))
		if k < 0 || k >= st.NumFields() {
			fr.rtPanic("reflect: Field index out of range")
		}
		f := st.Field(k)
		ro := r.ro || !f.Exported()
		cells := r.raw().(Struct)
		if r.p != nil {
			return RV{t: f.Type(), p: &cells[k], ro: ro}
		}
		return RV{t: f.Type(), v: copyVal(cells[k]), ro: ro}
	})
	V("Len", func(fr *frame, r RV, a []Value) Value {
		switch x := r.raw().(type) {
		case Slice:
			return mkC(uint64(len(x)), 64)
		case Array:
			return mkC(uint64(len(x)), 64)
		case Str:
			return mkC(uint64(x.len()), 64)
		case *MapV:
			if x == nil {
				return mkC(0, 64)
			}
			return mkC(uint64(x.n), 64)
		}
		fr.needKind(r, "Len", reflect.Slice)
		return nil
	})
	V("Cap", func(fr *frame, r RV, a []Value) Value {
		switch x := r.raw().(type) {
		case Slice:
			return mkC(uint64(cap(x)), 64)
		case Array:
			return mkC(uint64(len(x)), 64)
		}
		fr.needKind(r, "Cap", reflect.Slice)
		return nil
	})
	V("Index", func(fr *frame, r RV, a []Value) Value {
		switch x := r.raw().(type) {
		case Slice:
			k := int(fr.concInt(a[0].(*Term), 1024))
			if k < 0 || k >= len(x) {
				fr.rtPanic("reflect: slice index out of range")
			}
			return RV{t: elemType(r.t), p: &x[k], ro: r.ro}
		case Array:
			k := int(fr.concInt(a[0].(*Term), 1024))
			if k < 0 || k >= len(x) {
				fr.rtPanic("reflect: array index out of range")
			}
			if r.p != nil {
				return RV{t: elemType(r.t), p: &x[k], ro: r.ro}
			}
			return RV{t: elemType(r.t), v: copyVal(x[k]), ro: r.ro}
		case Str:
			k := int(fr.concInt(a[0].(*Term), 1024))
			if k < 0 || k >= x.len() {
				fr.rtPanic("reflect: string index out of range")
			}
			return RV{t: types.Typ[types.Uint8], v: x.at(k), ro: r.ro}
		}
		fr.needKind(r, "Index", reflect.Slice)
		return nil
	})
	V("SetLen", func(fr *frame, r RV, a []Value) Value {
		fr.needSet(r, "SetLen")
		s := (*r.p).(Slice)
		k := int(fr.concInt(a[0].(*Term), 1024))
		if k < 0 || k > cap(s) {
			fr.rtPanic("reflect: slice length out of range in SetLen")
		}
		*r.p = s[:k]
		return nil
	})
	V("Slice", func(fr *frame, r RV, a []Value) Value {
		lo, hi := int(fr.concInt(a[0].(*Term), 1024)), int(fr.concInt(a[1].(*Term), 1024))
		switch x := r.raw().(type) {
		case Slice:
			if lo < 0 || hi < lo || hi > cap(x) {
				fr.rtPanic("reflect.Value.Slice: slice index out of bounds")
			}
			return RV{t: r.t, v: x[lo:hi], ro: r.ro}
		case Array:
			if r.p == nil {
				fr.rtPanic("reflect.Value.Slice: slice of unaddressable array")
			}
			if lo < 0 || hi < lo || hi > len(x) {
				fr.rtPanic("reflect.Value.Slice: slice index out of bounds")
			}
			return RV{t: types.NewSlice(elemType(r.t)), v: Slice(x[lo:hi]), ro: r.ro}
		case Str:
			if lo < 0 || hi < lo || hi > x.len() {
				fr.rtPanic("reflect.Value.Slice: string slice index out of bounds")
			}
			return RV{t: r.t, v: x.slice(lo, hi), ro: r.ro}
		}
		fr.needKind(r, "Slice", reflect.Slice)
		return nil
	})
	V("Set", func(fr *frame, r RV, a []Value) Value {
		fr.needSet(r, "Set")
		x := fr.rv(a[0])
		if x.ro {
			fr.rtPanic("reflect.Set: value obtained using unexported field")
		}
		if types.IsInterface(r.t) && !types.IsInterface(x.t) {
			*r.p = Iface{t: x.t, v: x.get()}
			return nil
		}
		if !types.AssignableTo(x.t, r.t) {
			fr.rtPanic("reflect.Set: value of type %s is not assignable to type %s", rtString(x.t), rtString(r.t))
		}
		storeCell(r.p, x.get())
		return nil
	})
	V("SetBytes", func(fr *frame, r RV, a []Value) Value {
		fr.needSet(r, "SetBytes")
		fr.needKind(r, "SetBytes", reflect.Slice)
		*r.p = a[0].(Slice)
		return nil
	})
	V("SetString", func(fr *frame, r RV, a []Value) Value {
		fr.needSet(r, "SetString")
		fr.needKind(r, "SetString", reflect.String)
		*r.p = a[0].(Str)
		return nil
	})
	V("SetBool", func(fr *frame, r RV, a []Value) Value {
		fr.needSet(r, "SetBool")
		fr.needKind(r, "SetBool", reflect.Bool)
		*r.p = a[0].(*Term)
		return nil
	})
	setInt := func(m string, ks ...reflect.Kind) func(fr *frame, r RV, a []Value) Value {
		return func(fr *frame, r RV, a []Value) Value {
			fr.needSet(r, m)
			fr.needKind(r, m, ks...)
			w, _, _ := intInfo(r.t)
			*r.p = fr.i.tc.Extract(a[0].(*Term), w-1, 0)
			return nil
		}
	}
	ik := []reflect.Kind{reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64}
	uk := []reflect.Kind{reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr}
	V("SetInt", setInt("SetInt", ik...))
	V("SetUint", setInt("SetUint", uk...))
	V("OverflowInt", func(fr *frame, r RV, a []Value) Value {
		fr.needKind(r, "OverflowInt", ik...)
		w, _, _ := intInfo(r.t)
		c := fr.i.tc
		x := a[0].(*Term)
		return c.Not(c.Eq(c.Sext(c.Extract(x, w-1, 0), 64), x))
	})
	V("OverflowUint", func(fr *frame, r RV, a []Value) Value {
		fr.needKind(r, "OverflowUint", uk...)
		w, _, _ := intInfo(r.t)
		c := fr.i.tc
		x := a[0].(*Term)
		return c.Not(c.Eq(c.Zext(c.Extract(x, w-1, 0), 64), x))
	})
	V("Bytes", func(fr *frame, r RV, a []Value) Value {
		switch x := r.raw().(type) {
		case Slice:
			return x
		case Array:
			if r.p == nil {
				fr.rtPanic("reflect.Value.Bytes of unaddressable byte array")
			}
			return Slice(x)
		}
		fr.needKind(r, "Bytes", reflect.Slice)
		return nil
	})
	V("Bool", func(fr *frame, r RV, a []Value) Value {
		fr.needKind(r, "Bool", reflect.Bool)
		return r.raw()
	})
	V("Int", func(fr *frame, r RV, a []Value) Value {
		fr.needKind(r, "Int", ik...)
		return fr.i.tc.Sext(r.raw().(*Term), 64)
	})
	V("Uint", func(fr *frame, r RV, a []Value) Value {
		fr.needKind(r, "Uint", uk...)
		return fr.i.tc.Zext(r.raw().(*Term), 64)
	})
	V("String", func(fr *frame, r RV, a []Value) Value {
		if kindOf(r.t) == reflect.String {
			return r.raw()
		}
		if r.t == nil {
			return cstr("<invalid Value>")
		}
		return cstr("<" + rtString(r.t) + " Value>")
	})
	V("MapKeys", func(fr *frame, r RV, a []Value) Value {
		fr.needKind(r, "MapKeys", reflect.Map)
		m := r.raw().(*MapV)
		kt := r.t.Underlying().(*types.Map).Key()
		out := Slice{}
		if m == nil {
			return out
		}
		it := &iter{}
		for _, e := range m.ents {
			if !e.dead {
				it.ents = append(it.ents, e)
			}
		}
		fr.i.permuteEnts(it)
		for _, e := range it.ents {
			out = append(out, RV{t: kt, v: copyVal(e.k)})
		}
		return out
	})
	V("MapIndex", func(fr *frame, r RV, a []Value) Value {
		fr.needKind(r, "MapIndex", reflect.Map)
		m := r.raw().(*MapV)
		mt := r.t.Underlying().(*types.Map)
		if m == nil {
			return RV{}
		}
		e := fr.mapFind(m, fr.rv(a[0]).get(), mt.Key())
		if e == nil {
			return RV{}
		}
		return RV{t: mt.Elem(), v: copyVal(e.v)}
	})
	V("SetMapIndex", func(fr *frame, r RV, a []Value) Value {
		fr.needKind(r, "SetMapIndex", reflect.Map)
		m := r.raw().(*MapV)
		mt := r.t.Underlying().(*types.Map)
		if m == nil {
			fr.rtPanic("assignment to entry in nil map")
		}
		e := fr.rv(a[1])
		k := fr.rv(a[0]).get()
		if e.t == nil {
			fr.mapDelete(m, k, mt.Key())
			return nil
		}
		v := e.get()
		if types.IsInterface(mt.Elem()) && !types.IsInterface(e.t) {
			v = Iface{t: e.t, v: v}
		}
		fr.mapSet(m, k, v, mt.Key())
		return nil
	})

	// ---- reflect.Type
	T := func(m string, f func(fr *frame, t types.Type, a []Value) Value) {
		h := func(fr *frame, fn *ssa.Function, a []Value) Value {
			rt, ok := a[0].(RType)
			if !ok {
				unsupported("reflect.Type method on %T", a[0])
			}
			return f(fr, rt.t, a[1:])
		}
		reg("(*reflect.rtype)."+m, h)
	}
	T("Kind", func(fr *frame, t types.Type, a []Value) Value { return mkC(uint64(kindOf(t)), 64) })
	T("String", func(fr *frame, t types.Type, a []Value) Value { return cstr(rtString(t)) })
	T("Name", func(fr *frame, t types.Type, a []Value) Value {
		if n, ok := t.(*types.Named); ok {
			return cstr(n.Obj().Name())
		}
		if b, ok := t.(*types.Basic); ok {
			return cstr(b.Name())
		}
		return cstr("")
	})
	T("PkgPath", func(fr *frame, t types.Type, a []Value) Value {
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return cstr(n.Obj().Pkg().Path())
		}
		return cstr("")
	})
	T("Elem", func(fr *frame, t types.Type, a []Value) Value {
		e := elemType(t)
		if e == nil {
			fr.rtPanic("reflect: Elem of invalid type %s", rtString(t))
		}
		return fr.rtypeIface(e)
	})
	T("Key", func(fr *frame, t types.Type, a []Value) Value {
		m, ok := t.Underlying().(*types.Map)
		if !ok {
			fr.rtPanic("reflect: Key of non-map type %s", rtString(t))
		}
		return fr.rtypeIface(m.Key())
	})
	T("Len", func(fr *frame, t types.Type, a []Value) Value {
		return mkC(uint64(t.Underlying().(*types.Array).Len()), 64)
	})
	T("NumField", func(fr *frame, t types.Type, a []Value) Value {
		return mkC(uint64(t.Underlying().(*types.Struct).NumFields()), 64)
	})
	T("Size", func(fr *frame, t types.Type, a []Value) Value { return mkC(uint64(fr.i.P.sizes.Sizeof(t)), 64) })
	T("Field", func(fr *frame, t types.Type, a []Value) Value {
		st := t.Underlying().(*types.Struct)
		k := int(fr.concInt(a[0].(*Term), 64))
		f := st.Field(k)
		sf := zero(fr.i.P.pkgs["reflect"].Pkg.Scope().Lookup("StructField").Type()).(Struct)
		sf[0] = cstr(f.Name())
		if !f.Exported() && f.Pkg() != nil {
			sf[1] = cstr(f.Pkg().Path())
		}
		sf[2] = fr.rtypeIface(f.Type())
		sf[3] = cstr(st.Tag(k))
		sf[5] = Slice{mkC(uint64(k), 64)}
		sf[6] = mkBool(f.Anonymous())
		return sf
	})
	T("Implements", func(fr *frame, t types.Type, a []Value) Value {
		u := a[0].(Iface).v.(RType).t
		it, ok := u.Underlying().(*types.Interface)
		if !ok {
			fr.rtPanic("reflect: non-interface type passed to Type.Implements")
		}
		return mkBool(types.Implements(t, it))
	})
	T("AssignableTo", func(fr *frame, t types.Type, a []Value) Value {
		return mkBool(types.AssignableTo(t, a[0].(Iface).v.(RType).t))
	})
	T("ConvertibleTo", func(fr *frame, t types.Type, a []Value) Value {
		return mkBool(types.ConvertibleTo(t, a[0].(Iface).v.(RType).t))
	})
	T("Comparable", func(fr *frame, t types.Type, a []Value) Value { return mkBool(types.Comparable(t)) })
	R("(reflect.Kind).String", func(fr *frame, a []Value) Value {
		return cstr(reflect.Kind(fr.concInt(a[0].(*Term), 32)).String())
	})
	R("(reflect.StructTag).Get", func(fr *frame, a []Value) Value {
		return cstr(reflect.StructTag(fr.cs(a[0])).Get(fr.cs(a[1])))
	})
	R("(reflect.StructTag).Lookup", func(fr *frame, a []Value) Value {
		s, ok := reflect.StructTag(fr.cs(a[0])).Lookup(fr.cs(a[1]))
		return Tuple{cstr(s), mkBool(ok)}
	})
}

func (fr *frame) swapper(x Iface) Value {
	s, ok := x.v.(Slice)
	if !ok {
		fr.rtPanic("reflect: call of Swapper on non-slice")
	}
	return &Closure{name: "swapper", native: func(fr *frame, a []Value) Value {
		p, q := int(fr.concInt(a[0].(*Term), 1024)), int(fr.concInt(a[1].(*Term), 1024))
		if p < 0 || q < 0 || p >= len(s) || q >= len(s) {
			fr.rtPanic("reflect: slice index out of range")
		}
		x, y := copyVal(s[p]), copyVal(s[q])
		storeCell(&s[p], y)
		storeCell(&s[q], x)
		return nil
	}}
}

// deepEq builds the condition under which two values are deeply equal.
func (fr *frame) deepEq(x, y Iface, d int) *Term {
	if x.t == nil || y.t == nil {
		return mkBool(x.t == nil && y.t == nil)
	}
	if !types.Identical(x.t, y.t) {
		return tFalse
	}
	return fr.deepEqT(x.t, x.v, y.v, d)
}

func (fr *frame) deepEqT(t types.Type, x, y Value, d int) *Term {
	if d > 40 {
		unsupported("DeepEqual depth")
	}
	c := fr.i.tc
	switch u := t.Underlying().(type) {
	case *types.Struct:
		xs, ys := x.(Struct), y.(Struct)
		r := tTrue
		for k := range xs {
			r = c.And(r, fr.deepEqT(u.Field(k).Type(), xs[k], ys[k], d+1))
		}
		return r
	case *types.Array:
		xs, ys := x.(Array), y.(Array)
		r := tTrue
		for k := range xs {
			r = c.And(r, fr.deepEqT(u.Elem(), xs[k], ys[k], d+1))
		}
		return r
	case *types.Slice:
		xs, ys := x.(Slice), y.(Slice)
		if (xs == nil) != (ys == nil) || len(xs) != len(ys) {
			return tFalse
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return c.bytesEq(sliceTerms(xs), sliceTerms(ys))
		}
		r := tTrue
		for k := range xs {
			r = c.And(r, fr.deepEqT(u.Elem(), xs[k], ys[k], d+1))
		}
		return r
	case *types.Pointer:
		xp, ok1 := x.(*Value)
		yp, ok2 := y.(*Value)
		if !ok1 || !ok2 {
			unsupported("DeepEqual on %T", x)
		}
		if xp == yp {
			return tTrue
		}
		if xp == nil || yp == nil {
			return tFalse
		}
		return fr.deepEqT(u.Elem(), *xp, *yp, d+1)
	case *types.Interface:
		return fr.deepEq(x.(Iface), y.(Iface), d+1)
	case *types.Map:
		xm, ym := x.(*MapV), y.(*MapV)
		if (xm == nil) != (ym == nil) {
			return tFalse
		}
		if xm == ym {
			return tTrue
		}
		if xm.n != ym.n {
			return tFalse
		}
		r := tTrue
		for _, e := range xm.ents {
			if e.dead {
				continue
			}
			f := fr.mapFind(ym, e.k, u.Key())
			if f == nil {
				return tFalse
			}
			r = c.And(r, fr.deepEqT(u.Elem(), e.v, f.v, d+1))
		}
		return r
	case *types.Signature:
		return mkBool(isNilVal(x) && isNilVal(y))
	}
	return fr.eq(t, t, x, y)
}

var _ = strings.HasPrefix
