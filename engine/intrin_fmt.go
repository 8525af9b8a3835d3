package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fmt: formatting is only modelled as far as code logic depends on it.

// nativeOf converts a concrete engine value to a native Go value for formatting.
func (fr *frame) nativeOf(t types.Type, v Value) (interface{}, bool) {
	switch x := v.(type) {
	case *Term:
		if x.op != OConst {
			return nil, false
		}
		if x.w == 0 {
			return x.val != 0, true
		}
		w, sgn, ok := intInfo(t)
		if !ok {
			w, sgn = int(x.w), false
		}
		if sgn {
			s := sx(x.val, w)
			switch w {
			case 8:
				return int8(s), true
			case 16:
				return int16(s), true
			case 32:
				return int32(s), true
			}
			return s, true
		}
		switch w {
		case 8:
			return uint8(x.val), true
		case 16:
			return uint16(x.val), true
		case 32:
			return uint32(x.val), true
		}
		return x.val, true
	case float64:
		return x, true
	case Str:
		if s, ok := x.concrete(); ok {
			return s, true
		}
	case Slice:
		if sl, ok := t.Underlying().(*types.Slice); ok {
			if w, _, ok := intInfo(sl.Elem()); ok && w == 8 {
				b, ok := concreteBytes(x)
				return b, ok
			}
		}
	case Array:
		if ar, ok := t.Underlying().(*types.Array); ok {
			if w, _, ok := intInfo(ar.Elem()); ok && w == 8 {
				b, ok := concreteBytes(Slice(x))
				return b, ok
			}
		}
	}
	return nil, false
}

func (fr *frame) hasMethod(t types.Type, name string) *ssa.Function {
	if t == nil {
		return nil
	}
	obj, _, _ := types.LookupFieldOrMethod(t, false, nil, name)
	m, ok := obj.(*types.Func)
	if !ok {
		return nil
	}
	// only if in the method set of t
	ms := fr.i.P.prog.MethodSets.MethodSet(t)
	if ms.Lookup(nil, name) == nil {
		return nil
	}
	return fr.i.P.lookupMethod(t, m.Pkg(), name)
}

// strOf renders an interface argument for %s / %v.
func (fr *frame) strOf(a Iface, verb byte) Str {
	if a.t == nil {
		return cstr("<nil>")
	}
	if _, ok := a.v.(*nativeIface); ok {
		return cstr("<native>")
	}
	if rt, ok := a.v.(RType); ok {
		return cstr(rtString(rt.t))
	}
	if p, isP := a.v.(*Value); !(isP && p == nil) {
		if m := fr.hasMethod(a.t, "Error"); m != nil && m.Signature.Params().Len() == 0 {
			if s, ok := fr.i.callFn(fr, fr.g, m, nil, []Value{a.v}).(Str); ok {
				return s
			}
		}
		if m := fr.hasMethod(a.t, "String"); m != nil && m.Signature.Params().Len() == 0 {
			if s, ok := fr.i.callFn(fr, fr.g, m, nil, []Value{a.v}).(Str); ok {
				return s
			}
		}
	}
	switch x := a.v.(type) {
	case Str:
		return x
	case Slice:
		if sl, ok := a.t.Underlying().(*types.Slice); ok && verb == 's' {
			if w, _, ok := intInfo(sl.Elem()); ok && w == 8 {
				return mkStr(sliceTerms(x))
			}
		}
	case *Value:
		if x == nil {
			return cstr("<nil>")
		}
	}
	if n, ok := fr.nativeOf(a.t, a.v); ok {
		return cstr(fmt.Sprintf("%v", n))
	}
	return cstr("<?>")
}

func hexOf(c *TermCtx, ts []*Term, upper bool) []*Term {
	dig := func(n *Term) *Term { // 4 bits -> 8 bit char
		z := c.Zext(n, 8)
		a := byte('a')
		if upper {
			a = 'A'
		}
		r := c.Ite(c.Ult(n, mkC(10, 4)), c.Add(z, mkC('0', 8)), c.Add(z, mkC(uint64(a-10), 8)))
		if r.op != OConst {
			c.nib[r] = n
		}
		return r
	}
	var r []*Term
	for _, t := range ts {
		r = append(r, dig(c.Extract(t, 7, 4)), dig(c.Extract(t, 3, 0)))
	}
	return r
}

func (fr *frame) sprintf(format Str, args []Value) Str {
	f, ok := format.concrete()
	if !ok {
		return cstr("<symbolic format>")
	}
	var out Str
	ai := 0
	for k := 0; k < len(f); {
		if f[k] != '%' {
			j := strings.IndexByte(f[k:], '%')
			if j < 0 {
				j = len(f) - k
			}
			out = out.cat(cstr(f[k : k+j]))
			k += j
			continue
		}
		st := k
		k++
		for k < len(f) && strings.IndexByte("+-# 0123456789.", f[k]) >= 0 {
			k++
		}
		if k >= len(f) {
			out = out.cat(cstr("%!(NOVERB)"))
			break
		}
		verb := f[k]
		spec := f[st : k+1]
		k++
		if verb == '%' {
			out = out.cat(cstr("%"))
			continue
		}
		if ai >= len(args) {
			out = out.cat(cstr("%!" + string(verb) + "(MISSING)"))
			continue
		}
		a := args[ai].(Iface)
		ai++
		switch verb {
		case 's', 'v', 'w', 'q':
			if verb == 'v' && strings.Contains(spec, "#") {
				out = out.cat(cstr("<?>"))
				continue
			}
			s := fr.strOf(a, verb)
			if cs, ok := s.concrete(); ok && (verb == 'q' || len(spec) > 2 && verb != 'w' && spec != "%+v") {
				out = out.cat(cstr(fmt.Sprintf(spec, cs)))
			} else {
				out = out.cat(s)
			}
		case 'T':
			if a.t == nil {
				out = out.cat(cstr("<nil>"))
			} else {
				out = out.cat(cstr(rtString(a.t)))
			}
		case 'x', 'X':
			if n, ok := fr.nativeOf(a.t, a.v); ok {
				if fr.hasMethod(a.t, "String") == nil {
					out = out.cat(cstr(fmt.Sprintf(spec, n)))
					continue
				}
			}
			var ts []*Term
			done := false
			switch x := a.v.(type) {
			case Str:
				ts, done = x.terms(), true
			case Slice:
				if len(x) == 0 {
					done = true
				} else if t0, ok := x[0].(*Term); ok && t0.w == 8 {
					ts, done = sliceTerms(x), true
				}
			case Array:
				if len(x) > 0 {
					if t0, ok := x[0].(*Term); ok && t0.w == 8 {
						ts, done = sliceTerms(Slice(x)), true
					}
				}
			case *Term:
				if spec == "%02x" && x.w == 8 {
					ts, done = []*Term{x}, true
				} else {
					v := fr.i.concretize(x, 64)
					n, _ := fr.nativeOf(a.t, mkC(v, int(x.w)))
					out = out.cat(cstr(fmt.Sprintf(spec, n)))
					continue
				}
			case *Value:
				if x != nil {
					if b, ok := fr.bigIntOf(a); ok {
						out = out.cat(cstr(fmt.Sprintf(spec, b)))
						continue
					}
				}
			}
			if done && (spec == "%x" || spec == "%02x") {
				out = out.cat(mkStr(hexOf(fr.i.tc, ts, verb == 'X')))
			} else {
				out = out.cat(cstr("<?>"))
			}
		default:
			if n, ok := fr.nativeOf(a.t, a.v); ok {
				out = out.cat(cstr(fmt.Sprintf(spec, n)))
			} else if t, isT := a.v.(*Term); isT && t.w > 0 && fr.i.P.fmtConc {
				v := fr.i.concretize(t, 64)
				n, _ := fr.nativeOf(a.t, mkC(v, int(t.w)))
				out = out.cat(cstr(fmt.Sprintf(spec, n)))
			} else {
				out = out.cat(cstr("<?>"))
			}
		}
	}
	return out
}

func (fr *frame) bigIntOf(a Iface) (*big.Int, bool) {
	if a.t.String() != "*math/big.Int" {
		return nil, false
	}
	st, ok := (*a.v.(*Value)).(Struct)
	if !ok || len(st) != 2 {
		return nil, false
	}
	neg := st[0].(*Term)
	if neg.op != OConst {
		return nil, false
	}
	r := new(big.Int)
	words := st[1].(Slice)
	for k := len(words) - 1; k >= 0; k-- {
		w := words[k].(*Term)
		if w.op != OConst {
			return nil, false
		}
		r.Lsh(r, 64)
		r.Or(r, new(big.Int).SetUint64(w.val))
	}
	if neg.val != 0 {
		r.Neg(r)
	}
	return r, true
}

func varargs(v Value) []Value {
	if s, ok := v.(Slice); ok {
		return s
	}
	return nil
}

func init() {
	reg("fmt.Sprintf", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.sprintf(a[0].(Str), varargs(a[1]))
	})
	sprint := func(fr *frame, args []Value, ln bool) Str {
		var s Str
		for k, x := range args {
			if ln && k > 0 {
				s = s.cat(cstr(" "))
			}
			s = s.cat(fr.strOf(x.(Iface), 'v'))
		}
		if ln {
			s = s.cat(cstr("\n"))
		}
		return s
	}
	reg("fmt.Sprint", func(fr *frame, fn *ssa.Function, a []Value) Value { return sprint(fr, varargs(a[0]), false) })
	reg("fmt.Sprintln", func(fr *frame, fn *ssa.Function, a []Value) Value { return sprint(fr, varargs(a[0]), true) })
	reg("fmt.Errorf", func(fr *frame, fn *ssa.Function, a []Value) Value {
		s := fr.sprintf(a[0].(Str), varargs(a[1]))
		f, _ := a[0].(Str).concrete()
		pk := fr.i.P.pkgs["fmt"]
		if strings.Contains(f, "%w") {
			for _, x := range varargs(a[1]) {
				ifc := x.(Iface)
				if ifc.t != nil && fr.hasMethod(ifc.t, "Error") != nil {
					t := types.NewPointer(pk.Pkg.Scope().Lookup("wrapError").Type())
					return Iface{t: t, v: newCell(Struct{s, ifc})}
				}
			}
		}
		return Iface{t: types.NewPointer(fr.i.P.pkgs["errors"].Pkg.Scope().Lookup("errorString").Type()), v: newCell(Struct{s})}
	})
	wr := func(mk func(fr *frame, a []Value) Str) intrinsic {
		return func(fr *frame, fn *ssa.Function, a []Value) Value {
			s := mk(fr, a[1:])
			w := a[0].(Iface)
			if w.t == nil {
				fr.rtPanic("nil writer")
			}
			if _, ok := w.v.(*nativeIface); ok {
				return Tuple{mkC(uint64(s.len()), 64), Iface{}}
			}
			m := fr.i.P.lookupMethod(w.t, nil, "Write")
			return fr.i.callFn(fr, fr.g, m, nil, []Value{w.v, termsSlice(s.terms())})
		}
	}
	reg("fmt.Fprintf", wr(func(fr *frame, a []Value) Str { return fr.sprintf(a[0].(Str), varargs(a[1])) }))
	reg("fmt.Fprint", wr(func(fr *frame, a []Value) Str { return sprint(fr, varargs(a[0]), false) }))
	reg("fmt.Fprintln", wr(func(fr *frame, a []Value) Str { return sprint(fr, varargs(a[0]), true) }))
}
