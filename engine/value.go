package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type Struct []Value
type Array []Value
type Slice []Value
type Tuple []Value

// Str is a string: concrete (b==nil) or a list of byte terms.
type Str struct {
	s string
	b []*Term
}

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn     *ssa.Function
	env    []Value
	native func(fr *frame, args []Value) Value
	name   string
}

// SymPtr points at cells[idx] with a symbolic in-range idx.
type SymPtr struct {
	cells []Value
	idx   *Term
}

type UPtr struct{ v Value }

// Native wraps engine-internal objects appearing as target values.
type Native struct{ v interface{} }

type mapEnt struct {
	k, v Value
	dead bool
}
type MapV struct {
	t    *types.Map
	ents []*mapEnt
	idx  map[string]*mapEnt // concrete keys
	nsym int
	n    int
}

func cstr(s string) Str { return Str{s: s} }

func (s Str) len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}
func (s Str) at(i int) *Term {
	if s.b != nil {
		return s.b[i]
	}
	return mkC(uint64(s.s[i]), 8)
}
func (s Str) terms() []*Term {
	if s.b != nil {
		return s.b
	}
	r := make([]*Term, len(s.s))
	for i := range r {
		r[i] = mkC(uint64(s.s[i]), 8)
	}
	return r
}
func mkStr(b []*Term) Str {
	for _, t := range b {
		if t.op != OConst {
			return Str{b: b}
		}
	}
	var sb strings.Builder
	for _, t := range b {
		sb.WriteByte(byte(t.val))
	}
	return Str{s: sb.String()}
}
func (s Str) concrete() (string, bool) {
	return s.s, s.b == nil
}
func (s Str) slice(lo, hi int) Str {
	if s.b != nil {
		return mkStr(s.b[lo:hi])
	}
	return Str{s: s.s[lo:hi]}
}
func (s Str) cat(o Str) Str {
	if s.b == nil && o.b == nil {
		return Str{s: s.s + o.s}
	}
	r := make([]*Term, 0, s.len()+o.len())
	r = append(r, s.terms()...)
	r = append(r, o.terms()...)
	return mkStr(r)
}
func (s Str) String() string {
	if s.b == nil {
		return s.s
	}
	var sb strings.Builder
	for _, t := range s.b {
		if t.op == OConst {
			sb.WriteByte(byte(t.val))
		} else {
			sb.WriteByte('?')
		}
	}
	return sb.String()
}

func sliceTerms(s Slice) []*Term {
	r := make([]*Term, len(s))
	for i, v := range s {
		r[i] = v.(*Term)
	}
	return r
}
func termsSlice(ts []*Term) Slice {
	r := make(Slice, len(ts))
	for i, t := range ts {
		r[i] = t
	}
	return r
}
func bytesSlice(b []byte) Slice {
	if b == nil {
		return nil
	}
	r := make(Slice, len(b))
	for i, x := range b {
		r[i] = mkC(uint64(x), 8)
	}
	return r
}
func concreteBytes(s Slice) ([]byte, bool) {
	r := make([]byte, len(s))
	for i, v := range s {
		t := v.(*Term)
		if t.op != OConst {
			return nil, false
		}
		r[i] = byte(t.val)
	}
	return r, true
}

func concreteTerms(ts []*Term) ([]byte, bool) {
	r := make([]byte, len(ts))
	for i, t := range ts {
		if t.op != OConst {
			return nil, false
		}
		r[i] = byte(t.val)
	}
	return r, true
}

func intInfo(t types.Type) (w int, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func zero(t types.Type) Value {
	switch t := t.(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsBoolean != 0:
			return tFalse
		case t.Info()&types.IsInteger != 0:
			w, _, _ := intInfo(t)
			return mkC(0, w)
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Info()&types.IsComplex != 0:
			return complex128(0)
		case t.Info()&types.IsString != 0:
			return Str{}
		case t.Kind() == types.UnsafePointer:
			return UPtr{}
		case t.Kind() == types.UntypedNil:
			return nil
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Array:
		n := int(t.Len())
		if n > 1<<24 {
			panic(engineErr{"array too large"})
		}
		a := make(Array, n)
		if n > 0 {
			z := zero(t.Elem())
			switch z.(type) {
			case Struct, Array:
				for i := range a {
					a[i] = zero(t.Elem())
				}
			default:
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Named:
		return zero(t.Underlying())
	case *types.Alias:
		return zero(types.Unalias(t))
	case *types.Interface:
		return Iface{}
	case *types.Slice:
		return Slice(nil)
	case *types.Struct:
		s := make(Struct, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Tuple:
		if t.Len() == 1 {
			return zero(t.At(0).Type())
		}
		s := make(Tuple, t.Len())
		for i := range s {
			s[i] = zero(t.At(i).Type())
		}
		return s
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Map:
		return (*MapV)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	}
	panic(engineErr{fmt.Sprintf("zero: unexpected type %v", t)})
}

// copyVal copies aggregates (structs and arrays have value semantics).
func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		r := make(Struct, len(v))
		for i, x := range v {
			r[i] = copyVal(x)
		}
		return r
	case Array:
		r := make(Array, len(v))
		if len(v) > 0 {
			switch v[0].(type) {
			case Struct, Array:
				for i, x := range v {
					r[i] = copyVal(x)
				}
			default:
				copy(r, v)
			}
		}
		return r
	}
	return v
}

// storeCell stores v into *p preserving identity of aggregate sub-cells.
func storeCell(p *Value, v Value) {
	switch v := v.(type) {
	case Struct:
		if d, ok := (*p).(Struct); ok && len(d) == len(v) {
			if len(d) > 0 && &d[0] == &v[0] {
				return
			}
			v = copyVal(v).(Struct)
			for i := range d {
				storeCell(&d[i], v[i])
			}
			return
		}
		*p = copyVal(v)
	case Array:
		if d, ok := (*p).(Array); ok && len(d) == len(v) {
			if len(d) > 0 && &d[0] == &v[0] {
				return
			}
			v = copyVal(v).(Array)
			for i := range d {
				storeCell(&d[i], v[i])
			}
			return
		}
		*p = copyVal(v)
	default:
		*p = v
	}
}

func newCell(v Value) *Value {
	p := new(Value)
	*p = v
	return p
}

func isNilVal(v Value) bool {
	switch v := v.(type) {
	case nil:
		return true
	case *Value:
		return v == nil
	case Slice:
		return v == nil
	case *MapV:
		return v == nil
	case *ChanV:
		return v == nil
	case *Closure:
		return v == nil
	case Iface:
		return v.t == nil
	case UPtr:
		return v.v == nil
	}
	return false
}

func dumpVal(v Value, d int) string {
	if d == 0 {
		return "…"
	}
	switch v := v.(type) {
	case *Term:
		if v.op == OConst && v.w <= 64 {
			if v.w == 0 {
				return fmt.Sprint(v.val != 0)
			}
			return fmt.Sprint(sx(v.val, int(v.w)))
		}
		return v.String()
	case Str:
		return fmt.Sprintf("%q", v.String())
	case Struct:
		var p []string
		for _, x := range v {
			p = append(p, dumpVal(x, d-1))
		}
		return "{" + strings.Join(p, " ") + "}"
	case Array:
		var p []string
		for _, x := range v {
			p = append(p, dumpVal(x, d-1))
		}
		return "[" + strings.Join(p, " ") + "]"
	case Slice:
		if v == nil {
			return "nil"
		}
		var p []string
		for i, x := range v {
			if i > 40 {
				p = append(p, "...")
				break
			}
			p = append(p, dumpVal(x, d-1))
		}
		return "[" + strings.Join(p, " ") + "]"
	case *Value:
		if v == nil {
			return "nil"
		}
		return "&" + dumpVal(*v, d-1)
	case Iface:
		if v.t == nil {
			return "nil"
		}
		return fmt.Sprintf("%s(%s)", types.TypeString(v.t, func(p *types.Package) string { return p.Name() }), dumpVal(v.v, d-1))
	}
	return fmt.Sprintf("%T", v)
}
