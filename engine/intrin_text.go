package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var softIntrinsics = map[string]softIntrinsic{}

func soft(name string, f softIntrinsic) { softIntrinsics[name] = f }

// hexDigit returns the condition that t is a hex digit and its 4-bit value.
func hexDigit(c *TermCtx, t *Term) (*Term, *Term) {
	if n, ok := c.nib[t]; ok {
		return tTrue, n
	}
	if t.op == OConst {
		k := strings.IndexByte("0123456789abcdef", byte(t.val)|0x20)
		if t.val >= '0' && t.val <= '9' {
			k = int(t.val - '0')
		} else if !(t.val >= 'a' && t.val <= 'f' || t.val >= 'A' && t.val <= 'F') {
			return tFalse, mkC(0, 4)
		}
		return tTrue, mkC(uint64(k), 4)
	}
	in := func(lo, hi byte) *Term { return c.And(c.Ule(mkC(uint64(lo), 8), t), c.Ule(t, mkC(uint64(hi), 8))) }
	d, l, u := in('0', '9'), in('a', 'f'), in('A', 'F')
	low := c.Extract(t, 3, 0)
	return c.Or(d, l, u), c.Ite(d, low, c.Add(low, mkC(9, 4)))
}

func base64Dec(i *Interp, b []*Term, url bool) ([]*Term, bool) {
	c, tab := i.tc, b64std
	if url {
		tab = b64url
	}
	var out []*Term
	if len(b)%4 != 0 {
		return nil, false
	}
	for k := 0; k < len(b); k += 4 {
		var s [4]*Term
		n := 4
		for j := 0; j < 4; j++ {
			t := b[k+j]
			if x, ok := c.sex[t]; ok {
				if x.url != url && !i.branch(c.Ult(x.v, mkC(62, 6))) {
					return nil, false // not of this alphabet
				}
				s[j] = x.v
				continue
			}
			if t.op != OConst {
				return nil, false
			}
			if t.val == '=' {
				if k+4 != len(b) || j < 2 {
					return nil, false
				}
				if j < n {
					n = j
				}
				s[j] = mkC(0, 6)
				continue
			}
			ix := strings.IndexByte(tab, byte(t.val))
			if ix < 0 || n < 4 {
				return nil, false
			}
			s[j] = mkC(uint64(ix), 6)
		}
		all := c.Concat(s[0], s[1], s[2], s[3])
		out = append(out, c.Extract(all, 23, 16))
		if n > 2 {
			out = append(out, c.Extract(all, 15, 8))
		}
		if n > 3 {
			out = append(out, c.Extract(all, 7, 0))
		}
	}
	return out, true
}

func init() {
	soft("encoding/hex.EncodeToString", func(fr *frame, fn *ssa.Function, a []Value) (Value, bool) {
		return mkStr(hexOf(fr.i.tc, sliceTerms(a[0].(Slice)), false)), true
	})
	soft("encoding/hex.Encode", func(fr *frame, fn *ssa.Function, a []Value) (Value, bool) {
		d, s := a[0].(Slice), a[1].(Slice)
		if len(d) < 2*len(s) {
			return nil, false
		}
		for k, t := range hexOf(fr.i.tc, sliceTerms(s), false) {
			d[k] = t
		}
		return mkC(uint64(2*len(s)), 64), true
	})
	soft("encoding/hex.DecodeString", func(fr *frame, fn *ssa.Function, a []Value) (Value, bool) {
		s := a[0].(Str)
		if s.len()%2 != 0 {
			return nil, false
		}
		c := fr.i.tc
		ts := s.terms()
		ok := tTrue
		out := make([]*Term, 0, len(ts)/2)
		for k := 0; k < len(ts); k += 2 {
			v1, n1 := hexDigit(c, ts[k])
			v2, n2 := hexDigit(c, ts[k+1])
			ok = c.And(ok, v1, v2)
			out = append(out, c.Concat(n1, n2))
		}
		if fr.i.branch(ok) {
			return Tuple{termsSlice(out), Iface{}}, true
		}
		if s.b == nil {
			return nil, false
		}
		return Tuple{Slice{}, fr.newErr("encoding/hex: invalid byte")}, true
	})
	parse := func(signed bool) softIntrinsic {
		return func(fr *frame, fn *ssa.Function, a []Value) (Value, bool) {
			s := a[0].(Str)
			if s.b == nil {
				return nil, false
			}
			base, bits := a[1].(*Term), a[2].(*Term)
			if base.op != OConst || bits.op != OConst || base.val != 0 {
				return nil, false
			}
			w := int(bits.val)
			if w == 0 {
				w = 64
			}
			ts := s.b
			neg := false
			isC := func(k int, ch byte) bool { return k < len(ts) && ts[k].op == OConst && byte(ts[k].val) == ch }
			if signed && (isC(0, '-') || isC(0, '+')) {
				neg = isC(0, '-')
				ts = ts[1:]
			}
			if !(isC(0, '0') && isC(1, 'x')) || len(ts) < 3 || len(ts) > 18 {
				return nil, false
			}
			c := fr.i.tc
			ok := tTrue
			var ns []*Term
			for _, t := range ts[2:] {
				v, n := hexDigit(c, t)
				ok = c.And(ok, v)
				ns = append(ns, n)
			}
			if !fr.i.branch(ok) {
				return nil, false
			}
			x := c.Zext(c.Concat(ns...), 64)
			rng := func() Value {
				sc := fr.i.P.pkgs["strconv"].Pkg.Scope()
				ne := types.NewPointer(sc.Lookup("NumError").Type())
				er := *fr.i.global(fr.i.P.pkgs["strconv"].Var("ErrRange"))
				nm := "ParseUint"
				if signed {
					nm = "ParseInt"
				}
				return Iface{t: ne, v: newCell(Struct{cstr(nm), s, er})}
			}
			if !signed {
				if w < 64 && !fr.i.branch(c.Ult(x, mkC(1<<uint(w), 64))) {
					return Tuple{mkC(maskW(w), 64), rng()}, true
				}
				return Tuple{x, Iface{}}, true
			}
			cut := mkC(uint64(1)<<uint(w-1), 64)
			if !neg {
				if !fr.i.branch(c.Ult(x, cut)) {
					return Tuple{mkC(uint64(1)<<uint(w-1)-1, 64), rng()}, true
				}
				return Tuple{x, Iface{}}, true
			}
			if !fr.i.branch(c.Ule(x, cut)) {
				return Tuple{c.Sub(mkC(0, 64), cut), rng()}, true
			}
			return Tuple{c.Sub(mkC(0, 64), x), Iface{}}, true
		}
	}
	soft("strconv.ParseInt", parse(true))
	soft("strconv.ParseUint", parse(false))
	soft("(*encoding/base64.Encoding).EncodeToString", func(fr *frame, fn *ssa.Function, a []Value) (Value, bool) {
		url, ok := b64kind(fr, a[0])
		if !ok {
			return nil, false
		}
		return mkStr(base64Enc(fr.i.tc, fr.i, sliceTerms(a[1].(Slice)), url)), true
	})
	soft("(*encoding/base64.Encoding).DecodeString", func(fr *frame, fn *ssa.Function, a []Value) (Value, bool) {
		s := a[1].(Str)
		url, ok := b64kind(fr, a[0])
		if !ok || s.b == nil {
			return nil, false
		}
		r, ok := base64Dec(fr.i, s.b, url)
		if !ok {
			return nil, false
		}
		return Tuple{termsSlice(r), Iface{}}, true
	})
}

func b64kind(fr *frame, p Value) (url bool, ok bool) {
	for _, n := range []string{"StdEncoding", "URLEncoding"} {
		g := fr.i.global(fr.i.P.pkgs["encoding/base64"].Var(n))
		if q, is := (*g).(*Value); is {
			if r, is := p.(*Value); is && r == q {
				return n == "URLEncoding", true
			}
		}
	}
	return false, false
}
