package main

import (
	"crypto/sha256"
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type ufRec struct {
	in  []*Term
	out []*Term
}

func (i *Interp) axiom(t *Term) {
	if t == tTrue {
		return
	}
	i.assertPC(t)
	if !i.replaying() && i.model != nil && i.tc.Eval(t, i.model).val == 0 {
		i.model = nil
	}
}

// idealHash models a collision-free hash: equal outputs exactly for equal inputs.
// Concrete inputs use the real function.
func (i *Interp) idealHash(kind string, in []*Term, n int, real func([]byte) []byte) []*Term {
	c := i.tc
	for _, h := range i.hashes {
		if h.kind == kind && len(h.in) == len(in) {
			same := true
			for k := range in {
				if !sameT(in[k], h.in[k]) {
					same = false
					break
				}
			}
			if same {
				return splitBytes(c, h.out, n)
			}
		}
	}
	rec := &hashRec{kind: kind, in: append([]*Term{}, in...), real: real}
	if b, ok := concreteTerms(in); ok {
		d := real(b)
		ds := make([]*Term, n)
		for k := range ds {
			ds[k] = mkC(uint64(d[k]), 8)
		}
		rec.out = c.Concat(ds...)
	} else {
		rec.out = i.fresh(fmt.Sprintf("%s%d", kind, len(i.hashes)), n*8)
	}
	for _, h := range i.hashes {
		if h.kind != kind || i.noHashAx {
			continue
		}
		eqo := c.Eq(rec.out, h.out)
		if eqo == tFalse {
			// two different concrete digests: inputs differ
			if len(h.in) == len(in) {
				i.axiom(c.Not(c.bytesEq(in, h.in)))
			}
			continue
		}
		if len(h.in) != len(in) {
			i.axiom(c.Not(eqo))
			continue
		}
		i.axiom(c.Eq(c.bytesEq(in, h.in), eqo))
	}
	i.hashes = append(i.hashes, rec)
	return splitBytes(c, rec.out, n)
}

func splitBytes(c *TermCtx, t *Term, n int) []*Term {
	r := make([]*Term, n)
	for k := 0; k < n; k++ {
		hi := (n-k)*8 - 1
		r[k] = c.Extract(t, hi, hi-7)
	}
	return r
}

func init() {
	sum := func(kind string, n int, real func([]byte) []byte) intrinsic {
		return func(fr *frame, fn *ssa.Function, a []Value) Value {
			in := sliceTerms(a[0].(Slice))
			return Array(termsSlice(fr.i.idealHash(kind, in, n, real)))
		}
	}
	sh := func(b []byte) []byte { s := sha256.Sum256(b); return s[:] }
	reg("crypto/sha256.Sum256", sum("sha256_", 32, sh))
	reg("golang.org/x/crypto/sha3.Sum256", sum("sha3_", 32, sha3_256))
	newH := func(kind string, n int, real func([]byte) []byte) intrinsic {
		return func(fr *frame, fn *ssa.Function, a []Value) Value {
			var buf []*Term
			h := &nativeIface{}
			h.call = func(fr *frame, name string, a []Value) Value {
				switch name {
				case "Write":
					buf = append(buf, sliceTerms(a[0].(Slice))...)
					return Tuple{mkC(uint64(len(a[0].(Slice))), 64), Iface{}}
				case "Sum":
					d := fr.i.idealHash(kind, buf, n, real)
					return fr.i.appendVals(a[0].(Slice), types.Typ[types.Uint8], termsSlice(d))
				case "Read":
					d := fr.i.idealHash(kind, buf, n, real)
					dst := a[0].(Slice)
					k := min(len(dst), n)
					for j := 0; j < k; j++ {
						dst[j] = d[j]
					}
					return Tuple{mkC(uint64(k), 64), Iface{}}
				case "Reset":
					buf = nil
					return nil
				case "Size":
					return mkC(uint64(n), 64)
				case "BlockSize":
					return mkC(136, 64)
				}
				unsupported("hash method %s", name)
				return nil
			}
			return Iface{t: fn.Signature.Results().At(0).Type(), v: h}
		}
	}
	reg("golang.org/x/crypto/sha3.New256", newH("sha3_", 32, sha3_256))
	reg("golang.org/x/crypto/sha3.NewLegacyKeccak256", newH("keccak_", 32, keccak256))
	reg("crypto/sha256.New", newH("sha256_", 32, sh))
}

// ---- keccak

func keccakSponge(b []byte, ds byte) []byte {
	var st [25]uint64
	const rate = 136
	p := append(append([]byte{}, b...), ds)
	for len(p)%rate != 0 {
		p = append(p, 0)
	}
	p[len(p)-1] |= 0x80
	for off := 0; off < len(p); off += rate {
		for k := 0; k < rate/8; k++ {
			var w uint64
			for j := 7; j >= 0; j-- {
				w = w<<8 | uint64(p[off+k*8+j])
			}
			st[k] ^= w
		}
		keccakF(&st)
	}
	out := make([]byte, 32)
	for k := range out {
		out[k] = byte(st[k/8] >> uint(8*(k%8)))
	}
	return out
}

func sha3_256(b []byte) []byte  { return keccakSponge(b, 0x06) }
func keccak256(b []byte) []byte { return keccakSponge(b, 0x01) }

var rc = [24]uint64{0x0000000000000001, 0x0000000000008082, 0x800000000000808A, 0x8000000080008000, 0x000000000000808B, 0x0000000080000001, 0x8000000080008081, 0x8000000000008009, 0x000000000000008A, 0x0000000000000088, 0x0000000080008009, 0x000000008000000A, 0x000000008000808B, 0x800000000000008B, 0x8000000000008089, 0x8000000000008003, 0x8000000000008002, 0x8000000000000080, 0x000000000000800A, 0x800000008000000A, 0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008}
var rotc = [24]uint{1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44}
var piln = [24]int{10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1}

func keccakF(st *[25]uint64) {
	rol := func(x uint64, n uint) uint64 { return x<<n | x>>(64-n) }
	for r := 0; r < 24; r++ {
		var bc [5]uint64
		for i := 0; i < 5; i++ {
			bc[i] = st[i] ^ st[i+5] ^ st[i+10] ^ st[i+15] ^ st[i+20]
		}
		for i := 0; i < 5; i++ {
			t := bc[(i+4)%5] ^ rol(bc[(i+1)%5], 1)
			for j := 0; j < 25; j += 5 {
				st[j+i] ^= t
			}
		}
		t := st[1]
		for i := 0; i < 24; i++ {
			j := piln[i]
			b := st[j]
			st[j] = rol(t, rotc[i])
			t = b
		}
		for j := 0; j < 25; j += 5 {
			var b [5]uint64
			copy(b[:], st[j:j+5])
			for i := 0; i < 5; i++ {
				st[j+i] ^= (^b[(i+1)%5]) & b[(i+2)%5]
			}
		}
		st[0] ^= rc[r]
	}
}
