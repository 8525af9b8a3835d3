package main

import (
	"fmt"
	"math/big"
	"math/bits"
	"strings"
)

// Term is a bit-vector (w>0) or boolean (w==0) SMT term.
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OBNot
	OBNeg
	OBAnd
	OBOr
	OBXor
	OAdd
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OConcat
	OExtract
	OSext
)

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OBNot: "bvnot", OBNeg: "bvneg",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OAdd: "bvadd", OMul: "bvmul", OUDiv: "bvudiv",
	OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr",
	OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OConcat: "concat",
}

type Term struct {
	op   Op
	w    int32
	lo   int32 // extract low bit
	id   int32
	val  uint64
	bg   *big.Int // constants wider than 64
	args []*Term
	name string
	hash uint64
}

func (t *Term) isConst() bool { return t.op == OConst }

type sextet struct {
	v   *Term
	url bool
}

type TermCtx struct {
	tab   map[uint64][]*Term
	next  int32
	vars  []*Term
	ntot  int
	facts map[*Term]bool
	nib   map[*Term]*Term // hex digit character -> its 4-bit value
	sex   map[*Term]sextet // base64 character -> its 6-bit value
}

func newTermCtx() *TermCtx {
	return &TermCtx{tab: make(map[uint64][]*Term, 1024), facts: map[*Term]bool{}, nib: map[*Term]*Term{}, sex: map[*Term]sextet{}}
}

var (
	tTrue  = &Term{op: OConst, w: 0, val: 1}
	tFalse = &Term{op: OConst, w: 0, val: 0}
)

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

var smallConst [4][1280]*Term // widths 8,16,32,64 ; values -256..1023

func widx(w int) int {
	switch w {
	case 8:
		return 0
	case 16:
		return 1
	case 32:
		return 2
	case 64:
		return 3
	}
	return -1
}

func init() {
	for i, w := range []int{8, 16, 32, 64} {
		for k := 0; k < 1280; k++ {
			v := uint64(int64(k - 256))
			smallConst[i][k] = &Term{op: OConst, w: int32(w), val: v & mask(w)}
		}
	}
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func mkC(v uint64, w int) *Term {
	if w > 64 {
		return mkBig(new(big.Int).SetUint64(v), w)
	}
	if w == 0 {
		return mkBool(v != 0)
	}
	v &= mask(w)
	if i := widx(w); i >= 0 {
		if v < 1024 {
			return smallConst[i][v+256]
		}
		if w > 8 {
			n := (^v + 1) & mask(w)
			if n <= 256 && n > 0 {
				return smallConst[i][256-n]
			}
		}
	}
	return &Term{op: OConst, w: int32(w), val: v}
}

func mkBig(b *big.Int, w int) *Term {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	m.Sub(m, big.NewInt(1))
	r := new(big.Int).And(b, m)
	if w <= 64 {
		return mkC(r.Uint64(), w)
	}
	return &Term{op: OConst, w: int32(w), bg: r}
}

func (t *Term) bigVal() *big.Int {
	if t.w > 64 {
		return t.bg
	}
	return new(big.Int).SetUint64(t.val)
}

func sameT(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.op == OConst && b.op == OConst && a.w == b.w {
		if a.w > 64 {
			return a.bg.Cmp(b.bg) == 0
		}
		return a.val == b.val
	}
	return false
}

func (t *Term) isZero() bool {
	if t.op != OConst {
		return false
	}
	if t.w > 64 {
		return t.bg.Sign() == 0
	}
	return t.val == 0
}
func (t *Term) isOnes() bool {
	if t.op != OConst {
		return false
	}
	if t.w > 64 {
		return t.bg.BitLen() == int(t.w) && new(big.Int).Add(t.bg, big.NewInt(1)).TrailingZeroBits() == uint(t.w)
	}
	return t.val == mask(int(t.w))
}

func sx(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := uint(64 - w)
	return int64(v<<sh) >> sh
}

func (t *Term) shash() uint64 {
	if t.op == OConst {
		h := uint64(t.w)*0x9E3779B97F4A7C15 ^ t.val*0xff51afd7ed558ccd
		if t.bg != nil {
			for _, w := range t.bg.Bits() {
				h = h*31 + uint64(w)
			}
		}
		return h ^ 0x1234
	}
	return t.hash
}

func (c *TermCtx) intern(op Op, w int, lo int, args ...*Term) *Term {
	h := uint64(op)*0x100000001b3 + uint64(w)*1315423911 + uint64(lo)*2654435761
	for _, a := range args {
		h = (h ^ a.shash()) * 0x9E3779B97F4A7C15
		h ^= h >> 29
	}
	for _, t := range c.tab[h] {
		if t.op == op && int(t.w) == w && int(t.lo) == lo && len(t.args) == len(args) {
			ok := true
			for i := range args {
				if !sameT(t.args[i], args[i]) {
					ok = false
					break
				}
			}
			if ok {
				return t
			}
		}
	}
	c.next++
	c.ntot++
	t := &Term{op: op, w: int32(w), lo: int32(lo), id: c.next, args: args, hash: h | 1}
	c.tab[h] = append(c.tab[h], t)
	return t
}

func (c *TermCtx) Var(name string, w int) *Term {
	c.next++
	t := &Term{op: OVar, w: int32(w), id: c.next, name: name, lo: int32(len(c.vars))}
	t.hash = uint64(c.next)*0x9E3779B97F4A7C15 | 1
	c.vars = append(c.vars, t)
	return t
}

// ---------- booleans

func (c *TermCtx) Not(a *Term) *Term {
	if a.op == OConst {
		return mkBool(a.val == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	return c.intern(ONot, 0, 0, a)
}

func (c *TermCtx) And(xs ...*Term) *Term { return c.andor(OAnd, xs) }
func (c *TermCtx) Or(xs ...*Term) *Term  { return c.andor(OOr, xs) }

func (c *TermCtx) andor(op Op, xs []*Term) *Term {
	unit, zero := tTrue, tFalse
	if op == OOr {
		unit, zero = tFalse, tTrue
	}
	var out []*Term
	var add func(x *Term) bool
	seen := map[*Term]bool{}
	add = func(x *Term) bool {
		if x.op == OConst {
			if x.val == zero.val {
				return false
			}
			return true
		}
		if x.op == op {
			for _, a := range x.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[x] {
			return true
		}
		if seen[c.Not(x)] {
			return false
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.intern(op, 0, 0, out...)
}

func (c *TermCtx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *TermCtx) Ite(cond, a, b *Term) *Term {
	if cond.op == OConst {
		if cond.val != 0 {
			return a
		}
		return b
	}
	if sameT(a, b) {
		return a
	}
	if cond.op == ONot {
		return c.Ite(cond.args[0], b, a)
	}
	if a.w == 0 {
		if a.op == OConst {
			if a.val != 0 {
				return c.Or(cond, b)
			}
			return c.And(c.Not(cond), b)
		}
		if b.op == OConst {
			if b.val != 0 {
				return c.Or(c.Not(cond), a)
			}
			return c.And(cond, a)
		}
	}
	// ite(c, ite(c,x,y), z)
	if a.op == OIte && a.args[0] == cond {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == cond {
		b = b.args[2]
	}
	if sameT(a, b) {
		return a
	}
	return c.intern(OIte, int(a.w), 0, cond, a, b)
}

// segments of a term: list of (term) from high to low
func segs(t *Term) []*Term {
	if t.op == OConcat {
		return t.args
	}
	return []*Term{t}
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if sameT(a, b) {
		return tTrue
	}
	if a.op == OConst && b.op == OConst {
		return tFalse
	}
	if a.w == 0 {
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.val != 0 {
				return a
			}
			return c.Not(a)
		}
		if a == c.Not(b) {
			return tFalse
		}
		if a.id > b.id {
			a, b = b, a
		}
		return c.intern(OEq, 0, 0, a, b)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if a.op == OConcat || b.op == OConcat {
		return c.eqSegs(a, b)
	}
	if b.op == OConst {
		switch a.op {
		case OIte:
			x, y := a.args[1], a.args[2]
			if x.op == OConst || y.op == OConst {
				return c.Or(c.And(a.args[0], c.Eq(x, b)), c.And(c.Not(a.args[0]), c.Eq(y, b)))
			}
		case OAdd:
			if len(a.args) == 2 && a.args[1].op == OConst {
				return c.Eq(a.args[0], c.Sub(b, a.args[1]))
			}
		case OBNot:
			return c.Eq(a.args[0], c.BNot(b))
		case OBXor:
			if a.args[1].op == OConst {
				return c.Eq(a.args[0], c.BXor(b, a.args[1]))
			}
		case OSext:
			x := a.args[0]
			lowc := c.Extract(b, int(x.w)-1, 0)
			if sameT(c.Sext(lowc, int(a.w)), b) {
				return c.Eq(x, lowc)
			}
			return tFalse
		}
	}
	if a.op == OSext && b.op == OSext && a.args[0].w == b.args[0].w {
		return c.Eq(a.args[0], b.args[0])
	}
	if a.op == OAdd && b.op == OAdd && len(a.args) == 2 && len(b.args) == 2 && a.args[1].op == OConst && b.args[1].op == OConst {
		if a.args[0] == b.args[0] {
			return mkBool(sameT(a.args[1], b.args[1]))
		}
	}
	if a.op == OAdd && len(a.args) == 2 && a.args[1].op == OConst && a.args[0] == b && !a.args[1].isZero() {
		return tFalse
	}
	if b.op == OAdd && len(b.args) == 2 && b.args[1].op == OConst && b.args[0] == a && !b.args[1].isZero() {
		return tFalse
	}
	if b.op != OConst && a.id > b.id {
		a, b = b, a
	}
	return c.intern(OEq, 0, 0, a, b)
}

func (c *TermCtx) eqSegs(a, b *Term) *Term {
	// split on union of boundaries
	cuts := c.cuts(a, b)
	var conj []*Term
	hi := int(a.w) - 1
	type pr struct{ x, y *Term }
	var ps []pr
	for _, lo := range cuts {
		x := c.Extract(a, hi, lo)
		y := c.Extract(b, hi, lo)
		hi = lo - 1
		if sameT(x, y) {
			continue
		}
		if x.op == OConst && y.op == OConst {
			return tFalse
		}
		ps = append(ps, pr{x, y})
	}
	for _, p := range ps {
		x, y := p.x, p.y
		if x.op == OConcat || y.op == OConcat {
			conj = append(conj, c.internEq(x, y))
		} else {
			conj = append(conj, c.Eq(x, y))
		}
	}
	return c.And(conj...)
}

func (c *TermCtx) internEq(a, b *Term) *Term {
	if b.op != OConst && a.op != OConst && a.id > b.id {
		a, b = b, a
	}
	return c.intern(OEq, 0, 0, a, b)
}

// cuts returns low boundaries (descending) of the union partition of a and b.
func (c *TermCtx) cuts(a, b *Term) []int {
	w := int(a.w)
	m := map[int]bool{}
	for _, t := range []*Term{a, b} {
		pos := w
		for _, s := range segs(t) {
			pos -= int(s.w)
			m[pos] = true
		}
	}
	out := make([]int, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	// sort descending
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && out[j] > out[j-1]; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

// ---------- structure

func (c *TermCtx) Concat(xs ...*Term) *Term {
	var out []*Term
	w := 0
	for _, x := range xs {
		if x == nil || x.w == 0 {
			continue
		}
		for _, s := range segs(x) {
			w += int(s.w)
			if n := len(out); n > 0 {
				p := out[n-1]
				if p.op == OConst && s.op == OConst {
					b := new(big.Int).Lsh(p.bigVal(), uint(s.w))
					b.Or(b, s.bigVal())
					out[n-1] = mkBig(b, int(p.w+s.w))
					continue
				}
				pb, plo, phi := baseOf(p)
				sb, slo, shi := baseOf(s)
				if pb == sb && plo == shi+1 && pb.op != OConst {
					out[n-1] = c.Extract(pb, phi, slo)
					continue
				}
			}
			out = append(out, s)
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.intern(OConcat, w, 0, out...)
}

func baseOf(t *Term) (*Term, int, int) {
	if t.op == OExtract {
		return t.args[0], int(t.lo), int(t.lo) + int(t.w) - 1
	}
	return t, 0, int(t.w) - 1
}

func (c *TermCtx) Extract(t *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if lo == 0 && w == int(t.w) {
		return t
	}
	if w <= 0 || hi >= int(t.w) || lo < 0 {
		panic(fmt.Sprintf("bad extract %d %d of %d", hi, lo, t.w))
	}
	switch t.op {
	case OConst:
		if t.w > 64 {
			return mkBig(new(big.Int).Rsh(t.bg, uint(lo)), w)
		}
		return mkC(t.val>>uint(lo), w)
	case OExtract:
		return c.Extract(t.args[0], hi+int(t.lo), lo+int(t.lo))
	case OConcat:
		pos := int(t.w)
		var parts []*Term
		for _, s := range t.args {
			sh := pos - 1
			pos -= int(s.w)
			sl := pos
			h, l := hi, lo
			if sh < h {
				h = sh
			}
			if sl > l {
				l = sl
			}
			if h >= l {
				parts = append(parts, c.Extract(s, h-sl, l-sl))
			}
		}
		return c.Concat(parts...)
	case OIte:
		x, y := t.args[1], t.args[2]
		if x.op == OConst || y.op == OConst || (x.op == OConcat && y.op == OConcat) {
			return c.Ite(t.args[0], c.Extract(x, hi, lo), c.Extract(y, hi, lo))
		}
	case OBAnd:
		return c.BAnd(c.Extract(t.args[0], hi, lo), c.Extract(t.args[1], hi, lo))
	case OBOr:
		return c.BOr(c.Extract(t.args[0], hi, lo), c.Extract(t.args[1], hi, lo))
	case OBXor:
		return c.BXor(c.Extract(t.args[0], hi, lo), c.Extract(t.args[1], hi, lo))
	case OBNot:
		return c.BNot(c.Extract(t.args[0], hi, lo))
	case OAdd:
		if lo == 0 && w < int(t.w) {
			return c.Add(c.Extract(t.args[0], hi, 0), c.Extract(t.args[1], hi, 0))
		}
	case OSext:
		iw := int(t.args[0].w)
		if hi < iw {
			return c.Extract(t.args[0], hi, lo)
		}
		if lo < iw {
			return c.Sext(c.Extract(t.args[0], iw-1, lo), w)
		}
		return c.Sext(c.Extract(t.args[0], iw-1, iw-1), w)
	}
	return c.intern(OExtract, w, lo, t)
}

func (c *TermCtx) Zext(t *Term, w int) *Term {
	if int(t.w) == w {
		return t
	}
	if int(t.w) > w {
		return c.Extract(t, w-1, 0)
	}
	return c.Concat(mkC(0, w-int(t.w)), t)
}

func (c *TermCtx) Sext(t *Term, w int) *Term {
	if int(t.w) == w {
		return t
	}
	if int(t.w) > w {
		return c.Extract(t, w-1, 0)
	}
	if t.op == OConst {
		if t.w <= 64 && w <= 64 {
			return mkC(uint64(sx(t.val, int(t.w))), w)
		}
		b := t.bigVal()
		if b.Bit(int(t.w)-1) == 1 {
			b = new(big.Int).Sub(b, new(big.Int).Lsh(big.NewInt(1), uint(t.w)))
		}
		return mkBig(b, w)
	}
	if topZero(t) {
		return c.Zext(t, w)
	}
	if t.op == OSext {
		return c.Sext(t.args[0], w)
	}
	return c.intern(OSext, w, 0, t)
}

func topZero(t *Term) bool {
	switch t.op {
	case OConst:
		if t.w > 64 {
			return t.bg.Bit(int(t.w)-1) == 0
		}
		return t.val>>(uint(t.w)-1) == 0
	case OConcat:
		return topZero(t.args[0])
	case OIte:
		return topZero(t.args[1]) && topZero(t.args[2])
	}
	if t.w <= 64 {
		_, hi := urange(t, 4)
		return hi>>(uint(t.w)-1) == 0
	}
	return false
}

// unsigned range for terms up to 64 bits
func urange(t *Term, depth int) (uint64, uint64) {
	m := mask(int(t.w))
	if t.op == OConst {
		return t.val, t.val
	}
	if depth == 0 {
		return 0, m
	}
	switch t.op {
	case OConcat:
		var lo, hi uint64
		for _, s := range t.args {
			l, h := urange(s, depth-1)
			lo = lo<<uint(s.w) | l
			hi = hi<<uint(s.w) | h
		}
		return lo, hi
	case OIte:
		l1, h1 := urange(t.args[1], depth-1)
		l2, h2 := urange(t.args[2], depth-1)
		return min(l1, l2), max(h1, h2)
	case OBAnd:
		_, h1 := urange(t.args[0], depth-1)
		_, h2 := urange(t.args[1], depth-1)
		return 0, min(h1, h2)
	case OURem:
		if t.args[1].op == OConst && t.args[1].val > 0 {
			return 0, t.args[1].val - 1
		}
	case OUDiv:
		if t.args[1].op == OConst && t.args[1].val > 0 {
			l, h := urange(t.args[0], depth-1)
			return l / t.args[1].val, h / t.args[1].val
		}
	case OAdd:
		l1, h1 := urange(t.args[0], depth-1)
		l2, h2 := urange(t.args[1], depth-1)
		if h1 <= m-h2 {
			return l1 + l2, h1 + h2
		}
	case OMul:
		l1, h1 := urange(t.args[0], depth-1)
		l2, h2 := urange(t.args[1], depth-1)
		if hi, lo := bits.Mul64(h1, h2); hi == 0 && lo <= m {
			return l1 * l2, h1 * h2
		}
	}
	return 0, m
}

// ---------- bitwise

func (c *TermCtx) BNot(a *Term) *Term {
	if a.op == OConst {
		if a.w > 64 {
			m := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(a.w)), big.NewInt(1))
			return mkBig(m.Xor(m, a.bg), int(a.w))
		}
		return mkC(^a.val, int(a.w))
	}
	if a.op == OBNot {
		return a.args[0]
	}
	if a.op == OConcat {
		ps := make([]*Term, len(a.args))
		for i, s := range a.args {
			ps[i] = c.BNot(s)
		}
		return c.Concat(ps...)
	}
	return c.intern(OBNot, int(a.w), 0, a)
}

// runs splits constant t into maximal runs of equal bits, high first: (bit,len)
func runs(t *Term) [][2]int {
	var out [][2]int
	for i := int(t.w) - 1; i >= 0; i-- {
		var b int
		if t.w > 64 {
			b = int(t.bg.Bit(i))
		} else {
			b = int(t.val >> uint(i) & 1)
		}
		if n := len(out); n > 0 && out[n-1][0] == b {
			out[n-1][1]++
		} else {
			out = append(out, [2]int{b, 1})
		}
	}
	return out
}

func (c *TermCtx) bitConst(op Op, a, k *Term) *Term {
	// combine symbolic a with constant k
	hi := int(a.w) - 1
	var parts []*Term
	for _, r := range runs(k) {
		lo := hi - r[1] + 1
		s := c.Extract(a, hi, lo)
		switch {
		case op == OBAnd && r[0] == 0:
			s = mkC(0, r[1])
		case op == OBOr && r[0] == 1:
			s = c.BNot(mkC(0, r[1]))
		case op == OBXor && r[0] == 1:
			s = c.BNot(s)
		}
		parts = append(parts, s)
		hi = lo - 1
	}
	return c.Concat(parts...)
}

func (c *TermCtx) bitop(op Op, a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		if a.w <= 64 {
			switch op {
			case OBAnd:
				return mkC(a.val&b.val, int(a.w))
			case OBOr:
				return mkC(a.val|b.val, int(a.w))
			default:
				return mkC(a.val^b.val, int(a.w))
			}
		}
		r := new(big.Int)
		switch op {
		case OBAnd:
			r.And(a.bg, b.bg)
		case OBOr:
			r.Or(a.bg, b.bg)
		default:
			r.Xor(a.bg, b.bg)
		}
		return mkBig(r, int(a.w))
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if b.isZero() {
			if op == OBAnd {
				return b
			}
			return a
		}
		if b.isOnes() {
			switch op {
			case OBAnd:
				return a
			case OBOr:
				return b
			default:
				return c.BNot(a)
			}
		}
		if op != OBXor || a.op == OConcat {
			return c.bitConst(op, a, b)
		}
		if a.op == OBXor && a.args[1].op == OConst {
			return c.bitop(OBXor, a.args[0], c.bitop(OBXor, a.args[1], b))
		}
		return c.intern(op, int(a.w), 0, a, b)
	}
	if sameT(a, b) {
		if op == OBXor {
			return mkC(0, int(a.w))
		}
		return a
	}
	if a.op == OConcat || b.op == OConcat {
		// segment-wise if it helps: some segment const
		cuts := c.cuts(a, b)
		useful := false
		hi := int(a.w) - 1
		for _, lo := range cuts {
			x, y := c.Extract(a, hi, lo), c.Extract(b, hi, lo)
			if x.op == OConst || y.op == OConst {
				useful = true
			}
			hi = lo - 1
		}
		if useful && len(cuts) > 1 {
			hi = int(a.w) - 1
			var parts []*Term
			for _, lo := range cuts {
				x, y := c.Extract(a, hi, lo), c.Extract(b, hi, lo)
				if x.op != OConst && y.op != OConst && (x.op == OConcat || y.op == OConcat) {
					parts = append(parts, c.internBit(op, x, y))
				} else {
					parts = append(parts, c.bitop(op, x, y))
				}
				hi = lo - 1
			}
			return c.Concat(parts...)
		}
	}
	return c.internBit(op, a, b)
}

func (c *TermCtx) internBit(op Op, a, b *Term) *Term {
	if a.id > b.id {
		a, b = b, a
	}
	return c.intern(op, int(a.w), 0, a, b)
}

func (c *TermCtx) BAnd(a, b *Term) *Term { return c.bitop(OBAnd, a, b) }
func (c *TermCtx) BOr(a, b *Term) *Term  { return c.bitop(OBOr, a, b) }
func (c *TermCtx) BXor(a, b *Term) *Term { return c.bitop(OBXor, a, b) }

// ---------- arithmetic

func (c *TermCtx) Neg(a *Term) *Term {
	if a.op == OConst {
		if a.w <= 64 {
			return mkC(^a.val+1, int(a.w))
		}
		return mkBig(new(big.Int).Neg(a.bg), int(a.w))
	}
	if a.op == OBNeg {
		return a.args[0]
	}
	return c.intern(OBNeg, int(a.w), 0, a)
}

func (c *TermCtx) Add(a, b *Term) *Term {
	w := int(a.w)
	if a.op == OConst && b.op == OConst {
		if w <= 64 {
			return mkC(a.val+b.val, w)
		}
		return mkBig(new(big.Int).Add(a.bg, b.bg), w)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if b.isZero() {
			return a
		}
		if a.op == OAdd && a.args[1].op == OConst {
			return c.Add(a.args[0], c.Add(a.args[1], b))
		}
		if a.op == OIte && a.args[1].op == OConst && a.args[2].op == OConst {
			return c.Ite(a.args[0], c.Add(a.args[1], b), c.Add(a.args[2], b))
		}
	} else {
		// (x + k) + y -> (x+y)+k
		if a.op == OAdd && a.args[1].op == OConst {
			return c.Add(c.Add(a.args[0], b), a.args[1])
		}
		if b.op == OAdd && b.args[1].op == OConst {
			return c.Add(c.Add(a, b.args[0]), b.args[1])
		}
		if a.op == OBNeg && a.args[0] == b || b.op == OBNeg && b.args[0] == a {
			return mkC(0, w)
		}
		// (x + -y) + y -> x
		if a.op == OAdd {
			for i := 0; i < 2; i++ {
				if n := a.args[i]; n.op == OBNeg && n.args[0] == b || b.op == OBNeg && b.args[0] == n {
					return a.args[1-i]
				}
			}
		}
		if b.op == OAdd {
			for i := 0; i < 2; i++ {
				if n := b.args[i]; n.op == OBNeg && n.args[0] == a || a.op == OBNeg && a.args[0] == n {
					return b.args[1-i]
				}
			}
		}
	}
	// disjoint bits
	if (a.op == OConcat || b.op == OConcat) && !(a.op == OConcat && b.op != OConcat && b.op != OConst) {
		cuts := c.cuts2(a, b)
		hi := w - 1
		disj := true
		for _, lo := range cuts {
			x, y := c.Extract(a, hi, lo), c.Extract(b, hi, lo)
			if !x.isZero() && !y.isZero() {
				disj = false
				break
			}
			hi = lo - 1
		}
		if disj {
			return c.bitop(OBOr, a, b)
		}
	}
	if b.op != OConst && a.id > b.id {
		a, b = b, a
	}
	return c.intern(OAdd, w, 0, a, b)
}

// cuts2 also splits constants into runs
func (c *TermCtx) cuts2(a, b *Term) []int {
	w := int(a.w)
	m := map[int]bool{}
	addT := func(t *Term) {
		pos := w
		for _, s := range segs(t) {
			if s.op == OConst {
				for _, r := range runs(s) {
					pos -= r[1]
					m[pos] = true
				}
				continue
			}
			pos -= int(s.w)
			m[pos] = true
		}
	}
	addT(a)
	addT(b)
	out := make([]int, 0, len(m))
	for k := w - 1; k >= 0; k-- {
		if m[k] {
			out = append(out, k)
		}
	}
	return out
}

func (c *TermCtx) Sub(a, b *Term) *Term {
	if sameT(a, b) {
		return mkC(0, int(a.w))
	}
	if b.op == OConst {
		return c.Add(a, c.Neg(b))
	}
	return c.Add(a, c.Neg(b))
}

func (c *TermCtx) Mul(a, b *Term) *Term {
	w := int(a.w)
	if a.op == OConst && b.op == OConst {
		if w <= 64 {
			return mkC(a.val*b.val, w)
		}
		return mkBig(new(big.Int).Mul(a.bg, b.bg), w)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if b.isZero() {
			return b
		}
		bv := b.bigVal()
		tz := int(bv.TrailingZeroBits())
		if bv.BitLen() == tz+1 {
			return c.ShlK(a, tz)
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return c.intern(OMul, w, 0, a, b)
}

func (c *TermCtx) UDiv(a, b *Term) *Term {
	w := int(a.w)
	if b.op == OConst && !b.isZero() {
		if a.op == OConst {
			if w <= 64 {
				return mkC(a.val/b.val, w)
			}
			return mkBig(new(big.Int).Div(a.bg, b.bg), w)
		}
		bv := b.bigVal()
		tz := int(bv.TrailingZeroBits())
		if bv.BitLen() == tz+1 {
			return c.LshrK(a, tz)
		}
	}
	return c.intern(OUDiv, w, 0, a, b)
}

func (c *TermCtx) URem(a, b *Term) *Term {
	w := int(a.w)
	if b.op == OConst && !b.isZero() {
		if a.op == OConst {
			if w <= 64 {
				return mkC(a.val%b.val, w)
			}
			return mkBig(new(big.Int).Mod(a.bg, b.bg), w)
		}
		bv := b.bigVal()
		tz := int(bv.TrailingZeroBits())
		if bv.BitLen() == tz+1 {
			if tz == 0 {
				return mkC(0, w)
			}
			return c.Zext(c.Extract(a, tz-1, 0), w)
		}
	}
	return c.intern(OURem, w, 0, a, b)
}

func (c *TermCtx) SDiv(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst && !b.isZero() && a.w <= 64 {
		x, y := sx(a.val, int(a.w)), sx(b.val, int(a.w))
		if y == -1 {
			return mkC(uint64(-x), int(a.w))
		}
		return mkC(uint64(x/y), int(a.w))
	}
	if topZero(a) && topZero(b) {
		return c.UDiv(a, b)
	}
	return c.intern(OSDiv, int(a.w), 0, a, b)
}

func (c *TermCtx) SRem(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst && !b.isZero() && a.w <= 64 {
		x, y := sx(a.val, int(a.w)), sx(b.val, int(a.w))
		if y == -1 {
			return mkC(0, int(a.w))
		}
		return mkC(uint64(x%y), int(a.w))
	}
	if topZero(a) && topZero(b) {
		return c.URem(a, b)
	}
	return c.intern(OSRem, int(a.w), 0, a, b)
}

func (c *TermCtx) ShlK(a *Term, k int) *Term {
	w := int(a.w)
	if k == 0 {
		return a
	}
	if k >= w {
		return mkC(0, w)
	}
	return c.Concat(c.Extract(a, w-1-k, 0), mkC(0, k))
}
func (c *TermCtx) LshrK(a *Term, k int) *Term {
	w := int(a.w)
	if k == 0 {
		return a
	}
	if k >= w {
		return mkC(0, w)
	}
	return c.Concat(mkC(0, k), c.Extract(a, w-1, k))
}
func (c *TermCtx) AshrK(a *Term, k int) *Term {
	w := int(a.w)
	if k == 0 {
		return a
	}
	if k >= w {
		k = w - 1
	}
	return c.Sext(c.Extract(a, w-1, k), w)
}

// Shift with Go semantics; cnt is treated as unsigned.
func (c *TermCtx) Shift(op Op, a, cnt *Term) *Term {
	w := int(a.w)
	if cnt.op == OConst {
		k := w
		if cnt.w > 64 {
			if cnt.bg.IsInt64() && cnt.bg.Int64() < int64(w) {
				k = int(cnt.bg.Int64())
			}
		} else if cnt.val < uint64(w) {
			k = int(cnt.val)
		}
		switch op {
		case OShl:
			return c.ShlK(a, k)
		case OLshr:
			return c.LshrK(a, k)
		default:
			return c.AshrK(a, k)
		}
	}
	// normalise count width
	var big *Term = tFalse
	if int(cnt.w) > w {
		big = c.Not(c.Ult(cnt, mkC(uint64(w), int(cnt.w))))
		cnt = c.Extract(cnt, w-1, 0)
	} else {
		cnt = c.Zext(cnt, w)
	}
	r := c.intern(op, w, 0, a, cnt)
	if big == tFalse {
		return r
	}
	var ov *Term
	if op == OAshr {
		ov = c.AshrK(a, w-1)
	} else {
		ov = mkC(0, w)
	}
	return c.Ite(big, ov, r)
}

// ---------- comparisons

func (c *TermCtx) Ult(a, b *Term) *Term {
	if sameT(a, b) {
		return tFalse
	}
	if a.w <= 64 {
		l1, h1 := urange(a, 5)
		l2, h2 := urange(b, 5)
		if h1 < l2 {
			return tTrue
		}
		if l1 >= h2 {
			return tFalse
		}
	} else if a.op == OConst && b.op == OConst {
		return mkBool(a.bg.Cmp(b.bg) < 0)
	}
	// strip common leading zero segments
	za, zb := leadZeros(a), leadZeros(b)
	z := min(za, zb)
	if z > 0 && z < int(a.w) {
		return c.Ult(c.Extract(a, int(a.w)-1-z, 0), c.Extract(b, int(a.w)-1-z, 0))
	}
	if b.op == OConst && b.w <= 64 && b.val == 1 {
		return c.Eq(a, mkC(0, int(a.w)))
	}
	if a.op == OConst && a.isZero() {
		return c.Not(c.Eq(b, a))
	}
	if a.op == OIte && b.op == OConst && a.args[1].op == OConst && a.args[2].op == OConst {
		return c.Ite(a.args[0], c.Ult(a.args[1], b), c.Ult(a.args[2], b))
	}
	if b.op == OIte && a.op == OConst && b.args[1].op == OConst && b.args[2].op == OConst {
		return c.Ite(b.args[0], c.Ult(a, b.args[1]), c.Ult(a, b.args[2]))
	}
	return c.intern(OUlt, 0, 0, a, b)
}

func leadZeros(t *Term) int {
	switch t.op {
	case OConst:
		if t.w > 64 {
			return int(t.w) - t.bg.BitLen()
		}
		return int(t.w) - bits.Len64(t.val)
	case OConcat:
		n := 0
		for _, s := range t.args {
			z := leadZeros(s)
			n += z
			if z < int(s.w) {
				break
			}
		}
		return n
	}
	return 0
}

func (c *TermCtx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }

func (c *TermCtx) Slt(a, b *Term) *Term {
	if sameT(a, b) {
		return tFalse
	}
	if a.op == OConst && b.op == OConst && a.w <= 64 {
		return mkBool(sx(a.val, int(a.w)) < sx(b.val, int(b.w)))
	}
	ta, tb := topZero(a), topZero(b)
	if ta && tb {
		return c.Ult(a, b)
	}
	// x < 0
	if b.isZero() {
		return c.Eq(c.Extract(a, int(a.w)-1, int(a.w)-1), mkC(1, 1))
	}
	// -1 < x  == x >= 0
	if a.op == OConst && a.isOnes() {
		return c.Eq(c.Extract(b, int(b.w)-1, int(b.w)-1), mkC(0, 1))
	}
	if a.op == OIte && b.op == OConst && a.args[1].op == OConst && a.args[2].op == OConst {
		return c.Ite(a.args[0], c.Slt(a.args[1], b), c.Slt(a.args[2], b))
	}
	if b.op == OIte && a.op == OConst && b.args[1].op == OConst && b.args[2].op == OConst {
		return c.Ite(b.args[0], c.Slt(a, b.args[1]), c.Slt(a, b.args[2]))
	}
	return c.intern(OSlt, 0, 0, a, b)
}
func (c *TermCtx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

// ---------- evaluation under a model

// Model maps variable sequence numbers to constants, so that it can be carried
// over to the re-execution of the same path prefix.
type Model struct {
	m map[int32]*Term
}

func (md *Model) get(v *Term) *Term {
	if md != nil {
		if k, ok := md.m[v.lo]; ok {
			return k
		}
	}
	if v.w == 0 {
		return tFalse
	}
	return mkC(0, int(v.w))
}

type evaluator struct {
	c    *TermCtx
	md   *Model
	memo map[*Term]*Term
}

func (c *TermCtx) Eval(t *Term, md *Model) *Term {
	e := evaluator{c, md, map[*Term]*Term{}}
	return e.eval(t)
}

func (e *evaluator) eval(t *Term) *Term {
	if t.op == OConst {
		return t
	}
	if t.op == OVar {
		return e.md.get(t)
	}
	if r, ok := e.memo[t]; ok {
		return r
	}
	c := e.c
	var r *Term
	switch t.op {
	case OAnd:
		r = tTrue
		for _, a := range t.args {
			if e.eval(a).val == 0 {
				r = tFalse
				break
			}
		}
	case OOr:
		r = tFalse
		for _, a := range t.args {
			if e.eval(a).val != 0 {
				r = tTrue
				break
			}
		}
	case OIte:
		if e.eval(t.args[0]).val != 0 {
			r = e.eval(t.args[1])
		} else {
			r = e.eval(t.args[2])
		}
	default:
		xs := make([]*Term, len(t.args))
		for i, a := range t.args {
			xs[i] = e.eval(a)
		}
		switch t.op {
		case ONot:
			r = c.Not(xs[0])
		case OEq:
			r = mkBool(sameT(xs[0], xs[1]))
		case OBNot:
			r = c.BNot(xs[0])
		case OBNeg:
			r = c.Neg(xs[0])
		case OBAnd, OBOr, OBXor:
			r = c.bitop(t.op, xs[0], xs[1])
		case OAdd:
			r = c.Add(xs[0], xs[1])
		case OMul:
			r = c.Mul(xs[0], xs[1])
		case OUDiv:
			if xs[1].isZero() {
				r = c.BNot(mkC(0, int(t.w)))
			} else {
				r = c.UDiv(xs[0], xs[1])
			}
		case OURem:
			if xs[1].isZero() {
				r = xs[0]
			} else {
				r = c.URem(xs[0], xs[1])
			}
		case OSDiv:
			if xs[1].isZero() {
				if sx(xs[0].val, int(t.w)) < 0 {
					r = mkC(1, int(t.w))
				} else {
					r = mkC(^uint64(0), int(t.w))
				}
			} else {
				r = c.SDiv(xs[0], xs[1])
			}
		case OSRem:
			if xs[1].isZero() {
				r = xs[0]
			} else {
				r = c.SRem(xs[0], xs[1])
			}
		case OShl, OLshr, OAshr:
			r = c.Shift(t.op, xs[0], xs[1])
		case OUlt:
			r = c.Ult(xs[0], xs[1])
		case OUle:
			r = c.Ule(xs[0], xs[1])
		case OSlt:
			r = c.Slt(xs[0], xs[1])
		case OSle:
			r = c.Sle(xs[0], xs[1])
		case OConcat:
			r = c.Concat(xs...)
		case OExtract:
			r = c.Extract(xs[0], int(t.lo)+int(t.w)-1, int(t.lo))
		case OSext:
			r = c.Sext(xs[0], int(t.w))
		default:
			panic("eval op")
		}
	}
	if r.op != OConst {
		panic(fmt.Sprintf("eval: non-const result for op %d", t.op))
	}
	e.memo[t] = r
	return r
}

// ---------- printing

func constSMT(t *Term) string {
	if t.w == 0 {
		if t.val != 0 {
			return "true"
		}
		return "false"
	}
	if t.w%4 == 0 {
		s := t.bigVal().Text(16)
		return "#x" + strings.Repeat("0", int(t.w)/4-len(s)) + s
	}
	s := t.bigVal().Text(2)
	return "#b" + strings.Repeat("0", int(t.w)-len(s)) + s
}

func sortSMT(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (t *Term) ref() string {
	if t.op == OConst {
		return constSMT(t)
	}
	if t.op == OVar {
		return fmt.Sprintf("v%d", t.id)
	}
	return fmt.Sprintf("t%d", t.id)
}

func (t *Term) body() string {
	var sb strings.Builder
	switch t.op {
	case OExtract:
		fmt.Fprintf(&sb, "((_ extract %d %d) %s)", int(t.lo)+int(t.w)-1, t.lo, t.args[0].ref())
	case OSext:
		fmt.Fprintf(&sb, "((_ sign_extend %d) %s)", t.w-t.args[0].w, t.args[0].ref())
	default:
		sb.WriteString("(" + opNames[t.op])
		for _, a := range t.args {
			sb.WriteByte(' ')
			sb.WriteString(a.ref())
		}
		sb.WriteByte(')')
	}
	return sb.String()
}

func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	if t.op == OConst {
		return constSMT(t)
	}
	if t.op == OVar {
		return t.name
	}
	if d == 0 {
		return "…"
	}
	var sb strings.Builder
	if t.op == OExtract {
		fmt.Fprintf(&sb, "%s[%d:%d]", t.args[0].str(d-1), int(t.lo)+int(t.w)-1, t.lo)
		return sb.String()
	}
	nm := opNames[t.op]
	if t.op == OSext {
		nm = "sext"
	}
	sb.WriteString("(" + nm)
	for _, a := range t.args {
		sb.WriteString(" " + a.str(d-1))
	}
	sb.WriteString(")")
	return sb.String()
}
