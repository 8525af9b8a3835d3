package codec

import (
	"bytes"

	zzv "github.com/icon-project/btp/common/zzv"
)

var zzLens = []int{0, 1, 2, 3, 54, 55, 56, 57, 255, 256, 257}

func zzLen(n string) int { return zzLens[zzv.Choose(n, 0, len(zzLens)-1)] }

// zzRef is an independent RLP reference: header for a byte string payload.
func zzRefBytes(b []byte) []byte {
	l := len(b)
	if l == 1 && b[0] < 0x80 {
		return []byte{b[0]}
	}
	return append(zzRefHead(0x80, l), b...)
}

func zzRefHead(base byte, l int) []byte {
	if l <= 55 {
		return []byte{base + byte(l)}
	}
	var sz []byte
	for x := l; x > 0; x >>= 8 {
		sz = append([]byte{byte(x)}, sz...)
	}
	return append([]byte{base + 55 + byte(len(sz))}, sz...)
}

func zzRefList(items ...[]byte) []byte {
	var body []byte
	for _, i := range items {
		body = append(body, i...)
	}
	return append(zzRefHead(0xc0, len(body)), body...)
}

// zzRefUint is the shortest two's complement form of a non-negative number.
func zzRefUint(v uint64) []byte {
	var full [9]byte
	for k := 8; k > 0; k-- {
		full[k] = byte(v)
		v >>= 8
	}
	i := 0
	for i < 8 && full[i] == 0 && full[i+1] < 0x80 {
		i++
	}
	return full[i:]
}

func zzRefInt(v int64) []byte {
	var full [8]byte
	for k := 7; k >= 0; k-- {
		full[k] = byte(v)
		v >>= 8
	}
	i := 0
	for i < 7 && (full[i] == 0 && full[i+1] < 0x80 || full[i] == 0xff && full[i+1] >= 0x80) {
		i++
	}
	return full[i:]
}

func zzEnc(v interface{}) []byte {
	bs, err := RLP.MarshalToBytes(v)
	zzv.Assert(err == nil, "encoding a supported value succeeds")
	return bs
}

// zzDec decodes bs followed by one sentinel byte and checks that exactly the
// value's own bytes were consumed.
func zzDec(bs []byte, v interface{}) {
	tail := zzv.U8("tail")
	in := append(append([]byte{}, bs...), tail)
	rest, err := RLP.UnmarshalFromBytes(in, v)
	zzv.Assert(err == nil, "decoding an encoded value succeeds")
	zzv.Assert(len(rest) == 1 && rest[0] == tail, "decoding consumes exactly the encoded value")
}

func VH_C01_uints() {
	v := zzv.U64("v")
	switch zzv.Choose("w", 0, 4) {
	case 0:
		bs := zzEnc(v)
		zzv.Assert(bytes.Equal(bs, zzRefBytes(zzRefUint(v))), "uint64 encodes as RLP of its shortest big-endian form")
		var r uint64
		zzDec(bs, &r)
		zzv.Assert(r == v, "uint64 round-trips")
	case 1:
		x := uint32(v)
		var r uint32
		zzDec(zzEnc(x), &r)
		zzv.Assert(r == x, "uint32 round-trips")
	case 2:
		x := uint16(v)
		var r uint16
		zzDec(zzEnc(x), &r)
		zzv.Assert(r == x, "uint16 round-trips")
	case 3:
		x := uint8(v)
		var r uint8
		zzDec(zzEnc(x), &r)
		zzv.Assert(r == x, "uint8 round-trips")
	case 4:
		x := uint(v)
		var r uint
		zzDec(zzEnc(x), &r)
		zzv.Assert(r == x, "uint round-trips")
	}
	zzv.Reach("uints")
}

func VH_C01_ints() {
	v := zzv.I64("v")
	switch zzv.Choose("w", 0, 4) {
	case 0:
		bs := zzEnc(v)
		zzv.Assert(bytes.Equal(bs, zzRefBytes(zzRefInt(v))), "int64 encodes as RLP of its shortest two's complement form")
		var r int64
		zzDec(bs, &r)
		zzv.Assert(r == v, "int64 round-trips")
	case 1:
		x := int32(v)
		var r int32
		zzDec(zzEnc(x), &r)
		zzv.Assert(r == x, "int32 round-trips")
	case 2:
		x := int16(v)
		var r int16
		zzDec(zzEnc(x), &r)
		zzv.Assert(r == x, "int16 round-trips")
	case 3:
		x := int8(v)
		var r int8
		zzDec(zzEnc(x), &r)
		zzv.Assert(r == x, "int8 round-trips")
	case 4:
		x := int(v)
		var r int
		zzDec(zzEnc(x), &r)
		zzv.Assert(r == x, "int round-trips")
	}
	zzv.Reach("ints")
}

func VH_C01_bool_and_string() {
	b := zzv.Bool("b")
	var rb bool
	zzDec(zzEnc(b), &rb)
	zzv.Assert(rb == b, "bool round-trips")
	zzv.Bound("string.len", "0..3, 54..57, 255..257 bytes, all contents")
	s := zzv.Str("s", zzLen("n"))
	bs := zzEnc(s)
	zzv.Assert(bytes.Equal(bs, zzRefBytes([]byte(s))), "string encodes as an RLP byte string")
	rs := "stale"
	zzDec(bs, &rs)
	zzv.Assert(rs == s, "string round-trips")
	zzv.Reach("string")
}

func VH_C01_bytes() {
	b := zzv.Bytes("b", zzLen("n"))
	bs := zzEnc(b)
	zzv.Assert(bytes.Equal(bs, zzRefBytes(b)), "bytes encode as an RLP byte string")
	r := []byte{9, 9}
	zzDec(bs, &r)
	zzv.Assert(r != nil && bytes.Equal(r, b), "bytes round-trip")
	zzv.Reach("bytes")
}

func VH_C01_nil_vs_empty() {
	r := []byte{9, 9}
	var nb []byte
	e := zzEnc(nb)
	zzv.Assert(bytes.Equal(e, []byte{0xf8, 0}), "nil bytes encode as the null sequence")
	zzDec(e, &r)
	zzv.Assert(r == nil, "nil bytes round-trip to nil, not to empty")
	r = []byte{9}
	zzDec(zzEnc([]byte{}), &r)
	zzv.Assert(r != nil && len(r) == 0, "empty bytes round-trip to empty, not to nil")
	type box struct {
		A []uint16
		B *uint32
		C []byte
		D map[string]uint8
	}
	o := box{A: []uint16{1}, B: new(uint32), C: []byte{1}, D: map[string]uint8{"x": 1}}
	zzDec(zzEnc(&box{}), &o)
	zzv.Assert(o.A == nil && o.B == nil && o.C == nil && o.D == nil, "nil slice, pointer, bytes and map round-trip to nil inside a struct")
	zzDec(zzEnc(&box{A: []uint16{}, C: []byte{}, D: map[string]uint8{}}), &o)
	zzv.Assert(o.A != nil && len(o.A) == 0 && o.B == nil && o.C != nil && len(o.C) == 0 && o.D != nil && len(o.D) == 0, "empty slice, bytes and map stay distinct from nil")
	zzv.Reach("nil")
}

type zzInner struct {
	X int32
	S string
	P *int64
}
type zzOuter struct {
	A  uint16
	B  []byte
	In zzInner
	L  []zzInner
	Q  *zzInner
	Z  [3]byte
	E  bool
}

func zzInnerVal(tag string) zzInner {
	in := zzInner{X: int32(zzv.I16(tag + ".X")), S: zzv.Str(tag+".S", zzv.Choose(tag+".n", 0, 2))}
	if zzv.Choose(tag+".p", 0, 1) == 1 {
		p := zzv.I64(tag + ".P")
		zzv.Assume(p >= -128 && p < 128)
		in.P = &p
	}
	return in
}

func zzInnerEq(a, b zzInner) bool {
	if a.X != b.X || a.S != b.S || (a.P == nil) != (b.P == nil) {
		return false
	}
	return a.P == nil || *a.P == *b.P
}

func VH_C01_struct() {
	zzv.Bound("struct", "nested struct of 7 fields, inner strings <= 2 bytes, inner list <= 1")
	o := zzOuter{A: uint16(zzv.U8("A")), B: zzv.Bytes("B", zzv.Choose("nb", 0, 2)), E: zzv.Bool("E"), In: zzInner{X: int32(zzv.I8("X")), S: "s"}}
	copy(o.Z[:], zzv.Bytes("Z", 3))
	zzv.Bound("struct.values", "narrow integer ranges: widths are covered by the scalar harnesses")
	if zzv.Choose("nl", 0, 1) == 1 {
		o.L = []zzInner{zzInnerVal("l")}
	}
	if zzv.Choose("nq", 0, 1) == 1 {
		o.Q = &zzInner{S: zzv.Str("q", 1)}
	}
	var r zzOuter
	zzDec(zzEnc(&o), &r)
	zzv.Assert(r.A == o.A && bytes.Equal(r.B, o.B) && r.E == o.E && r.Z == o.Z, "scalar fields round-trip")
	zzv.Assert(zzInnerEq(r.In, o.In), "nested struct round-trips")
	zzv.Assert((r.L == nil) == (o.L == nil) && len(r.L) == len(o.L), "list of structs keeps its length")
	for k := range o.L {
		zzv.Assert(zzInnerEq(r.L[k], o.L[k]), "list of structs round-trips")
	}
	zzv.Assert((r.Q == nil) == (o.Q == nil), "pointer nil-ness round-trips")
	if o.Q != nil {
		zzv.Assert(zzInnerEq(*r.Q, *o.Q), "pointed struct round-trips")
	}
	zzv.Reach("struct")
}

// Lists of every length across the decoder's growth steps and the 55/56 byte
// payload boundary.
func VH_C01_lists() {
	max := 60
	if zzv.Thorough() {
		max = 300
	}
	n := zzv.Choose("n", 0, max)
	zzv.Bound("list.len", "0..60 quick, 0..300 thorough")
	l := make([]uint8, 0)
	_ = l
	s := make([]int8, n)
	items := make([][]byte, n)
	for k := range s {
		s[k] = int8(k % 3)
		items[k] = []byte{byte(k % 3)}
	}
	if n > 0 {
		v := zzv.I8("v")
		zzv.Assume(v >= 0)
		s[n-1] = v
		items[n-1] = []byte{byte(v)}
	}
	bs := zzEnc(s)
	zzv.Assert(bytes.Equal(bs, zzRefList(items...)), "list encoding matches the RLP list format")
	var r []int8
	zzDec(bs, &r)
	zzv.Assert(len(r) == n, "list keeps its length")
	for k := range s {
		zzv.Assert(r[k] == s[k], "list keeps its elements in order")
	}
	zzv.Reach("list")
}

func VH_C01_list_of_bytes() {
	n := zzv.Choose("n", 0, 3)
	var l [][]byte
	items := make([][]byte, n)
	for k := 0; k < n; k++ {
		b := zzv.Bytes("e", zzLens[zzv.Choose("len", 0, 6)])
		l = append(l, b)
		items[k] = zzRefBytes(b)
	}
	if n == 0 {
		l = [][]byte{}
	}
	bs := zzEnc(l)
	zzv.Assert(bytes.Equal(bs, zzRefList(items...)), "list of byte strings matches the RLP format")
	var r [][]byte
	zzDec(bs, &r)
	zzv.Assert(len(r) == n, "list of byte strings keeps its length")
	for k := range l {
		zzv.Assert(bytes.Equal(r[k], l[k]), "list of byte strings round-trips")
	}
	zzv.Reach("lob")
}

// Maps round-trip and are encoded in key order whatever order the runtime
// iterates them in.
func VH_C01_map_order() {
	zzv.MapOrder(true)
	max := 2
	if zzv.Thorough() {
		max = 3
	}
	n := zzv.Choose("n", 0, max)
	type kv struct{ k, v []byte }
	var ref []kv
	check := func(bs []byte) {
		var items [][]byte
		for _, e := range ref {
			items = append(items, zzRefBytes(e.k), zzRefBytes(e.v))
		}
		zzv.Assert(bytes.Equal(bs, zzRefList(items...)), "a map is encoded in the order of its keys, whatever order it is iterated in")
	}
	// insert keeps the reference in the order given by less.
	insert := func(pos int, same bool, k, v []byte) {
		if same {
			ref[pos].v = v
			return
		}
		ref = append(ref, kv{})
		copy(ref[pos+1:], ref[pos:])
		ref[pos] = kv{k, v}
	}
	switch zzv.Choose("kind", 0, 2) {
	case 0:
		m := map[int16]uint8{}
		var ks []int16
		for i := 0; i < n; i++ {
			k, v := zzv.I16("k"), zzv.U8("v")
			zzv.Assume(k >= -200 && k <= 200)
			m[k] = v
			pos := 0
			for pos < len(ks) && ks[pos] < k {
				pos++
			}
			same := pos < len(ks) && ks[pos] == k
			insert(pos, same, zzRefInt(int64(k)), zzRefUint(uint64(v)))
			if !same {
				ks = append(ks, 0)
				copy(ks[pos+1:], ks[pos:])
				ks[pos] = k
			}
		}
		bs := zzEnc(m)
		check(bs)
		var r map[int16]uint8
		zzDec(bs, &r)
		zzv.Assert(len(r) == len(m), "map keeps its size")
		for k, v := range m {
			x, ok := r[k]
			zzv.Assert(ok && x == v, "map round-trips")
		}
		zzv.Reach("int keys")
	case 1:
		m := map[uint16]string{}
		var ks []uint16
		for i := 0; i < n; i++ {
			k, v := zzv.U16("k"), zzv.Str("v", 1)
			zzv.Assume(k <= 300)
			m[k] = v
			pos := 0
			for pos < len(ks) && ks[pos] < k {
				pos++
			}
			same := pos < len(ks) && ks[pos] == k
			insert(pos, same, zzRefUint(uint64(k)), []byte(v))
			if !same {
				ks = append(ks, 0)
				copy(ks[pos+1:], ks[pos:])
				ks[pos] = k
			}
		}
		bs := zzEnc(m)
		check(bs)
		var r map[uint16]string
		zzDec(bs, &r)
		zzv.Assert(len(r) == len(m), "map keeps its size")
		for k, v := range m {
			x, ok := r[k]
			zzv.Assert(ok && x == v, "map round-trips")
		}
		zzv.Reach("uint keys")
	case 2:
		m := map[string]int8{}
		var ks []string
		for i := 0; i < n; i++ {
			k, v := zzv.Str("k", zzv.Choose("kl", 0, 2)), zzv.I8("v")
			m[k] = v
			pos := 0
			for pos < len(ks) && ks[pos] < k {
				pos++
			}
			same := pos < len(ks) && ks[pos] == k
			insert(pos, same, []byte(k), zzRefInt(int64(v)))
			if !same {
				ks = append(ks, "")
				copy(ks[pos+1:], ks[pos:])
				ks[pos] = k
			}
		}
		bs := zzEnc(m)
		check(bs)
		var r map[string]int8
		zzDec(bs, &r)
		zzv.Assert(len(r) == len(m), "map keeps its size")
		for k, v := range m {
			x, ok := r[k]
			zzv.Assert(ok && x == v, "map round-trips")
		}
		zzv.Reach("string keys")
	}
}

// zzRaw takes part in the encoding with bytes of its own.
type zzRaw struct{ b []byte }

func (r *zzRaw) MarshalRLP() ([]byte, error)  { return r.b, nil }
func (r *zzRaw) UnmarshalRLP(b []byte) error  { r.b = append([]byte{}, b...); return nil }

// A value that encodes itself gets back exactly its encoding, of whatever kind
// and length it is.
func VH_C01_raw() {
	var item []byte
	l := zzLens[zzv.Choose("len", 0, len(zzLens)-1)]
	switch zzv.Choose("kind", 0, 2) {
	case 0:
		item = zzRefBytes(zzv.Bytes("b", l))
	case 1:
		item = zzRefList(zzRefBytes(zzv.Bytes("b", l)))
	case 2:
		item = zzRefList()
	}
	type box struct {
		A uint8
		R zzRaw
		B uint8
	}
	o := box{zzv.U8("a"), zzRaw{item}, zzv.U8("b")}
	bs := zzEnc(&o)
	zzv.Assert(bytes.Equal(bs, zzRefList(zzRefBytes(zzRefUint(uint64(o.A))), item, zzRefBytes(zzRefUint(uint64(o.B))))), "the bytes of a value that encodes itself are part of the encoding")
	var r box
	zzDec(bs, &r)
	zzv.Assert(r.A == o.A && r.B == o.B && bytes.Equal(r.R.b, item), "a value that encodes itself gets its encoding back")
	zzv.Reach("raw")
}

// A list with more items than the receiver has fields is consumed whole, with
// fewer leaves the rest as it was.
func VH_C01_versions() {
	type v1 struct {
		A uint8
		B []byte
	}
	type v2 struct {
		A uint8
		B []byte
		C []uint16
		D string
		E uint8
	}
	a, b := zzv.U8("a"), zzv.Bytes("b", zzv.Choose("bl", 0, 2))
	n := v2{A: a, B: b, C: []uint16{uint16(zzv.U8("c")), 300}, D: zzv.Str("d", zzv.Choose("dl", 0, 2)), E: zzv.U8("e")}
	var o v1
	zzDec(zzEnc(&n), &o)
	zzv.Assert(o.A == a && bytes.Equal(o.B, b), "an older receiver reads the fields it knows")
	bx := []v1{}
	zzDec(zzEnc([]v2{n, n}), &bx)
	zzv.Assert(len(bx) == 2 && bx[1].A == a && bytes.Equal(bx[1].B, b), "an older receiver reads the fields it knows in a list")
	m := v2{D: "keep", E: 9}
	zzDec(zzEnc(&o), &m)
	zzv.Assert(m.A == a && bytes.Equal(m.B, b) && m.D == "keep" && m.E == 9, "a newer receiver reads the fields there are")
	zzv.Reach("versions")
}

func VH_C01_multi() {
	a, b := zzv.U16("a"), zzv.Bytes("b", zzv.Choose("n", 0, 2))
	c := zzv.I32("c")
	buf := bytes.NewBuffer(nil)
	e := RLP.NewEncoder(buf)
	zzv.Assert(e.Encode(a) == nil, "encode first")
	ee := e.(Encoder)
	zzv.Assert(ee.EncodeListOf(b, c) == nil, "encode list")
	zzv.Assert(ee.EncodeMulti(c, b) == nil, "encode multi")
	zzv.Assert(bytes.Equal(buf.Bytes(), append(append(append(zzRefBytes(zzRefUint(uint64(a))), zzRefList(zzRefBytes(b), zzRefBytes(zzRefInt(int64(c))))...),
		zzRefBytes(zzRefInt(int64(c)))...), zzRefBytes(b)...)), "a sequence of values is the concatenation of their encodings")
	d := RLP.NewDecoder(bytes.NewReader(buf.Bytes())).(Decoder)
	var ra uint16
	var rb, rb2 []byte
	var rc, rc2 int32
	zzv.Assert(d.Decode(&ra) == nil && ra == a, "first value")
	zzv.Assert(d.DecodeListOf(&rb, &rc) == nil && bytes.Equal(rb, b) && rc == c, "list value")
	k, err := d.DecodeMulti(&rc2, &rb2)
	zzv.Assert(err == nil && k == 2 && rc2 == c && bytes.Equal(rb2, b), "multi values")
	zzv.Reach("multi")
}
