package codec

import (
	"bytes"

	zzv "github.com/icon-project/btp/common/zzv"
)

type zzD struct {
	A uint16
	B []byte
	C []int8
	D *zzD
	E [2]byte
	S string
}

// Arbitrary bytes, arbitrary target type: decoding returns (value or error).
func VH_C02_decode_any() {
	max := 4
	if zzv.Thorough() {
		max = 5
	}
	zzv.Bound("input", "<=4 bytes quick, <=5 thorough, all contents, 10 target types")
	zzv.LenCap(8)
	n := zzv.Choose("n", 0, max)
	in := zzv.Bytes("in", n)
	var v interface{}
	switch zzv.Choose("type", 0, 9) {
	case 0:
		v = new(uint64)
	case 1:
		v = new(int8)
	case 2:
		v = new(string)
	case 3:
		v = new([]byte)
	case 4:
		v = new([]uint16)
	case 5:
		v = new(map[string]uint8)
	case 6:
		v = new(zzD)
	case 7:
		v = new([3]byte)
	case 8:
		v = new(*zzD)
	case 9:
		v = new([][]byte)
	}
	keep := append([]byte{}, in...)
	rest, err := RLP.UnmarshalFromBytes(in, v)
	zzv.Assert(bytes.Equal(keep, in), "decoding does not modify its input")
	if err == nil {
		zzv.Assert(len(rest) <= n && bytes.Equal(rest, keep[n-len(rest):]), "the remainder is the unread suffix of the input")
		zzv.Assert(n == 0 || len(rest) < n, "a successful decode consumes at least one byte")
		zzv.Reach("decoded")
	} else {
		zzv.Reach("rejected")
	}
}

// Long-form headers with an arbitrary 1..8 byte length, for every header byte.
func VH_C02_long_header() {
	zzv.LenCap(8)
	h := zzv.U8("h")
	zzv.Assume(h >= 0xb8)
	k := int(h) - 0xb7
	if h >= 0xf8 {
		k = int(h) - 0xf7
	}
	zzv.Assume(h < 0xc0 || h >= 0xf8)
	extra := zzv.Choose("extra", 0, 2)
	in := append([]byte{h}, zzv.Bytes("len", k)...)
	in = append(in, zzv.Bytes("body", extra)...)
	var size uint64
	for _, b := range in[1 : 1+k] {
		size = size<<8 | uint64(b)
	}
	var err error
	var got []byte
	islist := h >= 0xf8
	op := zzv.Choose("op", 0, 3)
	r := &rlpReader{reader: bytes.NewReader(in)}
	switch op {
	case 0:
		got, err = r.ReadBytes()
	case 1:
		got, err = r.ReadRaw()
	case 2:
		err = r.Skip(1)
	case 3:
		_, err = RLP.UnmarshalFromBytes(in, new([]uint8))
		got = nil
	}
	if err == nil && op != 3 {
		zzv.Assert(size <= uint64(extra), "a length running past the input is rejected")
		if op == 0 {
			zzv.Assert(!islist && bytes.Equal(got, in[1+k:1+k+int(size)]), "the body is returned as written")
		}
		if op == 1 {
			zzv.Assert(bytes.Equal(got, in[:1+k+int(size)]), "the raw item is returned as written")
		}
		zzv.Reach("accepted")
	}
	zzv.Reach("done")
}

func VH_C02_short_forms() {
	n := zzv.Choose("n", 1, 4)
	in := zzv.Bytes("in", n)
	zzv.Assume(in[0] < 0xb8 || (in[0] >= 0xc0 && in[0] < 0xf8))
	r := &rlpReader{reader: bytes.NewReader(in)}
	body := 0
	hdr := 1
	switch {
	case in[0] < 0x80:
		hdr, body = 0, 1
	case in[0] < 0xb8:
		body = int(in[0]) - 0x80
	default:
		body = int(in[0]) - 0xc0
	}
	if zzv.Choose("op", 0, 1) == 0 {
		b, err := r.ReadBytes()
		if in[0] < 0xb8 && hdr+body <= n {
			zzv.Assert(err == nil && bytes.Equal(b, in[hdr:hdr+body]), "short byte string is read as written")
			zzv.Reach("bytes")
		} else {
			zzv.Assert(err != nil, "a list or a truncated string is rejected")
			zzv.Reach("reject")
		}
	} else {
		b, err := r.ReadRaw()
		if hdr+body <= n {
			zzv.Assert(err == nil && bytes.Equal(b, in[:hdr+body]), "short raw item is read as written")
			zzv.Reach("raw")
		} else {
			zzv.Assert(err != nil, "a truncated item is rejected")
		}
	}
}

// A truncated encoding never decodes to a wrong scalar.
func VH_C02_truncated() {
	v := zzv.U64("v")
	bs, err := RLP.MarshalToBytes(v)
	zzv.Assume(err == nil)
	cut := zzv.Choose("cut", 0, 8)
	zzv.Assume(cut < len(bs))
	var r uint64
	_, err = RLP.UnmarshalFromBytes(bs[:cut], &r)
	zzv.Assert(err != nil, "a truncated number is rejected")
	b := zzv.Bytes("b", 60)
	bs, err = RLP.MarshalToBytes(b)
	zzv.Assume(err == nil)
	cut2 := zzv.Choose("cut2", 0, 61)
	_, err = RLP.UnmarshalFromBytes(bs[:cut2], &b)
	zzv.Assert(err != nil, "a truncated byte string is rejected")
	zzv.Reach("trunc")
}
