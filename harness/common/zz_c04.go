package common

import (
	"encoding/json"
	"math/big"

	"github.com/icon-project/btp/common/codec"
	zzv "github.com/icon-project/btp/common/zzv"
)

func zzLowerHex(s string) bool {
	ok := true
	for i := 0; i < len(s); i++ {
		ok = zzv.And(ok, zzv.Or(zzv.And(s[i] >= '0', s[i] <= '9'), zzv.And(s[i] >= 'a', s[i] <= 'f')))
	}
	return ok
}

// zzNumForm: a quoted minimal lower-case 0x string, with a sign if negative.
func zzNumForm(bs []byte) bool {
	s := string(bs)
	if len(s) < 5 || s[0] != '"' || s[len(s)-1] != '"' {
		return false
	}
	s = s[1 : len(s)-1]
	if s[0] == '-' {
		s = s[1:]
	}
	if len(s) < 3 || s[:2] != "0x" {
		return false
	}
	s = s[2:]
	return zzv.And(zzLowerHex(s), len(s) == 1 || s[0] != '0')
}

func VH_C04_hexint64() {
	a, b := HexInt64{zzv.I64("v")}, HexInt64{zzv.I64("old")}
	bs, err := json.Marshal(a)
	zzv.Assert(err == nil && zzNumForm(bs), "an integer marshals to a minimal 0x string")
	zzv.Assert(json.Unmarshal(bs, &b) == nil && b.Value == a.Value, "an int64 is recovered from its JSON form")
	var c HexInt64
	rb, err := codec.RLP.MarshalToBytes(&a)
	zzv.Assert(err == nil, "an int64 has an RLP form")
	_, err = codec.RLP.UnmarshalFromBytes(rb, &c)
	zzv.Assert(err == nil && c.Value == a.Value, "an int64 is recovered from its RLP form")
	zzv.Reach("int64")
}

func VH_C04_hexuint64() {
	a, b := HexUint64{zzv.U64("v")}, HexUint64{zzv.U64("old")}
	bs, err := json.Marshal(a)
	zzv.Assert(err == nil && zzNumForm(bs), "an integer marshals to a minimal 0x string")
	zzv.Assert(json.Unmarshal(bs, &b) == nil && b.Value == a.Value, "a uint64 is recovered from its JSON form")
	var c HexUint64
	rb, err := codec.RLP.MarshalToBytes(&a)
	zzv.Assert(err == nil, "a uint64 has an RLP form")
	_, err = codec.RLP.UnmarshalFromBytes(rb, &c)
	zzv.Assert(err == nil && c.Value == a.Value, "a uint64 is recovered from its RLP form")
	zzv.Reach("uint64")
}

func VH_C04_hexint32_16() {
	a, b := HexInt32{zzv.I32("v")}, HexInt32{}
	bs, err := json.Marshal(a)
	zzv.Assert(err == nil && zzNumForm(bs), "an integer marshals to a minimal 0x string")
	zzv.Assert(json.Unmarshal(bs, &b) == nil && b.Value == a.Value, "an int32 is recovered from its JSON form")
	rb, err := codec.RLP.MarshalToBytes(&a)
	zzv.Assert(err == nil, "an int32 has an RLP form")
	var c HexInt32
	_, err = codec.RLP.UnmarshalFromBytes(rb, &c)
	zzv.Assert(err == nil && c.Value == a.Value, "an int32 is recovered from its RLP form")

	d, e := HexInt16{zzv.I16("w")}, HexInt16{}
	bs, err = json.Marshal(d)
	zzv.Assert(err == nil && zzNumForm(bs), "an integer marshals to a minimal 0x string")
	zzv.Assert(json.Unmarshal(bs, &e) == nil && e.Value == d.Value, "an int16 is recovered from its JSON form")
	rb, err = codec.RLP.MarshalToBytes(&d)
	zzv.Assert(err == nil, "an int16 has an RLP form")
	var f HexInt16
	_, err = codec.RLP.UnmarshalFromBytes(rb, &f)
	zzv.Assert(err == nil && f.Value == d.Value, "an int16 is recovered from its RLP form")
	zzv.Reach("int32")
}

func VH_C04_hexuint32_16() {
	a, b := HexUint32{zzv.U32("v")}, HexUint32{}
	bs, err := json.Marshal(a)
	zzv.Assert(err == nil && zzNumForm(bs), "an integer marshals to a minimal 0x string")
	zzv.Assert(json.Unmarshal(bs, &b) == nil && b.Value == a.Value, "a uint32 is recovered from its JSON form")
	rb, err := codec.RLP.MarshalToBytes(&a)
	zzv.Assert(err == nil, "a uint32 has an RLP form")
	var c HexUint32
	_, err = codec.RLP.UnmarshalFromBytes(rb, &c)
	zzv.Assert(err == nil && c.Value == a.Value, "a uint32 is recovered from its RLP form")

	d, e := HexUint16{zzv.U16("w")}, HexUint16{}
	bs, err = json.Marshal(d)
	zzv.Assert(err == nil && zzNumForm(bs), "an integer marshals to a minimal 0x string")
	zzv.Assert(json.Unmarshal(bs, &e) == nil && e.Value == d.Value, "a uint16 is recovered from its JSON form")
	rb, err = codec.RLP.MarshalToBytes(&d)
	zzv.Assert(err == nil, "a uint16 has an RLP form")
	var f HexUint16
	_, err = codec.RLP.UnmarshalFromBytes(rb, &f)
	zzv.Assert(err == nil && f.Value == d.Value, "a uint16 is recovered from its RLP form")
	zzv.Reach("uint32")
}

func VH_C04_hexint_big() {
	mx := 4
	if zzv.Thorough() {
		mx = 9
	}
	n := zzv.Choose("n", 0, mx)
	a := new(HexInt)
	a.Int.SetBytes(zzv.Bytes("m", n))
	if zzv.Bool("neg") {
		a.Int.Neg(&a.Int)
	}
	bs, err := json.Marshal(a)
	zzv.Assert(err == nil && zzNumForm(bs), "a big integer marshals to a minimal 0x string")
	b := NewHexInt(zzv.I64("old"))
	zzv.Assert(json.Unmarshal(bs, b) == nil && b.Cmp(&a.Int) == 0, "a big integer is recovered from its JSON form")
	c := NewHexInt(7)
	c.SetBytes(a.Bytes())
	zzv.Assert(c.Cmp(&a.Int) == 0, "a big integer is recovered from its bytes")
	d := a.Clone()
	zzv.Assert(d.Cmp(&a.Int) == 0, "a clone is equal")
	d.Add(&d.Int, big.NewInt(1))
	zzv.Assert(d.Cmp(&a.Int) != 0, "a clone is independent")
	rb, err := codec.RLP.MarshalToBytes(a)
	zzv.Assert(err == nil, "a big integer has an RLP form")
	f := new(HexInt)
	_, err = codec.RLP.UnmarshalFromBytes(rb, f)
	zzv.Assert(err == nil && f.Cmp(&a.Int) == 0, "a big integer is recovered from its RLP form")
	zzv.Reach("big")
}

func VH_C04_hexbytes() {
	n := zzv.Choose("n", -1, 5)
	var in []byte
	if n >= 0 {
		in = zzv.Bytes("b", n)
	}
	bs, err := json.Marshal(HexBytes(in))
	zzv.Assert(err == nil, "bytes have a JSON form")
	out := HexBytes(zzv.Bytes("old", 3))
	zzv.Assert(json.Unmarshal(bs, &out) == nil, "the JSON form of bytes is accepted")
	zzv.Assert((out == nil) == (in == nil) && zzv.BytesEq(out, in), "bytes are recovered from their JSON form")
	bs, err = json.Marshal(RawHexBytes(in))
	zzv.Assert(err == nil, "raw bytes have a JSON form")
	ro := RawHexBytes(zzv.Bytes("old2", 3))
	zzv.Assert(json.Unmarshal(bs, &ro) == nil, "the JSON form of raw bytes is accepted")
	zzv.Assert((ro == nil) == (in == nil) && zzv.BytesEq(ro, in), "raw bytes are recovered from their JSON form")
	if in == nil {
		zzv.Assert(string(bs) == "null", "no bytes are null")
		zzv.Reach("nil")
	} else {
		zzv.Assert(HexBytes(in).String() == "0x"+RawHexBytes(in).String() && zzLowerHex(RawHexBytes(in).String()), "bytes print as lower-case hex, with 0x unless raw")
		zzv.Reach("bytes")
	}
}

// Arbitrary JSON: a value is set or an error is returned, never a crash, and a
// number out of range is refused.
func VH_C04_any_json() {
	mx := 6
	if zzv.Thorough() {
		mx = 8
	}
	n := zzv.Choose("n", 0, mx)
	in := zzv.Bytes("in", n)
	for _, c := range in {
		zzv.Assume(c < 0x80)
	}
	if n > 2 {
		zzv.Assume(in[0] == '"' && in[n-1] == '"')
		for _, c := range in[1 : n-1] {
			zzv.Assume(zzv.And(c != '"', c != '\\', c >= 0x20, c < 0x80))
		}
	}
	var a HexInt16
	e1 := a.UnmarshalJSON(in)
	var u HexUint16
	e2 := u.UnmarshalJSON(in)
	var l HexInt64
	e3 := l.UnmarshalJSON(in)
	zzv.Assert(zzv.Implies(e1 == nil, e3 == nil && l.Value == int64(a.Value)), "a 16-bit integer is read as the 64-bit one, or refused")
	zzv.Assert(zzv.Implies(e1 == nil && e2 == nil, int64(u.Value) == l.Value), "signed and unsigned integers agree")
	if e1 == nil {
		zzv.Reach("number")
	} else {
		zzv.Reach("refused")
	}
	var h HexBytes
	h.UnmarshalJSON(in)
}

// A 64-bit number read into a narrower type is the same number or is refused.
func VH_C04_narrowing() {
	v := zzv.I64("v")
	bs, err := json.Marshal(HexInt64{v})
	zzv.Assert(err == nil, "an integer has a JSON form")
	var a HexInt16
	zzv.Assert((json.Unmarshal(bs, &a) == nil) == (v >= -1<<15 && v < 1<<15), "an int16 is read exactly if the number fits")
	var b HexInt32
	zzv.Assert((json.Unmarshal(bs, &b) == nil) == (v >= -1<<31 && v < 1<<31), "an int32 is read exactly if the number fits")
	var c HexUint16
	zzv.Assert((json.Unmarshal(bs, &c) == nil) == (v >= 0 && v < 1<<16), "a uint16 is read exactly if the number fits")
	var d HexUint32
	zzv.Assert((json.Unmarshal(bs, &d) == nil) == (v >= 0 && v < 1<<32), "a uint32 is read exactly if the number fits")
	var e HexUint64
	zzv.Assert((json.Unmarshal(bs, &e) == nil) == (v >= 0), "a uint64 is read exactly if the number is not negative")
	zzv.Reach("narrowing")
}
