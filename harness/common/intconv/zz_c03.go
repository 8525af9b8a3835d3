package intconv

import (
	"math/big"

	zzv "github.com/icon-project/btp/common/zzv"
)

// zzTwos is the oracle: the shortest big-endian two's complement form.
func zzMinimal(bs []byte) bool {
	if len(bs) == 0 {
		return false
	}
	if len(bs) == 1 {
		return true
	}
	return !zzv.Or(zzv.And(bs[0] == 0, bs[1] < 0x80), zzv.And(bs[0] == 0xff, bs[1] >= 0x80))
}

// zzSigned sign-extends at most 8 bytes (reference decoder).
func zzSigned(bs []byte) int64 {
	v := int64(int8(bs[0]))
	for _, b := range bs[1:] {
		v = v<<8 | int64(b)
	}
	return v
}

func VH_C03_int64_roundtrip() {
	v := zzv.I64("v")
	bs := Int64ToBytes(v)
	zzv.Assert(len(bs) >= 1 && len(bs) <= 8, "int64 encodes into 1..8 bytes")
	zzv.Assert(zzMinimal(bs), "int64 encoding is the shortest two's complement form")
	zzv.Assert(zzSigned(bs) == v, "int64 encoding is big-endian two's complement")
	zzv.Assert(BytesToInt64(bs) == v, "BytesToInt64 inverts Int64ToBytes")
	zzv.Reach("int64")
	if v < 0 {
		zzv.Reach("negative")
	}
}

func VH_C03_uint64_roundtrip() {
	v := zzv.U64("v")
	bs := Uint64ToBytes(v)
	zzv.Assert(len(bs) >= 1 && len(bs) <= 9, "uint64 encodes into 1..9 bytes")
	zzv.Assert(zzMinimal(bs), "uint64 encoding is the shortest two's complement form")
	zzv.Assert(bs[0] < 0x80, "uint64 encoding is non-negative")
	zzv.Assert(BytesToUint64(bs) == v, "BytesToUint64 inverts Uint64ToBytes")
	zzv.Reach("uint64")
}

func VH_C03_size_roundtrip() {
	v := zzv.U64("v")
	bs := SizeToBytes(v)
	zzv.Assert(len(bs) >= 1 && len(bs) <= 8, "size encodes into 1..8 bytes")
	zzv.Assert(len(bs) == 1 || bs[0] != 0, "size encoding has no leading zero byte")
	zzv.Assert(BytesToSize(bs) == v, "BytesToSize inverts SizeToBytes")
	zzv.Reach("size")
}

func VH_C03_bytes_to_int() {
	n := zzv.Choose("n", 0, 8)
	bs := zzv.Bytes("bs", n)
	if n == 0 {
		zzv.Assert(BytesToInt64(bs) == 0 && BytesToUint64(bs) == 0 && BytesToSize(bs) == 0, "no bytes decode to zero")
		zzv.Reach("empty")
		return
	}
	want := zzSigned(bs)
	zzv.Assert(BytesToInt64(bs) == want, "BytesToInt64 reads two's complement")
	zzv.Assert(BytesToUint64(bs) == uint64(want), "BytesToUint64 sign-extends")
	var u uint64
	for _, b := range bs {
		u = u<<8 | uint64(b)
	}
	zzv.Assert(BytesToSize(bs) == u, "BytesToSize reads unsigned big-endian")
	if zzMinimal(bs) {
		zzv.Assert(string(Int64ToBytes(want)) == string(bs), "Int64ToBytes inverts BytesToInt64 on canonical bytes")
		zzv.Reach("canonical")
	}
}

// Big integers agree with the 64-bit forms and with an independent decoder.
func VH_C03_bigint_int64() {
	v := zzv.I64("v")
	bs := BigIntToBytes(big.NewInt(v))
	zzv.Assert(zzMinimal(bs), "big.Int encoding is the shortest two's complement form")
	zzv.Assert(len(bs) <= 8 && zzSigned(bs) == v, "big.Int encoding equals the integer's two's complement")
	var b big.Int
	BigIntSetBytes(&b, bs)
	zzv.Assert(b.IsInt64() && b.Int64() == v, "BigIntSetBytes inverts BigIntToBytes")
	zzv.Reach("bigint64")
}

func VH_C03_bigint_wide() {
	max := 11
	if zzv.Thorough() {
		max = 18
	}
	n := zzv.Choose("n", 1, max)
	zzv.Bound("bigint.magnitude_bytes", "<=11 quick, <=18 thorough")
	mag := zzv.Bytes("mag", n)
	neg := zzv.Bool("neg")
	zzv.Assume(mag[0] != 0)
	i := new(big.Int).SetBytes(mag)
	if neg {
		i.Neg(i)
	}
	bs := BigIntToBytes(i)
	zzv.Assert(zzMinimal(bs), "wide big.Int encoding is minimal")
	zzv.Assert((bs[0] >= 0x80) == neg, "sign bit of the encoding")
	// independent oracle: two's complement of the magnitude on n+1 bytes
	ref := make([]byte, n+1)
	copy(ref[1:], mag)
	if neg {
		c := uint16(1)
		for k := n; k >= 0; k-- {
			s := uint16(^ref[k]) + c
			ref[k] = byte(s)
			c = s >> 8
		}
	}
	off := len(ref) - len(bs)
	zzv.Assert(off == 0 || off == 1 || off == 2, "encoding is at most one byte shorter than the magnitude")
	zzv.Assert(string(ref[off:]) == string(bs), "wide big.Int encoding is two's complement")
	var b big.Int
	BigIntSetBytes(&b, bs)
	zzv.Assert(b.Cmp(i) == 0, "BigIntSetBytes inverts BigIntToBytes (wide)")
	zzv.Reach("wide")
}

func VH_C03_bigint_from_bytes() {
	max := 9
	if zzv.Thorough() {
		max = 17
	}
	n := zzv.Choose("n", 1, max)
	zzv.Bound("bigint.bytes", "<=9 quick, <=17 thorough")
	bs := zzv.Bytes("bs", n)
	zzv.Assume(zzMinimal(bs))
	in := append([]byte{}, bs...)
	var b big.Int
	BigIntSetBytes(&b, bs)
	zzv.Assert(string(in) == string(bs), "decoding does not modify its input")
	zzv.Assert(b.Sign() < 0 == (bs[0] >= 0x80), "sign of the decoded integer")
	zzv.Assert(string(BigIntToBytes(&b)) == string(bs), "BigIntToBytes inverts BigIntSetBytes")
	zzv.Reach("frombytes")
}
