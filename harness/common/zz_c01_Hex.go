package common

import (
	"bytes"
	"math/big"

	"github.com/icon-project/btp/common/codec"
	zzv "github.com/icon-project/btp/common/zzv"
)

func zzHex01(v interface{}, want []byte, r interface{}) {
	bs, err := codec.RLP.MarshalToBytes(v)
	zzv.Assert(err == nil, "encoding a number succeeds")
	ref := want
	if len(want) > 1 || want[0] >= 0x80 {
		ref = append([]byte{0x80 + byte(len(want))}, want...)
	}
	zzv.Assert(bytes.Equal(bs, ref), "a number encodes as its shortest two's complement form")
	rest, err := codec.RLP.UnmarshalFromBytes(append(append([]byte{}, bs...), 7), r)
	zzv.Assert(err == nil && len(rest) == 1 && rest[0] == 7, "decoding consumes exactly the number")
}

// zzTwos is the shortest two's complement form of the 9 byte number.
func zzTwos(hi byte, v uint64) []byte {
	var full [9]byte
	full[0] = hi
	for k := 8; k > 0; k-- {
		full[k] = byte(v)
		v >>= 8
	}
	i := 0
	for i < 8 && (full[i] == 0 && full[i+1] < 0x80 || full[i] == 0xff && full[i+1] >= 0x80) {
		i++
	}
	return full[i:]
}

func zzTwosI(v int64) []byte {
	if v < 0 {
		return zzTwos(0xff, uint64(v))
	}
	return zzTwos(0, uint64(v))
}

func VH_C01_hex_numbers() {
	switch zzv.Choose("t", 0, 6) {
	case 0:
		x, r := HexInt16{zzv.I16("v")}, HexInt16{5}
		zzHex01(&x, zzTwosI(int64(x.Value)), &r)
		zzv.Assert(r == x, "HexInt16 round-trips")
	case 1:
		x, r := HexUint16{zzv.U16("v")}, HexUint16{5}
		zzHex01(&x, zzTwosI(int64(x.Value)), &r)
		zzv.Assert(r == x, "HexUint16 round-trips")
	case 2:
		x, r := HexInt32{zzv.I32("v")}, HexInt32{5}
		zzHex01(&x, zzTwosI(int64(x.Value)), &r)
		zzv.Assert(r == x, "HexInt32 round-trips")
	case 3:
		x, r := HexUint32{zzv.U32("v")}, HexUint32{5}
		zzHex01(&x, zzTwosI(int64(x.Value)), &r)
		zzv.Assert(r == x, "HexUint32 round-trips")
	case 4:
		x, r := HexInt64{zzv.I64("v")}, HexInt64{5}
		zzHex01(&x, zzTwosI(x.Value), &r)
		zzv.Assert(r == x, "HexInt64 round-trips")
	case 5:
		x, r := HexUint64{zzv.U64("v")}, HexUint64{5}
		zzHex01(&x, zzTwos(0, x.Value), &r)
		zzv.Assert(r == x, "HexUint64 round-trips")
	case 6:
		v := zzv.I64("v")
		var x, r HexInt
		x.Int.SetInt64(v)
		r.Int.SetInt64(5)
		zzHex01(&x, zzTwosI(v), &r)
		zzv.Assert(r.Int.Cmp(big.NewInt(v)) == 0, "HexInt round-trips")
	}
	zzv.Reach("hex")
}
