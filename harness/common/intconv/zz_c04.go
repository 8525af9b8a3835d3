package intconv

import (
	"math/big"

	zzv "github.com/icon-project/btp/common/zzv"
)

// zzHexForm: [-]0x<digits>, lower case, no leading zero digit unless the number is 0.
func zzHexForm(s string, neg bool) bool {
	if neg {
		if len(s) < 4 || s[0] != '-' {
			return false
		}
		s = s[1:]
	}
	if len(s) < 3 || s[0] != '0' || s[1] != 'x' {
		return false
	}
	d := s[2:]
	ok := len(d) == 1 || d[0] != '0'
	for i := 0; i < len(d); i++ {
		ok = zzv.And(ok, zzv.Or(zzv.And(d[i] >= '0', d[i] <= '9'), zzv.And(d[i] >= 'a', d[i] <= 'f')))
	}
	return ok
}

func VH_C04_int_roundtrip() {
	v := zzv.I64("v")
	s := FormatInt(v)
	zzv.Assert(zzHexForm(s, v < 0), "FormatInt yields a canonical hex number")
	r, err := ParseInt(s, 64)
	zzv.Assert(err == nil && r == v, "ParseInt inverts FormatInt")
	zzv.Reach("int")
}

func VH_C04_uint_roundtrip() {
	v := zzv.U64("v")
	s := FormatUint(v)
	zzv.Assert(zzHexForm(s, false), "FormatUint yields a canonical hex number")
	r, err := ParseUint(s, 64)
	zzv.Assert(err == nil && r == v, "ParseUint inverts FormatUint")
	zzv.Reach("uint")
}

// A number that does not fit the requested width is refused, never truncated.
func VH_C04_width() {
	w := []int{8, 16, 32, 64}[zzv.Choose("w", 0, 3)]
	v := zzv.I64("v")
	r, err := ParseInt(FormatInt(v), w)
	fits := w == 64 || (v >= -(int64(1)<<uint(w-1)) && v < int64(1)<<uint(w-1))
	if fits {
		zzv.Assert(err == nil && r == v, "a number in range is parsed")
		zzv.Reach("fits")
	} else {
		zzv.Assert(err != nil, "a number out of range is refused")
		zzv.Reach("refused")
	}
	u := zzv.U64("u")
	x, err := ParseUint(FormatUint(u), w)
	if w == 64 || u < uint64(1)<<uint(w) {
		zzv.Assert(err == nil && x == u, "an unsigned number in range is parsed")
	} else {
		zzv.Assert(err != nil, "an unsigned number out of range is refused")
	}
	if v < 0 {
		_, err = ParseUint(FormatInt(v), w)
		zzv.Assert(err != nil, "a negative number is refused as unsigned")
		zzv.Reach("neg")
	}
}

func VH_C04_bigint_roundtrip() {
	max := 10
	if zzv.Thorough() {
		max = 20
	}
	zzv.Bound("bigint.magnitude_bytes", "<=10 quick, <=20 thorough")
	n := zzv.Choose("n", 0, max)
	mag := zzv.Bytes("mag", n)
	i := new(big.Int).SetBytes(mag)
	if zzv.Bool("neg") {
		i.Neg(i)
	}
	s := FormatBigInt(i)
	zzv.Assert(zzHexForm(s, i.Sign() < 0), "FormatBigInt yields a canonical hex number")
	r := big.NewInt(77)
	err := ParseBigInt(r, s)
	zzv.Assert(err == nil && r.Cmp(i) == 0, "ParseBigInt inverts FormatBigInt")
	zzv.Reach("big")
}

// Arbitrary short strings: parsing never panics and never yields a value
// outside the requested width.
func VH_C04_parse_any() {
	max := 4
	if zzv.Thorough() {
		max = 5
	}
	zzv.Bound("string", "<=4 bytes quick, <=5 thorough, all contents")
	n := zzv.Choose("n", 0, max)
	s := zzv.Str("s", n)
	switch zzv.Choose("op", 0, 2) {
	case 0:
		if v, err := ParseInt(s, 8); err == nil {
			zzv.Assert(v >= -128 && v <= 127, "ParseInt stays within its width")
			zzv.Reach("int")
		}
	case 1:
		if v, err := ParseUint(s, 8); err == nil {
			zzv.Assert(v <= 255, "ParseUint stays within its width")
			zzv.Reach("uint")
		}
	case 2:
		i := new(big.Int)
		if err := ParseBigInt(i, s); err == nil {
			zzv.Assert(i.BitLen() <= 4*n, "ParseBigInt yields no more than the digits given")
			zzv.Reach("big")
		}
	}
}
