package client

import (
	zzv "github.com/icon-project/btp/common/zzv"
)

func zzIsHex27(s string) bool {
	ok := true
	for i := 0; i < len(s); i++ {
		c := s[i]
		ok = zzv.And(ok, zzv.Or(zzv.And(c >= '0', c <= '9'), zzv.Or(zzv.And(c >= 'a', c <= 'f'), zzv.And(c >= 'A', c <= 'F'))))
	}
	return ok
}

func VH_C27_eth_hexbytes_text() {
	n := zzv.Choose("n", 0, 5)
	s := zzv.Str("s", n)
	ok := n == 0
	if n >= 2 && n%2 == 0 {
		ok = zzv.And(zzv.And(s[0] == '0', s[1] == 'x'), zzIsHex27(s[2:]))
	}
	r, err := HexBytes(s).Value()
	zzv.Assert((err == nil) == ok, "a text is read exactly if it is bytes in 0x form")
	if err == nil {
		if n > 0 {
			zzv.Assert(len(r) == n/2-1, "a text is read as a whole")
		}
		zzv.Reach("read")
	} else {
		zzv.Reach("refused")
	}
}

func VH_C27_eth_address_text() {
	l := []int{0, 1, 2, 3, 4, 40, 41, 42, 43, 44, 46}[zzv.Choose("l", 0, 10)]
	t := make([]byte, l)
	for i := range t {
		t[i] = '7'
	}
	at := []int{0, 1, 2, 20, 39, 41, 42}
	bs := zzv.Bytes("c", len(at))
	for i, p := range at {
		zzv.Assume(bs[i] < 0x80)
		if p < l {
			t[p] = bs[i]
		}
	}
	s := string(t)
	ok := false
	if l == 42 {
		ok = zzv.And(zzv.And(zzv.Or(s[0] == 'c', s[0] == 'h'), s[1] == 'x'), zzIsHex27(s[2:]))
	}
	r, err := Address(s).Value()
	zzv.Assert((err == nil) == ok, "a text is read exactly if it is an address")
	if err == nil {
		zzv.Assert(len(r) == 21 && (r[0] == 1) == (s[0] == 'c') && r[0] <= 1, "an address is read with its kind")
		zzv.Reach("read")
	} else {
		zzv.Reach("refused")
	}
}
