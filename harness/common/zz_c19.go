package common

import (
	"encoding/json"

	"github.com/icon-project/btp/common/codec"
	zzv "github.com/icon-project/btp/common/zzv"
)

func zzAddr19(n string) *Address {
	a := new(Address)
	copy(a[1:], zzv.Bytes(n, AddressIDBytes))
	if zzv.Bool(n + "c") {
		a[0] = 1
	}
	return a
}

func zzIs19(a, b *Address) bool { return zzv.BytesEq(a[:], b[:]) }

func VH_C19_string_roundtrip() {
	a := zzAddr19("a")
	s := a.String()
	zzv.Assert(len(s) == 42, "an address string has 42 characters")
	if a.IsContract() {
		zzv.Assert(s[:2] == "cx", "a contract address starts with cx")
		zzv.Reach("contract")
	} else {
		zzv.Assert(s[:2] == "hx", "an account address starts with hx")
		zzv.Reach("account")
	}
	b := zzAddr19("b")
	zzv.Assert(b.SetString(s) == nil && zzIs19(a, b), "an address is recovered from its string")
	zzv.Assert(a.Equal(b) && zzIs19(NewAddressFromString(s), a), "an address equals the one recovered from its string")
}

func VH_C19_bytes_roundtrip() {
	a, b := zzAddr19("a"), zzAddr19("b")
	zzv.Assert(a.Equal(b) == zzIs19(a, b), "addresses are equal exactly if type and id are")
	zzv.Assert(b.SetBytes(a.Bytes()) == nil && zzIs19(a, b), "an address is recovered from its bytes")
	zzv.Assert(len(a.ID()) == AddressIDBytes && zzv.BytesEq(a.ID(), a[1:]), "the id is the address without its type")
	c := zzAddr19("c")
	zzv.Assert(c.SetTypeAndID(a.IsContract(), a.ID()) == nil && zzIs19(a, c), "an address is recovered from type and id")
	zzv.Assert(zzIs19(NewAddress(a.Bytes()), a), "an address is made from its bytes")
	zzv.Assert(NewAccountAddress(a.ID()).IsContract() == false && NewContractAddress(a.ID()).IsContract(), "the constructors set the type")
	zzv.Reach("bytes")
}

func VH_C19_json_rlp_roundtrip() {
	a, b := zzAddr19("a"), zzAddr19("b")
	bs, err := json.Marshal(a)
	zzv.Assert(err == nil, "an address has a JSON form")
	zzv.Assert(json.Unmarshal(bs, b) == nil && zzIs19(a, b), "an address is recovered from its JSON form")
	c := zzAddr19("c")
	bs, err = codec.RLP.MarshalToBytes(a)
	zzv.Assert(err == nil, "an address has an RLP form")
	_, err = codec.RLP.UnmarshalFromBytes(bs, c)
	zzv.Assert(err == nil && zzIs19(a, c), "an address is recovered from its RLP form")
	zzv.Reach("json")
}

// Whatever the input, setting an address does not crash, and what it sets does
// not depend on what the variable held before.
func VH_C19_any_bytes() {
	n := zzv.Choose("n", -1, 23)
	var in []byte
	if n >= 0 {
		in = zzv.Bytes("in", n)
	}
	a, b := zzAddr19("a"), new(Address)
	e1, e2 := a.SetBytes(in), b.SetBytes(in)
	zzv.Assert((e1 == nil) == (e2 == nil), "whether bytes are an address does not depend on the variable")
	if e1 == nil {
		zzv.Assert(zzIs19(a, b), "the address set from bytes depends on the bytes only")
		zzv.Assert(a.IsContract() == (in[0] == 1), "the type is the first byte")
		zzv.Reach("accepted")
	} else {
		zzv.Reach("refused")
	}
	if n > 0 && in[0] > 1 {
		zzv.Assert(e1 != nil, "an unknown address type is refused")
		zzv.Reach("unknown type")
	}
}

func VH_C19_any_string() {
	n := zzv.Choose("n", 0, 6)
	s := zzv.Str("s", n)
	a, b := zzAddr19("a"), new(Address)
	e1, e2 := a.SetString(s), b.SetString(s)
	zzv.Assert((e1 == nil) == (e2 == nil), "whether a string is an address does not depend on the variable")
	if e1 == nil {
		zzv.Assert(zzIs19(a, b), "the address set from a string depends on the string only")
		zzv.Assert(zzv.Implies(a.IsContract(), n >= 2 && s[0] == 'c' && s[1] == 'x'), "only a cx string is a contract address")
		zzv.Reach("accepted")
	} else {
		zzv.Reach("refused")
	}
}

// An id may be written without its leading zeros.
func VH_C19_short_string() {
	n := zzv.Choose("n", 0, 5)
	h := zzv.Bytes("h", n)
	const dig = "0123456789abcdef"
	s := make([]byte, n)
	var want Address
	for i, x := range h {
		d := x & 15
		s[i] = dig[d]
		p := 2*AddressBytes - n + i // position of the digit in the address
		if p%2 == 0 {
			want[p/2] |= d << 4
		} else {
			want[p/2] |= d
		}
	}
	pre := []string{"hx", "cx", "0x"}[zzv.Choose("pre", 0, 2)]
	if pre == "cx" {
		want[0] = 1
	}
	a := zzAddr19("a")
	zzv.Assert(a.SetString(pre+string(s)) == nil, "an id without leading zeros is accepted")
	zzv.Assert(zzIs19(a, &want), "an id without leading zeros is the same id")
	zzv.Reach("short")
}
