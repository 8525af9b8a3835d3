package types

import (
	zzv "github.com/icon-project/btp/common/zzv"
)

// zzPart20 is an arbitrary component: any bytes but the separators.
func zzPart20(n string, lo, hi int) string {
	s := zzv.Str(n, zzv.Choose(n+"l", lo, hi))
	for i := 0; i < len(s); i++ {
		zzv.Assume(zzv.And(s[i] != '/', s[i] != '.', s[i] != ':'))
	}
	return s
}

func VH_C20_components() {
	hi := 2
	if zzv.Thorough() {
		hi = 4
	}
	p, id, bc, acc := zzPart20("p", 1, hi), zzPart20("id", 1, hi), zzPart20("bc", 1, hi), zzPart20("acc", 0, hi)
	a := BtpAddress(p + "://" + id + "." + bc + "/" + acc)
	zzv.Assert(a.Protocol() == p, "the protocol is what precedes ://")
	zzv.Assert(a.NetworkAddress() == id+"."+bc, "the network address is what lies between :// and the next /")
	zzv.Assert(a.NetworkID() == id, "the network id is what precedes the dot")
	zzv.Assert(a.BlockChain() == bc, "the blockchain is what follows the dot")
	zzv.Assert(a.Account() == acc && a.ContractAddress() == acc, "the account is what follows the network address")
	zzv.Assert(a.String() == string(a), "an address prints as itself")
	var b BtpAddress
	zzv.Assert(b.Set(a.String()) == nil && b == a, "an address is recovered from its string")
	zzv.Reach("components")
}

func VH_C20_no_network_id() {
	p, bc, acc := zzPart20("p", 1, 2), zzPart20("bc", 1, 3), zzPart20("acc", 0, 2)
	a := BtpAddress(p + "://" + bc + "/" + acc)
	zzv.Assert(a.NetworkID() == "" && a.BlockChain() == bc && a.Account() == acc, "without a dot the network is the blockchain")
	zzv.Reach("plain network")
}

func VH_C20_validation() {
	pr := []string{"btp", "bt", "btpp", ""}[zzv.Choose("pr", 0, 3)]
	var bc string
	switch k := zzv.Choose("bc", 0, 2); k {
	case 0:
		bc = "icon"
	case 1:
		bc = "iconee"
	default:
		bc = zzPart20("chain", 4, 4)
	}
	acc := zzPart20("acc", 0, 2)
	a := BtpAddress(pr + "://0x1." + bc + "/" + acc)
	want := pr == "btp" && (bc == "icon" || bc == "iconee") && acc != ""
	zzv.Assert((ValidateBtpAddress(a) == nil) == want, "an address is valid exactly with the btp protocol, an ICON blockchain and an account")
	if want {
		zzv.Reach("valid")
	} else {
		zzv.Reach("invalid")
	}
}

// Any string at all: no crash, and no component invented.
func VH_C20_any_string() {
	n := 6
	if zzv.Thorough() {
		n = 8
	}
	s := zzv.Str("s", zzv.Choose("n", 0, n))
	a := BtpAddress(s)
	p, na, id, bc, acc := a.Protocol(), a.NetworkAddress(), a.NetworkID(), a.BlockChain(), a.Account()
	zzv.Assert(zzv.Implies(p == "", na == "" && id == "" && bc == "" && acc == ""), "without a protocol there are no components")
	zzv.Assert(len(p)+len(na)+len(acc) <= len(s), "components are parts of the address")
	zzv.Assert(len(id)+len(bc) <= len(na), "network id and blockchain are parts of the network address")
	if p != "" {
		zzv.Reach("with protocol")
	}
	ValidateBtpAddress(a)
	zzv.Reach("any")
}
