package mpt

import (
	"github.com/icon-project/btp/common/codec"
	"github.com/icon-project/btp/common/crypto"
	zzv "github.com/icon-project/btp/common/zzv"
)

// zzNode25 is an arbitrary node: a leaf, an extension or a branch, with a
// link that is the hash of next or not, or something that is no node.
type zzNode25 struct {
	kind   int // 0 leaf, 1 extension, 2 branch, 3 no node
	linked bool
	data   []byte
	bytes  []byte
}

func zzMake25(n string, next []byte, last, odd bool) *zzNode25 {
	lo, hi := 0, 3
	if !odd {
		lo, hi = 1, 2
		if last {
			lo, hi = 0, 0
		}
	}
	k := zzv.Choose(n+"kind", lo, hi)
	z := &zzNode25{kind: k}
	var link []byte
	h := crypto.SHA3Sum256(next)
	if k == 1 || k == 2 {
		lk := 0
		if odd {
			lk = zzv.Choose(n+"link", 0, 3)
		}
		switch lk {
		case 0:
			link = h
			z.linked = true
		case 1:
			link = zzv.Bytes(n+"lb", 32)
			zzv.Assume(!zzv.BytesEq(link, h))
		case 2:
			link = h[:31]
		case 3:
			link = nil
		}
	}
	var v interface{}
	switch k {
	case 0:
		z.data = zzv.Bytes(n+"data", zzv.Choose(n+"dl", 0, 2))
		v = [][]byte{append([]byte{zzv.U8(n+"pre") | 0x20}, 1), z.data}
	case 1:
		v = [][]byte{{zzv.U8(n+"pre") &^ 0x20}, link}
	case 2:
		bl := make([][]byte, 17)
		for i := range bl {
			bl[i] = []byte{}
		}
		at := 7
		if odd {
			at = []int{0, 7, 15}[zzv.Choose(n+"at", 0, 2)]
		}
		bl[at] = link
		if odd && zzv.Choose(n+"more", 0, 1) == 1 {
			bl[5] = zzv.Bytes(n+"other", 32)
			zzv.Assume(!zzv.BytesEq(bl[5], h))
		}
		v = bl
	case 3:
		switch zzv.Choose(n+"bad", 0, 4) {
		case 0:
			v = [][]byte{{}, {1}}
		case 1:
			v = [][]byte{{0x20}}
		case 2:
			v = [][]byte{}
		case 3:
			v = [][]byte{{0x20}, {1}, {2}}
		case 4:
			z.bytes = zzv.Bytes(n+"raw", zzv.Choose(n+"rl", 0, 1))
			return z
		}
	}
	z.bytes = codec.RLP.MustMarshalToBytes(v)
	return z
}

func VH_C25_proof() {
	max := 3
	if zzv.Thorough() {
		max = 4
	}
	n := zzv.Choose("n", 0, max)
	odd, odd2 := -1, -1
	if n > 0 {
		odd = zzv.Choose("odd", 0, n-1)
	}
	if n == 2 || n > 0 && zzv.Thorough() {
		odd2 = zzv.Choose("odd2", odd, n-1)
	}
	ns := make([]*zzNode25, n)
	var next []byte
	for i := n - 1; i >= 0; i-- {
		ns[i] = zzMake25(string(rune('a'+i)), next, i == n-1, i == odd || i == odd2)
		next = ns[i].bytes
	}
	var bl [][]byte
	ok := n > 0
	for i, z := range ns {
		bl = append(bl, z.bytes)
		if i == n-1 {
			ok = ok && z.kind == 0
		} else {
			ok = ok && (z.kind == 1 || z.kind == 2) && z.linked
		}
	}
	p, err := NewMptProof(bl)
	zzv.Assert((err == nil) == ok, "a proof is a chain of nodes, each with the hash of the next, that ends with a leaf")
	if err != nil {
		zzv.Assert(p == nil, "what is no proof is not handed out")
		zzv.Reach("refused")
		return
	}
	zzv.Assert(len(p.Nodes) == n && len(p.Hashes) == n, "a proof has its nodes")
	for i := range bl {
		zzv.Assert(zzv.BytesEq(p.Hashes[i], crypto.SHA3Sum256(bl[i])), "a proof has the hashes of its nodes")
	}
	l := p.Leaf()
	zzv.Assert(l.Header != nil && l.Header.IsLeaf() && zzv.BytesEq(l.Data, ns[n-1].data), "the leaf has the proved data")
	zzv.Reach("proof")
}

// Arbitrary bytes.
func VH_C25_bytes() {
	m := 2
	if zzv.Thorough() {
		m = 3
	}
	b := zzv.Bytes("b", zzv.Choose("l", 0, m))
	p, err := NewMptProof([][]byte{b})
	if err == nil {
		zzv.Assert(p.Leaf().Header.IsLeaf(), "a proof ends with a leaf")
		zzv.Reach("leaf")
	} else {
		zzv.Reach("refused")
	}
}
