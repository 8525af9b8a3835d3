package mbt

import (
	zzv "github.com/icon-project/btp/common/zzv"
)

const zzLen = 3

func zzTree(n int) ([][]byte, *MerkleBinaryTree) {
	l := make([][]byte, n)
	for i := range l {
		l[i] = zzv.Bytes("t", zzLen)
	}
	m, err := NewMerkleBinaryTree(Sha3Keccak256, l)
	zzv.Assert(err == nil, "tree is built")
	return l, m
}

func zzEq(a, b []byte) bool { return len(a) == len(b) && zzv.BytesEq(a, b) }

// A content of 64 bytes can be the preimage of an inner node, so the forged
// contents are tried at the honest length and at 64.
func zzForged() []byte {
	if zzv.Bool("inner") {
		return zzv.Bytes("fc", 64)
	}
	return zzv.Bytes("fc", zzLen)
}

func zzNodes(name string, max, lo, hi int) []ProofNode {
	k := zzv.Choose(name+"n", 0, max)
	r := make([]ProofNode, k)
	for i := range r {
		r[i].NumOfLeaf = zzv.IntRange(name+"c", lo, hi)
		r[i].Value = zzv.Bytes(name+"v", 32)
	}
	return r
}

func zzSum(l ...[]ProofNode) int {
	s := 0
	for _, x := range l {
		for _, n := range x {
			s += n.NumOfLeaf
		}
	}
	return s
}

func zzForge(n int, p *MerkleBinaryTreeProof, cs [][]byte, m *MerkleBinaryTree) {
	k := len(p.Contents)
	p.SetHashFunc(Sha3Keccak256)
	root, left, total, err := p.Root()
	if err != nil {
		zzv.Reach("rejected")
		return
	}
	if total != n || !zzEq(root, m.Root()) {
		zzv.Reach("other root")
		return
	}
	zzv.Reach("accepted")
	zzv.Assert(left >= 0 && left+k <= n, "an accepted proof is about a range of the tree")
	for i, c := range p.Contents {
		zzv.Assert(zzEq(c, cs[left+i]), "an accepted proof carries the contents of the tree at the told position")
	}
}

// The claimed counts add up to the size of the tree: the interesting case.
func VH_C06_forged_range_proof() {
	n := zzv.Choose("n", 2, 5)
	zzForgeSize(n, 2)
}

// The smallest tree with a right subtree that has a right subtree itself.
func VH_C06_forged_range_proof_7() { zzForgeSize(7, 1) }

func zzForgeSize(n, mk int) {
	cs, m := zzTree(n)
	side := 2
	lo := 1
	if zzv.Thorough() {
		lo = 0
	}
	p := &MerkleBinaryTreeProof{
		ProofInLeft:  zzNodes("l", side, lo, n),
		ProofInRight: zzNodes("r", side, lo, n),
	}
	k := zzv.Choose("k", 1, mk)
	for i := 0; i < k; i++ {
		p.Contents = append(p.Contents, zzForged())
	}
	zzv.Assume(zzSum(p.ProofInLeft, p.ProofInRight)+k == n)
	zzForge(n, p, cs, m)
}

// Arbitrary counts, also zero, negative and not adding up, on small trees.
func VH_C06_arbitrary_counts() {
	n := zzv.Choose("n", 1, 3)
	cs, m := zzTree(n)
	hi := 3
	if zzv.Thorough() {
		hi = 5
	}
	p := &MerkleBinaryTreeProof{
		ProofInLeft:  zzNodes("l", 1, -2, hi),
		ProofInRight: zzNodes("r", 1, -2, hi),
	}
	k := zzv.Choose("k", 1, 2)
	for i := 0; i < k; i++ {
		p.Contents = append(p.Contents, zzForged())
	}
	zzForge(n, p, cs, m)
}

// Hashes of the proof that are missing or of another length.
func VH_C06_odd_values() {
	lens, n, k := []int{0, 64}, zzv.Choose("n", 2, 3), 1
	if zzv.Thorough() {
		lens, k = []int{0, 31, 64}, 2
	}
	cs, m := zzTree(n)
	node := func(name string) []ProofNode {
		if !zzv.Bool(name) {
			return nil
		}
		l := lens[zzv.Choose(name+"len", 0, len(lens)-1)]
		return []ProofNode{{NumOfLeaf: zzv.IntRange(name+"c", -1, 3), Value: zzv.Bytes(name+"v", l)}}
	}
	p := &MerkleBinaryTreeProof{ProofInLeft: node("l"), ProofInRight: node("r")}
	for i := zzv.Choose("k", 0, k); i > 0; i-- {
		p.Contents = append(p.Contents, zzForged())
	}
	zzForge(n, p, cs, m)
}

func VH_C06_forged_path() {
	mx := 5
	if zzv.Thorough() {
		mx = 9
	}
	n := zzv.Choose("n", 1, mx)
	cs, m := zzTree(n)
	k := zzv.Choose("k", 0, 4)
	c := zzv.Bytes("fc", zzLen)
	p := &MerkleBinaryTreePath{Content: c}
	for i := 0; i < k; i++ {
		p.Path = append(p.Path, PathNode{Right: zzv.Bool("right"), Value: zzv.Bytes("v", 32)})
	}
	p.SetHashFunc(Sha3Keccak256)
	if !zzEq(p.Root(), m.Root()) {
		return
	}
	zzv.Reach("accepted")
	in := false
	for _, x := range cs {
		in = zzv.Or(in, zzEq(c, x))
	}
	zzv.Assert(in, "a path leading to the root starts at a content of the tree")
}
