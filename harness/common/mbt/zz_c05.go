package mbt

import (
	zzv "github.com/icon-project/btp/common/zzv"
)

func zzMax() int {
	if zzv.Thorough() {
		return 33
	}
	return 17
}

func zzContents(n int) [][]byte {
	l := make([][]byte, n)
	for i := range l {
		l[i] = zzv.Bytes("c", 1+i%2)
	}
	return l
}

func zzHash(l ...[]byte) []byte { return Sha3Keccak256(l...) }

// zzRef is the reference root: the left subtree holds the largest power of two
// of leaves below n.
func zzRef(l [][]byte) []byte {
	if len(l) == 1 {
		return zzHash(l[0])
	}
	k := 1
	for k*2 < len(l) {
		k *= 2
	}
	return zzHash(zzRef(l[:k]), zzRef(l[k:]))
}

func zzSame(a, b []byte) bool { return len(a) == len(b) && zzv.BytesEq(a, b) }

func VH_C05_batch_and_path() {
	zzv.HashAxioms(false)
	n := zzv.Choose("n", 1, zzMax())
	cs := zzContents(n)
	m, err := NewMerkleBinaryTree(zzHash, cs)
	zzv.Assert(err == nil && m.Len() == n, "a tree is built over any non-nil contents")
	zzv.Assert(zzSame(m.Root(), zzRef(cs)), "the root is the reference binary Merkle root")
	num := zzv.Int("num")
	c, err := m.Get(num)
	p, perr := m.Path(num)
	if num < 1 || num > n {
		zzv.Assert(err != nil && perr != nil, "a number outside 1..Len is refused")
		zzv.Reach("out of range")
		return
	}
	zzv.Assert(err == nil && perr == nil, "every number in 1..Len has a content and a path")
	zzv.Assert(zzSame(c, cs[num-1]), "Get returns the num-th content")
	zzv.Assert(zzSame(p.Content, cs[num-1]), "the path carries the num-th content")
	zzv.Assert(zzSame(p.Root(), m.Root()), "the path of every content leads to the root")
	ns := make([]MerkleNode, len(p.Path))
	for i, x := range p.Path {
		ns[i] = MerkleNode{Dir: DirLeft, Value: x.Value}
		if x.Right {
			ns[i].Dir = DirRight
		}
	}
	zzv.Assert(zzSame(RootByMerkleNode(zzHash, zzHash(c), ns), m.Root()), "the steps of the path lead from the hash of the content to the root")
	zzv.Reach("path")
}

func VH_C05_incremental() {
	zzv.HashAxioms(false)
	n := zzv.Choose("n", 1, zzMax())
	cs := zzContents(n)
	m, err := NewMerkleBinaryTree(zzHash, nil)
	zzv.Assert(err == nil && m.Len() == 0 && m.Root() == nil, "an empty tree has no root")
	for i, c := range cs {
		zzv.Assert(m.Add(c) == nil, "Add accepts non-nil content")
		zzv.Assert(zzSame(m.Root(), zzRef(cs[:i+1])), "after each Add the root is the reference root of the contents so far")
		zzv.Assert(m.Len() == i+1, "Len counts the added contents")
	}
	zzv.Assert(m.Add(nil) != nil && m.Len() == n, "nil content is refused and not counted")
	num := zzv.IntRange("num", 1, n)
	p, perr := m.Path(num)
	zzv.Assert(perr == nil && zzSame(p.Content, cs[num-1]), "an incrementally built tree has a path per content")
	zzv.Assert(zzSame(p.Root(), zzRef(cs)), "the path in an incrementally built tree leads to the root")
	zzv.Reach("incremental")
}

func VH_C05_range_proof() {
	zzv.HashAxioms(false)
	n := zzv.Choose("n", 1, zzMax())
	cs := zzContents(n)
	var m *MerkleBinaryTree
	if zzv.Bool("incremental") {
		m, _ = NewMerkleBinaryTree(zzHash, nil)
		for _, c := range cs {
			m.Add(c)
		}
	} else {
		m, _ = NewMerkleBinaryTree(zzHash, cs)
	}
	b, e := zzv.Int("begin"), zzv.Int("end")
	p, err := m.Proof(b, e)
	if b < 1 || e < b || e > n {
		zzv.Assert(err != nil, "an invalid range is refused")
		zzv.Reach("refused")
		return
	}
	zzv.Assert(err == nil, "every range 1<=begin<=end<=Len has a proof")
	zzv.Assert(len(p.Contents) == e-b+1, "the proof carries exactly the contents of the range")
	for i, c := range p.Contents {
		zzv.Assert(zzSame(c, cs[b-1+i]), "the proof carries the contents in order")
	}
	root, left, total, err := p.Root()
	zzv.Assert(err == nil, "the proof of every range is accepted")
	zzv.Assert(left == b-1 && total == n, "the proof tells position and total of the range")
	zzv.Assert(zzSame(root, zzRef(cs)), "the proof of every range leads to the root")
	// what is sent is the three lists; the receiver supplies the hash
	q := &MerkleBinaryTreeProof{ProofInLeft: p.ProofInLeft, Contents: p.Contents, ProofInRight: p.ProofInRight}
	q.SetHashFunc(zzHash)
	r2, l2, t2, err := q.Root()
	zzv.Assert(err == nil && l2 == left && t2 == total && zzSame(r2, root), "evaluating the transported proof gives the same answer")
	zzv.Reach("range")
	if b > 1 && e < n {
		zzv.Reach("inner range")
	}
}
