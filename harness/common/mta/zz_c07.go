package mta

import (
	"github.com/icon-project/btp/common/crypto"
	zzv "github.com/icon-project/btp/common/zzv"
)

func zzEq7(a, b []byte) bool { return len(a) == len(b) && zzv.BytesEq(a, b) }

// zzBuild adds n leaves, hashes or data, and returns the leaf hashes.
func zzBuild7(n int) (*Accumulator, [][]byte) {
	a := &Accumulator{KeyForState: []byte("k"), Bucket: &zzBucket7{}}
	hs := make([][]byte, n)
	for i := range hs {
		var w []Witness
		if i%2 == 0 {
			hs[i] = zzv.Bytes("h", HashSize)
			w = a.AddHash(hs[i])
		} else {
			d := zzv.Bytes("d", 3)
			hs[i] = crypto.SHA3Sum256(d)
			w = a.AddData(d)
		}
		zzv.Assert(a.Len() == int64(i+1), "the length counts the added nodes")
		zzv.Assert(GetHeightFromWitness(w, int64(i+1)) == int64(i), "the witness handed out when adding is at the last position")
		// addNode reports the path up to the root the new leaf ends under
		zzv.Assert(a.Verify(w, hs[i]) == nil, "the witness handed out when adding is accepted at once")
	}
	return a, hs
}

type zzBucket7 struct{}

func (zzBucket7) Get(k []byte) ([]byte, error) { return nil, nil }
func (zzBucket7) Has(k []byte) bool            { return false }
func (zzBucket7) Set(k []byte, v []byte) error { return nil }
func (zzBucket7) Delete(k []byte) error        { return nil }

func zzMax7() int {
	if zzv.Thorough() {
		return 40
	}
	return 24
}

func VH_C07_witness() {
	zzv.HashAxioms(false)
	n := zzv.Choose("n", 1, zzMax7())
	a, hs := zzBuild7(n)
	idx := zzv.I64("idx")
	w, err := a.WitnessFor(idx)
	if idx >= int64(n) {
		zzv.Assert(err != nil, "a position beyond the end is refused")
		zzv.Reach("beyond")
		return
	}
	zzv.Assume(idx >= 0)
	zzv.Assert(err == nil, "every position below the length has a witness")
	zzv.Assert(a.Verify(w, hs[idx]) == nil, "the witness of every position is accepted")
	zzv.Assert(GetHeightFromWitness(w, int64(n)) == idx, "the witness tells its position")
	zzv.Assert(GetDepthByHeightAndAccLength(idx, int64(n)) == len(w), "the depth computed from position and length is the witness length")
	w2 := HashesToWitness(WitnessesToHashes(w), idx)
	zzv.Assert(len(w2) == len(w), "hash list has the witness length")
	for i := range w {
		zzv.Assert(w2[i].Direction == w[i].Direction && zzEq7(w2[i].HashValue, w[i].HashValue), "a witness is recovered from its hashes and position")
	}
	nd, err := a.GetNode(idx)
	zzv.Assert(err == nil && zzEq7(nd.Hash(), hs[idx]), "the node of every position is the added one")
	zzv.Reach("witness")
}

// Verifier and prover at different lengths.
func VH_C07_older_lengths() {
	zzv.HashAxioms(false)
	n := zzv.Choose("n", 1, zzMax7())
	l := zzv.Choose("l", 1, n)
	cur, hs := zzBuild7(n)
	old := &Accumulator{KeyForState: []byte("k"), Bucket: &zzBucket7{}}
	for _, h := range hs[:l] {
		old.AddHash(h)
	}
	idx := int64(zzv.IntRange("idx", 0, l-1))
	w, err := cur.WitnessForWithAccLength(idx, int64(l))
	zzv.Assert(err == nil, "a witness for an older length exists")
	zzv.Assert(old.Verify(w, hs[idx]) == nil, "a witness for an older length is accepted by an accumulator of that length")
	zzv.Assert(GetHeightFromWitness(w, int64(l)) == idx, "a witness for an older length tells its position")
	zzv.Assert(cur.VerifyWithAccLength(w, hs[idx], int64(l)) == nil, "a newer accumulator accepts a witness of an older length")
	nw, err := cur.WitnessFor(idx)
	zzv.Assert(err == nil, "a current witness exists")
	zzv.Assert(old.VerifyWithAccLength(nw, hs[idx], int64(n)) == nil, "an older accumulator accepts a witness of a newer length")
	zzv.Reach("older")
	if n > l {
		zzv.Reach("really older")
	}
}

func VH_C07_ext_accumulator() {
	zzv.HashAxioms(false)
	n := zzv.Choose("n", 1, 9)
	off := int64(zzv.IntRange("off", 0, 1000))
	a := NewExtAccumulator([]byte("k"), &zzBucket7{}, off)
	hs := make([][]byte, n)
	for i := range hs {
		hs[i] = zzv.Bytes("h", HashSize)
		a.AddHash(hs[i])
	}
	zzv.Assert(a.Height() == off+int64(n) && a.Offset() == off, "height is offset plus length")
	h := off + int64(zzv.IntRange("h", 1, n))
	at := off + int64(zzv.IntRange("at", 1, n+2))
	zzv.Assume(h <= at)
	rat, w, err := a.WitnessForAt(h, at, off)
	zzv.Assert(err == nil, "every accumulated height has a witness at any later height")
	if at > off+int64(n) {
		zzv.Assert(rat == off+int64(n), "a height beyond the end is answered at the current height")
		zzv.Reach("beyond")
	} else {
		zzv.Assert(rat == at, "the witness is for the requested height")
	}
	zzv.Assert(a.VerifyAt(w, hs[h-1-off], rat, off) == nil, "the witness at a height is accepted at that height")
	nd, err := a.GetNode(h)
	zzv.Assert(err == nil && zzEq7(nd.Hash(), hs[h-1-off]), "the node of every height is the added one")
	zzv.Reach("ext")
}
