package mta

import (
	zzv "github.com/icon-project/btp/common/zzv"
)

func zzEq8(a, b []byte) bool { return len(a) == len(b) && zzv.BytesEq(a, b) }

type zzBucket8 struct{}

func (zzBucket8) Get(k []byte) ([]byte, error) { return nil, nil }
func (zzBucket8) Has(k []byte) bool            { return false }
func (zzBucket8) Set(k []byte, v []byte) error { return nil }
func (zzBucket8) Delete(k []byte) error        { return nil }

func zzBuild8(n int) (*Accumulator, [][]byte) {
	a := &Accumulator{KeyForState: []byte("k"), Bucket: &zzBucket8{}}
	hs := make([][]byte, n)
	for i := range hs {
		hs[i] = zzv.Bytes("h", HashSize)
		a.AddHash(hs[i])
	}
	return a, hs
}

// zzWit is an arbitrary witness of k steps; one hash may have a wrong length.
func zzWit(k int, odd bool) []Witness {
	bad := -1
	if odd && k > 0 {
		bad = zzv.Choose("bad", -1, k-1)
	}
	ws := make([]Witness, k)
	for i := range ws {
		l := HashSize
		if i == bad {
			l = zzv.Choose("badlen", HashSize-1, HashSize+1)
		}
		ws[i].HashValue = zzv.Bytes("w", l)
		ws[i].Direction = Left
		if zzv.Bool("right") {
			ws[i].Direction = Right
		}
	}
	return ws
}

func zzMember(h []byte, hs [][]byte) bool {
	in := false
	for _, x := range hs {
		in = zzv.Or(in, zzEq8(h, x))
	}
	return in
}

// zzPos is the position a witness stands for in an accumulator of length n: the
// trees of an accumulator are ordered by size, biggest first.
func zzPos(ws []Witness, n int) int {
	p := 0
	for i, w := range ws {
		p += zzv.IteInt(w.Direction == Left, 1<<uint(i), 0)
	}
	for b := len(ws) + 1; b < 20; b++ {
		p += zzv.IteInt(n&(1<<uint(b)) != 0, 1<<uint(b), 0)
	}
	return p
}

func VH_C08_forged_witness() {
	mx := 6
	if zzv.Thorough() {
		mx = 9
	}
	n := zzv.Choose("n", 0, mx)
	a, hs := zzBuild8(n)
	k := zzv.Choose("k", 0, 3)
	ws := zzWit(k, false)
	h := zzv.Bytes("leaf", HashSize)
	if a.Verify(ws, h) != nil {
		zzv.Reach("rejected")
		return
	}
	zzv.Reach("accepted")
	p := zzPos(ws, n)
	zzv.Assert(p >= 0 && p < n, "an accepted witness stands for a position of the accumulator")
	zzv.Assert(zzEq8(hs[p], h), "an accepted hash is the leaf at the position of the witness")
}

func VH_C08_odd_lengths() {
	n := zzv.Choose("n", 1, 4)
	a, hs := zzBuild8(n)
	k := zzv.Choose("k", 0, 2)
	ws := zzWit(k, true)
	h := zzv.Bytes("leaf", []int{0, 31, 32, 33}[zzv.Choose("leaflen", 0, 3)])
	if a.Verify(ws, h) != nil {
		zzv.Reach("rejected")
		return
	}
	zzv.Reach("accepted")
	zzv.Assert(zzMember(h, hs), "an accepted hash is a leaf of the accumulator, also for hashes of odd lengths")
	for _, w := range ws {
		zzv.Assert(len(w.HashValue) == HashSize, "a witness with a hash of wrong length is refused")
	}
}

func VH_C08_other_length() {
	n := zzv.Choose("n", 1, 4)
	a, hs := zzBuild8(n)
	k := zzv.Choose("k", 0, 3)
	ws := zzWit(k, false)
	h := zzv.Bytes("leaf", HashSize)
	l := zzv.IntRange("l", -1, 6)
	if a.VerifyWithAccLength(ws, h, int64(l)) != nil {
		zzv.Reach("rejected")
		return
	}
	zzv.Reach("accepted")
	if l == n {
		zzv.Reach("same length")
	}
	zzv.Assert(zzMember(h, hs), "a hash accepted for another length is a leaf of the accumulator")
	if l&(1<<uint(k)) == 0 {
		return // no tree of that height at that length
	}
	p := zzPos(ws, l)
	zzv.Assert(p >= 0 && p < l && p < n, "a witness accepted for another length stands for a position below both lengths")
	zzv.Assert(zzEq8(hs[p], h), "a hash accepted for another length is the leaf at the position of the witness")
	// and the witness is the one of that position, as far as both lengths share it
	g, err := a.WitnessFor(int64(p))
	zzv.Assert(err == nil, "the position has a witness")
	for i := 0; i < len(ws) && i < len(g); i++ {
		zzv.Assert(ws[i].Direction == g[i].Direction && zzEq8(ws[i].HashValue, g[i].HashValue), "an accepted witness is the witness of its position")
	}
}

// Witnesses longer than any position has bits.
func VH_C08_long_witness() {
	zzv.HashAxioms(false)
	n := zzv.Choose("n", 3, 5)
	a, _ := zzBuild8(n)
	k := zzv.Choose("k", 63, 65)
	ws := make([]Witness, k)
	mid, top := zzv.Bool("mid"), zzv.Bool("top")
	for i := range ws {
		ws[i] = Witness{Left, make([]byte, HashSize)}
		if (i < 3 && zzv.Bool("right")) || (i >= 3 && i < 60 && mid) || (i >= 60 && top) {
			ws[i].Direction = Right
		}
	}
	h := zzv.Bytes("leaf", HashSize)
	l := int64(zzv.Choose("l", -2, 6))
	if a.VerifyWithAccLength(ws, h, l) == nil {
		zzv.Assert(l > int64(n), "a witness longer than any of the accumulator is refused")
		zzv.Reach("shortened")
	}
	zzv.Reach("long")
}

func VH_C08_other_offset() {
	n := zzv.Choose("n", 1, 3)
	off, o := int64(zzv.IntRange("off", 0, 100)), zzv.I64("o")
	a := NewExtAccumulator([]byte("k"), &zzBucket8{}, off)
	hs := make([][]byte, n)
	for i := range hs {
		hs[i] = zzv.Bytes("h", HashSize)
		a.AddHash(hs[i])
	}
	at, h := int64(zzv.IntRange("at", -1000, 1000)), zzv.I64("h")
	_, w, err := a.WitnessForAt(h, at, o)
	if err == nil {
		zzv.Reach("given")
		zzv.Assert(o == off, "an accumulator of another offset has no witness")
		zzv.Assert(h > off && h <= off+int64(n) && h <= at, "only accumulated heights have a witness")
		zzv.Assert(len(w) < 3, "a witness is as long as the tree is high")
	}
	if a.VerifyAt(nil, hs[n-1], at, o) == nil {
		zzv.Reach("accepted")
		zzv.Assert(o == off, "a witness of another offset is refused")
	}
}

func VH_C08_wild_arguments() {
	n := zzv.Choose("n", 0, 5)
	a, _ := zzBuild8(n)
	idx, l := zzv.I64("idx"), zzv.I64("l")
	_, err := a.WitnessFor(idx)
	if idx < 0 || idx >= int64(n) {
		zzv.Assert(err != nil, "a position outside the accumulator has no witness")
	}
	_, err = a.GetNode(idx)
	if idx < 0 || idx >= int64(n) {
		zzv.Assert(err != nil, "a position outside the accumulator has no node")
	}
	_, err = a.WitnessForWithAccLength(idx, l)
	if err == nil {
		zzv.Assert(idx >= 0 && idx < l && l <= int64(n), "a witness for a length is given only for positions below that length")
		zzv.Reach("given")
	}
	zzv.Reach("wild")
}
