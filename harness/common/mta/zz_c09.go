package mta

import (
	"github.com/icon-project/btp/common/crypto"
	"github.com/icon-project/btp/common/errors"
	zzv "github.com/icon-project/btp/common/zzv"
)

func zzEq9(a, b []byte) bool { return len(a) == len(b) && zzv.BytesEq(a, b) }

type zzEnt9 struct{ k, v []byte }

// zzStore is the durable store: writes reach it one by one, and from the
// crash point on every write is lost.
type zzStore struct {
	ents   []zzEnt9
	writes int
	crash  int // number of writes that still succeed; <0: no fault
	failed bool
	once   bool // only one write fails
}

var zzFault = errors.New("io fault")

func (s *zzStore) find(k []byte) int {
	for i := len(s.ents) - 1; i >= 0; i-- {
		if zzEq9(s.ents[i].k, k) {
			return i
		}
	}
	return -1
}
func (s *zzStore) Get(k []byte) ([]byte, error) {
	if i := s.find(k); i >= 0 {
		return append([]byte{}, s.ents[i].v...), nil
	}
	return nil, nil
}
func (s *zzStore) Has(k []byte) bool { return s.find(k) >= 0 }
func (s *zzStore) Set(k []byte, v []byte) error {
	if s.crash >= 0 && s.writes >= s.crash {
		s.failed = true
		if s.once {
			s.crash = -1
		}
		return zzFault
	}
	s.writes++
	s.ents = append(s.ents, zzEnt9{append([]byte{}, k...), append([]byte{}, v...)})
	return nil
}
func (s *zzStore) Delete(k []byte) error {
	return zzFault // the accumulator never deletes
}

func zzData9(i int) []byte { return []byte{'d', byte(i), byte(i >> 8)} }

// zzCheck9: the recovered accumulator is the one of the first n leaves and can
// prove each of them, at the current and at any older length.
func zzCheck9(r *Accumulator, n int, hs [][]byte, what string) {
	zzv.Assert(r.Len() == int64(n), what+": the length is recovered")
	fresh := &Accumulator{KeyForState: []byte("x"), Bucket: &zzStore{crash: -1}}
	for _, h := range hs[:n] {
		fresh.AddHash(h)
	}
	if n == 0 {
		return
	}
	idx := int64(zzv.Choose("ridx", 0, n-1))
	w, err := r.WitnessFor(idx)
	zzv.Assert(err == nil, what+": every recovered position has a witness")
	zzv.Assert(fresh.Verify(w, hs[idx]) == nil, what+": witnesses from recovered data are valid")
	zzv.Assert(r.Verify(w, hs[idx]) == nil, what+": the recovered accumulator verifies its leaves")
	nd, err := r.GetNode(idx)
	zzv.Assert(err == nil && zzEq9(nd.Hash(), hs[idx]), what+": every recovered position has its node")
}

// zzData9All: the added data are stored under their hashes.
func zzData9All(st *zzStore, n int, hs [][]byte) {
	for i := 0; i < n; i++ {
		if i%3 != 1 {
			d, err := st.Get(hs[i])
			zzv.Assert(err == nil && zzEq9(d, zzData9(i)), "added data are stored under their hash")
		}
	}
}

// n1 leaves are flushed, n2 more are added, and the second flush is interrupted
// at an arbitrary write (or not at all); then the state is recovered.
func zzCrash9(ext bool) {
	mx := 5
	if zzv.Thorough() {
		mx = 9
	}
	n1 := zzv.Choose("n1", 0, mx)
	n2 := zzv.Choose("n2", 1, 4)
	st := &zzStore{crash: -1}
	key := []byte("state")
	var a *Accumulator
	var ea *ExtAccumulator
	if ext {
		ea = NewExtAccumulator(key, st, 7)
		a = &ea.Accumulator
	} else {
		a = &Accumulator{KeyForState: key, Bucket: st}
	}
	flush := func() error {
		if ext {
			return ea.Flush()
		}
		return a.Flush()
	}
	var hs [][]byte
	add := func(i int) {
		if i%3 == 1 {
			h := crypto.SHA3Sum256([]byte{'h', byte(i)})
			hs = append(hs, h)
			a.AddHash(h)
		} else {
			d := zzData9(i)
			hs = append(hs, crypto.SHA3Sum256(d))
			a.AddData(d)
		}
	}
	for i := 0; i < n1; i++ {
		add(i)
	}
	if n1 > 0 || zzv.Bool("flushed") {
		zzv.Assert(flush() == nil, "a flush to a working store succeeds")
	}
	st.writes = 0
	for i := 0; i < n2; i++ {
		add(n1 + i)
	}
	if zzv.Bool("crashes") {
		st.crash = zzv.IntRange("crash", 0, 16)
		st.once = zzv.Bool("once")
	}
	err := flush()
	zzv.Assert((err != nil) == st.failed, "a write that fails is reported")
	st.crash = -1
	if ext {
		bs, _ := st.Get(key)
		zzv.Assert(zzEq9(ea.Serialized(), bs), "the serialized state is the stored one")
	}
	var r *Accumulator
	if zzv.Bool("roll back") {
		// the process goes on with what is stored
		if ext {
			zzv.Assert(ea.Recover() == nil, "recovery succeeds in a used accumulator")
		} else {
			zzv.Assert(a.Recover() == nil, "recovery succeeds in a used accumulator")
		}
		if err == nil {
			zzCheck9(a, n1+n2, hs, "in a used accumulator after a completed flush")
		} else {
			zzCheck9(a, n1, hs, "in a used accumulator after an interrupted flush")
			zzv.Reach("rolled back")
		}
		return
	}
	if ext {
		x := NewExtAccumulator(key, st, 7)
		zzv.Assert(x.Recover() == nil, "recovery succeeds after any crash point")
		r = &x.Accumulator
	} else {
		r = &Accumulator{KeyForState: key, Bucket: st}
		zzv.Assert(r.Recover() == nil, "recovery succeeds after any crash point")
	}
	if err == nil {
		zzCheck9(r, n1+n2, hs, "after a completed flush")
		zzData9All(st, n1+n2, hs)
		zzv.Reach("completed")
	} else {
		zzCheck9(r, n1, hs, "after an interrupted flush")
		zzv.Reach("interrupted")
		// the interrupted process may go on and flush again
		if zzv.Bool("retry") {
			zzv.Assert(flush() == nil, "a flush can be repeated after a fault")
			q := &Accumulator{KeyForState: key, Bucket: st}
			if ext {
				x := NewExtAccumulator(key, st, 7)
				zzv.Assert(x.Recover() == nil, "recovery succeeds after a repeated flush")
				q = &x.Accumulator
			} else {
				zzv.Assert(q.Recover() == nil, "recovery succeeds after a repeated flush")
			}
			zzCheck9(q, n1+n2, hs, "after a repeated flush")
			zzData9All(st, n1+n2, hs)
			zzv.Reach("repeated")
		}
	}
}

func VH_C09_crash_accumulator()     { zzCrash9(false) }
func VH_C09_crash_ext_accumulator() { zzCrash9(true) }

// Recovered accumulators go on like ones that never stopped.
func VH_C09_continue_after_recover() {
	zzv.HashAxioms(false)
	mx := 7
	if zzv.Thorough() {
		mx = 16
	}
	n1 := zzv.Choose("n1", 0, mx)
	n2 := zzv.Choose("n2", 1, 4)
	st := &zzStore{crash: -1}
	a := &Accumulator{KeyForState: []byte("state"), Bucket: st}
	live := &Accumulator{KeyForState: []byte("live"), Bucket: &zzStore{crash: -1}}
	var hs [][]byte
	for i := 0; i < n1; i++ {
		h := crypto.SHA3Sum256([]byte{'h', byte(i)})
		hs = append(hs, h)
		a.AddHash(h)
		live.AddHash(h)
	}
	zzv.Assert(a.Flush() == nil, "flush succeeds")
	r := &Accumulator{KeyForState: []byte("state"), Bucket: st}
	zzv.Assert(r.Recover() == nil, "recovery succeeds")
	for i := 0; i < n2; i++ {
		h := zzv.Bytes("h", HashSize)
		hs = append(hs, h)
		w1, w2 := r.AddHash(h), live.AddHash(h)
		zzv.Assert(len(w1) == len(w2), "adding to a recovered accumulator hands out the same witness")
		for k := range w1 {
			zzv.Assert(w1[k].Direction == w2[k].Direction && zzEq9(w1[k].HashValue, w2[k].HashValue), "adding to a recovered accumulator hands out the same witness")
		}
	}
	zzv.Assert(r.Len() == live.Len(), "lengths agree")
	idx := int64(zzv.IntRange("idx", 0, n1+n2-1))
	w1, err1 := r.WitnessFor(idx)
	zzv.Assert(err1 == nil, "every position has a witness after going on")
	zzv.Assert(live.Verify(w1, hs[idx]) == nil && r.Verify(w1, hs[idx]) == nil, "witnesses agree after going on")
	zzv.Reach("continued")
}
