package db

import (
	"github.com/icon-project/btp/common/errors"
	zzv "github.com/icon-project/btp/common/zzv"
)

// zzRef10 is the reference store: two buckets of two keys each.
type zzRef10 struct {
	has [2][2]bool
	val [2][2]byte
}

var zzIDs10 = []BucketID{BytesByHash, ChainProperty}

func zzKey10(k int) []byte { return []byte{'k', byte('0' + k)} }

func zzSame10(d Database, r *zzRef10, msg string) {
	for b := 0; b < 2; b++ {
		bk, err := d.GetBucket(zzIDs10[b])
		zzv.Assert(err == nil, "a bucket can be opened")
		for k := 0; k < 2; k++ {
			v, err := bk.Get(zzKey10(k))
			zzv.Assert(err == nil, "reading succeeds")
			if r.has[b][k] {
				zzv.Assert(len(v) == 1 && v[0] == r.val[b][k], msg+": the last value written is read")
				zzv.Assert(bk.Has(zzKey10(k)), msg+": a written key is present")
			} else {
				zzv.Assert(v == nil, msg+": an absent or deleted key reads as nil")
				zzv.Assert(!bk.Has(zzKey10(k)), msg+": an absent or deleted key is not present")
			}
		}
	}
}

// zzOp10 applies one arbitrary operation through d and to the reference.
func zzOp10(d Database, r *zzRef10) {
	b, k := zzv.Choose("b", 0, 1), zzv.Choose("k", 0, 1)
	bk, err := d.GetBucket(zzIDs10[b])
	zzv.Assert(err == nil, "a bucket can be opened")
	if zzv.Bool("del") {
		zzv.Assert(bk.Delete(zzKey10(k)) == nil, "deleting succeeds")
		r.has[b][k] = false
	} else {
		x := zzv.U8("v")
		buf := []byte{x}
		zzv.Assert(bk.Set(zzKey10(k), buf) == nil, "writing succeeds")
		buf[0] = ^x // the caller may reuse its buffer
		r.has[b][k], r.val[b][k] = true, x
	}
}

func VH_C10_layer_history() {
	zzv.MapOrder(true)
	n := 2
	if zzv.Thorough() {
		n = 3
	}
	base := NewMapDB()
	var under, top zzRef10
	for i := 0; i < 2; i++ {
		if zzv.Bool("pre") {
			bk, _ := base.GetBucket(zzIDs10[0])
			under.has[0][i], under.val[0][i] = true, zzv.U8("p")
			bk.Set(zzKey10(i), []byte{under.val[0][i]})
		}
	}
	l := NewLayerDB(base)
	top = under
	for i := zzv.Choose("ops", 0, n); i > 0; i-- {
		zzOp10(l, &top)
	}
	if zzv.Bool("read") {
		zzSame10(l, &top, "through the layer")
	}
	zzSame10(base, &under, "below an unflushed layer")
	w := zzv.Bool("write")
	zzv.Assert(l.Flush(w) == nil, "flushing to a working store succeeds")
	if w {
		under = top
		zzv.Reach("committed")
	} else {
		top = under
		zzv.Reach("discarded")
	}
	zzSame10(base, &under, "below the flushed layer")
	more := zzv.Bool("more")
	if !more {
		zzSame10(l, &top, "through the flushed layer")
	}
	if more {
		zzOp10(l, &top)
		zzSame10(l, &top, "writing through a flushed layer")
		zzSame10(base, &top, "below a flushed layer")
		zzv.Reach("write through")
	}
}

type zzFaulty struct {
	Database
	left int
}
type zzFaultyBk struct {
	Bucket
	d *zzFaulty
}

var zzErr10 = errors.New("io fault")

func (f *zzFaulty) GetBucket(id BucketID) (Bucket, error) {
	b, err := f.Database.GetBucket(id)
	if err != nil {
		return nil, err
	}
	return &zzFaultyBk{b, f}, nil
}
func (f *zzFaulty) use() error {
	if f.left == 0 {
		return zzErr10
	}
	f.left--
	return nil
}
func (b *zzFaultyBk) Set(k, v []byte) error {
	if err := b.d.use(); err != nil {
		return err
	}
	return b.Bucket.Set(k, v)
}
func (b *zzFaultyBk) Delete(k []byte) error {
	if err := b.d.use(); err != nil {
		return err
	}
	return b.Bucket.Delete(k)
}

// A fault in the middle of a flush is reported, loses nothing, and the flush
// can be repeated.
func VH_C10_fault_in_flush() {
	zzv.MapOrder(true)
	f := &zzFaulty{Database: NewMapDB(), left: -1}
	var top zzRef10
	if zzv.Bool("pre") {
		zzOp10(f, &top)
	}
	l := NewLayerDB(f)
	n := 2
	if zzv.Thorough() {
		n = 3
	}
	for i := zzv.Choose("ops", 1, n); i > 0; i-- {
		zzOp10(l, &top)
	}
	f.left = zzv.Choose("left", 0, 3)
	err := l.Flush(true)
	f.left = -1
	if err == nil {
		zzSame10(f, &top, "after an undisturbed flush")
		zzv.Reach("undisturbed")
		return
	}
	zzv.Reach("fault")
	if zzv.Bool("other bucket") {
		// a bucket that was not opened before is still part of the layer
		bk, err := l.GetBucket(BlockV1ByHash)
		zzv.Assert(err == nil && bk.Set(zzKey10(0), []byte{7}) == nil, "a bucket can be written after a failed flush")
		v, err := bk.Get(zzKey10(0))
		zzv.Assert(err == nil && len(v) == 1 && v[0] == 7, "a bucket opened after a failed flush reads its writes")
		bb, _ := f.GetBucket(BlockV1ByHash)
		zzv.Assert(!bb.Has(zzKey10(0)), "a bucket opened after a failed flush is not written through")
		zzv.Assert(l.Flush(true) == nil, "a failed flush can be repeated")
		zzv.Assert(bb.Has(zzKey10(0)), "a repeated flush writes what was added meanwhile")
		zzSame10(f, &top, "after a repeated flush")
		return
	}
	zzSame10(l, &top, "through the layer after a failed flush")
	zzv.Assert(l.Flush(true) == nil, "a failed flush can be repeated")
	zzSame10(f, &top, "after a repeated flush")
	zzSame10(l, &top, "through the layer after a repeated flush")
}

func VH_C10_nil_value() {
	l := NewLayerDB(NewMapDB())
	bk, _ := l.GetBucket(ChainProperty)
	bk.Set([]byte("k"), []byte{1})
	zzv.Assert(bk.Set([]byte("k"), nil) != nil, "a nil value is refused")
	v, err := bk.Get([]byte("k"))
	zzv.Assert(err == nil && len(v) == 1 && v[0] == 1, "a refused write changes nothing")
	zzv.Assert(bk.Set([]byte("k"), []byte{}) == nil, "an empty value is a value")
	zzv.Assert(bk.Has([]byte("k")), "a key with an empty value is present")
	zzv.Assert(l.Flush(true) == nil && bk.Has([]byte("k")), "a key with an empty value stays present after the flush")
	zzv.Reach("nil")
}

// Writers and a flush running concurrently: nothing acknowledged is lost.
func VH_C10_concurrent_flush() {
	zzv.Preempt(2)
	base := NewMapDB()
	l := NewLayerDB(base)
	first, _ := l.GetBucket(zzIDs10[0])
	first.Set(zzKey10(0), []byte{1})
	done := make(chan bool, 2)
	go func() {
		bk, err := l.GetBucket(zzIDs10[zzv.Choose("b", 0, 1)])
		if err == nil {
			err = bk.Set(zzKey10(1), []byte{2})
		}
		zzv.Assert(err == nil, "a concurrent write succeeds")
		v, err := bk.Get(zzKey10(1))
		zzv.Assert(err == nil && len(v) == 1 && v[0] == 2, "a write is visible to its writer")
		done <- true
	}()
	go func() {
		zzv.Assert(l.Flush(true) == nil, "a concurrent flush succeeds")
		done <- true
	}()
	<-done
	<-done
	v, err := first.Get(zzKey10(0))
	zzv.Assert(err == nil && len(v) == 1 && v[0] == 1, "what was written before the flush stays readable")
	b0, _ := base.GetBucket(zzIDs10[0])
	v, err = b0.Get(zzKey10(0))
	zzv.Assert(err == nil && len(v) == 1 && v[0] == 1, "what was written before the flush is in the store")
	found := false
	for b := 0; b < 2; b++ {
		bk, _ := l.GetBucket(zzIDs10[b])
		v, err := bk.Get(zzKey10(1))
		if err == nil && len(v) == 1 && v[0] == 2 {
			found = true
		}
	}
	zzv.Assert(found, "a write racing with the flush is not lost to readers")
	zzv.Reach("raced")
}
