package db

import (
	"io/ioutil"
	"os"

	"github.com/syndtr/goleveldb/leveldb"
	"github.com/syndtr/goleveldb/leveldb/opt"

	zzv "github.com/icon-project/btp/common/zzv"
)

// Stand-in for the storage library: an ordinary map keyed by bytes, as its
// documentation promises. Counterexamples are replayed on the real library.

type zzEnt11 struct {
	k, v []byte
	live bool
}

var zzStore11 []*zzEnt11

func zzFind11(k []byte) *zzEnt11 {
	for i := len(zzStore11) - 1; i >= 0; i-- {
		e := zzStore11[i]
		if len(e.k) == len(k) && zzv.BytesEq(e.k, k) {
			if e.live {
				return e
			}
			return nil
		}
	}
	return nil
}

//verif:replace (*github.com/syndtr/goleveldb/leveldb.DB).Get
func zzLevelGet(d *leveldb.DB, key []byte, ro *opt.ReadOptions) ([]byte, error) {
	if e := zzFind11(key); e != nil {
		return append([]byte{}, e.v...), nil
	}
	return nil, leveldb.ErrNotFound
}

//verif:replace (*github.com/syndtr/goleveldb/leveldb.DB).Has
func zzLevelHas(d *leveldb.DB, key []byte, ro *opt.ReadOptions) (bool, error) {
	return zzFind11(key) != nil, nil
}

//verif:replace (*github.com/syndtr/goleveldb/leveldb.DB).Put
func zzLevelPut(d *leveldb.DB, key, value []byte, wo *opt.WriteOptions) error {
	zzStore11 = append(zzStore11, &zzEnt11{append([]byte{}, key...), append([]byte{}, value...), true})
	return nil
}

//verif:replace (*github.com/syndtr/goleveldb/leveldb.DB).Delete
func zzLevelDelete(d *leveldb.DB, key []byte, wo *opt.WriteOptions) error {
	zzStore11 = append(zzStore11, &zzEnt11{append([]byte{}, key...), nil, false})
	return nil
}

func zzOpenLevel() (Database, func()) {
	if zzv.Symbolic() {
		zzStore11 = nil
		return &GoLevelDB{db: new(leveldb.DB)}, func() {}
	}
	dir, err := ioutil.TempDir("", "zzv")
	if err != nil {
		panic(err)
	}
	d, err := NewGoLevelDB("t", dir)
	if err != nil {
		panic(err)
	}
	return d, func() { d.Close(); os.RemoveAll(dir) }
}

func zzSame11(a, b []byte) bool { return len(a) == len(b) && zzv.BytesEq(a, b) }

// zzSeq11 runs arbitrary operations on two buckets and compares with two
// independent reference maps.
func zzSeq11(d Database, i1, i2 BucketID, l1, l2, n int) {
	type ent struct {
		b    int
		k, v []byte
		live bool
	}
	var ref []ent
	ids := []BucketID{i1, i2}
	lens := []int{l1, l2}
	get := func(b int, k []byte) (bool, []byte) {
		for i := len(ref) - 1; i >= 0; i-- {
			if ref[i].b == b && zzSame11(ref[i].k, k) {
				return ref[i].live, ref[i].v
			}
		}
		return false, nil
	}
	for i := 0; i < n; i++ {
		b := zzv.Choose("b", 0, 1)
		bk, err := d.GetBucket(ids[b])
		zzv.Assert(err == nil, "a bucket can be opened")
		k := zzv.Bytes("k", lens[b])
		if zzv.Bool("del") {
			zzv.Assert(bk.Delete(k) == nil, "deleting succeeds, present or not")
			ref = append(ref, ent{b: b, k: k})
		} else {
			v := zzv.Bytes("v", zzv.Choose("vl", 0, 1))
			zzv.Assert(bk.Set(k, v) == nil, "writing succeeds")
			ref = append(ref, ent{b, k, v, true})
		}
	}
	b := zzv.Choose("rb", 0, 1)
	bk, _ := d.GetBucket(ids[b])
	k := zzv.Bytes("rk", lens[b])
	ok, v := get(b, k)
	got, err := bk.Get(k)
	zzv.Assert(err == nil, "reading succeeds, present or not")
	zzv.Assert(bk.Has(k) == ok, "a key is present exactly if it was written to this bucket and not deleted since")
	if ok {
		zzv.Assert(got != nil && zzSame11(got, v), "the last value written to the bucket is read")
		zzv.Reach("found")
	} else {
		zzv.Assert(got == nil, "an absent key reads as nil")
		zzv.Reach("absent")
	}
}

func VH_C11_map_db() {
	n := 2
	if zzv.Thorough() {
		n = 3
	}
	zzSeq11(NewMapDB(), MerkleTrie, ChainProperty, 2, 1, n)
}

func VH_C11_goleveldb_hash_buckets() {
	d, done := zzOpenLevel()
	defer done()
	n := 2
	if zzv.Thorough() {
		n = 3
	}
	zzSeq11(d, BytesByHash, ChainProperty, 2, zzv.Choose("l2", 1, 3), n)
}
