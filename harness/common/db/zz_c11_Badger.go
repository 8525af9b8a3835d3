package db

import (
	"io/ioutil"
	"os"

	"github.com/dgraph-io/badger"

	zzv "github.com/icon-project/btp/common/zzv"
)

// Stand-in for the storage library, following its documented behaviour: an
// empty key is an error, a missing key is ErrKeyNotFound, and copying an empty
// value yields a nil slice. Counterexamples are replayed on the real library.

type zzEntB struct {
	k, v []byte
	live bool
}

var zzStoreB []*zzEntB
var zzCurB []byte

func zzFindB(k []byte) *zzEntB {
	for i := len(zzStoreB) - 1; i >= 0; i-- {
		e := zzStoreB[i]
		if len(e.k) == len(k) && zzv.BytesEq(e.k, k) {
			if e.live {
				return e
			}
			return nil
		}
	}
	return nil
}

//verif:replace (*github.com/dgraph-io/badger.DB).View
func zzView(d *badger.DB, fn func(txn *badger.Txn) error) error { return fn(new(badger.Txn)) }

//verif:replace (*github.com/dgraph-io/badger.DB).Update
func zzUpdate(d *badger.DB, fn func(txn *badger.Txn) error) error { return fn(new(badger.Txn)) }

//verif:replace (*github.com/dgraph-io/badger.Txn).Get
func zzTxnGet(t *badger.Txn, key []byte) (*badger.Item, error) {
	if len(key) == 0 {
		return nil, badger.ErrEmptyKey
	}
	e := zzFindB(key)
	if e == nil {
		return nil, badger.ErrKeyNotFound
	}
	zzCurB = e.v
	return new(badger.Item), nil
}

//verif:replace (*github.com/dgraph-io/badger.Item).ValueCopy
func zzValueCopy(i *badger.Item, dst []byte) ([]byte, error) {
	if i == nil {
		panic("nil pointer dereference")
	}
	return append(dst[:0], zzCurB...), nil
}

//verif:replace (*github.com/dgraph-io/badger.Txn).Set
func zzTxnSet(t *badger.Txn, key, val []byte) error {
	if len(key) == 0 {
		return badger.ErrEmptyKey
	}
	zzStoreB = append(zzStoreB, &zzEntB{append([]byte{}, key...), append([]byte{}, val...), true})
	return nil
}

//verif:replace (*github.com/dgraph-io/badger.Txn).Delete
func zzTxnDelete(t *badger.Txn, key []byte) error {
	if len(key) == 0 {
		return badger.ErrEmptyKey
	}
	zzStoreB = append(zzStoreB, &zzEntB{append([]byte{}, key...), nil, false})
	return nil
}

func zzOpenBadger() (Database, func()) {
	if zzv.Symbolic() {
		zzStoreB = nil
		return &BadgerDB{db: new(badger.DB)}, func() {}
	}
	zzv.BigHeap()
	dir, err := ioutil.TempDir("", "zzv")
	if err != nil {
		panic(err)
	}
	d, err := NewBadgerDB("t", dir)
	if err != nil {
		panic(err)
	}
	return d, func() { d.Close(); os.RemoveAll(dir) }
}

func VH_C11_badger() {
	d, done := zzOpenBadger()
	defer done()
	n := 2
	if zzv.Thorough() {
		n = 3
	}
	zzSeq11(d, BytesByHash, ChainProperty, 2, zzv.Choose("l2", 1, 3), n)
}

func VH_C11_badger_empty_key() {
	d, done := zzOpenBadger()
	defer done()
	bk, err := d.GetBucket([]BucketID{MerkleTrie, ChainProperty}[zzv.Choose("id", 0, 1)])
	zzv.Assert(err == nil, "a bucket can be opened")
	k := zzv.Bytes("k", zzv.Choose("kl", 0, 1))
	v, err := bk.Get(k)
	zzv.Assert(v == nil, "an absent key reads as nil, also the empty one")
	zzv.Assert(!bk.Has(k), "an absent key is not present, also the empty one")
	zzv.Reach("empty key")
}
