package db

import (
	zzv "github.com/icon-project/btp/common/zzv"
)

// Distinct predefined buckets never share a stored key: arbitrary keys for the
// buckets with a name, 32-byte keys for the unnamed one and its neighbours.
func VH_C11_key_separation() {
	x, y := zzv.Choose("x", 0, len(zzIDsK)-1), zzv.Choose("y", 0, len(zzIDsK)-1)
	if x == y {
		return
	}
	l := 32
	m := 32
	if x != 0 && y != 0 {
		l, m = zzv.Choose("l", 0, 3), zzv.Choose("m", 0, 3)
	}
	k1, k2 := zzv.Bytes("k1", l), zzv.Bytes("k2", m)
	zzv.Assert(!zzSameK(internalKey(zzIDsK[x], k1), internalKey(zzIDsK[y], k2)), "keys of different buckets are stored under different keys")
	k3 := zzv.Bytes("k3", l)
	if !zzSameK(k1, k3) {
		zzv.Assert(!zzSameK(internalKey(zzIDsK[x], k1), internalKey(zzIDsK[x], k3)), "different keys of a bucket are stored under different keys")
		zzv.Reach("same bucket")
	}
	zzv.Reach("separated")
}

func zzSameK(a, b []byte) bool { return len(a) == len(b) && zzv.BytesEq(a, b) }

var zzIDsK = []BucketID{MerkleTrie, BytesByHash, TransactionLocatorByHash, BlockHeaderHashByHeight, BlockV1ByHash, ReceiptV1ByHash, ChainProperty}
