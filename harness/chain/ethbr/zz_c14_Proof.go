package ethbr

import (
	"math/big"

	"github.com/icon-project/btp/chain/ethbr/client"
	"github.com/icon-project/btp/common/codec"
	"github.com/icon-project/btp/common/types"
	zzv "github.com/icon-project/btp/common/zzv"
	"github.com/icon-project/btp/common/zzv/zeth"
	"github.com/icon-project/btp/common/zzv/znode"
)

// For every message content, sequence, place and limit, the message proof
// carries the messages after the destination's sequence, by transaction, as
// many as fit in the limit.
func VH_C14_proof() {
	n := zzv.Choose("n", 1, 3)
	if zzv.Thorough() {
		n = zzv.Choose("m", 1, 5)
	}
	first := zzv.I64("first")
	zzv.Assume(first >= 1 && first < 1<<9)
	limit := zzv.I64("limit")
	zzv.Assume(limit >= 0 && limit < 1<<40)
	h := int64(77)
	var rps []*client.ReceiptProof
	var raw, enc [][]byte
	var txs []int64
	for i := 0; i < n; i++ {
		if i == 0 || zzv.Bool("newtx") {
			rps = append(rps, &client.ReceiptProof{Index: int64(3*i + 2), Height: h})
		}
		m := zzv.Bytes("m", 3+2*i)
		q := big.NewInt(first + int64(i))
		rp := rps[len(rps)-1]
		rp.Events = append(rp.Events, &client.Event{Next: zeth.Dst, Sequence: q, Message: m})
		raw = append(raw, m)
		enc = append(enc, zeth.EncEvent(string(zeth.Dst), q, m))
		txs = append(txs, rp.Index)
	}
	done := zzv.Choose("done", 0, n)
	rs, err := newReceiveStatus(h, first+int64(n)-1, rps)
	zzv.Assert(err == nil && rs.Height() == h && rs.Seq() == first+int64(n)-1, "block is taken")
	url, stop := zeth.Node()
	defer stop()
	b := NewEthBridge(zeth.Src, zeth.Dst, url, znode.L{})
	b.rss = append(b.rss, rs)
	bls := &types.BMCLinkStatus{RxSeq: first - 1 + int64(done), TxSeq: zzv.I64("tx")}
	bls.Verifier.Height = h
	for i := 0; i < n; i++ {
		zzv.Assert(b.GetHeightForSeq(first+int64(i)) == h, "the block of every message is found")
	}
	zzv.Assert(b.GetHeightForSeq(first+int64(n)) == 0 && b.GetHeightForSeq(first-1) == 0, "no block for messages of none")
	mp, err := b.BuildMessageProof(bls, limit)
	zzv.Assert(err == nil, "no failure")
	if done == n {
		zzv.Assert(mp == nil, "nothing left, nothing to prove")
		zzv.Reach("nothing")
		return
	}
	zzv.Assert(mp != nil, "messages left are proven")
	rm := &client.RelayMessage{}
	bs := mp.(*MessageProof).Bytes()
	_, err = codec.RLP.UnmarshalFromBytes(bs, rm)
	zzv.Assert(err == nil, "proof decodes")
	k, size := 0, 0
	for _, rb := range rm.Receipts {
		r := &client.Receipt{}
		_, err = codec.RLP.UnmarshalFromBytes(rb, r)
		zzv.Assert(err == nil && r.Height == h, "receipt of the block")
		var want []byte
		for done+k < n && txs[done+k] == r.Index && len(zeth.List(want)) < len(r.Events) {
			want = append(want, enc[done+k]...)
			size += len(enc[done+k])
			k++
		}
		zzv.Assert(len(want) > 0 && zzv.BytesEq(zeth.List(want), r.Events), "messages are unchanged, in order, with their transaction")
	}
	zzv.Assert(k > 0, "proof carries messages of the block")
	zzv.Assert(mp.LastSeqNum() == bls.RxSeq+int64(k), "last sequence is that of the last message carried")
	zzv.Assert(int64(len(bs)) == mp.Len(), "length of the proof")
	zzv.Assert(k == 1 || int64(size) <= limit, "messages are added while they fit")
	if done+k < n {
		zzv.Assert(int64(size+len(enc[done+k])) > limit, "all messages that fit are carried")
		zzv.Reach("split")
	}
	nb := *bls
	zzv.Assert(mp.UpdateBMCLinkStatus(&nb) == nil, "status is updated")
	zzv.Assert(nb.RxSeq == bls.RxSeq+int64(k) && nb.TxSeq == bls.TxSeq && nb.Verifier.Height == h, "status counts the messages carried")
	zzv.Reach("proven")
}
