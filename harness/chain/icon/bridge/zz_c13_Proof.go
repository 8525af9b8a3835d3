package bridge

import (
	"encoding/base64"

	"github.com/icon-project/btp/common/codec"
	"github.com/icon-project/btp/common/types"
	zzv "github.com/icon-project/btp/common/zzv"
	"github.com/icon-project/btp/common/zzv/zicon"
	"github.com/icon-project/btp/common/zzv/znode"
)

// For every message content, sequence, place and limit, the message proof
// carries the messages after the destination's sequence, with their
// sequences, as many as fit in the limit.
func VH_C13_proof() {
	n := zzv.Choose("n", 1, 4)
	if zzv.Thorough() {
		n = zzv.Choose("m", 1, 9)
	}
	var msgs []string
	var raw [][]byte
	for i := 0; i < n; i++ {
		m := zzv.Bytes("m", 3+2*i)
		raw = append(raw, m)
		msgs = append(msgs, base64.StdEncoding.EncodeToString(m))
	}
	h, first := int64(77), zzv.I64("first")
	zzv.Assume(first >= 1 && first < 1<<50)
	limit := zzv.I64("limit")
	zzv.Assume(limit >= 0 && limit < 1<<40)
	done0 := zzv.Choose("done0", 0, n) // when the block was received
	done := zzv.Choose("done", done0, n)
	rs, err := newReceiveStatus(h, first-1+int64(done0), first, msgs, zicon.Dst)
	zzv.Assert(err == nil && rs.Height() == h && rs.Seq() == first+int64(n)-1, "block is taken")
	b := NewBridge(zicon.Src, zicon.Dst, "http://node", znode.L{})
	b.rss = append(b.rss, rs)
	bls := &types.BMCLinkStatus{RxSeq: first - 1 + int64(done), TxSeq: zzv.I64("tx")}
	bls.Verifier.Height = h
	for i := done; i < n; i++ {
		zzv.Assert(b.GetHeightForSeq(first+int64(i)) == h, "the block of every message is found")
	}
	zzv.Assert(b.GetHeightForSeq(first+int64(n)) == 0 && b.GetHeightForSeq(first-1) == 0, "no block for messages of none")
	mp, err := b.BuildMessageProof(bls, limit)
	zzv.Assert(err == nil, "no failure")
	if done == n {
		zzv.Assert(mp == nil, "nothing left, nothing to prove")
		zzv.Reach("nothing")
		return
	}
	zzv.Assert(mp != nil, "messages left are proven")
	rm := &RelayMessage{}
	bs := mp.(*MessageProof).Bytes()
	_, err = codec.RLP.UnmarshalFromBytes(bs, rm)
	zzv.Assert(err == nil && len(rm.Receipts) == 1, "one receipt per block")
	r := &Receipt{}
	_, err = codec.RLP.UnmarshalFromBytes(rm.Receipts[0], r)
	zzv.Assert(err == nil && r.Height == h && r.Index == 0, "receipt of the block")
	var evts []*Event
	_, err = codec.RLP.UnmarshalFromBytes(r.Events, &evts)
	zzv.Assert(err == nil, "events decode")
	k := len(evts)
	zzv.Assert(k > 0 && done+k <= n, "proof carries messages of the block")
	size := int64(0)
	for i, e := range evts {
		zzv.Assert(zzv.BytesEq(e.Message, raw[done+i]) && e.Sequence == first+int64(done+i) && e.Next == string(zicon.Dst), "messages are unchanged and in order")
		size += int64(len(codec.RLP.MustMarshalToBytes(e)))
	}
	zzv.Assert(mp.LastSeqNum() == bls.RxSeq+int64(k), "last sequence is that of the last message carried")
	zzv.Assert(int64(len(bs)) == mp.Len(), "length of the proof")
	zzv.Assert(k == 1 || size <= limit, "messages are added while they fit")
	if done+k < n {
		next := &Event{Next: string(zicon.Dst), Sequence: first + int64(done+k), Message: raw[done+k]}
		zzv.Assert(size+int64(len(codec.RLP.MustMarshalToBytes(next))) > limit, "all messages that fit are carried")
		zzv.Reach("split")
	}
	nb := *bls
	zzv.Assert(mp.UpdateBMCLinkStatus(&nb) == nil, "status is updated")
	zzv.Assert(nb.RxSeq == bls.RxSeq+int64(k) && nb.TxSeq == bls.TxSeq && nb.Verifier.Height == h, "status counts the messages carried")
	zzv.Reach("proven")
}
