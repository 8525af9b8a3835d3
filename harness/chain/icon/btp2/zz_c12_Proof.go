package btp2

import (
	"encoding/base64"

	"github.com/icon-project/btp/common/codec"
	"github.com/icon-project/btp/common/mbt"
	"github.com/icon-project/btp/common/types"
	zzv "github.com/icon-project/btp/common/zzv"
	"github.com/icon-project/btp/common/zzv/zicon"
	"github.com/icon-project/btp/common/zzv/znode"
)

// For every message content, sequence, place and limit, the message proof
// carries the messages after the destination's sequence, tells the last
// sequence it carries, and as many as fit in the limit.
func VH_C12_proof() {
	zzv.HashAxioms(false)
	n := zzv.Choose("n", 1, 4)
	if zzv.Thorough() {
		n = zzv.Choose("m", 1, 9)
	}
	var msgs []string
	var raw [][]byte
	for i := 0; i < n; i++ {
		m := zzv.Bytes("m", 3+2*i)
		raw = append(raw, m)
		msgs = append(msgs, base64.StdEncoding.EncodeToString(m))
	}
	h, last := zzv.I64("height"), zzv.I64("last")
	zzv.Assume(last >= int64(n) && last < 1<<50)
	done := zzv.Choose("done", 0, n)
	limit := zzv.I64("limit")
	zzv.Assume(limit >= 0 && limit < 1<<40)
	rs, err := newReceiveStatus(h, last, msgs)
	zzv.Assert(err == nil && rs.Height() == h && rs.Seq() == last, "block is taken")
	b := NewBTP2(zicon.Src, zicon.Dst, "http://node", znode.L{})
	b.rss = append(b.rss, rs)
	bls := &types.BMCLinkStatus{RxSeq: last - int64(n-done), TxSeq: zzv.I64("tx")}
	bls.Verifier.Height = h
	for i := 1; i <= n; i++ {
		zzv.Assert(b.GetHeightForSeq(last-int64(n)+int64(i)) == h, "the block of every message is found")
	}
	zzv.Assert(b.GetHeightForSeq(last+1) == 0 && b.GetHeightForSeq(last-int64(n)) == 0, "no block for messages of none")
	mp, err := b.BuildMessageProof(bls, limit)
	zzv.Assert(err == nil, "no failure")
	if done == n {
		zzv.Assert(mp == nil, "nothing left, nothing to prove")
		zzv.Reach("nothing")
		return
	}
	zzv.Assert(mp != nil, "messages left are proven")
	p := &mbt.MerkleBinaryTreeProof{}
	tpm, err := NewTypePrefixedMessage(mp)
	zzv.Assert(err == nil, "item encodes")
	_, err = codec.RLP.UnmarshalFromBytes(tpm.Payload, p)
	zzv.Assert(err == nil, "proof decodes")
	p.SetHashFunc(mbt.HashFuncByUID("eth"))
	root, left, total, err := p.Root()
	zzv.Assert(err == nil && left == done && total == n, "proof is at the place of the messages")
	t, _ := mbt.NewMerkleBinaryTree(mbt.HashFuncByUID("eth"), raw)
	zzv.Assert(zzv.BytesEq(root, t.Root()), "proof leads to the block's root")
	k := len(p.Contents)
	zzv.Assert(k > 0 && done+k <= n, "proof carries messages of the block")
	for i, c := range p.Contents {
		zzv.Assert(zzv.BytesEq(c, raw[done+i]), "messages are unchanged and in order")
	}
	zzv.Assert(mp.LastSeqNum() == bls.RxSeq+int64(k), "last sequence is that of the last message carried")
	zzv.Assert(mp.StartSeqNum() == bls.RxSeq || mp.StartSeqNum() == bls.RxSeq+1, "first sequence is that of the first message carried")
	zzv.Assert(int64(len(tpm.Payload)) == mp.Len(), "length of the proof")
	if k > 1 {
		q, err := t.Proof(done+1, done+k-1)
		zzv.Assert(err == nil && int64(len(codec.RLP.MustMarshalToBytes(q))) <= limit, "messages are added while they fit")
	}
	if done+k < n {
		zzv.Assert(mp.Len() > limit, "all messages that fit are carried")
		zzv.Reach("split")
	}
	nb := *bls
	zzv.Assert(mp.UpdateBMCLinkStatus(&nb) == nil, "status is updated")
	zzv.Assert(nb.RxSeq == bls.RxSeq+int64(k) && nb.TxSeq == bls.TxSeq && nb.Verifier.Height == h, "status counts the messages carried")
	zzv.Reach("proven")
}
