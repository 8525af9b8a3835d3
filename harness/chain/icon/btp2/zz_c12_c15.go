package btp2

import (
	"fmt"

	"github.com/icon-project/btp/chain/icon/client"
	"github.com/icon-project/btp/common/codec"
	"github.com/icon-project/btp/common/mbt"
	zzv "github.com/icon-project/btp/common/zzv"
	"github.com/icon-project/btp/common/zzv/zicon"
	"github.com/icon-project/btp/common/zzv/zrelay"
)

// zzDstL is the destination of a BTP block relay: its contract takes the blocks
// in order and each message of a block at its place.
type zzDstL struct {
	s        *zrelay.Sender
	blk, msg int // next block; next message of the block before
	unknown  bool
}

func (d *zzDstL) exec(m []byte) int {
	blk, msg := d.blk, d.msg
	rm := &BTPRelayMessage{}
	_, err := codec.RLP.UnmarshalFromBytes(m, rm)
	zzv.Assert(err == nil, "relay message decodes")
	for _, t := range rm.Messages {
		switch t.Type {
		case RelayMessageTypeBlockUpdate:
			bu := &client.BTPBlockUpdate{}
			_, err := codec.RLP.UnmarshalFromBytes(t.Payload, bu)
			zzv.Assert(err == nil, "block update decodes")
			j := -1
			for i, b := range zicon.Chain {
				if string(b.Header()) == string(bu.BTPBlockHeader) {
					j = i
				}
			}
			zzv.Assert(j >= 0, "block updates are of the source")
			if j < blk {
				return 27
			} else if j > blk {
				return 26
			} else if msg != len(zicon.Chain[blk-1].Msgs) {
				d.unknown = true
				return 25
			}
			blk, msg = blk+1, 0
		case RelayMessageTypeMessageProof:
			p := &mbt.MerkleBinaryTreeProof{}
			_, err := codec.RLP.UnmarshalFromBytes(t.Payload, p)
			zzv.Assert(err == nil, "message proof decodes")
			b := zicon.Chain[blk-1]
			p.SetHashFunc(mbt.HashFuncByUID("eth"))
			_, left, _, err := p.Root()
			zzv.Assert(err == nil, "message proof is well formed")
			if left != msg || string(p.Contents[0]) != string(b.Msgs[msg]) {
				d.unknown = true
				return 25
			}
			msg += len(p.Contents)
		}
	}
	d.blk, d.msg = blk, msg
	d.status()
	return 0
}

func (d *zzDstL) status() {
	b := zicon.Chain[d.blk-1]
	d.s.St.Verifier.Height = b.H
	d.s.St.RxSeq = zicon.Offset + b.SN + int64(d.msg)
}

// next is another relay that brings the next block.
func (d *zzDstL) next() {
	if d.blk < len(zicon.Chain) && d.msg == len(zicon.Chain[d.blk-1].Msgs) {
		d.blk++
		d.msg = len(zicon.Chain[d.blk-1].Msgs)
		d.status()
	}
}

func zzChainL15(n int) *zzDstL {
	s := zrelay.NewSender()
	zicon.Reset()
	s.Limit = 1 << 19
	zicon.Start = 15
	zicon.Chain = []zicon.Block{{H: 16}}
	sn, h := int64(0), 16
	for i := 0; i < n; i++ {
		h = zzv.IntRange("height", h+1, 25*i+45) // of any distance
		b := zicon.Block{H: int64(h), SN: sn}
		for j := 0; j < []int{1, 0, 2, 1}[i]; j++ {
			b.Msgs = append(b.Msgs, zzMsgL15(i, j))
		}
		sn += int64(len(b.Msgs))
		zicon.Chain = append(zicon.Chain, b)
	}
	d := &zzDstL{s: s, blk: 1}
	d.status()
	s.Exec = d.exec
	return d
}

func zzMsgL15(blk, i int) []byte { return append([]byte(fmt.Sprintf("message %d of block %d", i, blk)), zzv.Bytes("content", 2)...) }

func zzDelaysL(n int) {
	if zzv.Thorough() {
		n++
	}
	zzv.Delays(n)
}
