package ethbr

import (
	"fmt"
	"math/big"

	"github.com/icon-project/btp/chain/ethbr/client"
	"github.com/icon-project/btp/common/codec"
	zzv "github.com/icon-project/btp/common/zzv"
	"github.com/icon-project/btp/common/zzv/zeth"
	"github.com/icon-project/btp/common/zzv/zrelay"
)

// zzDstE is the destination of a bridge relay: its contract takes each message
// in order, passes over those it has got and refuses a gap.
type zzDstE struct {
	s *zrelay.Sender
}

func (d *zzDstE) exec(m []byte) int {
	rm := &client.RelayMessage{}
	_, err := codec.RLP.UnmarshalFromBytes(m, rm)
	zzv.Assert(err == nil, "relay message decodes")
	h, seq := d.s.St.Verifier.Height, d.s.St.RxSeq
	for _, rb := range rm.Receipts {
		r := &client.Receipt{}
		_, err := codec.RLP.UnmarshalFromBytes(rb, r)
		zzv.Assert(err == nil, "receipt decodes")
		if r.Height < h {
			continue
		}
		h = r.Height
		for _, b := range zeth.Chain {
			for _, e := range b.Evs {
				// each transaction has one message
				if b.H != r.Height || int64(e.Tx) != r.Index {
					continue
				}
				zzv.Assert(string(zeth.List(zeth.EncEvent(e.Next, e.Seq, e.Msg))) == string(r.Events), "messages are relayed unchanged")
				if q := e.Seq.Int64(); q > seq+1 {
					return 26
				} else if q == seq+1 {
					seq++
				}
			}
		}
	}
	d.s.St.Verifier.Height, d.s.St.RxSeq = h, seq
	return 0
}

func (d *zzDstE) next() {
	for _, b := range zeth.Chain {
		for _, e := range b.Evs {
			if e.Seq.Int64() == d.s.St.RxSeq+1 {
				d.s.St.RxSeq++
				d.s.St.Verifier.Height = b.H
				return
			}
		}
	}
}

func zzChainE15(n int) *zzDstE {
	s := zrelay.NewSender()
	zeth.Reset()
	s.Limit = 1 << 19
	s.St.Verifier.Height = 10
	seq := int64(0)
	for i := 0; i < n; i++ {
		b := zeth.Block{H: int64(10 + i)}
		for j := 0; j <= i%2; j++ {
			seq++
			b.Evs = append(b.Evs, zeth.Event{Tx: uint(j), Next: string(zeth.Dst), Seq: big.NewInt(seq), Msg: append([]byte(fmt.Sprintf("message %d of block %d", j, i)), zzv.Bytes("content", 2)...)})
		}
		zeth.Chain = append(zeth.Chain, b)
	}
	zeth.Head = int64(9 + n)
	d := &zzDstE{s: s}
	s.Exec = d.exec
	return d
}
