package bridge

import (
	"fmt"

	"github.com/icon-project/btp/common/codec"
	zzv "github.com/icon-project/btp/common/zzv"
	"github.com/icon-project/btp/common/zzv/zicon"
	"github.com/icon-project/btp/common/zzv/zrelay"
)

// zzDstB is the destination of a bridge relay: its contract takes each message
// in order, passes over those it has got and refuses a gap.
type zzDstB struct {
	s   *zrelay.Sender
	got []string
}

func (d *zzDstB) exec(m []byte) int {
	rm := &RelayMessage{}
	_, err := codec.RLP.UnmarshalFromBytes(m, rm)
	zzv.Assert(err == nil, "relay message decodes")
	got, h := d.got, d.s.St.Verifier.Height
	for _, rb := range rm.Receipts {
		r := &Receipt{}
		_, err := codec.RLP.UnmarshalFromBytes(rb, r)
		zzv.Assert(err == nil, "receipt decodes")
		if r.Height < h {
			continue
		}
		h = r.Height
		var evts []*Event
		_, err = codec.RLP.UnmarshalFromBytes(r.Events, &evts)
		zzv.Assert(err == nil, "events decode")
		for _, e := range evts {
			if n := zicon.Offset + int64(len(got)) + 1; e.Sequence < n {
				continue
			} else if e.Sequence > n {
				return 26
			}
			got = append(got[:len(got):len(got)], string(e.Message))
		}
	}
	d.got = got
	d.s.St.Verifier.Height = h
	d.s.St.RxSeq = zicon.Offset + int64(len(got))
	return 0
}

// next is another relay that brings the next block.
func (d *zzDstB) next() {
	for _, b := range zicon.Chain {
		if k := len(d.got) - int(b.SN); k >= 0 && k < len(b.Msgs) {
			for ; k < len(b.Msgs); k++ {
				d.got = append(d.got, string(b.Msgs[k]))
			}
			d.s.St.Verifier.Height = b.H
			d.s.St.RxSeq = zicon.Offset + int64(len(d.got))
			return
		}
	}
}

func zzChainB15(n int) *zzDstB {
	s := zrelay.NewSender()
	zicon.Reset()
	s.Limit = 1 << 19
	zicon.Offset = 4
	sn, h := int64(0), 16
	for i := 0; i < n; i++ {
		h = zzv.IntRange("height", h+1, 25*i+45) // of any distance
		b := zicon.Block{H: int64(h), SN: sn}
		for j := 0; j <= i%2; j++ {
			b.Msgs = append(b.Msgs, append([]byte(fmt.Sprintf("message %d of block %d", j, i)), zzv.Bytes("content", 2)...))
		}
		sn += int64(len(b.Msgs))
		zicon.Chain = append(zicon.Chain, b)
	}
	s.St.Verifier.Height = 16
	s.St.RxSeq = 4
	d := &zzDstB{s: s}
	s.Exec = d.exec
	return d
}
