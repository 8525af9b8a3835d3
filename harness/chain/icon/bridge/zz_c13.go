package bridge

import (
	"fmt"

	"github.com/icon-project/btp/common/codec"
	zzv "github.com/icon-project/btp/common/zzv"
	"github.com/icon-project/btp/common/zzv/zicon"
	"github.com/icon-project/btp/common/zzv/znode"
	"github.com/icon-project/btp/common/zzv/zrelay"
)

// zzTallyB reads back what was relayed: every message of the link after the
// destination's sequence, once, in order, with its sequence and block.
type zzTallyB struct {
	seq int64
}

func (y *zzTallyB) add(m []byte, limit int) {
	rm := &RelayMessage{}
	rest, err := codec.RLP.UnmarshalFromBytes(m, rm)
	zzv.Assert(err == nil && len(rest) == 0, "relay message decodes")
	n, size, last := 0, 0, 0
	for _, rb := range rm.Receipts {
		r := &Receipt{}
		rest, err := codec.RLP.UnmarshalFromBytes(rb, r)
		zzv.Assert(err == nil && len(rest) == 0, "receipt decodes")
		var evts []*Event
		rest, err = codec.RLP.UnmarshalFromBytes(r.Events, &evts)
		zzv.Assert(err == nil && len(rest) == 0, "events decode")
		for _, e := range evts {
			y.seq++
			n++
			zzv.Assert(e.Sequence == y.seq, "messages are relayed once, in order, with their sequence")
			zzv.Assert(e.Next == string(zicon.Dst), "messages go to the destination of the link")
			b, msg := zzFindB(y.seq)
			zzv.Assert(b != nil && r.Height == b.H, "a message is relayed with the height of its block")
			zzv.Assert(string(e.Message) == string(msg), "messages are relayed unchanged")
			last = len(codec.RLP.MustMarshalToBytes(e))
			size += last
		}
	}
	zzv.Assert(n > 0, "relay message carries messages")
	zzv.Assert(n == 1 || size <= limit, "messages that do not fit go separately")
}

func zzFindB(seq int64) (*zicon.Block, []byte) {
	for i := range zicon.Chain {
		b := &zicon.Chain[i]
		k := seq - (zicon.Offset + 1 + b.SN)
		if k >= 0 && k < int64(len(b.Msgs)) {
			return b, b.Msgs[k]
		}
	}
	return nil, nil
}

func zzMsgB(blk, i int) []byte {
	m := []byte{byte(0x40 + blk), byte(i)}
	for len(m) < 30+7*i {
		m = append(m, byte(len(m)))
	}
	return m
}

func zzRunB(s *zrelay.Sender) (seq int64, end bool) {
	url, stop := zicon.Node()
	defer stop()
	y := &zzTallyB{seq: s.St.RxSeq}
	end = zrelay.Run(s, NewBridge(zicon.Src, zicon.Dst, url, znode.L{}), zicon.Src, zicon.Dst)
	for _, m := range s.Got {
		y.add(m, s.Limit)
	}
	return y.seq, end
}

func zzLastB() int64 {
	b := zicon.Chain[len(zicon.Chain)-1]
	return zicon.Offset + b.SN + int64(len(b.Msgs))
}

func zzAllB(s *zrelay.Sender) {
	seq, end := zzRunB(s)
	zzv.Assert(!end, "the link keeps running")
	zzv.Assert(seq == zzLastB() || s.St.RxSeq >= zzLastB() && len(s.Got) == 0, "everything is relayed")
}

// zzSetupB makes a chain; the destination has got everything before some
// block and possibly some messages of it.
func zzSetupB(maxBlocks, maxMsgs int) *zrelay.Sender {
	s := zrelay.NewSender()
	zicon.Reset()
	zicon.Offset = int64(zzv.Choose("offset", 0, 1) * 5)
	n := zzv.Choose("blocks", 1, maxBlocks)
	h, sn := int64(9), int64(3)
	for i := 0; i < n; i++ {
		h += int64(1 + i)
		b := zicon.Block{H: h, SN: sn}
		c := zzv.Choose(fmt.Sprintf("msgs%d", i), 0, maxMsgs)
		for j := 0; j < c; j++ {
			b.Msgs = append(b.Msgs, zzMsgB(i, j))
		}
		sn += int64(c)
		zicon.Chain = append(zicon.Chain, b)
	}
	s.St.Verifier.Height = 10
	done := zzv.Choose("done", 0, len(zicon.Chain[0].Msgs))
	s.St.RxSeq = zicon.Offset + 3 + int64(done)
	return s
}

// Every message reaches the sender exactly once, whatever the number of blocks
// and messages, the place of the destination in the first block and the limit.
func VH_C13_limit() {
	max := 2
	if zzv.Thorough() {
		max = 3
	}
	s := zzSetupB(max, 3)
	s.Limit = zzv.Int("limit")
	zzv.Assume(s.Limit >= 0 && s.Limit < 1<<30)
	zzAllB(s)
	zzv.Reach("relayed")
}

// ... and however the node's and the link's goroutines are scheduled.
func VH_C13_schedule() {
	s := zrelay.NewSender()
	zicon.Reset()
	s.Limit = 1 << 19
	sn := int64(0)
	for i := 0; i < 3; i++ {
		b := zicon.Block{H: int64(11 + i), SN: sn}
		if zzv.Bool(fmt.Sprintf("msg%d", i)) {
			b.Msgs = [][]byte{zzMsgB(i, 0)}
			sn++
		}
		zicon.Chain = append(zicon.Chain, b)
	}
	s.St.Verifier.Height = 10
	if zzv.Thorough() {
		zzv.Preempt(2)
	} else {
		zzv.Preempt(1)
	}
	zzAllB(s)
	zzv.Reach("relayed")
}

// A failing node call ends the link with an error; what was received before is
// relayed and nothing behind it.
func VH_C13_node_fault() {
	s := zzSetupB(3, 2)
	s.Limit = 1 << 19
	zicon.FaultMethod = []string{"btp_getMessages", "icx_call", "btp_getNetworkInfo"}[zzv.Choose("method", 0, 2)]
	zicon.FaultAt = zzv.Choose("fault", 1, 2)
	seq, end := zzRunB(s)
	if zicon.FaultMethod == "btp_getMessages" && zicon.FaultAt <= len(zicon.Chain) {
		zzv.Assert(end, "a block that cannot be read ends the link")
		w := zicon.Offset + zicon.Chain[zicon.FaultAt-1].SN
		zzv.Assert(seq == w || seq == s.St.RxSeq && w <= seq, "blocks before it are relayed, it is not skipped")
	} else if zicon.FaultMethod == "icx_call" || zicon.FaultAt == 1 && zicon.FaultMethod == "btp_getNetworkInfo" {
		zzv.Assert(end && len(s.Got) == 0, "a link without its network ends")
	}
	zzv.Reach("relayed")
}

// A broken connection ends the link with an error after everything received
// was relayed.
func VH_C13_disconnect() {
	s := zzSetupB(3, 1)
	s.Limit = 1 << 19
	zicon.DropAt = zzv.Choose("drop", 1, 4)
	n := zicon.DropAt - 1
	seq, end := zzRunB(s)
	zzv.Assert(end, "a broken connection ends the link")
	w := s.St.RxSeq
	if n > len(zicon.Chain) {
		n = len(zicon.Chain)
	}
	if n > 0 {
		b := zicon.Chain[n-1]
		if k := zicon.Offset + b.SN + int64(len(b.Msgs)); k > w {
			w = k
		}
	}
	zzv.Assert(seq == w, "everything received is relayed")
	zzv.Reach("ended")
}
