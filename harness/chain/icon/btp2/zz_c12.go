package btp2

import (
	"fmt"

	"github.com/icon-project/btp/chain/icon/client"
	"github.com/icon-project/btp/common/codec"
	"github.com/icon-project/btp/common/mbt"
	zzv "github.com/icon-project/btp/common/zzv"
	"github.com/icon-project/btp/common/zzv/zicon"
	"github.com/icon-project/btp/common/zzv/znode"
	"github.com/icon-project/btp/common/zzv/zrelay"
)

// zzTallyL reads back what was relayed: every block update once and in order,
// the messages of a block after its update, once, in order and proven.
type zzTallyL struct {
	blk, msg int // next block; next message of the block before
}

func (y *zzTallyL) add(m []byte) {
	rm := &BTPRelayMessage{}
	rest, err := codec.RLP.UnmarshalFromBytes(m, rm)
	zzv.Assert(err == nil && len(rest) == 0, "relay message decodes")
	zzv.Assert(len(rm.Messages) > 0, "relay message carries something")
	for _, t := range rm.Messages {
		switch t.Type {
		case RelayMessageTypeBlockUpdate:
			zzv.Assert(y.blk == 0 || y.msg == len(zicon.Chain[y.blk-1].Msgs), "all messages of a block go before the next block")
			bu := &client.BTPBlockUpdate{}
			_, err := codec.RLP.UnmarshalFromBytes(t.Payload, bu)
			zzv.Assert(err == nil && y.blk < len(zicon.Chain), "block update decodes, and there is such a block")
			b := zicon.Chain[y.blk]
			zzv.Assert(string(bu.BTPBlockHeader) == string(b.Header()), "blocks are relayed once, in order")
			zzv.Assert(string(bu.BTPBlockProof) == string(b.Proof()), "a block is relayed with its proof")
			y.blk++
			y.msg = 0
		case RelayMessageTypeMessageProof:
			zzv.Assert(y.blk > 0, "messages follow their block")
			b := zicon.Chain[y.blk-1]
			p := &mbt.MerkleBinaryTreeProof{}
			_, err := codec.RLP.UnmarshalFromBytes(t.Payload, p)
			zzv.Assert(err == nil, "message proof decodes")
			p.SetHashFunc(mbt.HashFuncByUID("eth"))
			h, left, total, err := p.Root()
			zzv.Assert(err == nil, "message proof is well formed")
			zzv.Assert(zzv.BytesEq(h, b.Root()) && total == len(b.Msgs), "message proof leads to the root of the block")
			zzv.Assert(left == y.msg, "messages are relayed once, in order")
			zzv.Assert(len(p.Contents) > 0, "message proof carries messages")
			for i, c := range p.Contents {
				zzv.Assert(string(c) == string(b.Msgs[y.msg+i]), "messages are relayed unchanged")
			}
			y.msg += len(p.Contents)
		default:
			zzv.Assert(false, "known item type")
		}
	}
}

// upto tells whether everything of the first n blocks was relayed.
func (y *zzTallyL) upto(n int) bool {
	return y.blk >= n && (y.blk == 0 || y.blk > n || y.msg == len(zicon.Chain[y.blk-1].Msgs))
}

func zzRunL(s *zrelay.Sender, done int) (*zzTallyL, bool) {
	url, stop := zicon.Node()
	defer stop()
	end := zrelay.Run(s, NewBTP2(zicon.Src, zicon.Dst, url, znode.L{}), zicon.Src, zicon.Dst)
	y := &zzTallyL{blk: 1, msg: done}
	for _, m := range s.Got {
		y.add(m)
	}
	return y, end
}

func zzAllL(s *zrelay.Sender, done int) {
	y, end := zzRunL(s, done)
	zzv.Assert(!end, "the link keeps running")
	zzv.Assert(y.upto(len(zicon.Chain)), "everything is relayed")
}

func zzMsgL(blk, i int) []byte {
	m := []byte{byte(0x40 + blk), byte(i)}
	for len(m) < 30+7*i {
		m = append(m, byte(len(m)))
	}
	return m
}

// zzSetupL makes a chain; the destination has got everything up to some of the
// messages of the first block.
func zzSetupL(maxBlocks, maxMsgs int) (*zrelay.Sender, int) {
	s := zrelay.NewSender()
	zicon.Reset()
	n := 0
	if maxBlocks > 0 {
		zicon.Offset = int64(zzv.Choose("offset", 0, 1) * 5)
		n = zzv.Choose("blocks", 1, maxBlocks)
	}
	h, sn := int64(9), int64(0)
	for i := 0; i <= n; i++ {
		h += int64(1 + i)
		b := zicon.Block{H: h, SN: sn}
		c := 0
		if maxMsgs > 0 {
			c = zzv.Choose(fmt.Sprintf("msgs%d", i), 0, maxMsgs)
		}
		for j := 0; j < c; j++ {
			b.Msgs = append(b.Msgs, zzMsgL(i, j))
		}
		sn += int64(c)
		zicon.Chain = append(zicon.Chain, b)
	}
	s.St.Verifier.Height = 10
	done := 0
	if c := len(zicon.Chain[0].Msgs); c > 0 {
		done = zzv.Choose("done", 0, c)
	} else if n == 0 || zzv.Bool("first") {
		zicon.Start = 9 // the destination starts with this block
	}
	s.St.RxSeq = zicon.Offset + int64(done)
	return s, done
}

// Every block and message reaches the sender exactly once, whatever the number
// of blocks and messages and the size limit.
func VH_C12_limit() {
	max := 2
	if zzv.Thorough() {
		max = 3
	}
	s, done := zzSetupL(max, 3)
	s.Limit = zzv.Int("limit")
	h := 0
	for _, b := range zicon.Chain {
		if n := len(codec.RLP.MustMarshalToBytes(&client.BTPBlockUpdate{BTPBlockHeader: b.Header(), BTPBlockProof: b.Proof()})); n > h {
			h = n
		}
	}
	zzv.Assume(s.Limit >= h && s.Limit < 1<<30) // a block update fits
	zzAllL(s, done)
	zzv.Reach("relayed")
}

// A block update too large for the sender holds back what comes after it; no
// block is left out.
func VH_C12_oversize() {
	s, done := zzSetupL(0, 0)
	sn := int64(0)
	for i := 0; i < 3; i++ {
		b := zicon.Block{H: int64(20 + i), SN: sn}
		if zzv.Bool(fmt.Sprintf("msg%d", i)) {
			b.Msgs = [][]byte{zzMsgL(i, 0)}
			sn++
		}
		zicon.Chain = append(zicon.Chain, b)
	}
	k := zzv.Choose("big", 1, 3)
	zicon.Chain[k].Big = 100
	s.Limit = zzv.Int("limit")
	zzv.Assume(s.Limit >= 0 && s.Limit < 1000)
	y, _ := zzRunL(s, done)
	if s.Limit >= 500 {
		zzv.Assert(y.upto(len(zicon.Chain)), "everything is relayed")
	}
	zzv.Reach("relayed")
}

// ... and however the node's and the link's goroutines are scheduled.
func VH_C12_schedule() {
	s, done := zzSetupL(0, 0)
	s.Limit = 1 << 19
	sn := int64(0)
	for i := 0; i < 3; i++ {
		b := zicon.Block{H: int64(11 + i), SN: sn}
		if zzv.Bool(fmt.Sprintf("msg%d", i)) {
			b.Msgs = [][]byte{zzMsgL(i, 0)}
			sn++
		}
		zicon.Chain = append(zicon.Chain, b)
	}
	if zzv.Thorough() {
		zzv.Preempt(2)
	} else {
		zzv.Preempt(1)
	}
	zzAllL(s, done)
	zzv.Reach("relayed")
}

// A failing node call delays blocks, it does not lose them: the next block
// brings everything, or the link ends with an error having relayed everything
// it received.
func VH_C12_node_fault() {
	max := 2
	if zzv.Thorough() {
		max = 3
	}
	s, done := zzSetupL(max, 2)
	s.Limit = 1 << 19
	zicon.FaultMethod = []string{"btp_getHeader", "btp_getProof", "btp_getMessages", "icx_call", "btp_getNetworkInfo"}[zzv.Choose("method", 0, 4)]
	zicon.FaultAt = zzv.Choose("fault", 1, 2)
	z := zicon.Chain[len(zicon.Chain)-1]
	zicon.Chain = append(zicon.Chain, zicon.Block{H: 90, SN: z.SN + int64(len(z.Msgs)), Msgs: [][]byte{{1}}})
	y, end := zzRunL(s, done)
	switch zicon.FaultMethod {
	case "btp_getHeader", "btp_getProof":
		zzv.Assert(!end && y.upto(len(zicon.Chain)), "a failing header is asked again")
	case "btp_getMessages":
		at := zicon.FaultAt
		if zicon.Start == 9 {
			at++
		}
		zzv.Assert(end, "a block that cannot be read ends the link")
		zzv.Assert(at == 1 || y.upto(at-1), "blocks before it are relayed")
		zzv.Assert(y.blk < at || at == 1 && y.blk == 1 && y.msg == done, "it is not skipped")
	default:
		if zicon.FaultAt == 1 || zicon.FaultMethod == "icx_call" {
			zzv.Assert(end && y.blk == 1 && y.msg == done, "a link without its network ends")
		}
	}
	zzv.Reach("relayed")
}

// A broken connection ends the link with an error after everything received
// was relayed.
func VH_C12_disconnect() {
	s, done := zzSetupL(3, 1)
	s.Limit = 1 << 19
	zicon.DropAt = zzv.Choose("drop", 1, 4)
	y, end := zzRunL(s, done)
	zzv.Assert(end, "a broken connection ends the link")
	n := zicon.DropAt - 1
	if n > len(zicon.Chain) {
		n = len(zicon.Chain)
	}
	zzv.Assert(n == 0 || y.blk == n && y.upto(n), "everything received is relayed")
	zzv.Reach("ended")
}
