package ethbr

import (
	"fmt"
	"math/big"
	"time"

	"github.com/icon-project/btp/chain/ethbr/client"
	"github.com/icon-project/btp/common/codec"
	zzv "github.com/icon-project/btp/common/zzv"
	"github.com/icon-project/btp/common/zzv/zeth"
	"github.com/icon-project/btp/common/zzv/znode"
	"github.com/icon-project/btp/common/zzv/zrelay"
)

// zzTallyE reads back what was relayed: every message for the destination after
// its sequence, once, in order, with its sequence, transaction and block.
type zzTallyE struct {
	seq int64
}

func zzFindE(seq int64) (*zeth.Block, *zeth.Event) {
	for i := range zeth.Chain {
		b := &zeth.Chain[i]
		for j := range b.Evs {
			if e := &b.Evs[j]; e.Next == string(zeth.Dst) && e.Seq.Int64() == seq {
				return b, e
			}
		}
	}
	return nil, nil
}

func (y *zzTallyE) add(m []byte, limit int) {
	rm := &client.RelayMessage{}
	rest, err := codec.RLP.UnmarshalFromBytes(m, rm)
	zzv.Assert(err == nil && len(rest) == 0, "relay message decodes")
	n, size := 0, 0
	for _, rb := range rm.Receipts {
		r := &client.Receipt{}
		rest, err := codec.RLP.UnmarshalFromBytes(rb, r)
		zzv.Assert(err == nil && len(rest) == 0, "receipt decodes")
		var want []byte
		for len(want) < len(r.Events)-3 {
			b, e := zzFindE(y.seq + 1)
			if b == nil || r.Height != b.H || r.Index != int64(e.Tx) {
				break
			}
			x := zeth.EncEvent(e.Next, e.Seq, e.Msg)
			want = append(want, x...)
			size += len(x)
			n++
			y.seq++
		}
		zzv.Assert(len(want) > 0, "a receipt carries messages of its transaction")
		zzv.Assert(string(zeth.List(want)) == string(r.Events), "messages are relayed once, in order, unchanged, with transaction and block")
	}
	zzv.Assert(n > 0, "relay message carries messages")
	zzv.Assert(n == 1 || size <= limit, "messages that do not fit go separately")
}

func zzRunE(s *zrelay.Sender) (seq int64, end bool) {
	client.BlockRetryInterval = time.Millisecond
	url, stop := zeth.Node()
	defer stop()
	y := &zzTallyE{seq: s.St.RxSeq}
	end = zrelay.Run(s, NewEthBridge(zeth.Src, zeth.Dst, url, znode.L{}), zeth.Src, zeth.Dst)
	for _, m := range s.Got {
		y.add(m, s.Limit)
	}
	return y.seq, end
}

// zzSetupE makes a chain of blocks from the destination's height on; the
// destination may have some messages of the first one.
func zzSetupE(maxBlocks, maxMsgs int, shapes bool) *zrelay.Sender {
	s := zrelay.NewSender()
	zeth.Reset()
	n := zzv.Choose("blocks", 1, maxBlocks)
	seq := int64(4 * zzv.Choose("seq0", 0, 1))
	s.St.Verifier.Height = 10
	for i := 0; i < n; i++ {
		b := zeth.Block{H: int64(10 + i)}
		c := zzv.Choose(fmt.Sprintf("msgs%d", i), 0, maxMsgs)
		tx := uint(0)
		for j := 0; j < c; j++ {
			seq++
			if shapes {
				switch zzv.Choose("shape", 0, 3) {
				case 1: // next transaction
					tx += 2
				case 2: // foreign message in between
					b.Evs = append(b.Evs, zeth.Event{Tx: tx, Next: "btp://0x2.icon/cx03", Seq: big.NewInt(seq + 50), Msg: []byte{9}})
				case 3: // foreign message with the sequence this one has
					b.Evs = append(b.Evs, zeth.Event{Tx: tx, Next: "btp://0x3.icon/cx03", Seq: big.NewInt(seq), Msg: []byte{9}})
					tx++
				}
			} else if j > 0 {
				tx += uint(j & 1)
			}
			b.Evs = append(b.Evs, zeth.Event{Tx: tx, Next: string(zeth.Dst), Seq: big.NewInt(seq), Msg: zzMsgE(i, j)})
		}
		if i == 0 {
			s.St.RxSeq = seq - int64(c) + int64(zzv.Choose("done", 0, c))
		}
		zeth.Chain = append(zeth.Chain, b)
	}
	zeth.Head = int64(10 + zzv.Choose("head", 0, n-1))
	return s
}

func zzMsgE(blk, i int) []byte {
	m := []byte{byte(0x40 + blk), byte(i)}
	for len(m) < 30+7*i {
		m = append(m, byte(len(m)))
	}
	return m
}

// zzLastE gives the last sequence of the first n blocks.
func zzLastE(n int, rx int64) int64 {
	r := rx
	for _, b := range zeth.Chain[:n] {
		for _, e := range b.Evs {
			if q := e.Seq.Int64(); e.Next == string(zeth.Dst) && q > r {
				r = q
			}
		}
	}
	return r
}

func zzAllE(s *zrelay.Sender) {
	seq, end := zzRunE(s)
	zzv.Assert(!end, "the link keeps running")
	zzv.Assert(seq == zzLastE(len(zeth.Chain), s.St.RxSeq), "everything is relayed")
}

// Every message reaches the sender exactly once, whatever the number of blocks
// and messages, the place of the destination in the first block and the limit.
func VH_C14_limit() {
	max := 2
	if zzv.Thorough() {
		max = 3
	}
	s := zzSetupE(max, 3, false)
	s.Limit = zzv.Int("limit")
	zzv.Assume(s.Limit >= 0 && s.Limit < 1<<30)
	zzAllE(s)
	zzv.Reach("relayed")
}

// ... however messages are spread over transactions and mixed with messages of
// other links.
func VH_C14_shape() {
	max := 1
	if zzv.Thorough() {
		max = 2
	}
	zzv.MapOrder(true)
	s := zzSetupE(max, 3, true)
	s.Limit = zzv.Int("limit")
	zzv.Assume(s.Limit >= 0 && s.Limit < 1<<30)
	zzAllE(s)
	zzv.Reach("relayed")
}

// ... and however the node's and the link's goroutines are scheduled.
func VH_C14_schedule() {
	s := zrelay.NewSender()
	zeth.Reset()
	s.Limit = 1 << 19
	q := int64(0)
	for i := 0; i < 3; i++ {
		b := zeth.Block{H: int64(10 + i)}
		if zzv.Bool(fmt.Sprintf("msg%d", i)) {
			q++
			b.Evs = []zeth.Event{{Tx: 1, Next: string(zeth.Dst), Seq: big.NewInt(q), Msg: zzMsgE(i, 0)}}
		}
		zeth.Chain = append(zeth.Chain, b)
	}
	zeth.Head = 11
	s.St.Verifier.Height = 10
	if zzv.Thorough() {
		zzv.Preempt(2)
	} else {
		zzv.Preempt(1)
	}
	zzAllE(s)
	zzv.Reach("relayed")
}

// A failing node call is retried or ends the link with an error; what was
// received before is relayed and nothing is skipped.
func VH_C14_node_fault() {
	s := zzSetupE(3, 1, false)
	s.Limit = 1 << 19
	zeth.FaultMethod = []string{"eth_getLogs", "eth_getBlockByNumber", "eth_blockNumber"}[zzv.Choose("method", 0, 2)]
	zeth.FaultAt = zzv.Choose("fault", 1, 3)
	zeth.FaultNum = 1 + 98*zzv.Choose("forever", 0, 1)
	seq, end := zzRunE(s)
	ok := false
	for n := 0; n <= len(zeth.Chain); n++ {
		ok = ok || seq == zzLastE(n, s.St.RxSeq)
	}
	zzv.Assert(ok, "whole blocks are relayed")
	if !end {
		zzv.Assert(seq == zzLastE(len(zeth.Chain), s.St.RxSeq), "a link that keeps running relays everything")
	}
	if zeth.FaultMethod == "eth_getLogs" && zeth.FaultAt <= len(zeth.Chain) {
		zzv.Assert(end && seq == zzLastE(zeth.FaultAt-1, s.St.RxSeq), "logs that cannot be read end the link")
	}
	zzv.Reach("relayed")
}

// A message event that does not decode ends the link; it is not skipped.
func VH_C14_malformed() {
	s := zzSetupE(2, 2, false)
	s.Limit = 1 << 19
	k := zzv.Choose("block", 0, len(zeth.Chain)-1)
	b := &zeth.Chain[k]
	b.Evs = append(b.Evs, zeth.Event{Tx: 9, Bad: true})
	seq, end := zzRunE(s)
	zzv.Assert(end && seq == zzLastE(k, s.St.RxSeq), "a malformed event ends the link")
	zzv.Reach("ended")
}

// When the node has no further block for long, the link ends with an error
// after everything was relayed.
func VH_C14_no_more_blocks() {
	s := zzSetupE(2, 1, false)
	s.Limit = 1 << 19
	zeth.Ends = true
	seq, end := zzRunE(s)
	zzv.Assert(end && seq == zzLastE(len(zeth.Chain), s.St.RxSeq), "everything is relayed before")
	zzv.Reach("ended")
}
