package ethbr

import (
	"strconv"
	"time"

	btpTypes "github.com/icon-project/btp/common/types"
	zzv "github.com/icon-project/btp/common/zzv"
	"github.com/icon-project/btp/common/zzv/zebmc"
	"github.com/icon-project/btp/common/zzv/znode"
)

type zzRM17 struct {
	id int
	m  []byte
}

func (r *zzRM17) Id() int       { return r.id }
func (r *zzRM17) Bytes() []byte { return r.m }
func (r *zzRM17) Size() int64   { return int64(len(r.m)) }

func zzNext17(ch <-chan btpTypes.SenderMessage) btpTypes.SenderMessage {
	select {
	case m := <-ch:
		return m
	case <-time.After(6 * time.Second):
		return nil
	}
}

// A relay message goes to the BMC of the destination in one transaction, whose
// result is waited for; a revert is told with its code, and the status of the
// destination follows if it can be had.
func VH_C17_eth_result() {
	zebmc.Reset()
	zebmc.States = nil
	max := 1
	if zzv.Thorough() {
		max = 3
	}
	n := zzv.Choose("pending", 0, max)
	for i := 0; i < n; i++ {
		zebmc.States = append(zebmc.States, zebmc.Pending)
	}
	zebmc.States = append(zebmc.States, zebmc.Mined)
	code, any, asks := -1, false, n+1
	switch zzv.Choose("outcome", 0, 5) {
	case 0:
	case 1: // refused by the BMC
		zebmc.Receipt = 0
		code = zzv.Choose("digits", 0, 1)*10 + zzv.IntRange("code", 0, 9)
		zebmc.Revert = "execution reverted: " + strconv.Itoa(code) + ":" + zzv.Str("text", zzv.Choose("textlen", 0, 1))
		zzText17(zebmc.Revert)
		asks++
	case 2: // any other text
		zebmc.Receipt = 0
		zebmc.Revert = "x" + zzv.Str("text", zzv.Choose("textlen", 0, 3))
		zzText17(zebmc.Revert)
		any = true
		asks++
	case 3: // goes through now
		zebmc.Receipt = 0
		any = true
		asks++
	case 4:
		zebmc.Receipt = 2
	case 5: // lost
		zebmc.States[n] = zebmc.Missing
	}
	st := zzv.Choose("status", 0, 1)
	var want zebmc.Link
	if st == 1 {
		want = zebmc.Link{Tx: zzv.I64("tx"), Rx: zzv.I64("rx"), Height: zzv.I64("height"), Extra: zzv.Bytes("extra", zzv.Choose("extralen", 1, 1))}
		zzv.Assume(want.Tx >= 0 && want.Rx >= 0 && want.Height >= 0)
		zebmc.Status = &want
	}
	url, stop := zebmc.Node()
	defer stop()
	s := NewSender(zebmc.Src, zebmc.Dst, zebmc.Wallet(), url, nil, znode.L{})
	ch, err := s.Start()
	zzv.Assert(err == nil, "sender starts")
	msg := zzv.Bytes("msg", zzv.Choose("msglen", 1, 1))
	id, err := s.Relay(&zzRM17{9, append([]byte{}, msg...)})
	zzv.Assert(err == nil && id == 9, "sent")
	m := zzNext17(ch)
	if r, ok := m.(*btpTypes.RelayResult); ok {
		zzv.Assert(code >= 0 || any, "only a revert is told")
		zzv.Assert(r.Id == 9, "of this relay message")
		if code >= 0 {
			zzv.Assert(int(r.Err) == code, "with its code")
		}
		zzv.Reach("reverted")
		m = zzNext17(ch)
	} else {
		zzv.Assert(code < 0, "a revert is told")
	}
	if st == 1 {
		b, ok := m.(*btpTypes.BMCLinkStatus)
		zzv.Assert(ok && b.TxSeq == want.Tx && b.RxSeq == want.Rx && b.Verifier.Height == want.Height && zzv.BytesEq(b.Verifier.Extra, want.Extra), "status follows")
		zzv.Assert(zebmc.Queried[0] == string(zebmc.Src), "of this link")
		zzv.Reach("status")
	} else {
		zzv.Assert(m == nil, "no status if it cannot be had")
	}
	zzv.Assert(len(zebmc.Txs) == 1 && zebmc.Txs[0].Prev == string(zebmc.Src) && zzv.BytesEq(zebmc.Txs[0].Msg, msg), "one transaction with the relay message")
	zzv.Assert(len(zebmc.Asked) == asks, "asked until the transaction is done")
	for _, h := range zebmc.Asked {
		zzv.Assert(h == zebmc.Hashes[0], "of this transaction")
	}
	zzv.Reach("done")
}

func zzText17(s string) {
	for i := 0; i < len(s); i++ {
		zzv.Assume(s[i] >= 0x20 && s[i] < 0x7f && s[i] != '"' && s[i] != '\\')
	}
}

// A transaction that cannot be sent is told, and nothing else follows.
func VH_C17_eth_refused() {
	zebmc.Reset()
	zebmc.SendErr = "nonce too low"
	zebmc.Status = &zebmc.Link{}
	url, stop := zebmc.Node()
	defer stop()
	s := NewSender(zebmc.Src, zebmc.Dst, zebmc.Wallet(), url, nil, znode.L{})
	ch, _ := s.Start()
	_, err := s.Relay(&zzRM17{9, []byte{1, zzv.U8("m")}})
	zzv.Assert(err != nil, "failure is told")
	zzv.Assert(zzNext17(ch) == nil && len(zebmc.Asked) == 0, "no result of it")
	zzv.Reach("refused")
}
