package icon

import (
	"fmt"
	"time"

	"github.com/icon-project/btp/chain/icon/client"
	"github.com/icon-project/btp/common/types"
	zzv "github.com/icon-project/btp/common/zzv"
	"github.com/icon-project/btp/common/zzv/zbmc"
	"github.com/icon-project/btp/common/zzv/znode"
)

type zzRM17 struct {
	id int
	m  []byte
}

func (r *zzRM17) Id() int       { return r.id }
func (r *zzRM17) Bytes() []byte { return r.m }
func (r *zzRM17) Size() int64   { return int64(len(r.m)) }

func zzStatus17() *client.BMCStatus {
	st := &client.BMCStatus{TxSeq: "0x1", RxSeq: "0x2"}
	st.Verifier.Height = "0x3"
	st.Verifier.Extra = "0x0405"
	return st
}

func zzText17(name string, max int) string {
	s := zzv.Str(name, zzv.Choose(name+"len", 0, max))
	for i := 0; i < len(s); i++ {
		zzv.Assume(s[i] >= 0x20 && s[i] < 0x7f)
	}
	return s
}

// Whatever the node answers to a transaction, the sender sends it again while
// the node has no room, signs it again when it has expired, takes a duplicate as
// sent and fails on anything else.
func VH_C17_icon_send() {
	zbmc.Reset()
	zbmc.Status = zzStatus17()
	zbmc.Results = []zbmc.Answer{{Status: "0x1"}}
	max := 2
	if zzv.Thorough() {
		max = 3
	}
	hash := ""
	n := zzv.Choose("retries", 0, max)
	signs, same := 1, []bool{}
	for i := 0; i < n; i++ {
		if zzv.Bool(fmt.Sprintf("expired%d", i)) {
			zbmc.Sends = append(zbmc.Sends, zbmc.Answer{Code: -31000, Message: "E2002:ExpiredTransaction"})
			signs++
			same = append(same, false)
		} else {
			zbmc.Sends = append(zbmc.Sends, zbmc.Answer{Code: -31001, Message: "E2001:overflow"})
			same = append(same, true)
		}
	}
	outcome := zzv.Choose("outcome", 0, 3)
	a := zbmc.Answer{Hash: "0x1234"}
	fail := false
	switch outcome {
	case 1: // it has got this transaction before
		a = zbmc.Answer{Code: -31000, Message: "E2000:Duplicate"}
	case 2: // any system error
		m := zzText17("system", 6)
		zzv.Assume(len(m) < 5 || m[1] != '2')
		a = zbmc.Answer{Code: -31000, Message: m}
		fail = true
	case 3: // any other error
		c := zzv.Int("code")
		zzv.Assume(c < 0 && c > -40000 && c != -31000 && c != -31001)
		a = zbmc.Answer{Code: c, Message: "x"}
		fail = true
	}
	zbmc.Sends = append(zbmc.Sends, a)
	url, stop := zbmc.Node()
	defer stop()
	s := NewSender(zbmc.Src, zbmc.Dst, zbmc.Wallet{}, url, nil, znode.L{})
	ch, err := s.Start()
	zzv.Assert(err == nil, "sender starts")
	id, err := s.Relay(&zzRM17{5, []byte{1, 2, 3}})
	zzv.Assert(len(zbmc.Txs) == n+1, "sent as often as asked for")
	zzv.Assert(len(zbmc.Signed) == signs, "signed as often as expired")
	for i := 1; i <= n; i++ {
		x, y := zbmc.Txs[i-1], zbmc.Txs[i]
		if same[i-1] {
			zzv.Assert(x == y, "the same transaction is sent again")
		} else {
			zzv.Assert(x.Sig != y.Sig, "a newly signed transaction is sent")
			x.Sig, x.Stamp = y.Sig, y.Stamp
			zzv.Assert(x == y, "with the same content")
		}
	}
	if fail {
		zzv.Assert(err != nil, "failure is told")
		zzv.Reach("failed")
		return
	}
	zzv.Assert(err == nil && id == 5, "sent")
	if outcome == 1 {
		hash = string(client.NewHexBytes(zbmc.Signed[len(zbmc.Signed)-1]))
	} else {
		hash = "0x1234"
	}
	_, ok := zzNext17(ch).(*types.BMCLinkStatus)
	zzv.Assert(ok, "status follows")
	zzv.Assert(len(zbmc.Asked) == 1 && zbmc.Asked[0] == hash, "the result of this transaction is asked for")
	zzv.Reach("sent")
}

func zzNext17(ch <-chan types.SenderMessage) types.SenderMessage {
	select {
	case m := <-ch:
		return m
	case <-time.After(6 * time.Second):
		return nil
	}
}

// Whatever the result of a transaction, it is waited for, a revert is told with
// its code, and the status of the destination follows if it can be had.
func VH_C17_icon_result() {
	zbmc.Reset()
	zbmc.Sends = []zbmc.Answer{{Hash: "0x77"}}
	n := zzv.Choose("pending", 0, 2)
	for i := 0; i < n; i++ {
		zbmc.Results = append(zbmc.Results, zbmc.Answer{Code: -31002 - zzv.Choose("executing", 0, 1), Message: "pending"})
	}
	a := zbmc.Answer{Status: "0x0"}
	code := -1
	switch zzv.Choose("outcome", 0, 3) {
	case 0:
		a.Status = "0x1"
	case 1: // fails with any code
		c := zzv.I64("failure")
		zzv.Assume(c >= 0 && c < 200)
		a.Failure = string(client.NewHexInt(c))
		if c >= 32 && c <= 99 {
			code = int(c) - 32
		}
	case 2: // fails without telling
	case 3:
		c := zzv.Int("code")
		zzv.Assume(c < 0 && c > -40000 && c != -31002 && c != -31003)
		a = zbmc.Answer{Code: c, Message: zzText17("msg", 5)}
	}
	zbmc.Results = append(zbmc.Results, a)
	st := zzv.Choose("status", 0, 2)
	if st > 0 {
		zbmc.Status = zzStatus17()
		if st == 2 {
			zbmc.Status.Verifier.Height = "height"
		}
	}
	url, stop := zbmc.Node()
	defer stop()
	s := NewSender(zbmc.Src, zbmc.Dst, zbmc.Wallet{}, url, nil, znode.L{})
	ch, _ := s.Start()
	id, err := s.Relay(&zzRM17{9, []byte{1}})
	zzv.Assert(err == nil && id == 9, "sent")
	if code >= 0 {
		r, ok := zzNext17(ch).(*types.RelayResult)
		zzv.Assert(ok && r.Id == 9 && int(r.Err) == code, "a revert is told with message and code")
		zzv.Reach("reverted")
	}
	m := zzNext17(ch)
	if st == 1 {
		b, ok := m.(*types.BMCLinkStatus)
		zzv.Assert(ok && b.TxSeq == 1 && b.RxSeq == 2 && b.Verifier.Height == 3 && string(b.Verifier.Extra) == "\x04\x05", "status follows")
		zzv.Assert(zbmc.Queried[0] == string(zbmc.Src), "of this link")
		zzv.Reach("status")
	} else {
		zzv.Assert(m == nil, "no status if it cannot be had")
	}
	zzv.Assert(len(zbmc.Asked) == n+1, "asked until the transaction is done")
	for _, h := range zbmc.Asked {
		zzv.Assert(h == "0x77", "of this transaction")
	}
	zzv.Reach("done")
}
