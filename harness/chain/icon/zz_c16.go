package icon

import (
	"encoding/base64"
	"time"

	"github.com/icon-project/btp/chain/icon/client"
	"github.com/icon-project/btp/common/types"
	zzv "github.com/icon-project/btp/common/zzv"
	"github.com/icon-project/btp/common/zzv/zbmc"
	"github.com/icon-project/btp/common/zzv/znode"
)

type zzRM16w struct{ m []byte }

func (r *zzRM16w) Id() int       { return 78 }
func (r *zzRM16w) Bytes() []byte { return r.m }
func (r *zzRM16w) Size() int64   { return int64(len(r.m)) }

// A relay message within the limit goes to the BMC as it is, in one transaction.
func VH_C16_icon_whole() {
	max := 4
	if zzv.Thorough() {
		max = 8
	}
	msg := zzv.Bytes("msg", zzv.Choose("len", 0, max))
	zbmc.Reset()
	zbmc.Sends = []zbmc.Answer{{Hash: "0x12"}}
	zbmc.Results = []zbmc.Answer{{Status: "0x1"}}
	zbmc.Status = zzStatus16()
	url, stop := zbmc.Node()
	defer stop()
	s := NewSender(zbmc.Src, zbmc.Dst, zbmc.Wallet{}, url, nil, znode.L{})
	ch, err := s.Start()
	zzv.Assert(err == nil && s.TxSizeLimit() >= max, "sender starts")
	id, err := s.Relay(&zzRM16w{append([]byte{}, msg...)})
	zzv.Assert(err == nil && id == 78, "relay message is taken")
	select {
	case m := <-ch:
		_, ok := m.(*types.BMCLinkStatus)
		zzv.Assert(ok, "status follows")
	case <-time.After(5 * time.Second):
		zzv.Assert(false, "status follows")
	}
	zzv.Assert(len(zbmc.Txs) == 1, "one transaction")
	t := zbmc.Txs[0]
	zzv.Assert(t.Prev == string(zbmc.Src) && t.To == "cx02" && t.From == "hxaa" && t.Nid == "0x2" && !t.Extra, "transaction goes to the BMC for the link")
	zzv.Assert(t.Method == "handleRelayMessage" && t.Idx == "", "as a whole")
	d, err := base64.URLEncoding.DecodeString(t.Msg)
	zzv.Assert(err == nil && zzv.BytesEq(d, msg), "it is the one given")
	zzv.Reach("delivered")
}

func zzStatus16() *client.BMCStatus {
	st := &client.BMCStatus{TxSeq: "0x1", RxSeq: "0x2"}
	st.Verifier.Height = "0x3"
	return st
}
