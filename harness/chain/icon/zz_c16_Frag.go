package icon

import (
	"encoding/base64"
	"time"

	"github.com/icon-project/btp/chain/icon/client"
	"github.com/icon-project/btp/common/types"
	zzv "github.com/icon-project/btp/common/zzv"
	"github.com/icon-project/btp/common/zzv/zbmc"
	"github.com/icon-project/btp/common/zzv/znode"
)

type zzRM16 struct{ m []byte }

func (r *zzRM16) Id() int       { return 77 }
func (r *zzRM16) Bytes() []byte { return r.m }
func (r *zzRM16) Size() int64   { return int64(len(r.m)) }

// The BMC puts the fragments of a relay message together to exactly that
// message, whatever its length, and no transaction exceeds the limit.
func VH_C16_icon_fragments() {
	max := 3
	if zzv.Thorough() {
		max = 4
	}
	limit := zzv.Choose("limit", 1, max)
	txSizeLimit = limit
	n := zzv.Choose("len", 0, 3*limit+1)
	msg := zzv.Bytes("msg", n)
	zbmc.Reset()
	zbmc.Sends = []zbmc.Answer{{Hash: "0x11"}}
	zbmc.Results = []zbmc.Answer{{Status: "0x1"}}
	st := &client.BMCStatus{TxSeq: "0x1", RxSeq: "0x2"}
	st.Verifier.Height = "0x3"
	zbmc.Status = st
	url, stop := zbmc.Node()
	defer stop()
	s := NewSender(zbmc.Src, zbmc.Dst, zbmc.Wallet{}, url, nil, znode.L{})
	ch, err := s.Start()
	zzv.Assert(err == nil, "sender starts")
	zzv.Assert(s.TxSizeLimit() == limit, "limit is told")
	id, err := s.Relay(&zzRM16{append([]byte{}, msg...)})
	zzv.Assert(err == nil && id == 77, "relay message is taken")
	select {
	case m := <-ch:
		b, ok := m.(*types.BMCLinkStatus)
		zzv.Assert(ok && b.RxSeq == 2 && b.Verifier.Height == 3, "status follows")
	case <-time.After(5 * time.Second):
		zzv.Assert(false, "status follows")
	}
	// the contract
	var got []byte
	last, next, done := 0, -1, 0
	for _, t := range zbmc.Txs {
		zzv.Assert(t.Prev == string(zbmc.Src) && t.To == "cx02" && t.From == "hxaa" && t.Nid == "0x2" && !t.Extra, "transaction goes to the BMC for the link")
		d, err := base64.URLEncoding.DecodeString(t.Msg)
		zzv.Assert(err == nil, "data decodes")
		zzv.Assert(len(d) <= limit, "data fits in a transaction")
		if t.Method == "handleRelayMessage" {
			zzv.Assert(t.Idx == "", "no index")
			got = d
			done++
			continue
		}
		zzv.Assert(t.Method == "handleFragment", "known method")
		v, err := client.HexInt(t.Idx).Int()
		zzv.Assert(err == nil, "index decodes")
		if v < 0 {
			last, next = -v, -v-1
			got = d
			continue
		}
		zzv.Assert(v == next && last > 0, "fragments follow each other")
		got = append(got, d...)
		next--
		if v == 0 {
			done++
		}
	}
	zzv.Assert(done == 1, "one relay message is delivered")
	zzv.Assert(zzv.BytesEq(got, msg), "it is the one given")
	zzv.Assert(len(zbmc.Asked) == 1 && zbmc.Asked[0] == "0x11", "its result is asked for")
	zzv.Reach("delivered")
}
