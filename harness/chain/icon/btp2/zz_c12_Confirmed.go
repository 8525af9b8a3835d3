package btp2

import (
	"github.com/icon-project/btp/chain/icon/client"
	"github.com/icon-project/btp/common/codec"
	zzv "github.com/icon-project/btp/common/zzv"
	"github.com/icon-project/btp/common/zzv/zicon"
)

// A destination that confirms what it has got, whenever it is told, makes
// nothing be relayed again.
func VH_C12_confirmed() {
	d := zzChainL15(3)
	if zzv.Bool("small") { // a block and its messages go separately
		d.s.Limit = 0
		for _, b := range zicon.Chain {
			if n := len(codec.RLP.MustMarshalToBytes(&client.BTPBlockUpdate{BTPBlockHeader: b.Header(), BTPBlockProof: b.Proof()})); n > d.s.Limit {
				d.s.Limit = n
			}
		}
	}
	zzDelaysL(1)
	zzAllL(d.s, 0)
	zzv.Assert(!d.unknown && d.blk == len(zicon.Chain) && d.msg == len(zicon.Chain[d.blk-1].Msgs), "the destination gets everything")
	zzv.Reach("confirmed")
}
