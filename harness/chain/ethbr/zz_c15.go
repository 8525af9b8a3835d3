package ethbr

import (
	"time"

	"github.com/icon-project/btp/chain/ethbr/client"
	zzv "github.com/icon-project/btp/common/zzv"
	"github.com/icon-project/btp/common/zzv/zeth"
	"github.com/icon-project/btp/common/zzv/znode"
	"github.com/icon-project/btp/common/zzv/zrelay"
)

func (d *zzDstE) converge(delays int) {
	if zzv.Thorough() {
		delays++
	}
	zzv.Delays(delays)
	client.BlockRetryInterval = time.Millisecond
	url, stop := zeth.Node()
	defer stop()
	end := zrelay.Run(d.s, NewEthBridge(zeth.Src, zeth.Dst, url, znode.L{}), zeth.Src, zeth.Dst)
	zzv.Assert(!end, "the link keeps running")
	last := zeth.Chain[len(zeth.Chain)-1]
	zzv.Assert(d.s.St.RxSeq == last.Evs[len(last.Evs)-1].Seq.Int64(), "the destination gets every message in order")
	zzv.Reach("converged")
}

func VH_C15_ethbr_lost() {
	d := zzChainE15(3)
	d.s.Lost = zzv.IntRange("lost", 1, 2)
	if zzv.Bool("single") { // messages go one by one
		d.s.Limit = 1
		d.s.Lost = zzv.IntRange("lost1", 1, 3)
	}
	d.converge(1)
}

func VH_C15_ethbr_reordered() {
	d := zzChainE15(3)
	d.s.Late = true
	d.converge(2)
}

func VH_C15_ethbr_other() {
	d := zzChainE15(3)
	d.s.Next = d.next
	d.s.NextAt = zzv.IntRange("at", 1, 3)
	d.converge(1)
}

func VH_C15_ethbr_lost_other() {
	d := zzChainE15(3)
	d.s.Lost = zzv.IntRange("lost", 1, 2)
	d.s.Next = d.next
	d.s.NextAt = zzv.IntRange("at", 1, 3)
	d.converge(1)
}
