package bridge

import (
	zzv "github.com/icon-project/btp/common/zzv"
	"github.com/icon-project/btp/common/zzv/zicon"
	"github.com/icon-project/btp/common/zzv/znode"
	"github.com/icon-project/btp/common/zzv/zrelay"
)

func (d *zzDstB) converge(delays int) {
	if zzv.Thorough() {
		delays++
	}
	zzv.Delays(delays)
	url, stop := zicon.Node()
	defer stop()
	end := zrelay.Run(d.s, NewBridge(zicon.Src, zicon.Dst, url, znode.L{}), zicon.Src, zicon.Dst)
	zzv.Assert(!end, "the link keeps running")
	n := 0
	for _, b := range zicon.Chain {
		for _, m := range b.Msgs {
			zzv.Assert(n < len(d.got) && d.got[n] == string(m), "the destination gets every message in order")
			n++
		}
	}
	zzv.Assert(n == len(d.got), "the destination gets nothing else")
	zzv.Reach("converged")
}

func VH_C15_bridge_lost() {
	d := zzChainB15(3)
	d.s.Lost = zzv.IntRange("lost", 1, 2)
	if zzv.Bool("single") { // messages go one by one
		d.s.Limit = 1
		d.s.Lost = zzv.IntRange("lost1", 1, 3)
	}
	d.converge(1)
}

func VH_C15_bridge_reordered() {
	d := zzChainB15(3)
	d.s.Late = true
	d.converge(2)
}

func VH_C15_bridge_other() {
	d := zzChainB15(3)
	d.s.Next = d.next
	d.s.NextAt = zzv.IntRange("at", 1, 3)
	d.converge(1)
}

func VH_C15_bridge_lost_other() {
	d := zzChainB15(3)
	d.s.Lost = zzv.IntRange("lost", 1, 2)
	d.s.Next = d.next
	d.s.NextAt = zzv.IntRange("at", 1, 3)
	d.converge(1)
}
