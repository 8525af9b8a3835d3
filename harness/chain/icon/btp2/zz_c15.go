package btp2

import (
	zzv "github.com/icon-project/btp/common/zzv"
	"github.com/icon-project/btp/common/zzv/zicon"
	"github.com/icon-project/btp/common/zzv/znode"
	"github.com/icon-project/btp/common/zzv/zrelay"
)

func (d *zzDstL) converge() {
	url, stop := zicon.Node()
	defer stop()
	end := zrelay.Run(d.s, NewBTP2(zicon.Src, zicon.Dst, url, znode.L{}), zicon.Src, zicon.Dst)
	zzv.Assert(!end, "the link keeps running")
	zzv.Assert(!d.unknown, "nothing is relayed out of place")
	zzv.Assert(d.blk == len(zicon.Chain) && d.msg == len(zicon.Chain[d.blk-1].Msgs), "the destination gets everything")
	zzv.Reach("converged")
}

// A transaction that never took effect is made up for as soon as a later one is
// refused.
func VH_C15_btp2_lost() {
	n := 3
	if zzv.Thorough() {
		n = 4
	}
	d := zzChainL15(n)
	d.s.Lost = zzv.IntRange("lost", 1, n-1)
	zzDelaysL(1)
	d.converge()
}

// Transactions may take effect in another order than sent.
func VH_C15_btp2_reordered() {
	n := 2
	if zzv.Thorough() {
		n = 3
	}
	d := zzChainL15(n)
	d.s.Late = true
	zzDelaysL(2)
	d.converge()
}

// Another relay may serve the link, too.
func VH_C15_btp2_other() {
	d := zzChainL15(3)
	d.s.Next = d.next
	d.s.NextAt = zzv.IntRange("at", 1, 3)
	zzDelaysL(1)
	d.converge()
}

// Both may happen.
func VH_C15_btp2_lost_other() {
	d := zzChainL15(3)
	d.s.Lost = zzv.IntRange("lost", 1, 2)
	d.s.Next = d.next
	d.s.NextAt = zzv.IntRange("at", 1, 3)
	zzDelaysL(1)
	d.converge()
}

// What fails at the destination's side ends the link with an error; everything
// relayed before has reached the destination in order.
func VH_C15_faults() {
	d := zzChainL15(3)
	switch zzv.Choose("fault", 0, 2) {
	case 0:
		d.s.NoStart = true
	case 1:
		d.s.NoStatus = zzv.IntRange("status", 1, 2)
		if d.s.NoStatus == 2 {
			d.s.Lost = 1 // asked again after a refusal
		}
	case 2:
		d.s.Fail = zzv.IntRange("relay", 1, 3)
	}
	zzDelaysL(1)
	url, stop := zicon.Node()
	defer stop()
	end := zrelay.Run(d.s, NewBTP2(zicon.Src, zicon.Dst, url, znode.L{}), zicon.Src, zicon.Dst)
	zzv.Assert(end, "the link ends")
	zzv.Assert(!d.unknown, "nothing is relayed out of place")
	zzv.Assert(d.s.Fail == 0 || d.blk == d.s.Fail, "what was relayed before has reached the destination")
	zzv.Reach("ended")
}
