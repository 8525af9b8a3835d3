package bridge

import (
	zzv "github.com/icon-project/btp/common/zzv"
)

// A destination that confirms what it has got, whenever it is told, makes
// nothing be relayed again.
func VH_C13_confirmed() {
	d := zzChainB15(3)
	if zzv.Bool("single") { // messages go one by one
		d.s.Limit = 1
	}
	if zzv.Thorough() {
		zzv.Delays(2)
	} else {
		zzv.Delays(1)
	}
	seq, end := zzRunB(d.s)
	zzv.Assert(!end && seq == zzLastB() && d.s.St.RxSeq == seq, "everything is relayed")
	zzv.Reach("confirmed")
}
