package ethbr

import (
	zzv "github.com/icon-project/btp/common/zzv"
	"github.com/icon-project/btp/common/zzv/zeth"
)

// A destination that confirms what it has got, whenever it is told, makes
// nothing be relayed again.
func VH_C14_confirmed() {
	d := zzChainE15(3)
	if zzv.Bool("single") { // messages go one by one
		d.s.Limit = 1
	}
	if zzv.Thorough() {
		zzv.Delays(2)
	} else {
		zzv.Delays(1)
	}
	seq, end := zzRunE(d.s)
	zzv.Assert(!end && seq == zzLastE(len(zeth.Chain), 0) && d.s.St.RxSeq == seq, "everything is relayed")
	zzv.Reach("confirmed")
}
