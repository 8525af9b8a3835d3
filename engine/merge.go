package main

import (
	"go/token"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Merging of small pure regions: an If whose two arms are side-effect free and
// re-join (or both return) is turned into ite terms instead of two paths.

type region struct {
	ok    bool
	order []int // topological order of blocks strictly inside the region
	join  int   // join block index, -1: all arms return
}

var regionCache sync.Map // *ssa.BasicBlock -> *region

const maxRegion = 24

func getRegion(fi *fnInfo, b *ssa.BasicBlock) *region {
	if r, ok := regionCache.Load(b); ok {
		return r.(*region)
	}
	r := computeRegion(fi, b)
	regionCache.Store(b, r)
	return r
}

func smallType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	if b.Info()&types.IsBoolean != 0 {
		return true
	}
	if w, _, ok := intInfo(b); ok && w <= 32 {
		return true
	}
	return false
}

func pureInstr(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.BinOp:
		if x.Op == token.QUO || x.Op == token.REM {
			c, ok := x.Y.(*ssa.Const)
			if !ok || c.Value == nil || c.Int64() == 0 {
				return false
			}
		}
		if x.Op == token.SHL || x.Op == token.SHR {
			if _, s, _ := intInfo(x.Y.Type()); s {
				c, ok := x.Y.(*ssa.Const)
				if !ok || c.Int64() < 0 {
					return false
				}
			}
		}
		if _, ok := x.X.Type().Underlying().(*types.Interface); ok {
			return false
		}
		return true
	case *ssa.UnOp:
		return x.Op == token.NOT || x.Op == token.SUB || x.Op == token.XOR || x.Op == token.MUL
	case *ssa.Convert:
		_, _, a := intInfo(x.X.Type())
		_, _, b := intInfo(x.Type())
		return a && b
	case *ssa.ChangeType, *ssa.Extract, *ssa.Phi, *ssa.Jump, *ssa.If, *ssa.DebugRef:
		return true
	case *ssa.IndexAddr, *ssa.Lookup, *ssa.Index:
		if l, ok := x.(*ssa.Lookup); ok {
			if _, isStr := l.X.Type().Underlying().(*types.Basic); !isStr {
				return false
			}
		}
		return true
	case *ssa.FieldAddr:
		return true
	case *ssa.Call:
		b, ok := x.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "len"
	case *ssa.Return:
		return true
	}
	return false
}

func computeRegion(fi *fnInfo, b *ssa.BasicBlock) *region {
	bad := &region{}
	// Collect blocks reachable; find the nearest join by trying candidates in BFS order.
	reach := func(from *ssa.BasicBlock, stop int) (map[int]bool, bool) {
		seen := map[int]bool{}
		var st []*ssa.BasicBlock
		st = append(st, from)
		for len(st) > 0 {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			if x.Index == stop || seen[x.Index] {
				continue
			}
			if x == b {
				return nil, false
			}
			seen[x.Index] = true
			if len(seen) > maxRegion {
				return nil, false
			}
			st = append(st, x.Succs...)
		}
		return seen, true
	}
	try := func(join int) *region {
		set := map[int]bool{}
		for _, s := range b.Succs {
			r, ok := reach(s, join)
			if !ok {
				return nil
			}
			for k := range r {
				set[k] = true
			}
		}
		// purity, single entry, no other exits
		for k := range set {
			blk := fi.blocks[k].b
			for _, p := range blk.Preds {
				if p != b && !set[p.Index] {
					return nil
				}
			}
			for _, in := range blk.Instrs {
				if !pureInstr(in) {
					return nil
				}
				if _, isRet := in.(*ssa.Return); isRet && join >= 0 {
					return nil
				}
			}
			if len(blk.Succs) == 0 {
				if _, isRet := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return); !isRet {
					return nil
				}
			}
		}
		if join < 0 {
			res := fi.fn.Signature.Results()
			for k := 0; k < res.Len(); k++ {
				if !smallType(res.At(k).Type()) {
					return nil
				}
			}
			if fi.fn.Recover != nil {
				return nil
			}
		} else {
			for _, in := range fi.blocks[join].b.Instrs {
				if phi, ok := in.(*ssa.Phi); ok {
					if !smallType(phi.Type()) {
						return nil
					}
				}
			}
		}
		// topological order
		indeg := map[int]int{}
		for k := range set {
			for _, s := range fi.blocks[k].b.Succs {
				if set[s.Index] {
					indeg[s.Index]++
				}
			}
		}
		var order, q []int
		for k := range set {
			if indeg[k] == 0 {
				q = append(q, k)
			}
		}
		// deterministic
		sortInts(q)
		for len(q) > 0 {
			x := q[0]
			q = q[1:]
			order = append(order, x)
			for _, s := range fi.blocks[x].b.Succs {
				if set[s.Index] {
					indeg[s.Index]--
					if indeg[s.Index] == 0 {
						q = append(q, s.Index)
					}
				}
			}
		}
		if len(order) != len(set) {
			return nil // cyclic
		}
		return &region{ok: true, order: order, join: join}
	}
	// candidate joins: blocks reachable from both successors, nearest first
	dist := func(from *ssa.BasicBlock) map[int]int {
		d := map[int]int{from.Index: 0}
		q := []*ssa.BasicBlock{from}
		for len(q) > 0 && len(d) < 4*maxRegion {
			x := q[0]
			q = q[1:]
			for _, s := range x.Succs {
				if _, ok := d[s.Index]; !ok {
					d[s.Index] = d[x.Index] + 1
					q = append(q, s)
				}
			}
		}
		return d
	}
	d0, d1 := dist(b.Succs[0]), dist(b.Succs[1])
	var cands []int
	for k := range d0 {
		if _, ok := d1[k]; ok && k != b.Index {
			cands = append(cands, k)
		}
	}
	// sort by distance then index
	for x := 1; x < len(cands); x++ {
		for y := x; y > 0; y-- {
			a, c := cands[y-1], cands[y]
			if d0[c]+d1[c] < d0[a]+d1[a] || d0[c]+d1[c] == d0[a]+d1[a] && c < a {
				cands[y-1], cands[y] = c, a
			} else {
				break
			}
		}
	}
	for _, j := range cands {
		if r := try(j); r != nil {
			return r
		}
	}
	if r := try(-1); r != nil {
		return r
	}
	return bad
}

func sortInts(a []int) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

type mergeAbort struct{}

func (i *Interp) tryMerge(fr *frame, b *cblock, cond *Term) (done bool) {
	if i.P.noMerge {
		return false
	}
	if _, ok := i.known(cond); ok {
		return false
	}
	r := getRegion(fr.fi, b.b)
	if !r.ok {
		return false
	}
	if fr.hasDefers() && r.join < 0 {
		return false
	}
	c := i.tc
	type edge struct{ from, to int }
	eg := map[edge]*Term{}
	addE := func(from, to int, g *Term) {
		k := edge{from, to}
		if o, ok := eg[k]; ok {
			g = c.Or(o, g)
		}
		eg[k] = g
	}
	addE(b.b.Index, b.b.Succs[0].Index, cond)
	addE(b.b.Index, b.b.Succs[1].Index, c.Not(cond))
	type ret struct {
		g  *Term
		vs []Value
	}
	var rets []ret
	ok := func() (ok bool) {
		defer func() {
			if x := recover(); x != nil {
				if _, is := x.(mergeAbort); is {
					ok = false
					return
				}
				panic(x)
			}
		}()
		doPhis := func(blk *cblock) []Value {
			vals := make([]Value, len(blk.phis))
			for k := range blk.phis {
				var cur Value
				first := true
				for e, p := range blk.b.Preds {
					g, has := eg[edge{p.Index, blk.b.Index}]
					if !has || g == tFalse {
						continue
					}
					v := fr.get(&blk.phis[k].ops[e])
					if first {
						cur = v
						first = false
						continue
					}
					a, ok1 := cur.(*Term)
					n, ok2 := v.(*Term)
					if !ok1 || !ok2 || a.w != n.w {
						panic(mergeAbort{})
					}
					cur = c.Ite(g, n, a)
				}
				vals[k] = cur
			}
			return vals
		}
		for _, bi := range r.order {
			blk := fr.fi.blocks[bi]
			guard := tFalse
			for _, p := range blk.b.Preds {
				if g, has := eg[edge{p.Index, bi}]; has {
					guard = c.Or(guard, g)
				}
			}
			if guard == tFalse {
				continue
			}
			vals := doPhis(blk)
			for k := range vals {
				fr.regs[blk.phis[k].dst] = vals[k]
			}
			i.steps += int64(len(blk.ins))
			for k := range blk.ins {
				ci := &blk.ins[k]
				switch in := ci.in.(type) {
				case *ssa.Jump:
					addE(bi, blk.b.Succs[0].Index, guard)
				case *ssa.If:
					cv := fr.get(&ci.ops[0]).(*Term)
					if kv, ok := i.known(cv); ok {
						cv = mkBool(kv)
					}
					addE(bi, blk.b.Succs[0].Index, c.And(guard, cv))
					addE(bi, blk.b.Succs[1].Index, c.And(guard, c.Not(cv)))
				case *ssa.Return:
					var vs []Value
					for k := range ci.ops {
						vs = append(vs, fr.get(&ci.ops[k]))
					}
					rets = append(rets, ret{guard, vs})
				default:
					if !fr.safeToSpeculate(ci, in) {
						panic(mergeAbort{})
					}
					fr.exec(ci)
				}
			}
		}
		if r.join >= 0 {
			blk := fr.fi.blocks[r.join]
			// edges into the join from outside the region are not taken now
			vals := doPhis(blk)
			for k := range vals {
				fr.regs[blk.phis[k].dst] = vals[k]
			}
			fr.block = r.join
			fr.prev = nil // phis already evaluated
		} else {
			if len(rets) == 0 {
				panic(mergeAbort{})
			}
			n := len(rets[0].vs)
			out := make([]Value, n)
			for k := 0; k < n; k++ {
				cur, ok := rets[0].vs[k].(*Term)
				if !ok {
					panic(mergeAbort{})
				}
				for _, rt := range rets[1:] {
					v, ok := rt.vs[k].(*Term)
					if !ok {
						panic(mergeAbort{})
					}
					cur = c.Ite(rt.g, v, cur)
				}
				out[k] = cur
			}
			switch n {
			case 0:
			case 1:
				fr.result = out[0]
			default:
				fr.result = Tuple(out)
			}
			fr.block = -1
		}
		return true
	}()
	return ok
}

// safeToSpeculate: executing ci cannot branch, panic or block.
func (fr *frame) safeToSpeculate(ci *cinstr, in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch p := fr.get(&ci.ops[0]).(type) {
			case *Value:
				return p != nil
			case SymPtr:
				for _, v := range p.cells {
					if _, ok := v.(*Term); !ok {
						return false
					}
				}
				return true
			}
			return false
		}
	case *ssa.FieldAddr:
		p, ok := fr.get(&ci.ops[0]).(*Value)
		return ok && p != nil
	case *ssa.IndexAddr, *ssa.Index, *ssa.Lookup:
		n := -1
		switch v := fr.get(&ci.ops[0]).(type) {
		case Slice:
			n = len(v)
		case Array:
			n = len(v)
		case Str:
			n = v.len()
		case *Value:
			if v != nil {
				if a, ok := (*v).(Array); ok {
					n = len(a)
				}
			}
		}
		if n < 0 {
			return false
		}
		idx, ok := fr.get(&ci.ops[1]).(*Term)
		if !ok {
			return false
		}
		if idx.op == OConst {
			return sx(idx.val, int(idx.w)) >= 0 && idx.val < uint64(n)
		}
		if ia, ok := in.(*ssa.IndexAddr); ok && !onlyLoadStore(ia) {
			return false
		}
		_, hi := urange(idx, 5)
		return hi < uint64(n)
	case *ssa.BinOp:
		switch fr.get(&ci.ops[0]).(type) {
		case *Term, Str, float64, *Value:
			return true
		}
		return false
	}
	return true
}
