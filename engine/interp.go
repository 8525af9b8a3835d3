package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// ---------- compiled functions (shared by all workers, immutable once built)

type opnd struct {
	reg int32 // >=0 register
	c   Value
	g   *ssa.Global
}

type cinstr struct {
	in   ssa.Instruction
	dst  int32
	ops  []opnd
	w    int
	sgn  bool
	aux  interface{}
	aux2 interface{}
}

type cblock struct {
	b     *ssa.BasicBlock
	phis  []cinstr
	ins   []cinstr
	preds map[*ssa.BasicBlock]int
}

type fnInfo struct {
	fn     *ssa.Function
	name   string
	blocks []*cblock
	nregs  int
	intr   intrinsic
	soft   softIntrinsic
	inRepo bool
	recov  int // index of recover block, -1
	pure   int32
}

// softIntrinsic may decline (false), then the function's own body runs.
type softIntrinsic func(fr *frame, fn *ssa.Function, args []Value) (Value, bool)

type intrinsic func(fr *frame, fn *ssa.Function, args []Value) Value

type Program struct {
	prog    *ssa.Program
	sizes   types.Sizes
	mu      sync.Mutex
	infos   sync.Map // *ssa.Function -> *fnInfo
	meths   sync.Map // methKey -> *ssa.Function
	modPath string
	pkgs    map[string]*ssa.Package
	repl    map[string]*ssa.Function // replaced function name -> harness function
	noMerge bool
	fmtConc bool
}

type methKey struct {
	t    types.Type
	name string
	pkg  *types.Package
	ptr bool
}

func (P *Program) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	k := methKey{t, name, nil, false}
	if p, ok := t.(*types.Pointer); ok {
		k.t, k.ptr = p.Elem(), true // pointer types are not unique
	}
	k.t = types.Unalias(k.t)
	if _, ok := k.t.(*types.Named); !ok {
		P.mu.Lock()
		defer P.mu.Unlock()
		return P.prog.LookupMethod(t, pkg, name)
	}
	if !token.IsExported(name) {
		k.pkg = pkg
	}
	if f, ok := P.meths.Load(k); ok {
		return f.(*ssa.Function)
	}
	P.mu.Lock()
	f := P.prog.LookupMethod(t, pkg, name)
	P.mu.Unlock()
	P.meths.Store(k, f)
	return f
}

func (P *Program) info(fn *ssa.Function) *fnInfo {
	if fi, ok := P.infos.Load(fn); ok {
		return fi.(*fnInfo)
	}
	P.mu.Lock()
	defer P.mu.Unlock()
	if fi, ok := P.infos.Load(fn); ok {
		return fi.(*fnInfo)
	}
	fi := P.compile(fn)
	P.infos.Store(fn, fi)
	return fi
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (P *Program) compile(fn *ssa.Function) *fnInfo {
	fi := &fnInfo{fn: fn, name: fnName(fn), recov: -1}
	if fn.Pkg != nil {
		fi.inRepo = P.isRepo(fn.Pkg.Pkg.Path())
	} else if fn.Parent() != nil && fn.Parent().Pkg != nil {
		fi.inRepo = P.isRepo(fn.Parent().Pkg.Pkg.Path())
	}
	fi.intr = lookupIntrinsic(fi.name, fn)
	if fi.intr != nil {
		return fi
	}
	fi.soft = softIntrinsics[fi.name]
	if fn.Blocks == nil {
		pkg := fn.Pkg
		if pkg == nil && fn.Origin() != nil {
			pkg = fn.Origin().Pkg
		}
		if pkg != nil {
			pkg.Build()
		}
	}
	if fn.Blocks == nil {
		return fi
	}
	regs := map[ssa.Value]int32{}
	n := int32(0)
	alloc := func(v ssa.Value) int32 {
		regs[v] = n
		n++
		return n - 1
	}
	for _, p := range fn.Params {
		alloc(p)
	}
	for _, p := range fn.FreeVars {
		alloc(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				alloc(v)
			}
		}
	}
	fi.nregs = int(n)
	operand := func(v ssa.Value) opnd {
		switch v := v.(type) {
		case nil:
			return opnd{reg: -1}
		case *ssa.Const:
			return opnd{reg: -1, c: constVal(v)}
		case *ssa.Global:
			return opnd{reg: -1, g: v}
		case *ssa.Function:
			return opnd{reg: -1, c: &Closure{fn: v}}
		case *ssa.Builtin:
			return opnd{reg: -1, c: v}
		}
		r, ok := regs[v]
		if !ok {
			panic(engineErr{fmt.Sprintf("no register for %s in %s", v.Name(), fn)})
		}
		return opnd{reg: r}
	}
	for _, b := range fn.Blocks {
		cb := &cblock{b: b, preds: map[*ssa.BasicBlock]int{}}
		for i, p := range b.Preds {
			cb.preds[p] = i
		}
		for _, in := range b.Instrs {
			ci := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = regs[v]
			}
			if phi, ok := in.(*ssa.Phi); ok {
				for _, e := range phi.Edges {
					ci.ops = append(ci.ops, operand(e))
				}
				cb.phis = append(cb.phis, ci)
				continue
			}
			var rands []*ssa.Value
			rands = in.Operands(rands)
			for _, r := range rands {
				if r == nil || *r == nil {
					ci.ops = append(ci.ops, opnd{reg: -1})
				} else {
					ci.ops = append(ci.ops, operand(*r))
				}
			}
			switch x := in.(type) {
			case *ssa.BinOp:
				ci.w, ci.sgn, _ = intInfo(x.X.Type())
			case *ssa.UnOp:
				ci.w, ci.sgn, _ = intInfo(x.X.Type())
			case *ssa.DebugRef:
				continue
			}
			cb.ins = append(cb.ins, ci)
		}
		fi.blocks = append(fi.blocks, cb)
	}
	if fn.Recover != nil {
		fi.recov = fn.Recover.Index
	}
	return fi
}

func (P *Program) isRepo(path string) bool {
	return path == P.modPath || strings.HasPrefix(path, P.modPath+"/")
}

func constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	if tp, ok := t.(*types.Interface); ok {
		_ = tp
		return zero(c.Type())
	}
	b, ok := t.(*types.Basic)
	if !ok {
		// generic typed consts resolved elsewhere
		panic(engineErr{"const of type " + c.Type().String()})
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return mkBool(constant.BoolVal(c.Value))
	case b.Info()&types.IsInteger != 0:
		w, _, _ := intInfo(b)
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return mkC(uint64(i), w)
		}
		u, _ := constant.Uint64Val(v)
		return mkC(u, w)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return f
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return cstr(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(c.Value)
		return cstr(string(rune(i)))
	case b.Info()&types.IsComplex != 0:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return complex(re, im)
	}
	panic(engineErr{"const " + c.String()})
}

// ---------- path state

type targetPanic struct {
	v    Iface
	rt   bool
	site string
}

type pathEnd struct {
	kind string // "assume", "unsupported", "budget", "violation", "deadlock"
	msg  string
	site string
}

type frame struct {
	i      *Interp
	g      *G
	caller *frame
	fi     *fnInfo
	regs   []Value
	block  int
	prev   *ssa.BasicBlock
	defers []*deferred
	result Value
	panicv *targetPanic
	recovd bool
	cur    ssa.Instruction
	depth  int
	isDefr bool // frame was called as deferred function by caller
}

type deferred struct {
	fn   Value
	args []Value
	in   *ssa.Defer
	meth *types.Func
}

func unsupported(format string, a ...interface{}) {
	panic(pathEnd{kind: "unsupported", msg: fmt.Sprintf(format, a...)})
}

func (fr *frame) get(o *opnd) Value {
	if o.reg >= 0 {
		return fr.regs[o.reg]
	}
	if o.g != nil {
		return fr.i.global(o.g)
	}
	return o.c
}

func (fr *frame) site() string {
	for f := fr; f != nil; f = f.caller {
		if f.cur != nil && f.fi != nil {
			pos := f.cur.Pos()
			if pos.IsValid() {
				p := f.i.P.prog.Fset.Position(pos)
				return fmt.Sprintf("%s:%d", p.Filename, p.Line)
			}
		}
	}
	return "?"
}

func (fr *frame) stack() string {
	var sb strings.Builder
	n := 0
	for f := fr; f != nil && n < 14; f = f.caller {
		if f.fi == nil {
			continue
		}
		p := "?"
		if f.cur != nil && f.cur.Pos().IsValid() {
			ps := f.i.P.prog.Fset.Position(f.cur.Pos())
			p = fmt.Sprintf("%s:%d", ps.Filename, ps.Line)
		}
		fmt.Fprintf(&sb, "%s (%s)\n", f.fi.name, p)
		n++
	}
	return sb.String()
}

func (fr *frame) rtPanic(format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	panic(&targetPanic{v: fr.i.rtError(msg), rt: true, site: fr.site() + ": " + msg + "\n" + fr.stack()})
}

func (i *Interp) rtError(msg string) Iface {
	t := i.P.rtErrType()
	return Iface{t: t, v: cstr(msg)}
}

func (P *Program) rtErrType() types.Type {
	return P.pkgs["runtime"].Pkg.Scope().Lookup("errorString").Type()
}

func (i *Interp) call(caller *frame, g *G, f Value, args []Value) Value {
	switch f := f.(type) {
	case *Closure:
		if f == nil {
			caller.rtPanic("invalid memory address or nil pointer dereference (nil func call)")
		}
		if f.native != nil {
			return f.native(caller, args)
		}
		return i.callFn(caller, g, f.fn, f.env, args)
	case *ssa.Builtin:
		unsupported("builtin value call %s", f.Name())
	}
	unsupported("call of %T", f)
	return nil
}

func (i *Interp) callFn(caller *frame, g *G, fn *ssa.Function, env []Value, args []Value) Value {
	fi := i.P.info(fn)
	if r, ok := i.P.repl[fi.name]; ok && !i.inReplaced(caller, r) {
		fi = i.P.info(r)
		fn = r
	}
	if fi.intr != nil {
		if caller == nil {
			caller = &frame{i: i, g: g}
		}
		if !i.w.coverX["model:"+fi.name] {
			i.w.coverX["model:"+fi.name] = true
		}
		return fi.intr(caller, fn, args)
	}
	if fi.soft != nil {
		c := caller
		if c == nil {
			c = &frame{i: i, g: g}
		}
		if v, ok := fi.soft(c, fn, args); ok {
			i.w.coverX["model:"+fi.name] = true
			return v
		}
	}
	if len(fi.blocks) == 0 {
		unsupported("external function %s", fi.name)
	}
	if fi.inRepo {
		i.w.cover[fi.name] = true
		i.w.coverN[fi.name]++
	} else {
		i.w.coverX[fi.name] = true
	}
	fr := &frame{i: i, g: g, caller: caller, fi: fi, regs: make([]Value, fi.nregs)}
	if caller != nil {
		fr.depth = caller.depth + 1
		if fr.depth > 2000 {
			panic(pathEnd{kind: "budget", msg: "recursion depth in " + fi.name})
		}
	}
	copy(fr.regs, args)
	copy(fr.regs[len(fn.Params):], env)
	fr.run()
	return fr.result
}

// inReplaced: a harness replacement may call the original.
func (i *Interp) inReplaced(fr *frame, r *ssa.Function) bool {
	for f := fr; f != nil; f = f.caller {
		if f.fi != nil && f.fi.fn == r {
			return true
		}
	}
	return false
}

func (fr *frame) run() {
	if !fr.hasDefers() {
		fr.runBlocks()
		return
	}
	done := func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				if tp, is := r.(*targetPanic); is {
					fr.panicv = tp
					ok = false
					return
				}
				panic(r)
			}
		}()
		fr.runBlocks()
		return true
	}()
	if done {
		return
	}
	fr.runDefers()
	if fr.panicv != nil {
		panic(fr.panicv)
	}
	// recovered
	if fr.fi.recov >= 0 {
		fr.block = fr.fi.recov
		fr.prev = nil
		fr.runBlocks()
	} else {
		fr.result = zero(fr.fi.fn.Signature.Results())
		if fr.fi.fn.Signature.Results().Len() == 0 {
			fr.result = nil
		}
	}
}

func (fr *frame) hasDefers() bool {
	if fr.fi.pure == 0 {
		v := int32(1)
		for _, b := range fr.fi.blocks {
			for k := range b.ins {
				if _, ok := b.ins[k].in.(*ssa.Defer); ok {
					v = 2
				}
			}
		}
		fr.fi.pure = v
	}
	return fr.fi.pure == 2
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					if tp, is := r.(*targetPanic); is {
						fr.panicv = tp
						return
					}
					panic(r)
				}
			}()
			fr.doCall(d.fn, d.meth, &d.in.Call, d.args, true)
		}()
	}
}

func (fr *frame) runBlocks() {
	i := fr.i
	for {
		b := fr.fi.blocks[fr.block]
		if len(b.phis) > 0 && fr.prev != nil {
			e := b.preds[fr.prev]
			if len(b.phis) == 1 {
				fr.regs[b.phis[0].dst] = fr.get(&b.phis[0].ops[e])
			} else {
				tmp := make([]Value, len(b.phis))
				for k := range b.phis {
					tmp[k] = fr.get(&b.phis[k].ops[e])
				}
				for k := range b.phis {
					fr.regs[b.phis[k].dst] = tmp[k]
				}
			}
		}
		i.steps += int64(len(b.ins))
		if i.steps > i.maxSteps {
			panic(pathEnd{kind: "budget", msg: "step limit in " + fr.fi.name, site: fr.stack()})
		}
		next := -1
		for k := range b.ins {
			ci := &b.ins[k]
			switch in := ci.in.(type) {
			case *ssa.Jump:
				next = b.b.Succs[0].Index
			case *ssa.If:
				fr.cur = in
				c := fr.get(&ci.ops[0]).(*Term)
				if c.op != OConst && i.tryMerge(fr, b, c) {
					next = -2
					break
				}
				if i.branch(c) {
					next = b.b.Succs[0].Index
				} else {
					next = b.b.Succs[1].Index
				}
			case *ssa.Return:
				switch len(ci.ops) {
				case 0:
				case 1:
					fr.result = fr.get(&ci.ops[0])
				default:
					t := make(Tuple, len(ci.ops))
					for j := range ci.ops {
						t[j] = fr.get(&ci.ops[j])
					}
					fr.result = t
				}
				return
			default:
				fr.exec(ci)
			}
		}
		if next == -2 {
			if fr.block < 0 {
				return
			}
			continue
		}
		if next < 0 {
			panic(engineErr{"no successor in " + fr.fi.name})
		}
		fr.prev = b.b
		fr.block = next
	}
}

func (fr *frame) derefTarget(p Value) *Value {
	switch p := p.(type) {
	case *Value:
		if p == nil {
			fr.rtPanic("invalid memory address or nil pointer dereference")
		}
		return p
	case SymPtr:
		k := fr.i.concretize(p.idx, 4096)
		return &p.cells[k]
	case UPtr:
		if c, ok := p.v.(*Value); ok && c != nil {
			return c
		}
	}
	unsupported("deref of %T", p)
	return nil
}

func (fr *frame) load(p Value, t types.Type) Value {
	if sp, ok := p.(SymPtr); ok {
		return fr.i.mux(sp.cells, sp.idx)
	}
	c := fr.derefTarget(p)
	v := *c
	switch v := v.(type) {
	case Struct, Array:
		return copyVal(v)
	case Slice:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return mkStr(sliceTerms(v))
		}
	}
	return v
}

// mux selects cells[idx]; all cells must be terms of equal width.
func (i *Interp) mux(cells []Value, idx *Term) Value {
	c := i.tc
	ts := make([]*Term, len(cells))
	for k, v := range cells {
		t, ok := v.(*Term)
		if !ok {
			// fall back to concretisation
			return copyVal(cells[i.concretize(idx, 4096)])
		}
		ts[k] = t
	}
	n := 0
	for (1 << uint(n)) < len(ts) {
		n++
	}
	var rec func(lo, bit int) *Term
	rec = func(lo, bit int) *Term {
		if bit < 0 {
			if lo < len(ts) {
				return ts[lo]
			}
			return nil
		}
		a := rec(lo, bit-1)
		b := rec(lo|1<<uint(bit), bit-1)
		if b == nil {
			return a
		}
		if a == nil {
			return b
		}
		if int(idx.w) <= bit {
			return a
		}
		return c.Ite(c.Eq(c.Extract(idx, bit, bit), mkC(1, 1)), b, a)
	}
	return rec(0, n-1)
}

func (fr *frame) store(p Value, v Value) {
	if sp, ok := p.(SymPtr); ok {
		c := fr.i.tc
		nt, ok := v.(*Term)
		if ok {
			for k := range sp.cells {
				o, ok2 := sp.cells[k].(*Term)
				if !ok2 {
					ok = false
					break
				}
				sp.cells[k] = c.Ite(c.Eq(sp.idx, mkC(uint64(k), int(sp.idx.w))), nt, o)
			}
		}
		if ok {
			return
		}
	}
	storeCell(fr.derefTarget(p), v)
}

func (fr *frame) exec(ci *cinstr) {
	i := fr.i
	c := i.tc
	fr.cur = ci.in
	switch in := ci.in.(type) {
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		fr.regs[ci.dst] = newCell(zero(t))
	case *ssa.UnOp:
		x := fr.get(&ci.ops[0])
		switch in.Op {
		case token.MUL:
			fr.regs[ci.dst] = fr.load(x, in.Type())
		case token.NOT:
			fr.regs[ci.dst] = c.Not(x.(*Term))
		case token.SUB:
			switch x := x.(type) {
			case *Term:
				fr.regs[ci.dst] = c.Neg(x)
			case float64:
				fr.regs[ci.dst] = -x
			default:
				unsupported("neg %T", x)
			}
		case token.XOR:
			fr.regs[ci.dst] = c.BNot(x.(*Term))
		case token.ARROW:
			v, ok := fr.recv(x)
			if in.CommaOk {
				fr.regs[ci.dst] = Tuple{v, mkBool(ok)}
			} else {
				fr.regs[ci.dst] = v
			}
		}
	case *ssa.BinOp:
		fr.regs[ci.dst] = fr.binop(in.Op, in.X.Type(), in.Y.Type(), fr.get(&ci.ops[0]), fr.get(&ci.ops[1]), ci.w, ci.sgn)
	case *ssa.Store:
		fr.store(fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
	case *ssa.FieldAddr:
		p := fr.derefTarget(fr.get(&ci.ops[0]))
		s, ok := (*p).(Struct)
		if !ok {
			unsupported("FieldAddr on %T in %s", *p, fr.fi.name)
		}
		fr.regs[ci.dst] = &s[in.Field]
	case *ssa.Field:
		s, ok := fr.get(&ci.ops[0]).(Struct)
		if !ok {
			unsupported("Field on %T in %s", fr.get(&ci.ops[0]), fr.fi.name)
		}
		fr.regs[ci.dst] = copyVal(s[in.Field])
	case *ssa.IndexAddr:
		x := fr.get(&ci.ops[0])
		idx := fr.get(&ci.ops[1]).(*Term)
		var cells []Value
		switch x := x.(type) {
		case Slice:
			cells = x
		case *Value, SymPtr:
			p := fr.derefTarget(x)
			a, ok := (*p).(Array)
			if !ok {
				unsupported("IndexAddr on %T", *p)
			}
			cells = a
		default:
			unsupported("IndexAddr on %T", x)
		}
		k, sym := fr.index(idx, in.Index.Type(), len(cells))
		if sym != nil {
			allT := true
			for _, v := range cells {
				if _, ok := v.(*Term); !ok {
					allT = false
					break
				}
			}
			if allT && onlyLoadStore(in) {
				fr.regs[ci.dst] = SymPtr{cells, sym}
				return
			}
			k = int(i.concretize(sym, 4096))
		}
		fr.regs[ci.dst] = &cells[k]
	case *ssa.Index:
		x := fr.get(&ci.ops[0])
		idx := fr.get(&ci.ops[1]).(*Term)
		switch x := x.(type) {
		case Array:
			k, sym := fr.index(idx, in.Index.Type(), len(x))
			if sym != nil {
				fr.regs[ci.dst] = i.mux(x, sym)
			} else {
				fr.regs[ci.dst] = copyVal(x[k])
			}
		case Str:
			fr.regs[ci.dst] = fr.strIndex(x, idx, in.Index.Type())
		default:
			unsupported("Index on %T", x)
		}
	case *ssa.Lookup:
		x := fr.get(&ci.ops[0])
		switch x := x.(type) {
		case Str:
			fr.regs[ci.dst] = fr.strIndex(x, fr.get(&ci.ops[1]).(*Term), in.Index.Type())
		case *MapV:
			mt := in.X.Type().Underlying().(*types.Map)
			e := fr.mapFind(x, fr.get(&ci.ops[1]), mt.Key())
			var v Value
			if e != nil {
				v = copyVal(e.v)
			} else {
				v = zero(mt.Elem())
			}
			if in.CommaOk {
				fr.regs[ci.dst] = Tuple{v, mkBool(e != nil)}
			} else {
				fr.regs[ci.dst] = v
			}
		default:
			unsupported("Lookup on %T", x)
		}
	case *ssa.MapUpdate:
		m := fr.get(&ci.ops[0]).(*MapV)
		mt := in.Map.Type().Underlying().(*types.Map)
		fr.mapSet(m, fr.get(&ci.ops[1]), fr.get(&ci.ops[2]), mt.Key())
	case *ssa.MakeMap:
		fr.regs[ci.dst] = newMap(in.Type().Underlying().(*types.Map))
	case *ssa.MakeSlice:
		st := in.Type().Underlying().(*types.Slice)
		ln := fr.get(&ci.ops[0]).(*Term)
		cp := fr.get(&ci.ops[1]).(*Term)
		fr.regs[ci.dst] = fr.makeSlice(st, ln, in.Len.Type(), cp, in.Cap.Type())
	case *ssa.MakeChan:
		n := fr.concInt(fr.get(&ci.ops[0]).(*Term), 64)
		fr.regs[ci.dst] = i.newChan(int(n), in.Type().Underlying().(*types.Chan).Elem())
	case *ssa.MakeClosure:
		env := make([]Value, len(ci.ops)-1)
		for k := 1; k < len(ci.ops); k++ {
			env[k-1] = fr.get(&ci.ops[k])
		}
		fr.regs[ci.dst] = &Closure{fn: in.Fn.(*ssa.Function), env: env}
	case *ssa.MakeInterface:
		fr.regs[ci.dst] = Iface{t: in.X.Type(), v: fr.get(&ci.ops[0])}
	case *ssa.ChangeInterface:
		fr.regs[ci.dst] = fr.get(&ci.ops[0])
	case *ssa.ChangeType:
		fr.regs[ci.dst] = fr.get(&ci.ops[0])
	case *ssa.Convert:
		fr.regs[ci.dst] = fr.convert(in.X.Type(), in.Type(), fr.get(&ci.ops[0]))
	case *ssa.MultiConvert:
		fr.regs[ci.dst] = fr.convert(in.X.Type(), in.Type(), fr.get(&ci.ops[0]))
	case *ssa.Extract:
		fr.regs[ci.dst] = fr.get(&ci.ops[0]).(Tuple)[in.Index]
	case *ssa.Slice:
		fr.regs[ci.dst] = fr.sliceOp(in, ci)
	case *ssa.SliceToArrayPointer:
		s := fr.get(&ci.ops[0]).(Slice)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s) < n {
			fr.rtPanic("cannot convert slice with length %d to array or pointer to array with length %d", len(s), n)
		}
		if s == nil {
			fr.regs[ci.dst] = (*Value)(nil)
		} else {
			fr.regs[ci.dst] = newCell(Array(s[:n:n]))
		}
	case *ssa.TypeAssert:
		fr.regs[ci.dst] = fr.typeAssert(in, fr.get(&ci.ops[0]).(Iface))
	case *ssa.Range:
		fr.regs[ci.dst] = fr.rangeIter(fr.get(&ci.ops[0]))
	case *ssa.Next:
		fr.regs[ci.dst] = fr.next(in, fr.get(&ci.ops[0]).(*iter))
	case *ssa.Call:
		fn, args, meth := fr.prepareCall(&in.Call, ci.ops)
		fr.regs[ci.dst] = fr.doCall(fn, meth, &in.Call, args, false)
	case *ssa.Defer:
		fn, args, meth := fr.prepareCall(&in.Call, ci.ops)
		fr.defers = append(fr.defers, &deferred{fn, args, in, meth})
	case *ssa.Go:
		fn, args, meth := fr.prepareCall(&in.Call, ci.ops)
		i.spawn(fr, fn, meth, &in.Call, args)
	case *ssa.RunDefers:
		fr.runDefers()
		if fr.panicv != nil {
			p := fr.panicv
			panic(p)
		}
	case *ssa.Panic:
		v := fr.get(&ci.ops[0]).(Iface)
		if v.t == nil {
			v = i.rtError("panic called with nil argument")
		}
		panic(&targetPanic{v: v, site: fr.site() + "\n" + fr.stack()})
	case *ssa.Send:
		fr.send(fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
	case *ssa.Select:
		fr.regs[ci.dst] = fr.selectOp(in, ci)
	default:
		unsupported("instruction %T", in)
	}
}

func onlyLoadStore(in *ssa.IndexAddr) bool {
	for _, r := range *in.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp:
			if r.Op != token.MUL {
				return false
			}
		case *ssa.Store:
			if r.Addr != in {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// index does the bounds check; returns a concrete index or a 64-bit symbolic one.
func (fr *frame) index(idx *Term, t types.Type, n int) (int, *Term) {
	c := fr.i.tc
	w, sgn, _ := intInfo(t)
	if w < 64 {
		if sgn {
			idx = c.Sext(idx, 64)
		} else {
			idx = c.Zext(idx, 64)
		}
	}
	if idx.op == OConst {
		if idx.val >= uint64(n) {
			fr.rtPanic("index out of range [%d] with length %d", int64(idx.val), n)
		}
		return int(idx.val), nil
	}
	if !fr.i.branch(c.Ult(idx, mkC(uint64(n), 64))) {
		fr.rtPanic("index out of range [sym] with length %d", n)
	}
	return 0, idx
}

func (fr *frame) strIndex(s Str, idx *Term, t types.Type) Value {
	k, sym := fr.index(idx, t, s.len())
	if sym == nil {
		return s.at(k)
	}
	ts := s.terms()
	return fr.i.mux(termsSlice(ts), sym)
}

func (fr *frame) concInt(t *Term, limit int) int64 {
	return sx(fr.i.concretize(t, limit), int(t.w))
}

// concLen concretises a length. With a length cap in force (zzv.LenCap) every
// value up to the cap is explored, and one representative above it.
func (fr *frame) concLen(t *Term) uint64 {
	i := fr.i
	if t.op == OConst || i.lenCap == 0 {
		return i.concretize(t, 4200)
	}
	if i.branch(i.tc.Ule(t, mkC(uint64(i.lenCap), int(t.w)))) {
		return i.concretize(t, 4200)
	}
	i.bound["symbolic lengths"] = fmt.Sprintf("every value up to %d, one representative above", i.lenCap)
	if i.replaying() {
		d := i.trace[i.pos]
		i.pos++
		if d.kind != 'l' {
			panic(engineErr{"nondeterministic replay (length)"})
		}
		i.assertPC(i.tc.Eq(t, mkC(d.v, int(t.w))))
		return d.v
	}
	i.needModel()
	v := i.tc.Eval(t, i.model).val
	i.assertPC(i.tc.Eq(t, mkC(v, int(t.w))))
	i.record(dec{kind: 'l', v: v})
	return v
}

func (fr *frame) to64(t *Term, ty types.Type) *Term {
	w, sgn, ok := intInfo(ty)
	if !ok {
		return t
	}
	if w < 64 {
		if sgn {
			return fr.i.tc.Sext(t, 64)
		}
		return fr.i.tc.Zext(t, 64)
	}
	return t
}

const maxAlloc = 1 << 26

func (fr *frame) makeSlice(st *types.Slice, ln *Term, lt types.Type, cp *Term, ct types.Type) Value {
	c := fr.i.tc
	ln = fr.to64(ln, lt)
	cp = fr.to64(cp, ct)
	esz := fr.i.P.sizes.Sizeof(st.Elem())
	if esz <= 0 {
		esz = 1
	}
	lim := mkC(uint64((int64(1)<<47)/esz), 64)
	if !fr.i.branch(c.Ule(ln, lim)) {
		fr.rtPanic("makeslice: len out of range")
	}
	if !sameT(ln, cp) {
		if !fr.i.branch(c.And(c.Ule(cp, lim), c.Ule(ln, cp))) {
			fr.rtPanic("makeslice: cap out of range")
		}
	}
	if fr.i.branch(c.Ult(mkC(uint64(maxAlloc/esz), 64), cp)) {
		panic(pathEnd{kind: "hugealloc", msg: "allocation of more than 64 MiB for a small input", site: fr.stack()})
	}
	n := int64(fr.concLen(ln))
	m := n
	if !sameT(ln, cp) {
		m = int64(fr.concLen(cp))
	}
	return allocSlice(st.Elem(), int(n), int(m))
}

func allocSlice(elem types.Type, n, m int) Slice {
	s := make(Slice, n, m)
	f := s[:m]
	if m > 0 {
		z := zero(elem)
		switch z.(type) {
		case Struct, Array:
			for k := range f {
				f[k] = zero(elem)
			}
		default:
			for k := range f {
				f[k] = z
			}
		}
	}
	return s
}

func (fr *frame) sliceOp(in *ssa.Slice, ci *cinstr) Value {
	c := fr.i.tc
	x := fr.get(&ci.ops[0])
	// operands order: X, Low, High, Max (nil when absent)
	var lo, hi, mx *Term
	k := 1
	if in.Low != nil {
		lo = fr.to64(fr.get(&ci.ops[k]).(*Term), in.Low.Type())
		k++
	} else if len(ci.ops) == 4 {
		k++
	}
	if in.High != nil {
		hi = fr.to64(fr.get(&ci.ops[k]).(*Term), in.High.Type())
		k++
	} else if len(ci.ops) == 4 {
		k++
	}
	if in.Max != nil {
		mx = fr.to64(fr.get(&ci.ops[k]).(*Term), in.Max.Type())
	}
	var cells Slice
	var str *Str
	var ln, cp int
	switch x := x.(type) {
	case Str:
		str = &x
		ln = x.len()
		cp = ln
	case Slice:
		cells = x
		ln, cp = len(x), cap(x)
	case *Value, SymPtr:
		p := fr.derefTarget(x)
		a, ok := (*p).(Array)
		if !ok {
			unsupported("slice of *%T", *p)
		}
		cells = Slice(a)
		ln, cp = len(a), len(a)
		if len(a) == 0 {
			cells = Slice{}
		}
	default:
		unsupported("slice of %T", x)
	}
	if lo == nil {
		lo = mkC(0, 64)
	}
	if hi == nil {
		hi = mkC(uint64(ln), 64)
	}
	mcap := mkC(uint64(cp), 64)
	if mx == nil {
		mx = mcap
	}
	ok := c.And(c.Ule(lo, hi), c.Ule(hi, mx), c.Ule(mx, mcap))
	if !fr.i.branch(ok) {
		fr.rtPanic("slice bounds out of range [%s:%s] with length %d capacity %d", dumpVal(lo, 3), dumpVal(hi, 3), ln, cp)
	}
	l := int(fr.concLen(lo))
	h := int(fr.concLen(hi))
	if str != nil {
		return str.slice(l, h)
	}
	m := int(fr.concLen(mx))
	if cells == nil {
		return Slice(nil)
	}
	return cells[l:h:m]
}

func (fr *frame) prepareCall(cc *ssa.CallCommon, ops []opnd) (Value, []Value, *types.Func) {
	// operands: for invoke: Value, Args...; for call: Value, Args...
	f := fr.get(&ops[0])
	args := make([]Value, 0, len(ops))
	if cc.IsInvoke() {
		ifc, ok := f.(Iface)
		if !ok {
			unsupported("invoke on %T", f)
		}
		if ifc.t == nil {
			fr.rtPanic("invalid memory address or nil pointer dereference (method %s on nil interface)", cc.Method.Name())
		}
		if n, ok := ifc.v.(*nativeIface); ok {
			for k := 1; k < len(ops); k++ {
				args = append(args, fr.get(&ops[k]))
			}
			name := cc.Method.Name()
			return &Closure{name: name, native: func(fr *frame, a []Value) Value { return n.call(fr, name, a) }}, args, nil
		}
		m := fr.i.P.lookupMethod(ifc.t, cc.Method.Pkg(), cc.Method.Name())
		if m == nil {
			unsupported("no method %s on %s", cc.Method.Name(), ifc.t)
		}
		args = append(args, ifc.v)
		for k := 1; k < len(ops); k++ {
			args = append(args, fr.get(&ops[k]))
		}
		return &Closure{fn: m}, args, nil
	}
	for k := 1; k < len(ops); k++ {
		args = append(args, fr.get(&ops[k]))
	}
	return f, args, nil
}

// nativeIface is an interface value implemented by the engine.
type nativeIface struct {
	call func(fr *frame, name string, args []Value) Value
	data interface{}
}

func (fr *frame) doCall(f Value, meth *types.Func, cc *ssa.CallCommon, args []Value, isDefer bool) Value {
	if b, ok := f.(*ssa.Builtin); ok {
		return fr.builtin(b, cc, args, isDefer)
	}
	if cl, ok := f.(*Closure); ok && cl != nil && cl.native == nil {
		fn := cl.fn
		if strings.HasPrefix(fn.Name(), "init") && fn.Synthetic != "" && fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Signature.Params().Len() == 0 {
			// package initialisers run lazily
			return nil
		}
	}
	return fr.i.call(fr, fr.g, f, args)
}

func (fr *frame) builtin(b *ssa.Builtin, cc *ssa.CallCommon, args []Value, isDefer bool) Value {
	i := fr.i
	c := i.tc
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Str:
			return mkC(uint64(x.len()), 64)
		case Slice:
			return mkC(uint64(len(x)), 64)
		case Array:
			return mkC(uint64(len(x)), 64)
		case *Value:
			if x == nil {
				return mkC(uint64(cc.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()), 64)
			}
			return mkC(uint64(len((*x).(Array))), 64)
		case *MapV:
			if x == nil {
				return mkC(0, 64)
			}
			return mkC(uint64(x.n), 64)
		case *ChanV:
			if x == nil {
				return mkC(0, 64)
			}
			return mkC(uint64(len(x.buf)), 64)
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return mkC(uint64(cap(x)), 64)
		case Array:
			return mkC(uint64(len(x)), 64)
		case *Value:
			return mkC(uint64(len((*x).(Array))), 64)
		case *ChanV:
			return mkC(uint64(x.cap), 64)
		}
	case "append":
		s, _ := args[0].(Slice)
		if len(args) == 1 {
			return s
		}
		var add []Value
		switch y := args[1].(type) {
		case Slice:
			add = y
		case Str:
			add = termsSlice(y.terms())
		default:
			unsupported("append %T", y)
		}
		st := cc.Args[0].Type().Underlying()
		var elem types.Type
		if sl, ok := st.(*types.Slice); ok {
			elem = sl.Elem()
		} else {
			unsupported("append to %s", st)
		}
		return i.appendVals(s, elem, add)
	case "copy":
		d := args[0].(Slice)
		var src []Value
		switch y := args[1].(type) {
		case Slice:
			src = y
		case Str:
			src = termsSlice(y.terms())
		}
		n := min(len(d), len(src))
		if n > 0 {
			tmp := make([]Value, n)
			for k := 0; k < n; k++ {
				tmp[k] = copyVal(src[k])
			}
			for k := 0; k < n; k++ {
				storeCell(&d[k], tmp[k])
			}
		}
		return mkC(uint64(n), 64)
	case "delete":
		m := args[0].(*MapV)
		mt := cc.Args[0].Type().Underlying().(*types.Map)
		fr.mapDelete(m, args[1], mt.Key())
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				*x = *newMap(x.t)
			}
		case Slice:
			el := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
			for k := range x {
				storeCell(&x[k], zero(el))
			}
		}
		return nil
	case "close":
		fr.closeChan(args[0])
		return nil
	case "panic":
		panic(&targetPanic{v: args[0].(Iface), site: fr.site() + "\n" + fr.stack()})
	case "recover":
		// the frame calling recover must be a deferred function called by a panicking frame
		p := fr.caller
		if p != nil && p.panicv != nil {
			v := p.panicv.v
			p.panicv = nil
			return v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, y := range args[1:] {
			switch a := r.(type) {
			case *Term:
				bt := y.(*Term)
				_, sgn, _ := intInfo(cc.Args[0].Type())
				var lt *Term
				if sgn {
					lt = c.Slt(bt, a)
				} else {
					lt = c.Ult(bt, a)
				}
				if b.Name() == "max" {
					if sgn {
						lt = c.Slt(a, bt)
					} else {
						lt = c.Ult(a, bt)
					}
				}
				r = c.Ite(lt, bt, a)
			case float64:
				if b.Name() == "min" {
					r = math.Min(a, y.(float64))
				} else {
					r = math.Max(a, y.(float64))
				}
			default:
				unsupported("min/max %T", r)
			}
		}
		return r
	case "ssa:wrapnilchk":
		if isNilVal(args[0]) {
			fr.rtPanic("invalid memory address or nil pointer dereference (value method called using nil pointer)")
		}
		return args[0]
	case "String": // unsafe.String
		n := int(fr.concInt(args[1].(*Term), 4096))
		if sd, ok := args[0].(*sliceData); ok {
			return mkStr(sliceTerms(Slice(sd.s[:n])))
		}
		if n == 0 {
			return Str{}
		}
	case "SliceData":
		s := args[0].(Slice)
		if s == nil {
			return (*Value)(nil)
		}
		return &sliceData{s: s[:cap(s)]}
	case "StringData":
		return &sliceData{s: termsSlice(args[0].(Str).terms())}
	case "Slice":
		n := int(fr.concInt(args[1].(*Term), 4096))
		if sd, ok := args[0].(*sliceData); ok {
			return Slice(sd.s[:n:n])
		}
	}
	unsupported("builtin %s on %T", b.Name(), args)
	return nil
}

type sliceData struct{ s []Value }

func (i *Interp) appendVals(s Slice, elem types.Type, add []Value) Slice {
	if len(add) == 0 {
		return s
	}
	n := len(s) + len(add)
	vals := make([]Value, len(add))
	for k := range add {
		vals[k] = copyVal(add[k])
	}
	if n <= cap(s) {
		r := s[:n]
		for k := range vals {
			storeCell(&r[len(s)+k], vals[k])
		}
		return r
	}
	nc := growCap(len(s), cap(s), n, i.P.sizes.Sizeof(elem))
	r := make(Slice, n, nc)
	for k := range s {
		r[k] = copyVal(s[k])
	}
	copy(r[len(s):], vals)
	if nc > n {
		f := r[:nc]
		z := zero(elem)
		switch z.(type) {
		case Struct, Array:
			for k := n; k < nc; k++ {
				f[k] = zero(elem)
			}
		default:
			for k := n; k < nc; k++ {
				f[k] = z
			}
		}
	}
	return r
}

var sizeClasses = []int64{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundup(sz int64) int64 {
	for _, c := range sizeClasses {
		if sz <= c {
			return c
		}
	}
	return (sz + 8191) &^ 8191
}

func growCap(oldLen, oldCap, newLen int, esz int64) int {
	nc := oldCap
	dbl := nc + nc
	if newLen > dbl {
		nc = newLen
	} else if oldCap < 256 {
		nc = dbl
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	if esz <= 0 {
		return newLen
	}
	return int(roundup(int64(nc)*esz) / esz)
}

// ---------- operators

func (fr *frame) binop(op token.Token, xt, yt types.Type, x, y Value, w int, sgn bool) Value {
	c := fr.i.tc
	switch op {
	case token.EQL:
		return fr.eq(xt, yt, x, y)
	case token.NEQ:
		return c.Not(fr.eq(xt, yt, x, y))
	}
	switch a := x.(type) {
	case *Term:
		b := y.(*Term)
		if a.w == 0 {
			switch op {
			case token.AND, token.LAND:
				return c.And(a, b)
			case token.OR, token.LOR:
				return c.Or(a, b)
			}
		}
		switch op {
		case token.ADD:
			return c.Add(a, b)
		case token.SUB:
			return c.Sub(a, b)
		case token.MUL:
			return c.Mul(a, b)
		case token.QUO, token.REM:
			if !fr.i.branch(c.Not(c.Eq(b, mkC(0, int(b.w))))) {
				fr.rtPanic("integer divide by zero")
			}
			if op == token.QUO {
				if sgn {
					return c.SDiv(a, b)
				}
				return c.UDiv(a, b)
			}
			if sgn {
				return c.SRem(a, b)
			}
			return c.URem(a, b)
		case token.AND:
			return c.BAnd(a, b)
		case token.OR:
			return c.BOr(a, b)
		case token.XOR:
			return c.BXor(a, b)
		case token.AND_NOT:
			return c.BAnd(a, c.BNot(b))
		case token.SHL, token.SHR:
			_, ys, _ := intInfo(yt)
			if ys {
				if !fr.i.branch(c.Sle(mkC(0, int(b.w)), b)) {
					fr.rtPanic("negative shift amount")
				}
			}
			if op == token.SHL {
				return c.Shift(OShl, a, b)
			}
			if sgn {
				return c.Shift(OAshr, a, b)
			}
			return c.Shift(OLshr, a, b)
		case token.LSS:
			if sgn {
				return c.Slt(a, b)
			}
			return c.Ult(a, b)
		case token.LEQ:
			if sgn {
				return c.Sle(a, b)
			}
			return c.Ule(a, b)
		case token.GTR:
			if sgn {
				return c.Slt(b, a)
			}
			return c.Ult(b, a)
		case token.GEQ:
			if sgn {
				return c.Sle(b, a)
			}
			return c.Ule(b, a)
		}
	case Str:
		b := y.(Str)
		switch op {
		case token.ADD:
			return a.cat(b)
		case token.LSS:
			return c.strLess(a.terms(), b.terms())
		case token.GTR:
			return c.strLess(b.terms(), a.terms())
		case token.LEQ:
			return c.Not(c.strLess(b.terms(), a.terms()))
		case token.GEQ:
			return c.Not(c.strLess(a.terms(), b.terms()))
		}
	case float64:
		b := y.(float64)
		f32 := false
		if bt, ok := xt.Underlying().(*types.Basic); ok && bt.Kind() == types.Float32 {
			f32 = true
		}
		rd := func(f float64) float64 {
			if f32 {
				return float64(float32(f))
			}
			return f
		}
		switch op {
		case token.ADD:
			return rd(a + b)
		case token.SUB:
			return rd(a - b)
		case token.MUL:
			return rd(a * b)
		case token.QUO:
			return rd(a / b)
		case token.LSS:
			return mkBool(a < b)
		case token.LEQ:
			return mkBool(a <= b)
		case token.GTR:
			return mkBool(a > b)
		case token.GEQ:
			return mkBool(a >= b)
		}
	}
	unsupported("binop %s on %T", op, x)
	return nil
}

func (c *TermCtx) bytesEq(a, b []*Term) *Term {
	if len(a) != len(b) {
		return tFalse
	}
	if len(a) == 0 {
		return tTrue
	}
	// compare in runs of up to 64 bytes joined with concat
	var conj []*Term
	for i := 0; i < len(a); i += 64 {
		j := min(i+64, len(a))
		e := c.Eq(c.Concat(a[i:j]...), c.Concat(b[i:j]...))
		if e == tFalse {
			return tFalse
		}
		conj = append(conj, e)
	}
	return c.And(conj...)
}

func (c *TermCtx) strLess(a, b []*Term) *Term {
	// lexicographic a<b
	n := min(len(a), len(b))
	// skip identical prefix quickly
	r := mkBool(len(a) < len(b))
	for k := n - 1; k >= 0; k-- {
		if sameT(a[k], b[k]) {
			continue
		}
		lt := c.Ult(a[k], b[k])
		eq := c.Eq(a[k], b[k])
		r = c.Or(lt, c.And(eq, r))
	}
	return r
}

func (fr *frame) eq(xt, yt types.Type, x, y Value) *Term {
	c := fr.i.tc
	switch a := x.(type) {
	case nil:
		return mkBool(isNilVal(y))
	case *Term:
		return c.Eq(a, y.(*Term))
	case float64:
		return mkBool(a == y.(float64))
	case Str:
		b := y.(Str)
		if a.len() != b.len() {
			return tFalse
		}
		if a.b == nil && b.b == nil {
			return mkBool(a.s == b.s)
		}
		return c.bytesEq(a.terms(), b.terms())
	case *Value:
		switch b := y.(type) {
		case *Value:
			return mkBool(a == b)
		case nil:
			return mkBool(a == nil)
		case SymPtr, *sliceData:
			if a == nil {
				return tFalse
			}
		}
	case *sliceData:
		if b, ok := y.(*Value); ok && b == nil {
			return tFalse
		}
	case UPtr:
		if b, ok := y.(UPtr); ok {
			return mkBool(a == b)
		}
	case Slice:
		if isNilVal(y) {
			return mkBool(a == nil)
		}
		if a == nil {
			return mkBool(isNilVal(y))
		}
	case *MapV:
		if b, ok := y.(*MapV); ok {
			return mkBool(a == b)
		}
	case *ChanV:
		if b, ok := y.(*ChanV); ok {
			return mkBool(a == b)
		}
	case *Closure:
		return mkBool(isNilVal(x) == isNilVal(y) && (isNilVal(x) || isNilVal(y)))
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			unsupported("iface eq %T", y)
		}
		if a.t == nil || b.t == nil {
			return mkBool(a.t == nil && b.t == nil)
		}
		if na, ok := a.v.(*nativeIface); ok {
			nb, ok2 := b.v.(*nativeIface)
			return mkBool(ok2 && na == nb)
		}
		if !types.Identical(a.t, b.t) {
			return tFalse
		}
		if !types.Comparable(a.t) {
			fr.rtPanic("comparing uncomparable type %s", a.t)
		}
		return fr.eq(a.t, b.t, a.v, b.v)
	case Struct:
		b := y.(Struct)
		st := xt.Underlying().(*types.Struct)
		var conj []*Term
		for k := range a {
			if st.Field(k).Name() == "_" {
				continue
			}
			conj = append(conj, fr.eq(st.Field(k).Type(), st.Field(k).Type(), a[k], b[k]))
		}
		return c.And(conj...)
	case Array:
		b := y.(Array)
		el := xt.Underlying().(*types.Array).Elem()
		if w, _, ok := intInfo(el); ok && w == 8 {
			return c.bytesEq(sliceTerms(Slice(a)), sliceTerms(Slice(b)))
		}
		var conj []*Term
		for k := range a {
			conj = append(conj, fr.eq(el, el, a[k], b[k]))
		}
		return c.And(conj...)
	case Native:
		if b, ok := y.(Native); ok {
			return mkBool(a.v == b.v)
		}
		return tFalse
	case RType:
		if b, ok := y.(RType); ok {
			return mkBool(types.Identical(a.t, b.t))
		}
		return tFalse
	}
	unsupported("eq on %T/%T", x, y)
	return nil
}

func (fr *frame) convert(from, to types.Type, x Value) Value {
	c := fr.i.tc
	fu, tu := from.Underlying(), to.Underlying()
	if tb, ok := tu.(*types.Basic); ok {
		if w, _, isInt := intInfo(tb); isInt {
			switch v := x.(type) {
			case *Term:
				_, fs, _ := intInfo(fu)
				if fs {
					return c.Sext(v, w)
				}
				return c.Zext(v, w)
			case float64:
				_, sgn, _ := intInfo(tb)
				if sgn {
					return mkC(uint64(int64(v)), w)
				}
				return mkC(uint64(v), w)
			case UPtr:
				return mkC(0xdead0000, 64)
			}
		}
		if tb.Info()&types.IsFloat != 0 {
			switch v := x.(type) {
			case float64:
				if tb.Kind() == types.Float32 {
					return float64(float32(v))
				}
				return v
			case *Term:
				_, fs, _ := intInfo(fu)
				n := fr.i.concretize(v, 64)
				var f float64
				if fs {
					f = float64(sx(n, int(v.w)))
				} else {
					f = float64(n)
				}
				if tb.Kind() == types.Float32 {
					f = float64(float32(f))
				}
				return f
			}
		}
		if tb.Info()&types.IsString != 0 {
			switch v := x.(type) {
			case Str:
				return v
			case Slice:
				el := fu.(*types.Slice).Elem()
				if w, _, _ := intInfo(el); w == 8 {
					return mkStr(sliceTerms(v))
				}
				var s Str
				for _, r := range v {
					s = s.cat(fr.runeStr(r.(*Term)))
				}
				return s
			case *Term:
				return fr.runeStr(v)
			}
		}
		if tb.Kind() == types.UnsafePointer {
			switch v := x.(type) {
			case UPtr:
				return v
			case *Value:
				if v == nil {
					return UPtr{}
				}
				return UPtr{v}
			default:
				return UPtr{v}
			}
		}
	}
	if ts, ok := tu.(*types.Slice); ok {
		if s, ok := x.(Str); ok {
			w, _, _ := intInfo(ts.Elem())
			if w == 8 {
				ts := s.terms()
				n := len(ts)
				cp := int(roundup(int64(n)))
				if n == 0 {
					return make(Slice, 0)
				}
				if n <= 32 {
					cp = 32
				}
				r := make(Slice, n, cp)
				for k, t := range ts {
					r[k] = t
				}
				f := r[:cp]
				for k := n; k < cp; k++ {
					f[k] = mkC(0, 8)
				}
				return r
			}
			var r Slice
			it := &iter{str: &s}
			for {
				_, rv, ok := fr.nextRune(it)
				if !ok {
					break
				}
				r = append(r, rv)
			}
			if r == nil {
				r = Slice{}
			}
			return r
		}
		if s, ok := x.(Slice); ok {
			return s
		}
	}
	if _, ok := tu.(*types.Pointer); ok {
		switch v := x.(type) {
		case UPtr:
			if v.v == nil {
				return (*Value)(nil)
			}
			return v.v
		default:
			return x
		}
	}
	if _, ok := fu.(*types.Basic); !ok {
		return x
	}
	unsupported("convert %s -> %s (%T)", from, to, x)
	return nil
}

func (fr *frame) runeStr(t *Term) Str {
	c := fr.i.tc
	if t.op == OConst {
		return cstr(string(rune(sx(t.val, int(t.w)))))
	}
	if fr.i.branch(c.Ult(t, mkC(0x80, int(t.w)))) {
		return mkStr([]*Term{c.Extract(t, 7, 0)})
	}
	if int(t.w) > 8 && fr.i.branch(c.Ult(t, mkC(0x800, int(t.w)))) {
		return mkStr([]*Term{
			c.BOr(mkC(0xC0, 8), c.Zext(c.Extract(t, 10, 6), 8)),
			c.BOr(mkC(0x80, 8), c.Zext(c.Extract(t, 5, 0), 8))})
	}
	v := fr.concInt(t, 256)
	return cstr(string(rune(v)))
}

func (fr *frame) typeAssert(in *ssa.TypeAssert, x Iface) Value {
	ok := false
	var v Value
	if x.t != nil {
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			if _, nat := x.v.(*nativeIface); nat {
				ok = true
			} else {
				ok = types.Implements(x.t, it)
				if !ok {
					if n, isN := x.v.(Native); isN {
						_ = n
					}
				}
			}
			v = x
		} else {
			ok = types.Identical(x.t, in.AssertedType)
			v = copyVal(x.v)
		}
	}
	if in.CommaOk {
		if !ok {
			v = zero(in.AssertedType)
		}
		return Tuple{v, mkBool(ok)}
	}
	if !ok {
		fr.rtPanic("interface conversion: interface is %v, not %v", x.t, in.AssertedType)
	}
	return v
}

// ---------- iteration

type iter struct {
	str  *Str
	pos  int
	m    *MapV
	ents []*mapEnt
}

func (fr *frame) rangeIter(x Value) Value {
	switch x := x.(type) {
	case Str:
		return &iter{str: &x}
	case *MapV:
		it := &iter{m: x}
		if x != nil {
			it.ents = append(it.ents, x.ents...)
			fr.i.permuteEnts(it)
		}
		return it
	}
	unsupported("range over %T", x)
	return nil
}

func (fr *frame) next(in *ssa.Next, it *iter) Value {
	if it.str != nil {
		pos, r, ok := fr.nextRune(it)
		if !ok {
			return Tuple{tFalse, mkC(0, 64), mkC(0, 32)}
		}
		return Tuple{tTrue, mkC(uint64(pos), 64), r}
	}
	for it.pos < len(it.ents) {
		e := it.ents[it.pos]
		it.pos++
		if e.dead {
			continue
		}
		return Tuple{tTrue, copyVal(e.k), copyVal(e.v)}
	}
	tt := in.Type().(*types.Tuple)
	zv := func(t types.Type) Value {
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return zero(t)
	}
	return Tuple{tFalse, zv(tt.At(1).Type()), zv(tt.At(2).Type())}
}

func (fr *frame) nextRune(it *iter) (int, *Term, bool) {
	c := fr.i.tc
	s := *it.str
	if it.pos >= s.len() {
		return 0, nil, false
	}
	p := it.pos
	b := s.at(p)
	if b.op == OConst && b.val < 0x80 {
		it.pos++
		return p, mkC(b.val, 32), true
	}
	if b.op != OConst && fr.i.branch(c.Ult(b, mkC(0x80, 8))) {
		it.pos++
		return p, c.Zext(b, 32), true
	}
	// multi-byte: run the real decoder
	fn := fr.i.P.pkgs["unicode/utf8"].Func("DecodeRuneInString")
	r := fr.i.callFn(fr, fr.g, fn, nil, []Value{s.slice(p, s.len())}).(Tuple)
	n := int(fr.concInt(r[1].(*Term), 8))
	it.pos += n
	return p, r[0].(*Term), true
}

// ---------- maps

func newMap(t *types.Map) *MapV {
	return &MapV{t: t, idx: map[string]*mapEnt{}}
}

// keyString gives a canonical string for fully concrete keys.
func keyString(v Value) (string, bool) {
	switch v := v.(type) {
	case *Term:
		if v.op != OConst {
			return "", false
		}
		return "i" + v.bigVal().String(), true
	case Str:
		if v.b != nil {
			return "", false
		}
		return "s" + v.s, true
	case *Value:
		return fmt.Sprintf("p%p", v), true
	case *ChanV:
		return fmt.Sprintf("c%p", v), true
	case Iface:
		if v.t == nil {
			return "nil", true
		}
		k, ok := keyString(v.v)
		return "I" + v.t.String() + ":" + k, ok
	case Struct:
		var sb strings.Builder
		sb.WriteString("S")
		for _, x := range v {
			k, ok := keyString(x)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s", len(k), k)
		}
		return sb.String(), true
	case Array:
		var sb strings.Builder
		sb.WriteString("A")
		for _, x := range v {
			k, ok := keyString(x)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s", len(k), k)
		}
		return sb.String(), true
	case RType:
		return "T" + v.t.String(), true
	case Native:
		return fmt.Sprintf("n%p", v.v), true
	case float64:
		return fmt.Sprintf("f%v", v), true
	}
	return "", false
}

func (fr *frame) mapFind(m *MapV, k Value, kt types.Type) *mapEnt {
	if m == nil {
		return nil
	}
	if ifc, ok := k.(Iface); ok && ifc.t != nil && !types.Comparable(ifc.t) {
		fr.rtPanic("hash of unhashable type %s", ifc.t)
	}
	ks, conc := keyString(k)
	if conc {
		if e, ok := m.idx[ks]; ok {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if conc {
			if _, ec := keyString(e.k); ec {
				continue
			}
		}
		if fr.i.branch(fr.eq(kt, kt, e.k, k)) {
			return e
		}
	}
	return nil
}

func (fr *frame) mapSet(m *MapV, k, v Value, kt types.Type) {
	if m == nil {
		panic(&targetPanic{v: fr.i.rtError("assignment to entry in nil map"), rt: true, site: fr.site() + ": assignment to entry in nil map\n" + fr.stack()})
	}
	if e := fr.mapFind(m, k, kt); e != nil {
		e.v = copyVal(v)
		return
	}
	e := &mapEnt{k: copyVal(k), v: copyVal(v)}
	m.ents = append(m.ents, e)
	m.n++
	if ks, conc := keyString(k); conc {
		m.idx[ks] = e
	} else {
		m.nsym++
	}
}

func (fr *frame) mapDelete(m *MapV, k Value, kt types.Type) {
	e := fr.mapFind(m, k, kt)
	if e == nil {
		return
	}
	e.dead = true
	m.n--
	if ks, conc := keyString(e.k); conc {
		delete(m.idx, ks)
	} else {
		m.nsym--
	}
	for i, x := range m.ents {
		if x == e {
			m.ents = append(append([]*mapEnt{}, m.ents[:i]...), m.ents[i+1:]...)
			break
		}
	}
}
