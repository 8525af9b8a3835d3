package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const vpkg = "github.com/icon-project/btp/common/zzv"

var intrinsics = map[string]intrinsic{}

func lookupIntrinsic(name string, fn *ssa.Function) intrinsic {
	if f, ok := intrinsics[name]; ok {
		return f
	}
	if strings.HasPrefix(name, "sync/atomic.") || strings.HasPrefix(name, "internal/runtime/atomic.") {
		return atomicIntrinsic(name[strings.LastIndexByte(name, '.')+1:])
	}
	if strings.HasPrefix(name, "(*github.com/sirupsen/logrus.") || strings.HasPrefix(name, "github.com/sirupsen/logrus.") {
		return logrusIntrinsic(name)
	}
	return nil
}

func reg(name string, f intrinsic) { intrinsics[name] = f }

func (i *Interp) fresh(name string, w int) *Term {
	return i.tc.Var(name, w)
}

func (fr *frame) cs(v Value) string {
	s, ok := v.(Str).concrete()
	if !ok {
		unsupported("symbolic string where a concrete one is needed")
	}
	return s
}

func (i *Interp) inName(n string) string {
	k := i.names[n]
	i.names[n] = k + 1
	if k == 0 {
		return n
	}
	return fmt.Sprintf("%s#%d", n, k)
}

func (i *Interp) inputInt(name string, w int) *Term {
	n := i.inName(name)
	t := i.fresh(n, w)
	i.inputs = append(i.inputs, inputRec{Name: n, Kind: "int", W: w, T: []*Term{t}})
	return t
}

func (i *Interp) inputBytes(name string, n int) []*Term {
	nm := i.inName(name)
	ts := make([]*Term, n)
	for k := range ts {
		ts[k] = i.fresh(fmt.Sprintf("%s[%d]", nm, k), 8)
	}
	i.inputs = append(i.inputs, inputRec{Name: nm, Kind: "bytes", T: ts})
	return ts
}

func (fr *frame) newErr(msg string) Iface {
	pk := fr.i.P.pkgs["errors"]
	t := types.NewPointer(pk.Pkg.Scope().Lookup("errorString").Type())
	return Iface{t: t, v: newCell(Struct{cstr(msg)})}
}

func init() {
	ints := map[string]int{"U8": 8, "U16": 16, "U32": 32, "U64": 64, "I64": 64, "I32": 32, "Int": 64, "I8": 8, "I16": 16}
	for n, w := range ints {
		w := w
		reg(vpkg+"."+n, func(fr *frame, fn *ssa.Function, a []Value) Value {
			return fr.i.inputInt(fr.cs(a[0]), w)
		})
	}
	reg(vpkg+".Bool", func(fr *frame, fn *ssa.Function, a []Value) Value {
		t := fr.i.inputInt(fr.cs(a[0]), 1)
		return fr.i.tc.Eq(t, mkC(1, 1))
	})
	reg(vpkg+".IntRange", func(fr *frame, fn *ssa.Function, a []Value) Value {
		t := fr.i.inputInt(fr.cs(a[0]), 64)
		lo, hi := a[1].(*Term), a[2].(*Term)
		fr.i.assume(fr.i.tc.And(fr.i.tc.Sle(lo, t), fr.i.tc.Sle(t, hi)))
		return t
	})
	reg(vpkg+".Choose", func(fr *frame, fn *ssa.Function, a []Value) Value {
		lo, hi := fr.concInt(a[1].(*Term), 64), fr.concInt(a[2].(*Term), 64)
		if hi < lo {
			panic(pathEnd{kind: "assume"})
		}
		k := fr.i.choose(int(hi-lo) + 1)
		nm := fr.i.inName(fr.cs(a[0]))
		fr.i.inputs = append(fr.i.inputs, inputRec{Name: nm, Kind: "choice", I: int(lo) + k})
		return mkC(uint64(lo+int64(k)), 64)
	})
	reg(vpkg+".Bytes", func(fr *frame, fn *ssa.Function, a []Value) Value {
		n := int(fr.concInt(a[1].(*Term), 4096))
		return termsSlice(fr.i.inputBytes(fr.cs(a[0]), n))
	})
	reg(vpkg+".Str", func(fr *frame, fn *ssa.Function, a []Value) Value {
		n := int(fr.concInt(a[1].(*Term), 4096))
		return mkStr(fr.i.inputBytes(fr.cs(a[0]), n))
	})
	reg(vpkg+".Assume", func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.i.assume(a[0].(*Term))
		return nil
	})
	reg(vpkg+".Assert", func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.i.assertT(fr, a[0].(*Term), a[1].(Str).String())
		return nil
	})
	reg(vpkg+".Reach", func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.i.reached[a[0].(Str).String()] = true
		return nil
	})
	reg(vpkg+".Bound", func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.i.bound[a[0].(Str).String()] = a[1].(Str).String()
		return nil
	})
	reg(vpkg+".Symbolic", func(fr *frame, fn *ssa.Function, a []Value) Value { return tTrue })
	reg(vpkg+".Thorough", func(fr *frame, fn *ssa.Function, a []Value) Value { return mkBool(thorough) })
	reg(vpkg+".MaxSteps", func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.i.maxSteps = fr.concInt(a[0].(*Term), 4)
		return nil
	})
	reg(vpkg+".LenCap", func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.i.lenCap = int(fr.concInt(a[0].(*Term), 4))
		return nil
	})
	reg(vpkg+".HashAxioms", func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.i.noHashAx = a[0].(*Term).val == 0
		return nil
	})
	reg(vpkg+".BigHeap", func(fr *frame, fn *ssa.Function, a []Value) Value { return nil })
	reg(vpkg+".MapOrder", func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.i.permMaps = fr.i.branch(a[0].(*Term))
		return nil
	})
	reg(vpkg+".Preempt", func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.i.sched.preempt = int(fr.concInt(a[0].(*Term), 4))
		fr.i.sched.nondet = true
		return nil
	})
	reg(vpkg+".Delays", func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.i.sched.delays = int(fr.concInt(a[0].(*Term), 4))
		return nil
	})
	reg(vpkg+".Jitter", func(fr *frame, fn *ssa.Function, a []Value) Value { return nil })
	reg(vpkg+".Yield", func(fr *frame, fn *ssa.Function, a []Value) Value {
		s := fr.i.sched
		if len(s.runq) > 0 {
			s.ready(fr.g)
			s.next(fr.g)
		}
		return nil
	})
	reg(vpkg+".Settle", func(fr *frame, fn *ssa.Function, a []Value) Value {
		// run every other goroutine until all of them are blocked
		s := fr.i.sched
		if len(s.runq) > 0 || len(s.timers) > 0 {
			s.settler, s.settleN = fr.g, 64
			s.next(fr.g)
		}
		return nil
	})
	reg(vpkg+".Log", func(fr *frame, fn *ssa.Function, a []Value) Value {
		if verbose {
			s := a[0].(Str).String()
			if len(a) > 1 {
				for _, x := range a[1].(Slice) {
					s += " " + dumpVal(x, 6)
				}
			}
			fmt.Println("LOG:", s)
		}
		return nil
	})
	// pick one branch-free: Ite
	reg(vpkg+".IteInt", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.i.tc.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
	})
	reg(vpkg+".And", func(fr *frame, fn *ssa.Function, a []Value) Value {
		r := tTrue
		for _, x := range a[0].(Slice) {
			r = fr.i.tc.And(r, x.(*Term))
		}
		return r
	})
	reg(vpkg+".Or", func(fr *frame, fn *ssa.Function, a []Value) Value {
		r := tFalse
		for _, x := range a[0].(Slice) {
			r = fr.i.tc.Or(r, x.(*Term))
		}
		return r
	})
	reg(vpkg+".Implies", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.i.tc.Implies(a[0].(*Term), a[1].(*Term))
	})
	reg(vpkg+".BytesEq", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.i.tc.bytesEq(sliceTerms(a[0].(Slice)), sliceTerms(a[1].(Slice)))
	})

	// ---- sync
	lk := func(f func(fr *frame, p Value)) intrinsic {
		return func(fr *frame, fn *ssa.Function, a []Value) Value { f(fr, a[0]); return nil }
	}
	reg("(*sync.Mutex).Lock", lk((*frame).lock))
	reg("(*sync.Mutex).Unlock", lk((*frame).unlock))
	reg("(*sync.RWMutex).Lock", lk((*frame).lock))
	reg("(*sync.RWMutex).Unlock", lk((*frame).unlock))
	reg("(*sync.RWMutex).RLock", lk((*frame).rlock))
	reg("(*sync.RWMutex).RUnlock", lk((*frame).runlock))
	reg("(*internal/sync.Mutex).Lock", lk((*frame).lock))
	reg("(*internal/sync.Mutex).Unlock", lk((*frame).unlock))
	reg("(*sync.Mutex).TryLock", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.mutex(a[0])
		if m.locked || m.readers > 0 {
			return tFalse
		}
		m.locked = true
		return tTrue
	})
	reg("(*sync.Once).Do", func(fr *frame, fn *ssa.Function, a []Value) Value {
		c := fr.derefTarget(a[0])
		s := fr.i.sched
		if fr.i.shared {
			s = nil
		}
		var o *onceState
		if s != nil {
			o = s.onces[c]
			if o == nil {
				o = &onceState{}
				s.onces[c] = o
			}
		} else {
			o = &onceState{}
		}
		for o.running {
			o.waiters = append(o.waiters, fr.g)
			fr.park()
		}
		if o.done {
			return nil
		}
		o.running = true
		defer func() {
			o.running = false
			o.done = true
			for _, g := range o.waiters {
				s.ready(g)
			}
			o.waiters = nil
		}()
		fr.i.call(fr, fr.g, a[1], nil)
		return nil
	})
	wg := func(fr *frame, p Value) *wgState {
		c := fr.derefTarget(p)
		w := fr.i.sched.wgs[c]
		if w == nil {
			w = &wgState{}
			fr.i.sched.wgs[c] = w
		}
		return w
	}
	wgAdd := func(fr *frame, w *wgState, d int64) {
		w.n += d
		if w.n < 0 {
			fr.rtPanic("sync: negative WaitGroup counter")
		}
		if w.n == 0 {
			for _, g := range w.waiters {
				fr.i.sched.ready(g)
			}
			w.waiters = nil
		}
	}
	reg("(*sync.WaitGroup).Add", func(fr *frame, fn *ssa.Function, a []Value) Value {
		wgAdd(fr, wg(fr, a[0]), fr.concInt(a[1].(*Term), 16))
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(fr *frame, fn *ssa.Function, a []Value) Value {
		wgAdd(fr, wg(fr, a[0]), -1)
		return nil
	})
	reg("(*sync.WaitGroup).Wait", func(fr *frame, fn *ssa.Function, a []Value) Value {
		w := wg(fr, a[0])
		for w.n > 0 {
			w.waiters = append(w.waiters, fr.g)
			fr.park()
		}
		return nil
	})
	reg("(*sync.Pool).Get", func(fr *frame, fn *ssa.Function, a []Value) Value {
		p := (*fr.derefTarget(a[0])).(Struct)
		nf := p[len(p)-1]
		if isNilVal(nf) {
			return Iface{}
		}
		return fr.i.call(fr, fr.g, nf, nil)
	})
	reg("(*sync.Pool).Put", func(fr *frame, fn *ssa.Function, a []Value) Value { return nil })

	// ---- runtime & misc no-ops
	nop := func(fr *frame, fn *ssa.Function, a []Value) Value {
		r := fn.Signature.Results()
		if r.Len() == 0 {
			return nil
		}
		return zero(r)
	}
	for _, n := range []string{"runtime.GC", "runtime.Gosched", "runtime.SetFinalizer", "runtime.KeepAlive", "runtime.Callers", "runtime.LockOSThread", "runtime.UnlockOSThread",
		"github.com/pkg/errors.callers", "(*strings.Builder).copyCheck", "internal/race.Enable", "internal/race.Disable", "fmt.Printf", "fmt.Println", "fmt.Print",
		"runtime/debug.PrintStack", "internal/godebug.registerMetric", "internal/godebug.setUpdate", "(*internal/godebug.Setting).IncNonDefault", "internal/godebug.New", "internal/poll.runtime_Semrelease",
		"(*internal/godebug.Setting).Value", "runtime.Caller", "runtime.Stack", "os/signal.Notify", "os.runtime_args", "syscall.runtime_envs"} {
		reg(n, nop)
	}
	ident := func(fr *frame, fn *ssa.Function, a []Value) Value { return a[0] }
	reg("internal/abi.NoEscape", ident)
	reg("internal/abi.Escape", ident)
	reg("internal/stringslite.Clone", ident)
	reg("strings.Clone", ident)
	reg("runtime.NumCPU", func(fr *frame, fn *ssa.Function, a []Value) Value { return mkC(8, 64) })
	reg("runtime.GOMAXPROCS", func(fr *frame, fn *ssa.Function, a []Value) Value { return mkC(8, 64) })
	reg("os.Getenv", func(fr *frame, fn *ssa.Function, a []Value) Value { return Str{} })

	// ---- time
	reg("time.Now", func(fr *frame, fn *ssa.Function, a []Value) Value { return zero(fn.Signature.Results()) })
	reg("time.now", func(fr *frame, fn *ssa.Function, a []Value) Value { return zero(fn.Signature.Results()) })
	reg("time.runtimeNano", func(fr *frame, fn *ssa.Function, a []Value) Value { return mkC(uint64(fr.i.sched.now), 64) })
	reg("time.Sleep", func(fr *frame, fn *ssa.Function, a []Value) Value {
		s := fr.i.sched
		d := fr.concInt(a[0].(*Term), 64)
		done := false
		g := fr.g
		s.addTimer(d, func() { done = true; s.ready(g) })
		for !done {
			fr.park()
		}
		return nil
	})
	timerChan := func(fr *frame, d int64) (*ChanV, *timerV) {
		s := fr.i.sched
		el := fr.i.P.pkgs["time"].Pkg.Scope().Lookup("Time").Type()
		ch := fr.i.newChan(1, el)
		t := s.addTimer(d, func() { s.trySend(ch, zero(el)) })
		return ch, t
	}
	reg("time.After", func(fr *frame, fn *ssa.Function, a []Value) Value {
		ch, _ := timerChan(fr, fr.concInt(a[0].(*Term), 64))
		return ch
	})
	mkTimer := func(fr *frame, fn *ssa.Function, a []Value) Value {
		ch, _ := timerChan(fr, fr.concInt(a[0].(*Term), 64))
		z := zero(fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()).(Struct)
		z[0] = ch
		return newCell(z)
	}
	reg("time.NewTimer", mkTimer)
	reg("time.NewTicker", mkTimer)
	reg("(*time.Timer).Stop", func(fr *frame, fn *ssa.Function, a []Value) Value { return tTrue })
	reg("(*time.Timer).Reset", func(fr *frame, fn *ssa.Function, a []Value) Value {
		s := fr.i.sched
		ch := (*fr.derefTarget(a[0])).(Struct)[0].(*ChanV)
		s.addTimer(fr.concInt(a[1].(*Term), 64), func() { s.trySend(ch, zero(ch.elem)) })
		return tTrue
	})
	reg("(*time.Ticker).Stop", nop)

	// ---- rand: concrete distinct values
	rnd := func(w int) intrinsic {
		return func(fr *frame, fn *ssa.Function, a []Value) Value {
			fr.i.names["$rand"]++
			return mkC(uint64(1000+fr.i.names["$rand"]), w)
		}
	}
	reg("math/rand.Int", rnd(64))
	reg("math/rand.Int63", rnd(64))
	reg("math/rand.Int31", rnd(32))
	reg("math/rand.Uint32", rnd(32))
	reg("math/rand.Uint64", rnd(64))
	reg("math/rand.Seed", nop)
	rread := func(fr *frame, fn *ssa.Function, a []Value) Value {
		b := a[0].(Slice)
		fr.i.names["$crand"]++
		for k := range b {
			b[k] = fr.i.fresh(fmt.Sprintf("rand%d[%d]", fr.i.names["$crand"], k), 8)
		}
		return Tuple{mkC(uint64(len(b)), 64), Iface{}}
	}
	reg("crypto/rand.Read", rread)

	// ---- math
	f1 := func(f func(float64) float64) intrinsic {
		return func(fr *frame, fn *ssa.Function, a []Value) Value { return f(a[0].(float64)) }
	}
	reg("math.Ceil", f1(math.Ceil))
	reg("math.Floor", f1(math.Floor))
	reg("math.Sqrt", f1(math.Sqrt))
	reg("math.Log", f1(math.Log))
	reg("math.Log2", f1(math.Log2))
	reg("math.Trunc", f1(math.Trunc))
	reg("math.Abs", f1(math.Abs))
	reg("math.Pow", func(fr *frame, fn *ssa.Function, a []Value) Value { return math.Pow(a[0].(float64), a[1].(float64)) })
	reg("math.Float64bits", func(fr *frame, fn *ssa.Function, a []Value) Value { return mkC(math.Float64bits(a[0].(float64)), 64) })
	reg("math.Float32bits", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return mkC(uint64(math.Float32bits(float32(a[0].(float64)))), 32)
	})
	reg("math.Float64frombits", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return math.Float64frombits(fr.i.concretize(a[0].(*Term), 4))
	})

	// ---- math/bits
	lenI := func(fr *frame, fn *ssa.Function, a []Value) Value {
		c := fr.i.tc
		x := a[0].(*Term)
		r := mkC(0, 64)
		for b := 0; b < int(x.w); b++ {
			r = c.Ite(c.Eq(c.Extract(x, b, b), mkC(1, 1)), mkC(uint64(b+1), 64), r)
		}
		return r
	}
	for _, n := range []string{"Len", "Len8", "Len16", "Len32", "Len64"} {
		reg("math/bits."+n, lenI)
	}
	for _, n := range []string{"LeadingZeros", "LeadingZeros8", "LeadingZeros16", "LeadingZeros32", "LeadingZeros64"} {
		reg("math/bits."+n, func(fr *frame, fn *ssa.Function, a []Value) Value {
			c := fr.i.tc
			x := a[0].(*Term)
			r := mkC(uint64(x.w), 64)
			for b := 0; b < int(x.w); b++ {
				r = c.Ite(c.Eq(c.Extract(x, b, b), mkC(1, 1)), mkC(uint64(int(x.w)-1-b), 64), r)
			}
			return r
		})
	}
	for _, n := range []string{"TrailingZeros", "TrailingZeros8", "TrailingZeros16", "TrailingZeros32", "TrailingZeros64"} {
		reg("math/bits."+n, func(fr *frame, fn *ssa.Function, a []Value) Value {
			c := fr.i.tc
			x := a[0].(*Term)
			r := mkC(uint64(x.w), 64)
			for b := int(x.w) - 1; b >= 0; b-- {
				r = c.Ite(c.Eq(c.Extract(x, b, b), mkC(1, 1)), mkC(uint64(b), 64), r)
			}
			return r
		})
	}

	// ---- internal/bytealg
	get := func(v Value) []*Term {
		switch v := v.(type) {
		case Slice:
			return sliceTerms(v)
		case Str:
			return v.terms()
		}
		panic(engineErr{fmt.Sprintf("bytes of %T", v)})
	}
	cmp := func(fr *frame, fn *ssa.Function, a []Value) Value {
		c := fr.i.tc
		x, y := get(a[0]), get(a[1])
		lt := c.strLess(x, y)
		eq := c.bytesEq(x, y)
		return c.Ite(eq, mkC(0, 64), c.Ite(lt, mkC(^uint64(0), 64), mkC(1, 64)))
	}
	reg("internal/bytealg.Compare", cmp)
	reg("internal/bytealg.CompareString", cmp)
	reg("bytes.Compare", cmp)
	reg("internal/bytealg.Equal", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.i.tc.bytesEq(get(a[0]), get(a[1]))
	})
	reg("bytes.Equal", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.i.tc.bytesEq(get(a[0]), get(a[1]))
	})
	idxByte := func(fr *frame, fn *ssa.Function, a []Value) Value {
		x := get(a[0])
		b := a[1].(*Term)
		for k, t := range x {
			if fr.i.branch(fr.i.tc.Eq(t, b)) {
				return mkC(uint64(k), 64)
			}
		}
		return mkC(^uint64(0), 64)
	}
	reg("internal/bytealg.IndexByte", idxByte)
	reg("internal/bytealg.IndexByteString", idxByte)
	lastIdx := func(fr *frame, fn *ssa.Function, a []Value) Value {
		x := get(a[0])
		b := a[1].(*Term)
		for k := len(x) - 1; k >= 0; k-- {
			if fr.i.branch(fr.i.tc.Eq(x[k], b)) {
				return mkC(uint64(k), 64)
			}
		}
		return mkC(^uint64(0), 64)
	}
	reg("internal/bytealg.LastIndexByte", lastIdx)
	reg("internal/bytealg.LastIndexByteString", lastIdx)
	index := func(fr *frame, fn *ssa.Function, a []Value) Value {
		x, y := get(a[0]), get(a[1])
		for k := 0; k+len(y) <= len(x); k++ {
			if fr.i.branch(fr.i.tc.bytesEq(x[k:k+len(y)], y)) {
				return mkC(uint64(k), 64)
			}
		}
		return mkC(^uint64(0), 64)
	}
	for _, n := range []string{"internal/bytealg.Index", "internal/bytealg.IndexString", "strings.Index", "bytes.Index", "internal/stringslite.Index"} {
		reg(n, index)
	}
	count := func(fr *frame, fn *ssa.Function, a []Value) Value {
		c := fr.i.tc
		n := mkC(0, 64)
		for _, t := range get(a[0]) {
			n = c.Add(n, c.Ite(c.Eq(t, a[1].(*Term)), mkC(1, 64), mkC(0, 64)))
		}
		return mkC(fr.i.concretize(n, 256), 64)
	}
	reg("internal/bytealg.Count", count)
	reg("internal/bytealg.CountString", count)
	reg("internal/bytealg.MakeNoZero", func(fr *frame, fn *ssa.Function, a []Value) Value {
		n := int(fr.concInt(a[0].(*Term), 4096))
		if n > maxAlloc {
			panic(pathEnd{kind: "hugealloc", msg: fmt.Sprintf("allocation of %d bytes", n), site: fr.stack()})
		}
		return allocSlice(types.Typ[types.Uint8], n, int(roundup(int64(n))))
	})
	reg("strings.EqualFold", func(fr *frame, fn *ssa.Function, a []Value) Value {
		x, y := a[0].(Str), a[1].(Str)
		if x.b == nil && y.b == nil {
			return mkBool(strings.EqualFold(x.s, y.s))
		}
		if x.len() != y.len() {
			return tFalse
		}
		c := fr.i.tc
		low := func(t *Term) *Term {
			up := c.And(c.Ule(mkC('A', 8), t), c.Ule(t, mkC('Z', 8)))
			return c.Ite(up, c.Add(t, mkC(32, 8)), t)
		}
		var cj []*Term
		for k := 0; k < x.len(); k++ {
			cj = append(cj, c.Eq(low(x.at(k)), low(y.at(k))))
		}
		return c.And(cj...)
	})
	// ASCII case mapping without forking (bytes < 0x80 assumed by fork)
	caseMap := func(up bool) intrinsic {
		return func(fr *frame, fn *ssa.Function, a []Value) Value {
			s := a[0].(Str)
			if s.b == nil {
				if up {
					return cstr(strings.ToUpper(s.s))
				}
				return cstr(strings.ToLower(s.s))
			}
			c := fr.i.tc
			ascii := tTrue
			for _, t := range s.b {
				ascii = c.And(ascii, c.Ult(t, mkC(0x80, 8)))
			}
			if !fr.i.branch(ascii) {
				unsupported("non-ASCII case mapping")
			}
			r := make([]*Term, len(s.b))
			for k, t := range s.b {
				if up {
					in := c.And(c.Ule(mkC('a', 8), t), c.Ule(t, mkC('z', 8)))
					r[k] = c.Ite(in, c.Sub(t, mkC(32, 8)), t)
				} else {
					in := c.And(c.Ule(mkC('A', 8), t), c.Ule(t, mkC('Z', 8)))
					r[k] = c.Ite(in, c.Add(t, mkC(32, 8)), t)
				}
			}
			return mkStr(r)
		}
	}
	reg("strings.ToUpper", caseMap(true))
	reg("strings.ToLower", caseMap(false))

	// ---- errors
	reg("errors.Is", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return mkBool(fr.errorsIs(a[0].(Iface), a[1].(Iface), 0))
	})
	reg("errors.As", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return mkBool(fr.errorsAs(a[0].(Iface), a[1].(Iface), 0))
	})

	// ---- os exit
	reg("os.Exit", func(fr *frame, fn *ssa.Function, a []Value) Value {
		panic(&targetPanic{v: fr.i.rtError("os.Exit called"), site: fr.stack()})
	})
}

func (fr *frame) unwrap(e Iface) []Iface {
	if e.t == nil {
		return nil
	}
	ms := types.NewMethodSet(e.t)
	for k := 0; k < ms.Len(); k++ {
		m := ms.At(k).Obj().(*types.Func)
		if m.Name() != "Unwrap" {
			continue
		}
		sg := m.Type().(*types.Signature)
		if sg.Params().Len() != 0 || sg.Results().Len() != 1 {
			continue
		}
		f := fr.i.P.lookupMethod(e.t, m.Pkg(), "Unwrap")
		r := fr.i.callFn(fr, fr.g, f, nil, []Value{e.v})
		switch r := r.(type) {
		case Iface:
			if r.t == nil {
				return nil
			}
			return []Iface{r}
		case Slice:
			var out []Iface
			for _, x := range r {
				out = append(out, x.(Iface))
			}
			return out
		}
	}
	return nil
}

func (fr *frame) errorsIs(e, target Iface, d int) bool {
	if e.t == nil || target.t == nil {
		return e.t == nil && target.t == nil
	}
	if d > 64 {
		panic(pathEnd{kind: "budget", msg: "errors.Is depth"})
	}
	if types.Comparable(target.t) && types.Identical(e.t, target.t) {
		if fr.i.branch(fr.eq(e.t, e.t, e, target)) {
			return true
		}
	}
	if obj, _, _ := types.LookupFieldOrMethod(e.t, true, nil, "Is"); obj != nil {
		if m, ok := obj.(*types.Func); ok {
			f := fr.i.P.lookupMethod(e.t, m.Pkg(), "Is")
			if f != nil && f.Signature.Params().Len() == 1 {
				if b, ok := fr.i.callFn(fr, fr.g, f, nil, []Value{e.v, target}).(*Term); ok && fr.i.branch(b) {
					return true
				}
			}
		}
	}
	for _, u := range fr.unwrap(e) {
		if fr.errorsIs(u, target, d+1) {
			return true
		}
	}
	return false
}

func (fr *frame) errorsAs(e, target Iface, d int) bool {
	if target.t == nil {
		fr.rtPanic("errors: target cannot be nil")
	}
	pt, ok := target.t.Underlying().(*types.Pointer)
	if !ok {
		fr.rtPanic("errors: target must be a non-nil pointer")
	}
	if e.t == nil {
		return false
	}
	el := pt.Elem()
	p := target.v.(*Value)
	if it, ok := el.Underlying().(*types.Interface); ok {
		if types.Implements(e.t, it) {
			*p = e
			return true
		}
	} else if types.Identical(e.t, el) {
		storeCell(p, e.v)
		return true
	}
	if obj, _, _ := types.LookupFieldOrMethod(e.t, true, nil, "As"); obj != nil {
		if m, ok := obj.(*types.Func); ok {
			f := fr.i.P.lookupMethod(e.t, m.Pkg(), "As")
			if f != nil {
				if b, ok := fr.i.callFn(fr, fr.g, f, nil, []Value{e.v, target}).(*Term); ok && fr.i.branch(b) {
					return true
				}
			}
		}
	}
	for _, u := range fr.unwrap(e) {
		if fr.errorsAs(u, target, d+1) {
			return true
		}
	}
	return false
}

func atomicIntrinsic(name string) intrinsic {
	switch {
	case strings.HasPrefix(name, "Load"):
		return func(fr *frame, fn *ssa.Function, a []Value) Value {
			v := *fr.derefTarget(a[0])
			return v
		}
	case strings.HasPrefix(name, "Store"):
		return func(fr *frame, fn *ssa.Function, a []Value) Value {
			*fr.derefTarget(a[0]) = a[1]
			return nil
		}
	case strings.HasPrefix(name, "Add"):
		return func(fr *frame, fn *ssa.Function, a []Value) Value {
			p := fr.derefTarget(a[0])
			*p = fr.i.tc.Add((*p).(*Term), a[1].(*Term))
			return *p
		}
	case strings.HasPrefix(name, "Swap"):
		return func(fr *frame, fn *ssa.Function, a []Value) Value {
			p := fr.derefTarget(a[0])
			o := *p
			*p = a[1]
			return o
		}
	case strings.HasPrefix(name, "CompareAndSwap"):
		return func(fr *frame, fn *ssa.Function, a []Value) Value {
			p := fr.derefTarget(a[0])
			if fr.i.branch(fr.eq(nil, nil, *p, a[1])) {
				*p = a[2]
				return tTrue
			}
			return tFalse
		}
	}
	return nil
}

func logrusIntrinsic(name string) intrinsic {
	m := name[strings.LastIndexByte(name, '.')+1:]
	if strings.HasPrefix(m, "Panic") {
		return func(fr *frame, fn *ssa.Function, a []Value) Value {
			panic(&targetPanic{v: fr.i.rtError("log panic"), site: fr.stack()})
		}
	}
	if strings.HasPrefix(m, "Fatal") {
		return func(fr *frame, fn *ssa.Function, a []Value) Value {
			panic(&targetPanic{v: fr.i.rtError("log fatal"), site: fr.stack()})
		}
	}
	return func(fr *frame, fn *ssa.Function, a []Value) Value {
		r := fn.Signature.Results()
		if r.Len() == 0 {
			return nil
		}
		if r.Len() == 1 {
			// keep fluent style: return a fresh object
			if p, ok := r.At(0).Type().Underlying().(*types.Pointer); ok {
				return newCell(zero(p.Elem()))
			}
		}
		return zero(r)
	}
}

// ---------- globals

func (i *Interp) global(g *ssa.Global) *Value {
	repo := i.P.isRepo(g.Pkg.Pkg.Path())
	gl, in := i.globals, i.inited
	if !repo {
		gl, in = i.lib.globals, i.lib.inited
	}
	if !in[g.Pkg] {
		in[g.Pkg] = true
		i.initPkg(g.Pkg, repo)
	}
	c := gl[g]
	if c == nil {
		c = newCell(zero(g.Type().Underlying().(*types.Pointer).Elem()))
		gl[g] = c
	}
	return c
}

func (i *Interp) initPkg(p *ssa.Package, repo bool) {
	i.P.mu.Lock()
	p.Build()
	i.P.mu.Unlock()
	switch p.Pkg.Path() {
	case "runtime", "os", "syscall", "internal/godebug", "net/http", "log", "internal/cpu", "internal/runtime/maps", "internal/poll", "net", "github.com/sirupsen/logrus", "crypto/rand", "math/rand", "testing", "vendor/golang.org/x/sys/cpu", "golang.org/x/sys/cpu", "golang.org/x/sys/unix", "internal/testlog", "internal/syscall/unix", "os/signal":
		return
	}
	init := p.Func("init")
	if init == nil {
		return
	}
	g := &G{id: -1, wake: make(chan struct{}, 1)}
	if !repo {
		// library state: must be concrete and path independent
		old := i.shared
		i.shared = true
		defer func() { i.shared = old }()
		st := i.steps
		ms := i.maxSteps
		i.maxSteps = 1 << 40
		defer func() { i.steps = st; i.maxSteps = ms }()
		i.callFnNoLazy(g, init)
		return
	}
	i.callFnNoLazy(g, init)
}

func (i *Interp) callFnNoLazy(g *G, fn *ssa.Function) {
	fi := i.P.info(fn)
	fr := &frame{i: i, g: g, fi: fi, regs: make([]Value, fi.nregs)}
	// the init guard must read false
	if len(fi.blocks) == 0 {
		return
	}
	fr.run()
}

func (i *Interp) permuteEnts(it *iter) {
	if !i.permMaps || len(it.ents) < 2 {
		return
	}
	// choose a permutation by successive choices
	ents := append([]*mapEnt{}, it.ents...)
	var out []*mapEnt
	dev := false
	for len(ents) > 0 {
		k := 0
		if len(ents) > 1 {
			k = i.choose(len(ents))
		}
		dev = dev || k > 0
		out = append(out, ents[k])
		ents = append(ents[:k:k], ents[k+1:]...)
	}
	it.ents = out
	if dev {
		i.sched.devs = append(i.sched.devs, "a map is ranged over in another order than its entries were added")
	}
}
