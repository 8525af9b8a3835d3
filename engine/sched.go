package main

import (
	"fmt"
	"go/types"
	"runtime/debug"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type pathKill struct{}

type G struct {
	id   int
	wake chan struct{}
	main bool
	done bool
}

type timerV struct {
	at   int64
	seq  int
	fire func()
	dead bool
}

type Sched struct {
	i       *Interp
	runq    []*G
	all     []*G
	timers  []*timerV
	now     int64
	seq     int
	fin     chan pathEnd
	ended   bool
	nondet  bool
	preempt int
	devs    []string
	delays  int // budget of deviations from the round-robin schedule
	settler *G  // resumes when every other goroutine is blocked
	settleN int // and no timer is left or this many have fired
	mutexes map[*Value]*mutexState
	onces   map[*Value]*onceState
	wgs     map[*Value]*wgState
	conds   map[*Value][]*G
}

type mutexState struct {
	locked  bool
	readers int
	waiters []*G
}
type onceState struct {
	done, running bool
	waiters       []*G
}
type wgState struct {
	n       int64
	waiters []*G
}

func newSched(i *Interp) *Sched {
	return &Sched{i: i, fin: make(chan pathEnd, 1), mutexes: map[*Value]*mutexState{}, onces: map[*Value]*onceState{}, wgs: map[*Value]*wgState{}, conds: map[*Value][]*G{}}
}

func (s *Sched) finish(pe pathEnd) {
	if !s.ended {
		s.ended = true
		s.fin <- pe
	}
}

func (s *Sched) body(g *G, f func()) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case pathKill:
				return
			case pathEnd:
				s.finish(r)
			case *targetPanic:
				m := "panic: " + s.panicMsg(r)
				s.finish(pathEnd{kind: "panic", msg: m, site: r.site})
			case engineErr:
				s.finish(pathEnd{kind: "engine", msg: r.msg, site: string(debug.Stack())})
			default:
				s.finish(pathEnd{kind: "engine", msg: fmt.Sprint(r), site: string(debug.Stack())})
			}
		}
	}()
	f()
	g.done = true
	if g.main {
		s.finish(pathEnd{kind: "done"})
		return
	}
	s.next(nil)
}

func (s *Sched) panicMsg(tp *targetPanic) string {
	v := tp.v
	switch x := v.v.(type) {
	case Str:
		return x.String()
	}
	return dumpVal(v, 4)
}

func (s *Sched) runMain(entry *ssa.Function) pathEnd {
	g := &G{id: 0, wake: make(chan struct{}, 1), main: true}
	s.all = append(s.all, g)
	go s.body(g, func() {
		s.i.callFn(nil, g, entry, nil, nil)
	})
	pe := <-s.fin
	for _, x := range s.all {
		if !x.done {
			select {
			case x.wake <- struct{}{}:
			default:
			}
		}
	}
	return pe
}

func (s *Sched) newG(f func(g *G)) *G {
	g := &G{id: len(s.all), wake: make(chan struct{}, 1)}
	s.all = append(s.all, g)
	s.runq = append(s.runq, g)
	go func() {
		<-g.wake
		if s.ended {
			return
		}
		s.body(g, func() { f(g) })
	}()
	return g
}

func (i *Interp) spawn(fr *frame, f Value, meth *types.Func, cc *ssa.CallCommon, args []Value) {
	s := i.sched
	s.newG(func(g *G) {
		root := &frame{i: i, g: g}
		root.doCall(f, meth, cc, args, false)
	})
	fr.yieldPoint()
}

// pick removes and returns the next runnable goroutine.
func (s *Sched) pick() *G {
	for len(s.runq) == 0 {
		if s.settler != nil && (len(s.timers) == 0 || s.settleN == 0) {
			g := s.settler
			s.settler = nil
			return g
		}
		// fire earliest timer
		var best *timerV
		bi := -1
		for k, t := range s.timers {
			if best == nil || t.at < best.at || (t.at == best.at && t.seq < best.seq) {
				best, bi = t, k
			}
		}
		if best == nil {
			return nil
		}
		s.timers = append(s.timers[:bi:bi], s.timers[bi+1:]...)
		if best.dead {
			continue
		}
		if best.at > s.now {
			s.now = best.at
		}
		s.settleN--
		best.fire()
	}
	k := 0
	if n := len(s.runq); n > 1 && (s.nondet || s.delays > 0) {
		if !s.nondet && n > s.delays+1 {
			n = s.delays + 1
		}
		k = s.i.choose(n)
		if !s.nondet {
			s.delays -= k
		}
		if k > 0 {
			s.devs = append(s.devs, fmt.Sprintf("goroutine %d runs before goroutine %d", s.runq[k].id, s.runq[0].id))
		}
	}
	g := s.runq[k]
	s.runq = append(s.runq[:k:k], s.runq[k+1:]...)
	return g
}

// next transfers control; self is the parked goroutine (nil if exiting).
func (s *Sched) next(self *G) {
	n := s.pick()
	if n == nil {
		var sb strings.Builder
		panic(pathEnd{kind: "deadlock", msg: "all goroutines are blocked", site: sb.String()})
	}
	if n == self {
		return
	}
	n.wake <- struct{}{}
	if self == nil {
		return
	}
	<-self.wake
	if s.ended {
		panic(pathKill{})
	}
}

func (fr *frame) park() {
	if fr.g == nil {
		unsupported("blocking in init")
	}
	fr.i.sched.next(fr.g)
}

func (s *Sched) ready(g *G) { s.runq = append(s.runq, g) }

func (fr *frame) yieldPoint() {
	s := fr.i.sched
	if s.delays > 0 && len(s.runq) > 0 && fr.g != nil {
		n := len(s.runq) + 1
		if n > s.delays+1 {
			n = s.delays + 1
		}
		if k := fr.i.choose(n); k > 0 {
			s.delays -= k
			s.ready(fr.g)
			fr.handOver(k - 1)
		}
		return
	}
	if s.preempt <= 0 || len(s.runq) == 0 || fr.g == nil {
		return
	}
	if fr.i.choose(2) == 1 {
		s.preempt--
		s.ready(fr.g)
		// run somebody else first
		k := 0
		if len(s.runq) > 2 {
			k = fr.i.choose(len(s.runq) - 1)
		}
		fr.handOver(k)
	}
}

// handOver runs the k'th runnable goroutine; this one is runnable, too.
func (fr *frame) handOver(k int) {
	s := fr.i.sched
	n := s.runq[k]
	s.devs = append(s.devs, fmt.Sprintf("goroutine %d is interrupted by goroutine %d at %s", fr.g.id, n.id, fr.stack()))
	s.runq = append(s.runq[:k:k], s.runq[k+1:]...)
	n.wake <- struct{}{}
	<-fr.g.wake
	if s.ended {
		panic(pathKill{})
	}
}

func (s *Sched) addTimer(d int64, f func()) *timerV {
	s.seq++
	if d < 0 {
		d = 0
	}
	t := &timerV{at: s.now + d, seq: s.seq, fire: f}
	s.timers = append(s.timers, t)
	return t
}

// ---------- channels

type waiter struct {
	g    *G
	v    Value // value to send
	got  Value
	ok   bool
	sel  *selState
	idx  int
	done bool
}
type selState struct {
	fired bool
	idx   int
	got   Value
	ok    bool
}
type ChanV struct {
	cap    int
	buf    []Value
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	elem   types.Type
	i      *Interp
}

func (i *Interp) newChan(n int, elem types.Type) *ChanV {
	return &ChanV{cap: n, elem: elem, i: i}
}

func deq(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.sel != nil {
			if w.sel.fired {
				continue
			}
			w.sel.fired = true
			w.sel.idx = w.idx
		}
		return w
	}
	return nil
}

func hasLive(q []*waiter) bool {
	for _, w := range q {
		if w.sel == nil || !w.sel.fired {
			return true
		}
	}
	return false
}

func (s *Sched) trySend(ch *ChanV, v Value) bool {
	if w := deq(&ch.recvq); w != nil {
		if w.sel != nil {
			w.sel.got, w.sel.ok = v, true
		}
		w.got, w.ok, w.done = v, true, true
		if w.g != nil {
			s.ready(w.g)
		}
		return true
	}
	if len(ch.buf) < ch.cap {
		ch.buf = append(ch.buf, v)
		return true
	}
	return false
}

func (s *Sched) tryRecv(ch *ChanV) (Value, bool, bool) {
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = ch.buf[1:]
		if w := deq(&ch.sendq); w != nil {
			ch.buf = append(ch.buf, w.v)
			w.done = true
			s.ready(w.g)
		}
		return v, true, true
	}
	if w := deq(&ch.sendq); w != nil {
		w.done = true
		s.ready(w.g)
		return w.v, true, true
	}
	if ch.closed {
		return zero(ch.elem), false, true
	}
	return nil, false, false
}

func (fr *frame) send(x Value, v Value) {
	ch := x.(*ChanV)
	s := fr.i.sched
	fr.yieldPoint()
	if ch == nil {
		for {
			fr.park()
		}
	}
	if ch.closed {
		fr.rtPanic("send on closed channel")
	}
	v = copyVal(v)
	if s.trySend(ch, v) {
		return
	}
	w := &waiter{g: fr.g, v: v}
	ch.sendq = append(ch.sendq, w)
	for !w.done {
		fr.park()
		if !w.done && ch.closed {
			fr.rtPanic("send on closed channel")
		}
	}
}

func (fr *frame) recv(x Value) (Value, bool) {
	ch := x.(*ChanV)
	s := fr.i.sched
	fr.yieldPoint()
	if ch == nil {
		for {
			fr.park()
		}
	}
	if v, ok, did := s.tryRecv(ch); did {
		return v, ok
	}
	w := &waiter{g: fr.g}
	ch.recvq = append(ch.recvq, w)
	for !w.done {
		fr.park()
	}
	return w.got, w.ok
}

func (fr *frame) closeChan(x Value) {
	ch := x.(*ChanV)
	if ch == nil {
		fr.rtPanic("close of nil channel")
	}
	if ch.closed {
		fr.rtPanic("close of closed channel")
	}
	ch.closed = true
	s := fr.i.sched
	for {
		w := deq(&ch.recvq)
		if w == nil {
			break
		}
		z := zero(ch.elem)
		if w.sel != nil {
			w.sel.got, w.sel.ok = z, false
		}
		w.got, w.ok, w.done = z, false, true
		if w.g != nil {
			s.ready(w.g)
		}
	}
	for _, w := range ch.sendq {
		if w.sel != nil && w.sel.fired {
			continue
		}
		if w.sel != nil {
			w.sel.fired = true
			w.sel.idx = -2
		}
		s.ready(w.g)
	}
	ch.sendq = nil
}

func (fr *frame) selectOp(in *ssa.Select, ci *cinstr) Value {
	s := fr.i.sched
	type st struct {
		ch  *ChanV
		v   Value
		dir types.ChanDir
	}
	var sts []st
	k := 0
	for _, x := range in.States {
		e := st{dir: x.Dir}
		e.ch, _ = fr.get(&ci.ops[k]).(*ChanV)
		k++
		if x.Dir == types.SendOnly {
			e.v = fr.get(&ci.ops[k])
		}
		k++
		sts = append(sts, e)
	}
	fr.yieldPoint()
	mkRes := func(idx int, got Value, ok bool) Value {
		r := Tuple{mkC(uint64(int64(idx)), 64), mkBool(ok)}
		for n, x := range in.States {
			if x.Dir == types.RecvOnly {
				if n == idx {
					r = append(r, got)
				} else {
					r = append(r, zero(x.Chan.Type().Underlying().(*types.Chan).Elem()))
				}
			}
		}
		return r
	}
	var readyI []int
	for n, e := range sts {
		if e.ch == nil {
			continue
		}
		if e.dir == types.SendOnly {
			if e.ch.closed || hasLive(e.ch.recvq) || len(e.ch.buf) < e.ch.cap {
				readyI = append(readyI, n)
			}
		} else {
			if len(e.ch.buf) > 0 || hasLive(e.ch.sendq) || e.ch.closed {
				readyI = append(readyI, n)
			}
		}
	}
	if len(readyI) > 0 {
		n := readyI[0]
		if len(readyI) > 1 {
			n = readyI[fr.i.choose(len(readyI))]
		}
		e := sts[n]
		if e.dir == types.SendOnly {
			if e.ch.closed {
				fr.rtPanic("send on closed channel")
			}
			s.trySend(e.ch, copyVal(e.v))
			return mkRes(n, nil, false)
		}
		v, ok, _ := s.tryRecv(e.ch)
		return mkRes(n, v, ok)
	}
	if !in.Blocking {
		return mkRes(-1, nil, false)
	}
	sel := &selState{idx: -1}
	for n, e := range sts {
		if e.ch == nil {
			continue
		}
		w := &waiter{g: fr.g, sel: sel, idx: n, v: copyVal(e.v)}
		if e.dir == types.SendOnly {
			e.ch.sendq = append(e.ch.sendq, w)
		} else {
			e.ch.recvq = append(e.ch.recvq, w)
		}
	}
	for !sel.fired {
		fr.park()
	}
	if sel.idx == -2 {
		fr.rtPanic("send on closed channel")
	}
	return mkRes(sel.idx, sel.got, sel.ok)
}

// ---------- sync

func (fr *frame) mutex(p Value) *mutexState {
	c := fr.derefTarget(p)
	m := fr.i.sched.mutexes[c]
	if m == nil {
		m = &mutexState{}
		fr.i.sched.mutexes[c] = m
	}
	return m
}

func (fr *frame) lock(p Value) {
	m := fr.mutex(p)
	fr.yieldPoint()
	for m.locked || m.readers > 0 {
		m.waiters = append(m.waiters, fr.g)
		fr.park()
	}
	m.locked = true
}
func (fr *frame) wakeAll(m *mutexState) {
	for _, g := range m.waiters {
		fr.i.sched.ready(g)
	}
	m.waiters = nil
}
func (fr *frame) unlock(p Value) {
	m := fr.mutex(p)
	if !m.locked {
		panic(&targetPanic{v: fr.i.rtError("sync: unlock of unlocked mutex"), rt: true, site: "sync: unlock of unlocked mutex\n" + fr.stack()})
	}
	m.locked = false
	fr.wakeAll(m)
	fr.yieldPoint()
}
func (fr *frame) rlock(p Value) {
	m := fr.mutex(p)
	fr.yieldPoint()
	for m.locked {
		m.waiters = append(m.waiters, fr.g)
		fr.park()
	}
	m.readers++
}
func (fr *frame) runlock(p Value) {
	m := fr.mutex(p)
	if m.readers <= 0 {
		panic(&targetPanic{v: fr.i.rtError("sync: RUnlock of unlocked RWMutex"), rt: true, site: fr.stack()})
	}
	m.readers--
	if m.readers == 0 {
		fr.wakeAll(m)
	}
}
