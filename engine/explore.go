package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type dec struct {
	kind   byte // b branch, c choice, k concretise, a assume, A assert
	v      uint64
	take   bool
	forced bool
}

type workItem struct {
	trace []dec
	model *Model
}

type inputRec struct {
	Name string
	Kind string
	W    int
	T    []*Term
	I    int // for choices: concrete
}

type hashRec struct {
	kind string
	in   []*Term
	out  *Term // one wide var (or const)
	real func([]byte) []byte
}

type Interp struct {
	P        *Program
	w        *Worker
	tc       *TermCtx
	sol      *Solver
	steps    int64
	maxSteps int64
	globals  map[*ssa.Global]*Value
	inited   map[*ssa.Package]bool
	trace    []dec
	pos      int
	model    *Model
	names    map[string]int
	inputs   []inputRec
	hashes   []*hashRec
	noHashAx bool
	sched    *Sched
	reached  map[string]bool
	shared   bool // running shared (library) initialisers
	lib      *libState
	permMaps bool
	lenCap   int
	bound    map[string]string
	nodeadlk bool
	ufs      map[string][]*ufRec
}

type Worker struct {
	id     int
	P      *Program
	sol    *Solver
	st     SolverStats
	cover  map[string]bool
	coverN map[string]int64
	coverX map[string]bool
	lib    *libState
	steps  int64
}

// libState holds the globals of packages outside the repository; they are
// initialised once per worker.
type libState struct {
	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]bool
}

type Violation struct {
	Harness string                   `json:"harness"`
	Kind    string                   `json:"kind"`
	Msg     string                   `json:"msg"`
	Site    string                   `json:"site"`
	Inputs  []map[string]interface{} `json:"inputs"`
	Trace   int                      `json:"decisions"`
	Steps   int64                    `json:"steps"`
	Threads int                      `json:"goroutines"`
	Sched   []string                 `json:"schedule,omitempty"` // goroutines set back, and where
}

type PathStats struct {
	Paths, Completed, Assumed, Violating, Unsupported, Budget int64
}

type Explorer struct {
	P        *Program
	entry    *ssa.Function
	name     string
	mu       sync.Mutex
	cond     *sync.Cond
	stack    []workItem
	active   int
	stop     bool
	viols    []*Violation
	violKey  map[string]int
	ps       PathStats
	unsup    map[string]int64
	reached  map[string]int64
	deadline time.Time
	timedOut bool
	asserts  int64
	folded   int64
	maxSteps int64
	maxViol  int
	maxPaths int64
	budgets  map[string]int64
	assertsU int64
	maxTrace int
	bounds   map[string]string
	verbose  bool
	maxSt    int64
	samples  []*Sample
	nsample  int
	sampleN  int64
	qtime    time.Duration
}

// Sample is a completed path's concrete witness, replayed against the real build.
type Sample struct {
	Harness string                   `json:"harness"`
	Inputs  []map[string]interface{} `json:"inputs"`
	Reached []string                 `json:"reached"`
}

// ---------- decisions

func (i *Interp) replaying() bool { return i.pos < len(i.trace) }

func (i *Interp) assertPC(t *Term) {
	if t == tTrue {
		return
	}
	i.learn(t, true)
	i.sol.Assert(t)
}

func (i *Interp) learn(t *Term, v bool) {
	if v && t.op == OAnd || !v && t.op == OOr {
		for _, a := range t.args {
			i.learn(a, v)
		}
	}
	if t.op == ONot {
		i.learn(t.args[0], !v)
		return
	}
	if t.op != OConst {
		i.tc.facts[t] = v
	}
}

func (i *Interp) known(t *Term) (bool, bool) {
	if t.op == OConst {
		return t.val != 0, true
	}
	if t.op == ONot {
		v, ok := i.known(t.args[0])
		return !v, ok
	}
	if v, ok := i.tc.facts[t]; ok {
		return v, ok
	}
	return false, false
}

func (i *Interp) needModel() {
	if i.model == nil {
		r, md := i.sol.Check()
		if r == Unsat {
			panic(pathEnd{kind: "assume", msg: "infeasible"})
		}
		if r == Unknown {
			panic(pathEnd{kind: "unsupported", msg: "solver unknown on path condition"})
		}
		i.model = md
	}
}

func (i *Interp) pushAlt(d dec, md *Model) {
	if i.shared {
		return
	}
	t := make([]dec, i.pos+1)
	copy(t, i.trace[:i.pos])
	t[i.pos] = d
	i.w.ex().push(workItem{t, md})
}

func (i *Interp) record(d dec) {
	i.trace = append(i.trace[:i.pos], d)
	i.pos++
}

func (i *Interp) branch(c *Term) bool {
	if v, ok := i.known(c); ok {
		return v
	}
	if i.shared {
		panic(engineErr{"symbolic branch in shared init"})
	}
	if i.replaying() {
		d := i.trace[i.pos]
		i.pos++
		if d.kind != 'b' {
			panic(engineErr{"nondeterministic replay (branch vs " + string(d.kind) + ")"})
		}
		t := c
		if !d.take {
			t = i.tc.Not(c)
		}
		if d.forced {
			i.learn(t, true)
		} else {
			i.assertPC(t)
		}
		return d.take
	}
	i.needModel()
	v := i.tc.Eval(c, i.model).val != 0
	mine, other := c, i.tc.Not(c)
	if !v {
		mine, other = other, mine
	}
	r, md := i.sol.Check(other)
	if r == Unsat {
		i.learn(mine, true)
		i.record(dec{kind: 'b', take: v, forced: true})
		return v
	}
	// both sides feasible (or unknown: explored, never counted as proved)
	i.pushAlt(dec{kind: 'b', take: !v}, md)
	i.assertPC(mine)
	i.record(dec{kind: 'b', take: v})
	return v
}

func (i *Interp) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if i.replaying() {
		d := i.trace[i.pos]
		i.pos++
		if d.kind != 'c' {
			panic(engineErr{"nondeterministic replay (choice)"})
		}
		return int(d.v)
	}
	for k := n - 1; k >= 1; k-- {
		i.pushAlt(dec{kind: 'c', v: uint64(k)}, i.model)
	}
	i.record(dec{kind: 'c', v: 0})
	return 0
}

func (i *Interp) concretize(t *Term, limit int) uint64 {
	if t.op == OConst {
		return t.val
	}
	if t.w > 64 {
		unsupported("concretize wide term")
	}
	for k := 0; ; k++ {
		if i.replaying() {
			d := i.trace[i.pos]
			i.pos++
			if d.kind != 'k' {
				panic(engineErr{"nondeterministic replay (concretize)"})
			}
			e := i.tc.Eq(t, mkC(d.v, int(t.w)))
			if d.take {
				if d.forced {
					i.learn(e, true)
				} else {
					i.assertPC(e)
				}
				return d.v
			}
			i.assertPC(i.tc.Not(e))
			continue
		}
		if k >= limit {
			panic(pathEnd{kind: "budget", msg: fmt.Sprintf("more than %d values for a concretised term", limit)})
		}
		i.needModel()
		v := i.tc.Eval(t, i.model).val
		e := i.tc.Eq(t, mkC(v, int(t.w)))
		ne := i.tc.Not(e)
		if kv, ok := i.known(e); ok && kv {
			i.record(dec{kind: 'k', v: v, take: true, forced: true})
			return v
		}
		r, md := i.sol.Check(ne)
		if r == Unsat {
			i.learn(e, true)
			i.record(dec{kind: 'k', v: v, take: true, forced: true})
			return v
		}
		i.pushAlt(dec{kind: 'k', v: v, take: false}, md)
		i.assertPC(e)
		i.record(dec{kind: 'k', v: v, take: true})
		return v
	}
}

func (i *Interp) assume(c *Term) {
	if v, ok := i.known(c); ok {
		if !v {
			panic(pathEnd{kind: "assume"})
		}
		return
	}
	if i.replaying() {
		d := i.trace[i.pos]
		i.pos++
		if d.kind != 'a' {
			panic(engineErr{"nondeterministic replay (assume)"})
		}
		i.assertPC(c)
		return
	}
	if i.model != nil && i.tc.Eval(c, i.model).val != 0 {
		i.assertPC(c)
		i.record(dec{kind: 'a'})
		return
	}
	r, md := i.sol.Check(c)
	if r == Unsat {
		panic(pathEnd{kind: "assume"})
	}
	i.assertPC(c)
	i.model = md
	i.record(dec{kind: 'a'})
}

// assertT is the property check: it asks the solver for a counterexample.
func (i *Interp) assertT(fr *frame, c *Term, msg string) {
	ex := i.w.ex()
	atomic.AddInt64(&ex.asserts, 1)
	if v, ok := i.known(c); ok {
		atomic.AddInt64(&ex.folded, 1)
		if v {
			return
		}
		i.needModelForViolation()
		panic(pathEnd{kind: "violation", msg: msg, site: fr.stack()})
	}
	if i.replaying() {
		d := i.trace[i.pos]
		i.pos++
		if d.kind != 'A' {
			panic(engineErr{"nondeterministic replay (assert)"})
		}
		i.learn(c, true)
		return
	}
	r, md := i.sol.Check(i.tc.Not(c))
	switch r {
	case Unsat:
		i.learn(c, true)
		i.record(dec{kind: 'A'})
	case Sat:
		i.assertPC(i.tc.Not(c))
		i.model = md
		panic(pathEnd{kind: "violation", msg: msg, site: fr.stack()})
	default:
		atomic.AddInt64(&ex.assertsU, 1)
		i.record(dec{kind: 'A'})
	}
}

func (i *Interp) needModelForViolation() {
	if i.model == nil {
		r, md := i.sol.Check()
		if r != Sat {
			panic(pathEnd{kind: "assume", msg: "infeasible at violation"})
		}
		i.model = md
	}
}

// pinHashes makes the model agree with the real hash functions.
func (i *Interp) pinHashes() bool {
	for _, h := range i.hashes {
		if h.out.op == OConst {
			continue
		}
		var eqs []*Term
		in := make([]byte, len(h.in))
		for k, t := range h.in {
			v := i.tc.Eval(t, i.model)
			in[k] = byte(v.val)
			eqs = append(eqs, i.tc.Eq(t, v))
		}
		d := h.real(in)
		var ds []*Term
		for _, b := range d {
			ds = append(ds, mkC(uint64(b), 8))
		}
		eqs = append(eqs, i.tc.Eq(h.out, i.tc.Concat(ds...)))
		e := i.tc.And(eqs...)
		r, md := i.sol.Check(e)
		if r != Sat {
			return false
		}
		i.assertPC(e)
		i.model = md
	}
	return true
}

// ---------- running

var curExplorer atomic.Pointer[Explorer]

func (w *Worker) ex() *Explorer { return curExplorer.Load() }

func (e *Explorer) push(it workItem) {
	e.mu.Lock()
	e.stack = append(e.stack, it)
	e.cond.Signal()
	e.mu.Unlock()
}

func (e *Explorer) pop() (workItem, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop {
			return workItem{}, false
		}
		if time.Now().After(e.deadline) {
			if len(e.stack) > 0 || e.active > 0 {
				e.timedOut = true
			}
			e.stop = true
			e.cond.Broadcast()
			return workItem{}, false
		}
		if n := len(e.stack); n > 0 {
			it := e.stack[n-1]
			e.stack = e.stack[:n-1]
			e.active++
			return it, true
		}
		if e.active == 0 {
			e.cond.Broadcast()
			return workItem{}, false
		}
		e.cond.Wait()
	}
}

func (e *Explorer) done() {
	e.mu.Lock()
	e.active--
	e.cond.Broadcast()
	e.mu.Unlock()
}

func (e *Explorer) Run(ws []*Worker) {
	e.cond = sync.NewCond(&e.mu)
	e.violKey = map[string]int{}
	e.unsup = map[string]int64{}
	e.budgets = map[string]int64{}
	e.reached = map[string]int64{}
	e.bounds = map[string]string{}
	curExplorer.Store(e)
	e.stack = []workItem{{model: &Model{}}}
	tick := time.NewTicker(time.Second)
	go func() {
		for range tick.C {
			e.mu.Lock()
			e.cond.Broadcast()
			e.mu.Unlock()
		}
	}()
	var wg sync.WaitGroup
	for _, w := range ws {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			for {
				it, ok := e.pop()
				if !ok {
					return
				}
				e.runPath(w, it)
				e.done()
			}
		}(w)
	}
	wg.Wait()
	tick.Stop()
}

func (e *Explorer) runPath(w *Worker, it workItem) {
	i := &Interp{P: e.P, w: w, tc: newTermCtx(), sol: w.sol, maxSteps: e.maxSteps,
		globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]bool{},
		trace: it.trace, model: it.model, names: map[string]int{}, reached: map[string]bool{}, lib: w.lib, bound: map[string]string{}, ufs: map[string][]*ufRec{}}
	i.sol.Begin(i.tc)
	i.sched = newSched(i)
	out := i.sched.runMain(e.entry)
	if out.kind == "violation" || out.kind == "panic" || out.kind == "deadlock" || out.kind == "hugealloc" || (out.kind == "budget" && strings.HasPrefix(out.msg, "step limit")) {
		e.violation(i, out)
	}
	if out.kind == "done" {
		e.sample(i)
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				w.sol.Close()
			}
		}()
		i.sol.End()
	}()
	w.steps += i.steps
	e.mu.Lock()
	defer e.mu.Unlock()
	e.ps.Paths++
	if i.steps > e.maxSt {
		e.maxSt = i.steps
	}
	if len(i.trace) > e.maxTrace {
		e.maxTrace = len(i.trace)
	}
	for k, v := range i.bound {
		e.bounds[k] = v
	}
	switch out.kind {
	case "done":
		e.ps.Completed++
		for k := range i.reached {
			e.reached[k]++
		}
	case "assume":
		e.ps.Assumed++
	case "unsupported", "engine":
		e.ps.Unsupported++
		e.unsup[out.msg]++
		if e.verbose && e.unsup[out.msg] == 1 {
			fmt.Fprintf(os.Stderr, "[%s] %s\n%s\n", out.kind, out.msg, out.site)
		}
	case "budget":
		e.ps.Budget++
		e.budgets[out.msg]++
	case "violation", "panic", "deadlock", "hugealloc":
		e.ps.Violating++
	}
	if e.maxPaths > 0 && e.ps.Paths >= e.maxPaths && !e.stop {
		e.stop = true
		e.timedOut = true
		e.cond.Broadcast()
	}
}

func (e *Explorer) violation(i *Interp, out pathEnd) {
	defer func() {
		if r := recover(); r != nil {
			if e.verbose {
				fmt.Fprintf(os.Stderr, "violation extraction failed: %v\n", r)
				debug.PrintStack()
			}
		}
	}()
	i.needModelForViolation()
	msg := out.msg
	key := out.kind + "|" + msg
	if out.kind != "violation" {
		s := out.site
		if k := strings.IndexByte(s, '\n'); k > 0 {
			s = s[:k]
		}
		key += "|" + s
	}
	e.mu.Lock()
	n := e.violKey[key]
	e.violKey[key]++
	e.mu.Unlock()
	if n >= 3 {
		return
	}
	pinned := i.pinHashes()
	v := &Violation{Harness: e.name, Kind: out.kind, Msg: msg, Site: out.site, Trace: len(i.trace), Steps: i.steps, Threads: len(i.sched.all), Sched: i.sched.devs}
	if !pinned {
		v.Msg += " [hash model not realisable]"
	}
	v.Inputs = i.inputVals()
	e.mu.Lock()
	e.viols = append(e.viols, v)
	if e.maxViol > 0 && len(e.viols) >= e.maxViol {
		e.stop = true
		e.cond.Broadcast()
	}
	e.mu.Unlock()
}

// sample keeps the 1st, 2nd, 4th, 8th... completed path as a witness.
func (e *Explorer) sample(i *Interp) {
	n := atomic.AddInt64(&e.sampleN, 1)
	if e.nsample == 0 || n&(n-1) != 0 {
		return
	}
	defer func() { recover() }()
	i.needModelForViolation()
	if !i.pinHashes() {
		return
	}
	s := &Sample{Harness: e.name, Inputs: i.inputVals(), Reached: sortedKeys(i.reached)}
	e.mu.Lock()
	if len(e.samples) < e.nsample {
		e.samples = append(e.samples, s)
	} else {
		e.samples[int(n)%e.nsample] = s
	}
	e.mu.Unlock()
}

func (i *Interp) inputVals() []map[string]interface{} {
	var out []map[string]interface{}
	for _, in := range i.inputs {
		m := map[string]interface{}{"name": in.Name, "kind": in.Kind}
		switch in.Kind {
		case "choice":
			m["v"] = in.I
		case "bytes":
			hx := make([]byte, len(in.T))
			for k, t := range in.T {
				hx[k] = byte(i.tc.Eval(t, i.model).val)
			}
			m["v"] = fmt.Sprintf("%x", hx)
		default:
			m["v"] = i.tc.Eval(in.T[0], i.model).bigVal().String()
		}
		out = append(out, m)
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
