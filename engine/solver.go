package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"time"
)

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

func (r Res) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type SolverStats struct {
	Queries, SatN, UnsatN, UnknownN, Fallback int64
	Time                                      time.Duration
	MaxTime                                   time.Duration
}

type Solver struct {
	bin     string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inc     io.WriteCloser
	out     *bufio.Reader
	defined map[*Term]bool
	vars    []*Term
	ctx     *TermCtx
	log     bytes.Buffer // transcript of current path (declarations + asserts)
	stats   *SolverStats
	qtimeMs int
	started bool
}

func NewSolver(bin string, qtimeMs int, st *SolverStats) *Solver {
	return &Solver{bin: bin, stats: st, qtimeMs: qtimeMs}
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	w, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inc = w
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	s.started = true
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :timeout %d)\n", s.qtimeMs)
	return nil
}

func (s *Solver) Close() {
	if s.started {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.started = false
	}
}

// Begin starts a new path.
func (s *Solver) Begin(ctx *TermCtx) {
	if !s.started {
		if err := s.start(); err != nil {
			panic(err)
		}
	}
	s.ctx = ctx
	s.defined = map[*Term]bool{}
	s.vars = s.vars[:0]
	s.log.Reset()
	s.in.WriteString("(push 1)\n")
}

func (s *Solver) End() {
	if s.started {
		s.in.WriteString("(pop 1)\n")
	}
}

func (s *Solver) emit(str string) {
	s.in.WriteString(str)
	s.log.WriteString(str)
}

func (s *Solver) define(t *Term) {
	if t.op == OConst || s.defined[t] {
		return
	}
	// iterative DFS to avoid deep recursion trouble
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if s.defined[f.t] {
			st = st[:len(st)-1]
			continue
		}
		if f.i < len(f.t.args) {
			a := f.t.args[f.i]
			f.i++
			if a.op != OConst && !s.defined[a] {
				st = append(st, fr{a, 0})
			}
			continue
		}
		x := f.t
		s.defined[x] = true
		if x.op == OVar {
			s.vars = append(s.vars, x)
			s.emit(fmt.Sprintf("(declare-const %s %s)\n", x.ref(), sortSMT(int(x.w))))
		} else {
			s.emit(fmt.Sprintf("(define-fun %s () %s %s)\n", x.ref(), sortSMT(int(x.w)), x.body()))
		}
		st = st[:len(st)-1]
	}
}

func (s *Solver) Assert(t *Term) {
	if t == tTrue {
		return
	}
	s.define(t)
	s.emit("(assert " + t.ref() + ")\n")
}

// Check decides satisfiability of the current path condition together with the extra terms.
func (s *Solver) Check(extra ...*Term) (Res, *Model) {
	for _, e := range extra {
		if e == tFalse {
			return Unsat, nil
		}
		s.define(e)
	}
	t0 := time.Now()
	s.in.WriteString("(push 1)\n")
	for _, e := range extra {
		if e != tTrue {
			s.in.WriteString("(assert " + e.ref() + ")\n")
		}
	}
	s.in.WriteString("(check-sat)\n")
	s.in.Flush()
	line := s.readLine()
	res := Unknown
	var md *Model
	switch line {
	case "sat":
		res = Sat
		md = s.getModel()
	case "unsat":
		res = Unsat
	default:
		if strings.HasPrefix(line, "(error") {
			panic(engineErr{"solver error: " + line})
		}
	}
	s.in.WriteString("(pop 1)\n")
	if res == Unknown {
		res, md = s.fallback(extra)
	}
	d := time.Since(t0)
	s.stats.Time += d
	if dumpDir != "" && d > 400*time.Millisecond {
		var q strings.Builder
		q.Write(s.log.Bytes())
		for _, e := range extra {
			q.WriteString("(assert " + e.ref() + ")\n")
		}
		q.WriteString("(check-sat)\n")
		os.WriteFile(fmt.Sprintf("%s/q%d_%s_%dms.smt2", dumpDir, time.Now().UnixNano(), res, d.Milliseconds()), []byte(q.String()), 0644)
	}
	if d > s.stats.MaxTime {
		s.stats.MaxTime = d
	}
	s.stats.Queries++
	switch res {
	case Sat:
		s.stats.SatN++
	case Unsat:
		s.stats.UnsatN++
	default:
		s.stats.UnknownN++
	}
	return res, md
}

var dumpDir = os.Getenv("VERIF_DUMP")

type engineErr struct{ msg string }

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.started = false
			panic(engineErr{"solver died: " + err.Error()})
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l
		}
	}
}

func (s *Solver) getModel() *Model {
	md := &Model{m: make(map[int32]*Term, len(s.vars))}
	if len(s.vars) == 0 {
		return md
	}
	s.in.WriteString("(get-value (")
	for _, v := range s.vars {
		s.in.WriteString(v.ref())
		s.in.WriteByte(' ')
	}
	s.in.WriteString("))\n")
	s.in.Flush()
	txt := s.readSexp()
	parseModel(txt, s.vars, md)
	return md
}

func parseModel(txt string, vars []*Term, md *Model) {
	byName := make(map[string]*Term, len(vars))
	for _, v := range vars {
		byName[v.ref()] = v
	}
	toks := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\r' || r == '\t' })
	for i := 0; i+1 < len(toks); i++ {
		v, ok := byName[toks[i]]
		if !ok {
			continue
		}
		x := toks[i+1]
		switch {
		case x == "true":
			md.m[v.lo] = tTrue
		case x == "false":
			md.m[v.lo] = tFalse
		case strings.HasPrefix(x, "#x"):
			b, _ := new(big.Int).SetString(x[2:], 16)
			md.m[v.lo] = mkBig(b, int(v.w))
		case strings.HasPrefix(x, "#b"):
			b, _ := new(big.Int).SetString(x[2:], 2)
			md.m[v.lo] = mkBig(b, int(v.w))
		default:
			panic(engineErr{"bad model value " + x})
		}
		i++
	}
}

func (s *Solver) readSexp() string {
	var sb strings.Builder
	depth := 0
	started := false
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.started = false
			panic(engineErr{"solver died: " + err.Error()})
		}
		sb.WriteString(l)
		for i := 0; i < len(l); i++ {
			if l[i] == '(' {
				depth++
				started = true
			} else if l[i] == ')' {
				depth--
			}
		}
		if started && depth <= 0 {
			break
		}
	}
	r := sb.String()
	if strings.HasPrefix(strings.TrimSpace(r), "(error") {
		panic(engineErr{"solver error: " + r})
	}
	return r
}

// fallback runs the query as a fresh non-incremental problem on other back ends.
func (s *Solver) fallback(extra []*Term) (Res, *Model) {
	s.stats.Fallback++
	var q strings.Builder
	q.WriteString("(set-logic QF_BV)\n(set-option :produce-models true)\n")
	q.Write(s.log.Bytes())
	for _, e := range extra {
		if e != tTrue {
			q.WriteString("(assert " + e.ref() + ")\n")
		}
	}
	q.WriteString("(check-sat)\n")
	if len(s.vars) > 0 {
		q.WriteString("(get-value (")
		for _, v := range s.vars {
			q.WriteString(v.ref() + " ")
		}
		q.WriteString("))\n")
	}
	for _, cmd := range [][]string{{"cvc5", "--lang=smt2", "--tlimit=60000", "-"}, {"z3-new", "-in", "-smt2", "-T:60"}} {
		cx, cancel := context.WithTimeout(context.Background(), 65*time.Second)
		c := exec.CommandContext(cx, cmd[0], cmd[1:]...)
		c.Stdin = strings.NewReader(q.String())
		out, _ := c.Output()
		cancel()
		txt := string(out)
		if strings.HasPrefix(txt, "unsat") {
			return Unsat, nil
		}
		if strings.HasPrefix(txt, "sat") {
			md := &Model{m: map[int32]*Term{}}
			if i := strings.Index(txt, "\n"); i >= 0 {
				parseModel(txt[i:], s.vars, md)
			}
			return Sat, md
		}
	}
	return Unknown, nil
}
