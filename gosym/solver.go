package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Result of a satisfiability query.
type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

// Solver drives one long-lived SMT process.
type Solver struct {
	bin     string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inC     io.WriteCloser
	out     *bufio.Reader
	gen     int
	ctx     *Ctx
	path    []*Term // literals asserted on the current path
	decl    map[string]uint8
	apps    map[string]uint8
	appT    []*Term // application terms defined on the path
	varT    []*Term
	defs    map[*Term]string
	timeout int // ms

	nQueries, nSat, nUnsat, nUnknown int
	dur                              time.Duration
	maxQ                             time.Duration
	log                              io.Writer

	logic string
	li    *liaSt
	nLia  int
	last  *Model // last model on this path
}

func NewSolver(ctx *Ctx, bin string, timeoutMs int) *Solver {
	s := &Solver{bin: bin, ctx: ctx, timeout: timeoutMs}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inC = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.send(fmt.Sprintf("(set-option :timeout %d)\n(set-option :print-success false)\n(set-logic %s)\n(push 1)\n", s.timeout, s.logicName()))
	s.resetDefs()
}

func (s *Solver) logicName() string {
	if s.logic == "" {
		return "QF_UFBV"
	}
	return s.logic
}

func (s *Solver) resetDefs() {
	s.decl = map[string]uint8{}
	s.apps = map[string]uint8{}
	s.appT = nil
	s.varT = nil
	s.defs = map[*Term]string{}
	s.path = nil
}

func (s *Solver) Close() {
	if s.li != nil {
		s.li.p.Close()
		s.li = nil
	}
	if s.cmd != nil {
		s.inC.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(x string) {
	if s.log != nil {
		io.WriteString(s.log, x)
	}
	s.in.WriteString(x)
}

// NewPath drops everything asserted so far.
func (s *Solver) NewPath() {
	if s.li != nil {
		s.li.fresh = true
	}
	s.last = nil
	s.send("(pop 1)\n(push 1)\n")
	s.resetDefs()
}

func (s *Solver) ref(t *Term) string {
	if t.op == OConst {
		return constStr(t.val, t.w)
	}
	if n, ok := s.defs[t]; ok {
		return n
	}
	if t.op == OVar {
		if _, ok := s.decl[t.name]; !ok {
			s.decl[t.name] = t.w
			s.varT = append(s.varT, t)
			s.send("(declare-const " + t.name + " " + sortName(t.w) + ")\n")
		}
		s.defs[t] = t.name
		return t.name
	}
	if t.op == OApp {
		if _, ok := s.apps[t.name]; !ok {
			s.apps[t.name] = t.w
			s.send("(declare-fun " + t.name + " ((_ BitVec 64)) " + sortName(t.w) + ")\n")
		}
	}
	// iterative-ish definition (depth of the dags is moderate)
	body := t.smt(s.ref)
	n := "t" + strconv.Itoa(t.id)
	s.send("(define-fun " + n + " () " + sortName(t.w) + " " + body + ")\n")
	s.defs[t] = n
	if t.op == OApp {
		s.appT = append(s.appT, t)
	}
	return n
}

// Assert adds a literal to the path.
func (s *Solver) Assert(t *Term) {
	if t.isTrue() {
		return
	}
	r := s.ref(t)
	s.send("(assert " + r + ")\n")
	s.path = append(s.path, t)
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// Check decides path && extra. On Sat it returns a model.
func (s *Solver) Check(extra *Term, wantModel bool) (Res, *Model) {
	start := time.Now()
	r, m := s.check(extra, wantModel)
	d := time.Since(start)
	s.dur += d
	if d > s.maxQ {
		s.maxQ = d
	}
	s.nQueries++
	switch r {
	case Sat:
		s.nSat++
	case Unsat:
		s.nUnsat++
	default:
		s.nUnknown++
	}
	return r, m
}

func (s *Solver) check(extra *Term, wantModel bool) (Res, *Model) {
	if r, m, ok := s.liaCheck(extra, wantModel); ok {
		return r, m
	}
	r, m := s.bvCheck(extra, wantModel)
	if m != nil {
		s.last = m
	}
	return r, m
}

func (s *Solver) bvCheck(extra *Term, wantModel bool) (Res, *Model) {
	e := "true"
	if extra != nil {
		e = s.ref(extra)
	}
	r, m, err := s.ask(e, wantModel)
	if err != nil {
		s.restart()
		return s.fallback(extra, wantModel)
	}
	if r == Unknown {
		return s.fallback(extra, wantModel)
	}
	return r, m
}

// ask checks the assertions so far together with e.
func (s *Solver) ask(e string, wantModel bool) (Res, *Model, error) {
	s.send("(push 1)\n(assert " + e + ")\n(check-sat)\n")
	s.in.Flush()
	done := make(chan struct{})
	timer := time.AfterFunc(time.Duration(s.timeout)*time.Millisecond+5*time.Second, func() {
		select {
		case <-done:
		default:
			s.cmd.Process.Kill()
		}
	})
	ln, err := s.readLine()
	close(done)
	timer.Stop()
	if err != nil {
		return Unknown, nil, err
	}
	switch {
	case ln == "sat":
		var m *Model
		if wantModel {
			m = s.getModel()
			if m == nil {
				return Unknown, nil, fmt.Errorf("no model")
			}
		}
		s.send("(pop 1)\n")
		return Sat, m, nil
	case ln == "unsat":
		s.send("(pop 1)\n")
		return Unsat, nil, nil
	case strings.HasPrefix(ln, "(error"):
		fmt.Fprintln(os.Stderr, "solver:", ln)
		return Unknown, nil, fmt.Errorf("%s", ln)
	}
	s.send("(pop 1)\n")
	return Unknown, nil, nil
}

// fallback decides the query from scratch with the non-incremental engine of a second solver.
func (s *Solver) fallback(extra *Term, wantModel bool) (Res, *Model) {
	f := &Solver{bin: fallbackBin, ctx: s.ctx, timeout: fallbackMs}
	f.start()
	defer f.Close()
	for _, t := range s.path {
		f.Assert(t)
	}
	if extra != nil {
		f.Assert(extra)
	}
	// nothing but top-level assertions: use the tactic based solver
	f.send("(check-sat-using (then simplify propagate-values solve-eqs ackermannize_bv simplify bit-blast sat))\n")
	f.in.Flush()
	kill := time.AfterFunc(time.Duration(fallbackMs)*time.Millisecond+5*time.Second, func() { f.cmd.Process.Kill() })
	defer kill.Stop()
	ln, err := f.readLine()
	if err != nil {
		return Unknown, nil
	}
	if ln == "unsat" {
		return Unsat, nil
	}
	if ln == "sat" {
		if !wantModel {
			return Sat, nil
		}
		// model extraction through the tactic is unreliable with functions: re-check with values
		m := f.getModel()
		if m == nil {
			return Unknown, nil
		}
		for _, t := range s.path {
			if m.eval(t) != 1 {
				return Unknown, nil
			}
		}
		if extra != nil && m.eval(extra) != 1 {
			return Unknown, nil
		}
		return Sat, m
	}
	return Unknown, nil
}

var fallbackBin = "z3-new"
var fallbackMs = 60000

func (s *Solver) restart() {
	path := s.path
	s.inC.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.start()
	for _, t := range path {
		s.Assert(t)
	}
}

// getModel reads values of all variables and applications defined so far.
func (s *Solver) getModel() *Model {
	m := NewModel()
	var names []string
	for _, v := range s.varT {
		names = append(names, v.name)
	}
	type av struct {
		t   *Term
		idx int
	}
	var apps []av
	for _, a := range s.appT {
		names = append(names, s.defs[a])
		i := -1
		if !a.args[0].isConst() {
			names = append(names, s.defs[a.args[0]])
			i = len(names) - 1
		}
		apps = append(apps, av{a, i})
	}
	if len(names) == 0 {
		return m
	}
	s.send("(get-value (" + strings.Join(names, " ") + "))\n")
	s.in.Flush()
	vals, ok := s.readValues(len(names))
	if !ok {
		return nil
	}
	k := 0
	for _, v := range s.varT {
		m.vals[v.name] = vals[k]
		k++
	}
	for _, a := range apps {
		v := vals[k]
		k++
		idx := a.t.args[0].val
		if a.idx >= 0 {
			idx = vals[k]
			k++
		}
		t := m.apps[a.t.name]
		if t == nil {
			t = map[uint64]uint64{}
			m.apps[a.t.name] = t
		}
		t[idx] = v
	}
	return m
}

func (s *Solver) readValues(n int) ([]uint64, bool) {
	// response: ((name val) (name val) ...), a negative integer being (- k)
	depth := 0
	var toks []string
	var cur []byte
	flush := func() {
		if len(cur) > 0 {
			toks = append(toks, string(cur))
			cur = cur[:0]
		}
	}
	started := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return nil, false
		}
		switch b {
		case '(':
			depth++
			started = true
			flush()
		case ')':
			depth--
			flush()
		case ' ', '\n', '\r', '\t':
			flush()
		default:
			cur = append(cur, b)
		}
		if started && depth == 0 {
			break
		}
	}
	// swallow the rest of the line
	if b, err := s.out.Peek(1); err == nil && b[0] == '\n' {
		s.out.ReadByte()
	}
	if len(toks) > 0 && toks[0] == "error" {
		fmt.Fprintln(os.Stderr, "solver get-value:", strings.Join(toks, " "))
		return nil, false
	}
	k := 0
	tok := func() string {
		if k < len(toks) {
			k++
			return toks[k-1]
		}
		return ""
	}
	out := make([]uint64, n)
	for i := 0; i < n; i++ {
		tok()
		v := tok()
		neg := v == "-"
		if neg {
			v = tok()
		}
		var u uint64
		var err error
		switch {
		case v == "true":
			u = 1
		case v == "false":
		case strings.HasPrefix(v, "#x"):
			u, err = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			u, err = strconv.ParseUint(v[2:], 2, 64)
		default:
			u, err = strconv.ParseUint(v, 10, 64)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "solver get-value: unexpected", v)
			return nil, false
		}
		if neg {
			u = -u
		}
		out[i] = u
	}
	return out, k == len(toks)
}
