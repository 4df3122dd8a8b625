package main

import (
	"os"
	"strconv"
	"strings"
)

// Integer front end: a query whose terms are 64-bit variables, constants, comparisons, if-then-else and linear sums that
// interval analysis shows not to wrap has the same models over the mathematical integers; deciding it there avoids
// bit-blasting chains of comparisons. Every range the no-wrap argument relies on is asserted along with the term, so
// the translation is an equivalence. A subterm outside the fragment is abstracted by a fresh constant: an unsatisfiable
// abstraction decides the query, a model of it counts only if, completed with the values of the last model, it
// satisfies the original terms. Everything else goes to the bit-vector engine.

type liaSt struct {
	p     *Solver // process running with an integer logic
	sent  int     // path literals asserted
	fresh bool
	rng   map[*Term]bool
}

func istr(v int64) string {
	if v == -1<<63 {
		return "(- 9223372036854775808)"
	}
	if v < 0 {
		return "(- " + strconv.FormatInt(-v, 10) + ")"
	}
	return strconv.FormatInt(v, 10)
}

func (s *Solver) liaRange(t *Term) {
	if t.isConst() || s.li.rng[t] {
		return
	}
	s.li.rng[t] = true
	lo, hi := s.ctx.rng(t, 8)
	n := s.li.p.defs[t]
	s.li.p.send("(assert (<= " + istr(lo) + " " + n + " " + istr(hi) + "))\n")
}

func (s *Solver) iref(t *Term) string {
	p := s.li.p
	if t.op == OConst {
		if t.w == 0 {
			return constStr(t.val, 0)
		}
		if t.w < 64 {
			return strconv.FormatUint(t.val, 10)
		}
		return istr(int64(t.val))
	}
	if n, ok := p.defs[t]; ok {
		return n
	}
	n := s.iref1(t)
	p.defs[t] = n
	return n
}

// iabs abstracts a Boolean or 64-bit term.
func (s *Solver) iabs(t *Term) string {
	p := s.li.p
	n := "a" + strconv.Itoa(t.id)
	if t.w == 0 {
		p.send("(declare-const " + n + " Bool)\n")
		return n
	}
	p.send("(declare-const " + n + " Int)\n")
	lo, hi := int64(0), int64(mask(t.w))
	if t.w == 64 {
		lo, hi = s.ctx.rng(t, 8)
	}
	p.send("(assert (<= " + istr(lo) + " " + n + " " + istr(hi) + "))\n")
	return n
}

func (s *Solver) iref1(t *Term) string {
	p := s.li.p
	if t.op == OVar {
		sort := "Int"
		if t.w == 0 {
			sort = "Bool"
		}
		p.send("(declare-const " + t.name + " " + sort + ")\n")
		p.varT = append(p.varT, t)
		p.defs[t] = t.name
		if t.w == 64 {
			p.send("(assert (<= " + istr(-1<<63) + " " + t.name + " " + istr(1<<63-1) + "))\n")
		} else if t.w != 0 {
			p.send("(assert (<= 0 " + t.name + " " + istr(int64(mask(t.w))) + "))\n")
		}
		return t.name
	}
	n := "t" + strconv.Itoa(t.id)
	def := func(sort, body string) string {
		p.send("(define-fun " + n + " () " + sort + " " + body + ")\n")
		return n
	}
	var op, sort string
	sort = "Bool"
	if t.w != 0 && t.w != 64 && t.op != OApp && t.op != OIte {
		return s.iabs(t)
	}
	switch t.op {
	case OApp:
		if t.w == 0 || t.w == 64 {
			return s.iabs(t)
		}
		x := s.iref(t.args[0])
		if _, ok := p.apps[t.name]; !ok {
			p.apps[t.name] = t.w
			p.send("(declare-fun " + t.name + " (Int) Int)\n")
		}
		def("Int", "("+t.name+" "+x+")")
		p.send("(assert (<= 0 " + n + " " + istr(int64(mask(t.w))) + "))\n")
		p.appT = append(p.appT, t)
		return n
	case OConcat:
		if len(t.args) == 2 && t.args[0].isConst() && t.args[0].val == 0 && t.w == 64 {
			return s.iref(t.args[1])
		}
		return s.iabs(t)
	case ONot:
		op = "not"
	case OAnd:
		op = "and"
	case OOr:
		op = "or"
	case OEq:
		op = "="
	case OSlt:
		op = "<"
	case OSle:
		op = "<="
	case OIte:
		op = "ite"
		if t.w != 0 {
			sort = "Int"
		}
	case OUlt, OUle:
		a, b := s.iref(t.args[0]), s.iref(t.args[1])
		op = "<"
		if t.op == OUle {
			op = "<="
		}
		la, _ := s.ctx.rng(t.args[0], 8)
		lb, _ := s.ctx.rng(t.args[1], 8)
		if t.args[0].w == 64 && la >= 0 {
			s.liaRange(t.args[0])
		}
		if t.args[0].w == 64 && lb >= 0 {
			s.liaRange(t.args[1])
		}
		if la >= 0 && lb >= 0 || t.args[0].w < 64 {
			return def("Bool", "("+op+" "+a+" "+b+")")
		}
		return def("Bool", "(let ((na (< "+a+" 0)) (nb (< "+b+" 0))) (or (and nb (not na)) (and (= na nb) ("+op+" "+a+" "+b+"))))")
	case OUdiv, OSdiv, OUrem, OSrem:
		lo, _ := s.ctx.rng(t.args[0], 8)
		if t.w != 64 || !t.args[1].isConst() || sx(t.args[1].val, 64) <= 0 || lo < 0 && t.op != OSdiv && t.op != OSrem {
			return s.iabs(t)
		}
		if lo < 0 {
			a, k := s.iref(t.args[0]), istr(sx(t.args[1].val, 64))
			if t.op == OSdiv {
				return def("Int", "(ite (>= "+a+" 0) (div "+a+" "+k+") (- (div (- "+a+") "+k+")))")
			}
			return def("Int", "(ite (>= "+a+" 0) (mod "+a+" "+k+") (- (mod (- "+a+") "+k+")))")
		}
		a := s.iref(t.args[0])
		s.liaRange(t.args[0])
		op = "div"
		if t.op == OUrem || t.op == OSrem {
			op = "mod"
		}
		return def("Int", "("+op+" "+a+" "+istr(sx(t.args[1].val, 64))+")")
	case OLin:
		if _, _, ok := s.ctx.linRange(t, 8); !ok {
			return s.iabs(t)
		}
		// partial sums are irrelevant over the integers: only the final value must not wrap
		parts := []string{}
		for i, a := range t.args {
			x := s.iref(a)
			if k := sx(t.coefs[i], 64); k == 1 {
				parts = append(parts, x)
			} else {
				parts = append(parts, "(* "+istr(k)+" "+x+")")
			}
		}
		for _, a := range t.args {
			s.liaRange(a)
		}
		if t.val != 0 {
			parts = append(parts, istr(sx(t.val, 64)))
		}
		body := parts[0]
		if len(parts) > 1 {
			body = "(+ " + strings.Join(parts, " ") + ")"
		}
		return def("Int", body)
	default:
		return s.iabs(t)
	}
	if (t.op == OSlt || t.op == OSle) && t.args[0].w != 64 {
		return s.iabs(t)
	}
	var sb strings.Builder
	sb.WriteString("(" + op)
	for _, a := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(s.iref(a))
	}
	sb.WriteByte(')')
	return def(sort, sb.String())
}

// liaCheck decides the query over the integers; ok is false when it is outside the fragment or undecided.
func (s *Solver) liaCheck(extra *Term, wantModel bool) (r Res, m *Model, ok bool) {
	if s.li == nil {
		s.li = &liaSt{p: &Solver{bin: s.bin, ctx: s.ctx, timeout: 10000, logic: "QF_UFLIA"}, fresh: true}
		if f := os.Getenv("GOSYM_LIALOG"); f != "" {
			s.li.p.log, _ = os.Create(f)
		}
		s.li.p.start()
	}
	l := s.li
	if l.fresh {
		l.p.NewPath()
		l.rng = map[*Term]bool{}
		l.sent = 0
		l.fresh = false
	}
	for l.sent < len(s.path) {
		l.p.send("(assert " + s.iref(s.path[l.sent]) + ")\n")
		l.sent++
	}
	e := "true"
	if extra != nil {
		e = s.iref(extra)
	}
	r, m, err := l.p.ask(e, true)
	if err != nil {
		l.p.Close()
		s.li = nil
		return 0, nil, false
	}
	if r == Unknown || r == Sat && m == nil {
		return 0, nil, false
	}
	if m != nil {
		if s.last != nil {
			for k, v := range s.last.vals {
				if _, ok := m.vals[k]; !ok {
					m.vals[k] = v
				}
			}
			if len(m.apps) == 0 {
				m.apps = s.last.apps
			}
		}
		for _, t := range s.path {
			if m.eval(t) != 1 {
				return 0, nil, false
			}
		}
		if extra != nil && m.eval(extra) != 1 {
			return 0, nil, false
		}
		s.last = m
	}
	s.nLia++
	return r, m, true
}
