package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- program level shared data ----

type fnInfo struct {
	idx   map[ssa.Value]int
	n     int
	lines map[int]bool
}

type Prog struct {
	prog     *ssa.Program
	fset     *token.FileSet
	infos    sync.Map // *ssa.Function -> *fnInfo
	replace  map[string]*ssa.Function
	initSkip map[string]bool
	oneStep  map[string]bool
	buildMu  sync.Mutex
	repoMod  string
}

func (p *Prog) info(fn *ssa.Function) *fnInfo {
	if v, ok := p.infos.Load(fn); ok {
		return v.(*fnInfo)
	}
	p.buildMu.Lock()
	defer p.buildMu.Unlock()
	if v, ok := p.infos.Load(fn); ok {
		return v.(*fnInfo)
	}
	if fn.Pkg != nil {
		fn.Pkg.Build()
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		o.Pkg.Build()
	}
	fi := &fnInfo{idx: map[ssa.Value]int{}}
	add := func(v ssa.Value) { fi.idx[v] = fi.n; fi.n++ }
	for _, x := range fn.Params {
		add(x)
	}
	for _, x := range fn.FreeVars {
		add(x)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	v, _ := p.infos.LoadOrStore(fn, fi)
	return v.(*fnInfo)
}

// ---- path outcomes ----

type outKind int

const (
	oDone outKind = iota
	oSideDone
	oInfeasible
	oViolation
	oUnsupported
	oSteps
	oDeadline
	oInternal
)

type pathEnd struct {
	kind outKind
	msg  string
	loc  string
}

type goPanic struct{ v Value }

type runtimeErr struct{ msg string } // dynamic type of runtime errors is modelled by a special iface

// ---- one path ----

type Input struct {
	Name  string
	Kind  string
	T     *Term // scalar or length
	Mem   string
	Bytes []*Term
	Max   int
}

type obsRec struct {
	name string
	v    Value
}

type stats struct {
	steps   int64
	memQ    int
	asserts int
	trivial int
	solved  int
}

type Interp struct {
	p  *Prog
	c  *Ctx
	s  *Solver
	ex *Explorer
	h  *Harness

	prefix []uint64
	cps    []cp // the forks of the path
	pos    int
	trace  []uint64

	known   map[*Term]bool
	decided map[*Term]int8
	model   *Model

	globals map[*ssa.Global]*Cell
	inited  map[*ssa.Package]int
	consts  map[*ssa.Const]Value
	methods map[methKey]*ssa.Function
	implc   map[implKey]bool

	inputs   []Input
	obs      []obsRec
	reached  map[string]bool
	nvar     map[string]int
	steps    int64
	maxSteps int64
	deadline time.Time
	stats    stats

	gs           []*G
	cur          *G
	nextG        int
	result       *pathEnd
	finished     chan struct{}
	aborting     bool
	schedOn      bool
	preempt      int
	schedLog     []string
	virtNow      *Term // nanoseconds since 1970
	timeOf       map[[2]*Term]*Term
	delays       bool // every choice of the scheduler which is not the next goroutine in turn counts
	lastID       int
	timePasses   bool  // timers may fire while goroutines run
	clockTick    int64 // what every reading of the clock adds
	timers       []*timer
	mutexes      map[*Cell]*mutexSt
	side         map[any]any
	allowPanic   bool
	raceOn       bool
	mapPerm      bool
	unwound      map[string]int
	initDepth    int
	fnsUsed      map[*ssa.Function]bool
	lastModel    *Model
	expectPanic  bool
	depth        int
	spec         int
	sliceDataCap map[*Arr]bool
}

type methKey struct {
	t types.Type
	m *types.Func
}
type implKey struct {
	t types.Type
	i types.Type
}

func (in *Interp) unsupported(f string, a ...any) {
	panic(&pathEnd{kind: oUnsupported, msg: fmt.Sprintf(f, a...), loc: in.where()})
}

// fault is an unrecoverable crash of the program under test.
func (in *Interp) fault(msg string) {
	in.violate("crash: "+msg, nil)
}

func (in *Interp) where() string {
	if in.cur == nil {
		return ""
	}
	var parts []string
	for fr := in.cur.top; fr != nil && len(parts) < 8; fr = fr.caller {
		pos := in.p.fset.Position(fr.pos)
		fn := fr.fn.String()
		if i := strings.LastIndex(fn, "/"); i >= 0 {
			fn = fn[i+1:]
		}
		f := pos.Filename
		if i := strings.LastIndex(f, "/"); i >= 0 {
			f = f[i+1:]
		}
		parts = append(parts, fmt.Sprintf("%s(%s:%d)", fn, f, pos.Line))
	}
	return strings.Join(parts, " < ")
}

// ---- path condition ----

func (in *Interp) markKnown(t *Term) {
	in.known[t] = true
	switch t.op {
	case OAnd:
		for _, a := range t.args {
			in.markKnown(a)
		}
	case ONot:
		if t.args[0].op == OOr {
			for _, a := range t.args[0].args {
				in.markKnown(in.c.Not(a))
			}
		}
	}
}

func (in *Interp) addLit(t *Term) {
	if t.isConst() {
		return
	}
	in.markKnown(t)
	in.c.learn(t)
	in.s.Assert(t)
	if in.model != nil && in.model.eval(t) != 1 {
		in.model = nil
	}
}

func (in *Interp) checkDeadline() {
	if time.Now().After(in.deadline) {
		panic(&pathEnd{kind: oDeadline, msg: "time budget"})
	}
}

func (in *Interp) query(t *Term) (Res, *Model) {
	in.checkDeadline()
	if profOn {
		t0 := time.Now()
		r, m := in.s.Check(t, true)
		profAdd(in.where(), time.Since(t0))
		if d := time.Since(t0); d > profSlow {
			fmt.Printf("SLOW %.1fs %v %s\n", d.Seconds(), r, clip(t.short(16), 4000))
		}
		return r, m
	}
	r, m := in.s.Check(t, true)
	return r, m
}

func (in *Interp) ensureModel() {
	if in.model == nil {
		r, m := in.query(nil)
		if r == Sat {
			in.model = m
		} else if r == Unsat {
			panic(&pathEnd{kind: oInfeasible})
		}
	}
}

func (in *Interp) lookupKnown(t *Term) (bool, bool) {
	if t.isConst() {
		return t.val == 1, true
	}
	if in.known[t] {
		return true, true
	}
	if in.known[in.c.Not(t)] {
		return false, true
	}
	switch t.op {
	case OAnd:
		all := true
		for _, a := range t.args {
			v, k := in.lookupKnown(a)
			if k && !v {
				return false, true
			}
			if !k {
				all = false
			}
		}
		if all {
			return true, true
		}
	case OOr:
		all := true
		for _, a := range t.args {
			v, k := in.lookupKnown(a)
			if k && v {
				return true, true
			}
			if !k {
				all = false
			}
		}
		if all {
			return false, true
		}
	case ONot:
		v, k := in.lookupKnown(t.args[0])
		return !v, k
	}
	return false, false
}

func (in *Interp) replaying() bool { return in.pos < len(in.prefix) }

func (in *Interp) next(v uint64) uint64 {
	in.trace = append(in.trace, v)
	return v
}

// fork records that the next decision has n ways
func (in *Interp) fork(n int) {
	in.cps = append(in.cps, cp{int32(len(in.trace)), int32(n)})
}

func (in *Interp) push(alt uint64) {
	p := make([]uint64, len(in.trace)+1)
	copy(p, in.trace)
	p[len(p)-1] = alt
	in.ex.push(in.h, p, append([]cp(nil), in.cps...))
}

// branch decides a boolean term, forking when both outcomes are possible.
func (in *Interp) branch(t *Term) bool {
	if v, ok := in.lookupKnown(t); ok {
		return v
	}
	if in.spec > 0 {
		panic(specAbort{})
	}
	if in.replaying() {
		d := in.prefix[in.pos]
		in.pos++
		in.next(d)
		if d == 1 {
			in.addLit(t)
		} else {
			in.addLit(in.c.Not(t))
		}
		return d == 1
	}
	nt := in.c.Not(t)
	in.ensureModel()
	var canT, canF Res
	var mT, mF *Model
	if in.model != nil {
		if in.model.eval(t) == 1 {
			canT, mT = Sat, in.model
			canF, mF = in.query(nt)
		} else {
			canF, mF = Sat, in.model
			canT, mT = in.query(t)
		}
	} else {
		canT, mT = in.query(t)
		canF, mF = in.query(nt)
	}
	if canT == Unsat && canF == Unsat {
		panic(&pathEnd{kind: oInfeasible})
	}
	if canT == Unknown || canF == Unknown {
		in.ex.noteUnknown(in.h, "branch at "+in.where())
	}
	if canT != Unsat && canF != Unsat {
		// explore the side with the cheaper future first: no heuristic, true first
		in.fork(2)
		in.push(0)
		in.next(1)
		in.addLit(t)
		in.model = mT
		return true
	}
	if canT != Unsat {
		in.next(1)
		in.addLit(t)
		if mT != nil {
			in.model = mT
		}
		return true
	}
	in.next(0)
	in.addLit(nt)
	if mF != nil {
		in.model = mF
	}
	return false
}

type specAbort struct{}

// decide: 1 valid, 0 unsatisfiable, -1 otherwise; never forks.
func (in *Interp) decide(t *Term) int {
	if v, ok := in.lookupKnown(t); ok {
		return int(b2u(v))
	}
	if d, ok := in.decided[t]; ok {
		return int(d)
	}
	if in.spec > 0 {
		return -1
	}
	var d int
	if in.replaying() {
		d = int(int64(in.prefix[in.pos]))
		in.pos++
	} else {
		in.ensureModel()
		d = -1
		if in.model != nil {
			if in.model.eval(t) == 1 {
				if r, _ := in.query(in.c.Not(t)); r == Unsat {
					d = 1
				}
			} else {
				if r, _ := in.query(t); r == Unsat {
					d = 0
				}
			}
		}
	}
	in.next(uint64(int64(d)))
	in.decided[t] = int8(d)
	if d == 1 {
		in.markKnown(t)
	} else if d == 0 {
		in.markKnown(in.c.Not(t))
	}
	return d
}

// concretize forks over all feasible values of t.
func (in *Interp) concretize(t *Term, what string) int64 {
	if t.isConst() {
		return sx(t.val, t.w)
	}
	if in.spec > 0 {
		panic(specAbort{})
	}
	for n := 0; ; n++ {
		if n > 300 {
			in.unsupported("too many values while concretizing %s", what)
		}
		var v uint64
		if in.replaying() {
			v = in.prefix[in.pos]
			in.pos++
		} else {
			in.ensureModel()
			if in.model == nil {
				in.unsupported("solver gave no model while concretizing %s", what)
			}
			v = in.model.eval(t)
		}
		in.next(v)
		k := in.c.BV(v, t.w)
		if t.w == 0 {
			k = in.c.Bool(v == 1)
		}
		if in.branch(in.c.Eq(t, k)) {
			return sx(v, max(t.w, 1))
		}
	}
}

// choose is an n-way fork.
func (in *Interp) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if in.spec > 0 {
		panic(specAbort{})
	}
	if in.replaying() {
		v := in.prefix[in.pos]
		in.pos++
		in.next(v)
		return int(v)
	}
	in.fork(n)
	for i := n - 1; i >= 1; i-- {
		in.push(uint64(i))
	}
	in.next(0)
	return 0
}

func (in *Interp) assume(t *Term) {
	if v, ok := in.lookupKnown(t); ok {
		if !v {
			panic(&pathEnd{kind: oInfeasible})
		}
		return
	}
	if in.replaying() {
		in.addLit(t)
		return
	}
	if in.model != nil && in.model.eval(t) == 1 {
		in.addLit(t)
		return
	}
	r, m := in.query(t)
	if r == Unsat {
		panic(&pathEnd{kind: oInfeasible})
	}
	if r == Unknown {
		in.ex.noteUnknown(in.h, "assume")
	}
	in.addLit(t)
	in.model = m
}

func (in *Interp) assert(t *Term, msg string) {
	in.stats.asserts++
	if v, ok := in.lookupKnown(t); ok {
		if v {
			in.stats.trivial++
			return
		}
		in.violate(msg, nil)
	}
	nt := in.c.Not(t)
	if in.replaying() {
		// this assertion was already discharged on the path this prefix came from
		in.stats.trivial++
		in.addLit(t)
		return
	}
	if in.model != nil && in.model.eval(nt) == 1 {
		in.violate(msg, in.model)
	}
	r, m := in.query(nt)
	switch r {
	case Unsat:
		in.stats.solved++
		in.addLit(t)
	case Sat:
		in.violate(msg, m)
	default:
		in.ex.noteUnknown(in.h, "assert "+msg)
		in.addLit(t)
	}
}

// violate ends the path with a violation. m satisfies path condition and the violated assertion.
func (in *Interp) violate(msg string, m *Model) {
	if m == nil {
		in.ensureModel()
		m = in.model
	}
	if m == nil {
		in.ex.noteUnknown(in.h, "violation without model: "+msg)
		panic(&pathEnd{kind: oUnsupported, msg: "violation without model: " + msg, loc: in.where()})
	}
	in.lastModel = m
	panic(&pathEnd{kind: oViolation, msg: msg, loc: in.where()})
}

// endless ends a path which seems not to end: with a violation, which counts if the native run of its inputs shows it too
func (in *Interp) endless(msg, why string) {
	if in.spec > 0 || in.cur != nil && in.cur.top != nil && in.cur.top.isInit {
		panic(&pathEnd{kind: oSteps, msg: why, loc: in.where()})
	}
	in.violate(msg, nil)
}

// ---- frames ----

type deferred struct {
	fn   *Func
	b    *ssa.Builtin
	args []Value
	inv  *ssa.CallCommon
}

type Frame struct {
	fn        *ssa.Function
	fi        *fnInfo
	caller    *Frame
	env       []Value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	defers    []deferred
	result    Value
	panicking bool
	panicV    Value
	pos       token.Pos
	g         *G
	isInit    bool
	pend      []Value // phi values precomputed by a merge
}

func (in *Interp) constVal(k *ssa.Const) Value {
	if v, ok := in.consts[k]; ok {
		if _, isArr := v.(*Arr); !isArr {
			if _, isS := v.(*Struct); !isS {
				return v
			}
		}
	}
	v := in.mkConst(k)
	in.consts[k] = v
	return v
}

func (in *Interp) mkConst(k *ssa.Const) Value {
	t := k.Type()
	if k.Value == nil {
		return in.zero(t)
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return in.c.Bool(constant.BoolVal(k.Value))
		case b.Info()&types.IsInteger != 0:
			w := scalarWidth(t)
			if b.Info()&types.IsUnsigned != 0 {
				return in.c.BV(k.Uint64(), w)
			}
			return in.c.BV(uint64(k.Int64()), w)
		case b.Info()&types.IsString != 0:
			if k.Value.Kind() == constant.String {
				return constant.StringVal(k.Value)
			}
			return string(rune(k.Int64()))
		case b.Info()&types.IsFloat != 0:
			f := k.Float64()
			if b.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		}
	}
	in.unsupported("const %s", k)
	return nil
}

func (fr *Frame) set(v ssa.Value, x Value) { fr.env[fr.fi.idx[v]] = x }

func (in *Interp) get(fr *Frame, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return in.constVal(v)
	case *ssa.Global:
		return Ptr{c: in.global(v)}
	case *ssa.Function:
		return &Func{fn: v}
	case nil:
		return nil
	}
	i, ok := fr.fi.idx[v]
	if !ok {
		in.unsupported("unknown ssa value %s in %s", v, fr.fn)
	}
	x := fr.env[i]
	if p, ok := x.(Poison); ok && !fr.isInit {
		in.unsupported("use of a poisoned value: %s", p.why)
	}
	return x
}

func (in *Interp) global(g *ssa.Global) *Cell {
	if c, ok := in.globals[g]; ok {
		if p, bad := c.v.(Poison); bad && in.initDepth == 0 {
			in.unsupported("global %s could not be initialised: %s", g, p.why)
		}
		return c
	}
	in.initPkg(g.Pkg)
	c := in.globals[g]
	if c == nil {
		c = &Cell{v: in.zero(g.Type().(*types.Pointer).Elem())}
		in.globals[g] = c
	}
	if p, bad := c.v.(Poison); bad && in.initDepth == 0 {
		in.unsupported("global %s could not be initialised: %s", g, p.why)
	}
	return c
}

func (in *Interp) initPkg(p *ssa.Package) {
	if in.inited[p] != 0 {
		return
	}
	in.inited[p] = 1
	in.p.buildMu.Lock()
	p.Build()
	in.p.buildMu.Unlock()
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			if in.globals[g] == nil {
				in.globals[g] = &Cell{v: in.zero(g.Type().(*types.Pointer).Elem())}
			}
		}
	}
	if g, ok := p.Members["init$guard"].(*ssa.Global); ok {
		in.globals[g].v = in.c.False
	}
	if in.p.initSkip[p.Pkg.Path()] || strings.HasPrefix(p.Pkg.Path(), "internal/") || p.Pkg.Path() == "runtime" || p.Pkg.Path() == "syscall" {
		if !initAllow[p.Pkg.Path()] {
			in.inited[p] = 2
			if p.Pkg.Path() == "os" {
				// the errors of package os are those of io/fs
				if q := in.p.prog.ImportedPackage("io/fs"); q != nil {
					for _, n := range []string{"ErrInvalid", "ErrPermission", "ErrExist", "ErrNotExist", "ErrClosed"} {
						if s, d := q.Var(n), p.Var(n); s != nil && d != nil {
							in.globals[d].v = in.global(s).v
						}
					}
				}
			}
			return
		}
	}
	fn := p.Func("init")
	if fn == nil || fn.Blocks == nil {
		in.inited[p] = 2
		return
	}
	in.initDepth++
	saved := in.schedOn
	in.schedOn = false
	func() {
		defer func() {
			in.initDepth--
			in.schedOn = saved
		}()
		in.runInit(fn)
	}()
	in.inited[p] = 2
}

var initAllow = map[string]bool{"internal/bytealg": false, "internal/oserror": true, "internal/testlog": false, "internal/itoa": true}

// runInit executes a package initializer, tolerating initializers outside the supported subset.
func (in *Interp) runInit(fn *ssa.Function) {
	in.call(nil, &Func{fn: fn}, nil)
}

// Harness entry point.
func (in *Interp) runMain(fn *ssa.Function) {
	in.call(nil, &Func{fn: fn}, nil)
}

func (in *Interp) callName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

// useBody is what an intrinsic returns to have the body of the function executed after all.
type useBody struct{}

// call invokes a function value.
func (in *Interp) call(caller *Frame, f *Func, args []Value) Value {
	if f == nil {
		in.rtPanic("invalid memory address or nil pointer dereference (nil func call)")
	}
	if f.native != nil {
		return f.native(in, args)
	}
	fn := f.fn
	name := in.callName(fn)
	if r, ok := in.p.replace[name]; ok && r != fn && (caller == nil || caller.fn != r) {
		v := in.call(caller, &Func{fn: r}, args)
		// a replacement may return any where the target has a type that cannot be named
		if rs, ts := r.Signature.Results(), fn.Signature.Results(); rs.Len() == 1 && ts.Len() == 1 && types.IsInterface(rs.At(0).Type()) && !types.IsInterface(ts.At(0).Type()) {
			if ifc, ok := v.(Iface); ok && ifc.t != nil {
				return ifc.v
			}
			return in.zero(ts.At(0).Type())
		}
		return v
	}
	if nf, ok := intrinsics[name]; ok {
		r := nf(in, &callCtx{fn: fn, caller: caller}, args)
		if _, body := r.(useBody); !body {
			return r
		}
	}
	if caller != nil && caller.isInit && fn.Name() == "init" && fn.Pkg != caller.fn.Pkg && fn.Signature.Recv() == nil && fn.Synthetic == "package initializer" {
		return nil // other packages are initialised lazily
	}
	fi := in.p.info(fn)
	if fn.Blocks == nil {
		in.unsupported("no body: %s", fn)
	}
	if in.depth > 2000 {
		// reported only if the native run of the inputs overflows the stack
		in.endless("endless recursion", "call depth")
	}
	fr := &Frame{fn: fn, fi: fi, caller: caller, env: make([]Value, fi.n), g: in.cur}
	if caller != nil {
		fr.isInit = false
	}
	if fn.Synthetic == "package initializer" {
		fr.isInit = true
	}
	if !in.fnsUsed[fn] {
		in.fnsUsed[fn] = true
	}
	for i, p := range fn.Params {
		fr.env[fi.idx[p]] = args[i]
	}
	for i, v := range fn.FreeVars {
		fr.env[fi.idx[v]] = f.env[i]
	}
	fr.block = fn.Blocks[0]
	g := in.cur
	fr.g = g
	old := g.top
	if fr.caller == nil {
		fr.caller = old
	}
	g.top = fr
	in.depth++
	for fr.block != nil {
		in.runFrame(fr)
	}
	in.depth--
	g.top = old
	return fr.result
}

// runFrame runs until return or a panic; panics run deferred calls.
func (in *Interp) runFrame(fr *Frame) {
	depth := in.depth
	if fr.fn.Recover != nil || hasDefer(fr.fn) {
		defer func() {
			if fr.block == nil {
				return
			}
			r := recover()
			if r == nil {
				return
			}
			gp, ok := r.(goPanic)
			if !ok {
				panic(r)
			}
			in.depth = depth
			fr.g.top = fr
			fr.panicking = true
			fr.panicV = gp.v
			in.runDefers(fr)
			// recovered
			fr.block = fr.fn.Recover
			if fr.block == nil {
				// result zero values
				res := fr.fn.Signature.Results()
				switch res.Len() {
				case 0:
				case 1:
					fr.result = in.zero(res.At(0).Type())
				default:
					fr.result = in.zero(res)
				}
			}
		}()
	}
	for {
		blk := fr.block
		// phis
		n := 0
		var phiVals []Value
		pend := fr.pend
		fr.pend = nil
		for _, ins := range blk.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			if pend != nil {
				phiVals = append(phiVals, pend[n])
				n++
				continue
			}
			for i, p := range blk.Preds {
				if p == fr.prev {
					phiVals = append(phiVals, in.get(fr, phi.Edges[i]))
					break
				}
			}
			n++
		}
		for i := 0; i < n; i++ {
			fr.set(blk.Instrs[i].(ssa.Value), phiVals[i])
		}
		for _, ins := range blk.Instrs[n:] {
			in.steps++
			if in.steps&0xfff == 0 {
				if in.steps > in.maxSteps {
					// reported only if the native run of the inputs does not end either
					in.endless("no end", "step limit")
				}
				if in.steps&0xffff == 0 {
					in.checkDeadline()
				}
			}
			if p := ins.Pos(); p.IsValid() {
				fr.pos = p
			}
			if fr.isInit {
				if !in.execInit(fr, ins) {
					continue
				}
				if fr.block == nil {
					return
				}
				break
			}
			switch in.exec(fr, ins) {
			case kNext:
				continue
			case kReturn:
				fr.block = nil
				return
			case kJump:
			}
			break
		}
		if fr.block == nil {
			return
		}
	}
}

// execInit executes one instruction of a package initializer; returns true on control transfer.
func (in *Interp) execInit(fr *Frame, ins ssa.Instruction) (ctl bool) {
	if c, ok := ins.(*ssa.Call); ok {
		if f, ok := c.Call.Value.(*ssa.Function); ok && strings.HasPrefix(f.Name(), "init#") {
			if in.p.initSkip[fr.fn.Pkg.Pkg.Path()] || !strings.HasPrefix(fr.fn.Pkg.Pkg.Path(), in.p.repoMod) && fr.fn.Pkg.Pkg.Path() != "context" {
				return false
			}
		}
	}
	defer func() {
		if r := recover(); r != nil {
			why := ""
			switch x := r.(type) {
			case *pathEnd:
				if x.kind != oUnsupported {
					panic(r)
				}
				why = x.msg
			case goPanic:
				why = "panic in initializer"
			default:
				if os.Getenv("GOSYM_DEBUG") != "" {
					fmt.Println("init poison:", r)
				}
				why = fmt.Sprint(r)
			}
			fr.g.top = fr
			if v, ok := ins.(ssa.Value); ok {
				fr.set(v, Poison{why})
			}
			if _, ok := ins.(*ssa.If); ok {
				panic(r)
			}
			ctl = false
		}
	}()
	switch x := ins.(type) {
	case *ssa.Store:
		v := in.get(fr, x.Val)
		if p, ok := v.(Poison); ok {
			if g, ok := x.Addr.(*ssa.Global); ok {
				in.globals[g].v = p
				return false
			}
			if pt, ok := in.get(fr, x.Addr).(Ptr); ok && pt.c != nil {
				pt.c.v = p
			}
			return false
		}
	case *ssa.If:
		if v := in.get(fr, x.Cond); v != nil {
			if _, ok := v.(Poison); ok {
				in.unsupported("branch on poison in init of %s", fr.fn.Pkg)
			}
		}
	}
	switch in.exec(fr, ins) {
	case kNext:
		return false
	case kReturn:
		fr.block = nil
		return true
	}
	return true
}

var hasDeferCache sync.Map

func hasDefer(fn *ssa.Function) bool {
	if v, ok := hasDeferCache.Load(fn); ok {
		return v.(bool)
	}
	r := false
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.Defer); ok {
				r = true
			}
		}
	}
	hasDeferCache.Store(fn, r)
	return r
}

func (in *Interp) runDefers(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		in.runDefer(fr, d)
	}
	if fr.panicking {
		panic(goPanic{fr.panicV})
	}
}

func (in *Interp) runDefer(fr *Frame, d deferred) {
	ok := false
	depth := in.depth
	defer func() {
		if !ok {
			r := recover()
			if gp, is := r.(goPanic); is {
				in.depth = depth
				fr.g.top = fr
				fr.panicking = true
				fr.panicV = gp.v
				return
			}
			panic(r)
		}
	}()
	if d.b != nil {
		in.callBuiltin(fr, d.b, d.args, nil)
	} else {
		in.call(fr, d.fn, d.args)
	}
	ok = true
}

// rtPanic raises a Go runtime error in the target program.
func (in *Interp) rtPanic(msg string) {
	if in.spec > 0 {
		panic(specAbort{})
	}
	panic(goPanic{Iface{t: rtErrType, v: "runtime error: " + msg}})
}

// rtErrType stands for runtime.Error; its value is the message.
var rtErrType types.Type = types.NewNamed(types.NewTypeName(token.NoPos, nil, "runtimeError", nil), types.Typ[types.String], nil)

type ctl int

const (
	kNext ctl = iota
	kReturn
	kJump
)

func (in *Interp) jump(fr *Frame, to *ssa.BasicBlock) {
	fr.prev = fr.block
	fr.block = to
}

func (in *Interp) exec(fr *Frame, ins ssa.Instruction) ctl {
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		fr.set(x, in.alloc(x.Type().Underlying().(*types.Pointer).Elem()))
	case *ssa.UnOp:
		fr.set(x, in.unop(fr, x))
	case *ssa.BinOp:
		fr.set(x, in.binop(x.Op, x.X.Type(), x.Y.Type(), in.get(fr, x.X), in.get(fr, x.Y)))
	case *ssa.Call:
		fr.set(x, in.doCall(fr, &x.Call))
	case *ssa.ChangeInterface:
		fr.set(x, in.get(fr, x.X))
	case *ssa.ChangeType:
		fr.set(x, in.get(fr, x.X))
	case *ssa.Convert:
		fr.set(x, in.convert(x.Type(), x.X.Type(), in.get(fr, x.X)))
	case *ssa.MultiConvert:
		fr.set(x, in.convert(x.Type(), x.X.Type(), in.get(fr, x.X)))
	case *ssa.SliceToArrayPointer:
		s := in.get(fr, x.X).(Slice)
		at := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if s.a == nil {
			if at.Len() != 0 {
				in.rtPanic("cannot convert slice to array")
			}
			fr.set(x, Ptr{})
			break
		}
		if !in.branch(in.c.Sle(in.c.Int(at.Len()), s.len)) {
			in.rtPanic("cannot convert slice with length to array or pointer to array")
		}
		if s.a.w != nonScalar {
			// copy view: supported only for reading (array conversion)
			bs := in.memBytes(in.snapshot(s.a), s.off, int(at.Len()))
			fr.set(x, Ptr{c: &Cell{v: in.arrOf(at.Elem(), bs)}})
			break
		}
		in.unsupported("SliceToArrayPointer of %s", x.Type())
	case *ssa.MakeInterface:
		v := in.get(fr, x.X)
		fr.set(x, Iface{t: x.X.Type(), v: v})
	case *ssa.Extract:
		t := in.get(fr, x.Tuple)
		if p, ok := t.(Poison); ok {
			fr.set(x, p)
			break
		}
		fr.set(x, t.(Tuple)[x.Index])
	case *ssa.Field:
		fr.set(x, in.get(fr, x.X).(*Struct).f[x.Field].v)
	case *ssa.FieldAddr:
		p := in.get(fr, x.X).(Ptr)
		if p.c == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		s, ok := p.c.v.(*Struct)
		if !ok {
			in.unsupported("field of %T", p.c.v)
		}
		fr.set(x, Ptr{c: &s.f[x.Field]})
	case *ssa.Index:
		fr.set(x, in.index(in.get(fr, x.X), in.get(fr, x.Index).(*Term), x.Index.Type()))
	case *ssa.IndexAddr:
		fr.set(x, in.indexAddr(in.get(fr, x.X), in.idx64(in.get(fr, x.Index).(*Term), x.Index.Type())))
	case *ssa.Lookup:
		fr.set(x, in.lookup(fr, x))
	case *ssa.MakeClosure:
		env := make([]Value, len(x.Bindings))
		for i, b := range x.Bindings {
			env[i] = in.get(fr, b)
		}
		fr.set(x, &Func{fn: x.Fn.(*ssa.Function), env: env})
	case *ssa.MakeMap:
		fr.set(x, &Map{})
	case *ssa.MakeChan:
		n := in.concretize(in.idx64(in.get(fr, x.Size).(*Term), x.Size.Type()), "chan size")
		fr.set(x, &Chan{cap: int(n), elem: x.Type().Underlying().(*types.Chan).Elem()})
	case *ssa.MakeSlice:
		fr.set(x, in.makeSlice(x.Type().Underlying().(*types.Slice).Elem(),
			in.idx64(in.get(fr, x.Len).(*Term), x.Len.Type()), in.idx64(in.get(fr, x.Cap).(*Term), x.Cap.Type())))
	case *ssa.Slice:
		fr.set(x, in.slice(fr, x))
	case *ssa.Range:
		fr.set(x, in.rangeIter(in.get(fr, x.X)))
	case *ssa.Next:
		fr.set(x, in.iterNext(in.get(fr, x.Iter), x))
	case *ssa.TypeAssert:
		fr.set(x, in.typeAssert(x, in.get(fr, x.X)))
	case *ssa.Select:
		fr.set(x, in.doSelect(fr, x))
	case *ssa.Send:
		in.chanSend(in.get(fr, x.Chan).(*Chan), in.get(fr, x.X))
	case *ssa.Store:
		p, ok := in.get(fr, x.Addr).(Ptr)
		if !ok {
			in.unsupported("store to %T", in.get(fr, x.Addr))
		}
		in.store(p, in.get(fr, x.Val))
	case *ssa.MapUpdate:
		m, _ := in.get(fr, x.Map).(*Map)
		in.mapAccess(m, true)
		in.mapSet(m, in.get(fr, x.Key), in.get(fr, x.Value))
	case *ssa.If:
		t := in.get(fr, x.Cond).(*Term)
		if _, ok := in.lookupKnown(t); !ok {
			if in.tryMerge(fr, x, t) {
				return kJump
			}
		}
		if in.branch(t) {
			in.jump(fr, fr.block.Succs[0])
		} else {
			in.jump(fr, fr.block.Succs[1])
		}
		return kJump
	case *ssa.Jump:
		in.jump(fr, fr.block.Succs[0])
		return kJump
	case *ssa.Return:
		switch len(x.Results) {
		case 0:
		case 1:
			fr.result = in.get(fr, x.Results[0])
		default:
			t := make(Tuple, len(x.Results))
			for i, r := range x.Results {
				t[i] = in.get(fr, r)
			}
			fr.result = t
		}
		return kReturn
	case *ssa.Panic:
		panic(goPanic{in.get(fr, x.X)})
	case *ssa.RunDefers:
		in.runDefers(fr)
	case *ssa.Defer:
		f, b, args := in.prepCall(fr, &x.Call)
		fr.defers = append(fr.defers, deferred{fn: f, b: b, args: args})
	case *ssa.Go:
		f, b, args := in.prepCall(fr, &x.Call)
		if b != nil {
			in.unsupported("go builtin")
		}
		in.spawn(f, args, fr)
	default:
		in.unsupported("instruction %T", ins)
	}
	return kNext
}

func (in *Interp) alloc(t types.Type) Ptr {
	return Ptr{c: &Cell{v: in.zero(t)}}
}

// tryMerge turns small side-effect free diamonds into ite terms.
func (in *Interp) tryMerge(fr *Frame, x *ssa.If, cond *Term) bool {
	if in.h.NoMerge {
		return false
	}
	b := fr.block
	s0, s1 := b.Succs[0], b.Succs[1]
	var join *ssa.BasicBlock
	pure := func(k *ssa.BasicBlock) bool {
		if len(k.Preds) != 1 || len(k.Succs) != 1 || len(k.Instrs) > 12 {
			return false
		}
		for _, i := range k.Instrs[:len(k.Instrs)-1] {
			switch i := i.(type) {
			case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.FieldAddr, *ssa.Field, *ssa.Extract, *ssa.DebugRef, *ssa.IndexAddr:
			case *ssa.UnOp:
				if i.Op == token.ARROW {
					return false
				}
			case *ssa.Call:
				if bi, ok := i.Call.Value.(*ssa.Builtin); !ok || (bi.Name() != "len" && bi.Name() != "cap" && bi.Name() != "min" && bi.Name() != "max") {
					return false
				}
			default:
				return false
			}
		}
		_, ok := k.Instrs[len(k.Instrs)-1].(*ssa.Jump)
		return ok
	}
	p0, p1 := pure(s0), pure(s1)
	var via0, via1 *ssa.BasicBlock // predecessor of join on each side
	switch {
	case p0 && p1 && s0.Succs[0] == s1.Succs[0]:
		join, via0, via1 = s0.Succs[0], s0, s1
	case p0 && s0.Succs[0] == s1:
		join, via0, via1 = s1, s0, b
	case p1 && s1.Succs[0] == s0:
		join, via0, via1 = s0, b, s1
	default:
		return false
	}
	if join == b {
		return false
	}
	// the join must carry phis that can be merged
	var phis []*ssa.Phi
	for _, i := range join.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	if len(phis) == 0 || len(phis) > 6 {
		return false
	}
	edge := func(p *ssa.Phi, via *ssa.BasicBlock) ssa.Value {
		for i, q := range join.Preds {
			if q == via {
				return p.Edges[i]
			}
		}
		return nil
	}
	ok := true
	run := func(blk *ssa.BasicBlock, lit *Term) {
		defer func() {
			in.spec--
			if r := recover(); r != nil {
				switch r.(type) {
				case specAbort, *pathEnd, goPanic:
					ok = false
					return
				}
				panic(r)
			}
		}()
		in.spec++
		if blk == b {
			return
		}
		for _, i := range blk.Instrs[:len(blk.Instrs)-1] {
			in.exec(fr, i)
		}
	}
	run(via0, cond)
	if !ok {
		return false
	}
	var v0, v1 []Value
	for _, p := range phis {
		v0 = append(v0, in.get(fr, edge(p, via0)))
	}
	run(via1, cond)
	if !ok {
		return false
	}
	for _, p := range phis {
		v1 = append(v1, in.get(fr, edge(p, via1)))
	}
	var out []Value
	for i := range phis {
		a, okA := v0[i].(*Term)
		c, okC := v1[i].(*Term)
		if okA && okC {
			out = append(out, in.c.Ite(cond, a, c))
			continue
		}
		if sameRef(v0[i], v1[i]) {
			out = append(out, v0[i])
			continue
		}
		return false
	}
	for i, p := range phis {
		fr.set(p, out[i])
	}
	in.steps += 4
	// continue in the join after its phis
	fr.prev = via0
	fr.block = join
	in.skipPhis(fr, out)
	return true
}

// skipPhis arranges that the phis of the next block evaluate to the merged values.
func (in *Interp) skipPhis(fr *Frame, vals []Value) {
	fr.prev = nil
	fr.pend = vals
}

func sameRef(a, b Value) bool {
	switch x := a.(type) {
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && x == y
	case *Map:
		y, ok := b.(*Map)
		return ok && x == y
	case *Chan:
		y, ok := b.(*Chan)
		return ok && x == y
	case Slice:
		y, ok := b.(Slice)
		return ok && x == y
	case Iface:
		y, ok := b.(Iface)
		return ok && x.t == y.t && x.t == nil
	}
	return false
}

// ---- operators ----

// idx64 widens an index/length operand to 64 bits according to its type.
func (in *Interp) idx64(t *Term, ty types.Type) *Term {
	if t.w == 64 {
		return t
	}
	if isSigned(ty) {
		return in.c.Sext(t, 64)
	}
	return in.c.Zext(t, 64)
}

func (in *Interp) boundsCheck(idx, n *Term, what string) {
	ok := in.c.Ult(idx, n)
	if !in.branch(ok) {
		in.rtPanic("index out of range " + what)
	}
}

func (in *Interp) index(v Value, idx *Term, ity types.Type) Value {
	idx = in.idx64(idx, ity)
	switch a := v.(type) {
	case *Arr:
		in.boundsCheck(idx, a.n, "")
		return in.arrGet(a, idx)
	case string, *SymStr:
		in.boundsCheck(idx, in.strLen(v), "")
		return in.strAt(v, idx)
	}
	in.unsupported("index %T", v)
	return nil
}

func (in *Interp) indexAddr(v Value, idx *Term) Value {
	var a *Arr
	switch x := v.(type) {
	case Slice:
		if x.a == nil {
			in.rtPanic("index out of range [with length 0]")
		}
		in.boundsCheck(idx, x.len, "")
		a = x.a
		idx = in.c.Add(x.off, idx)
	case Ptr:
		if x.c == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		a = x.c.v.(*Arr)
		in.boundsCheck(idx, a.n, "")
	default:
		in.unsupported("indexAddr %T", v)
	}
	if a.w == nonScalar {
		k := in.concIdx(idx, len(a.cells))
		return Ptr{c: &a.cells[k]}
	}
	return Ptr{a: a, i: idx}
}

func (in *Interp) unop(fr *Frame, x *ssa.UnOp) Value {
	v := in.get(fr, x.X)
	switch x.Op {
	case token.MUL:
		p, ok := v.(Ptr)
		if !ok {
			in.unsupported("deref %T", v)
		}
		r := in.load(p)
		if ps, ok := r.(Poison); ok && !fr.isInit {
			in.unsupported("load of a poisoned value: %s", ps.why)
		}
		return r
	case token.ARROW:
		return in.chanRecv(v.(*Chan), x.CommaOk)
	case token.SUB:
		switch y := v.(type) {
		case *Term:
			return in.c.Neg(y)
		case float64:
			return -y
		}
	case token.NOT:
		return in.c.Not(v.(*Term))
	case token.XOR:
		return in.c.BNot(v.(*Term))
	}
	in.unsupported("unop %s", x)
	return nil
}

func f32(t types.Type, f float64) float64 {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
		return float64(float32(f))
	}
	return f
}

func (in *Interp) binop(op token.Token, tx, ty types.Type, a, b Value) Value {
	c := in.c
	switch op {
	case token.EQL, token.NEQ:
		// iface vs concrete comparisons
		_, ia := a.(Iface)
		_, ib := b.(Iface)
		if ia != ib {
			if ia {
				b = Iface{t: ty, v: b}
			} else {
				a = Iface{t: tx, v: a}
			}
		}
		e := in.eqVal(a, b)
		if op == token.NEQ {
			return c.Not(e)
		}
		return e
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			break
		}
		if op == token.SHL || op == token.SHR {
			// shift count: unsigned or checked non negative
			if isSigned(ty) {
				if !in.branch(c.Sle(c.BV(0, y.w), y)) {
					in.rtPanic("negative shift amount")
				}
			}
			big := c.False
			if y.w > x.w {
				big = c.Ule(c.BV(uint64(x.w), y.w), y)
				y = c.Extract(y, int(x.w)-1, 0)
			} else if y.w < x.w {
				y = c.Zext(y, x.w)
			}
			var r *Term
			sg := isSigned(tx)
			switch {
			case op == token.SHL:
				r = c.Ite(big, c.BV(0, x.w), c.Shl(x, y))
			case sg:
				r = c.Ite(big, c.Ashr(x, c.BV(uint64(x.w)-1, x.w)), c.Ashr(x, y))
			default:
				r = c.Ite(big, c.BV(0, x.w), c.Lshr(x, y))
			}
			return r
		}
		sg := isSigned(tx)
		switch op {
		case token.ADD:
			return c.Add(x, y)
		case token.SUB:
			return c.Sub(x, y)
		case token.MUL:
			return c.Mul(x, y)
		case token.QUO, token.REM:
			if in.branch(c.Eq(y, c.BV(0, y.w))) {
				in.rtPanic("integer divide by zero")
			}
			if op == token.QUO {
				if sg {
					return c.Sdiv(x, y)
				}
				return c.Udiv(x, y)
			}
			if sg {
				return c.Srem(x, y)
			}
			return c.Urem(x, y)
		case token.AND:
			if x.w == 0 {
				return c.And(x, y)
			}
			return c.BAnd(x, y)
		case token.OR:
			if x.w == 0 {
				return c.Or(x, y)
			}
			return c.BOr(x, y)
		case token.XOR:
			return c.BXor(x, y)
		case token.AND_NOT:
			return c.BAnd(x, c.BNot2(y))
		case token.LSS:
			if sg {
				return c.Slt(x, y)
			}
			return c.Ult(x, y)
		case token.LEQ:
			if sg {
				return c.Sle(x, y)
			}
			return c.Ule(x, y)
		case token.GTR:
			if sg {
				return c.Slt(y, x)
			}
			return c.Ult(y, x)
		case token.GEQ:
			if sg {
				return c.Sle(y, x)
			}
			return c.Ule(y, x)
		}
	case float64:
		y := b.(float64)
		switch op {
		case token.ADD:
			return f32(tx, x+y)
		case token.SUB:
			return f32(tx, x-y)
		case token.MUL:
			return f32(tx, x*y)
		case token.QUO:
			return f32(tx, x/y)
		case token.LSS:
			return c.Bool(x < y)
		case token.LEQ:
			return c.Bool(x <= y)
		case token.GTR:
			return c.Bool(x > y)
		case token.GEQ:
			return c.Bool(x >= y)
		}
	case string, *SymStr:
		switch op {
		case token.ADD:
			return in.strConcat(a, b)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if s, ok := a.(string); ok {
				if t, ok := b.(string); ok {
					switch op {
					case token.LSS:
						return c.Bool(s < t)
					case token.LEQ:
						return c.Bool(s <= t)
					case token.GTR:
						return c.Bool(s > t)
					default:
						return c.Bool(s >= t)
					}
				}
			}
			lt, eq := in.bytesCmp(in.strBytes(a), in.strBytes(b))
			switch op {
			case token.LSS:
				return lt
			case token.LEQ:
				return c.Or(lt, eq)
			case token.GTR:
				return c.Not(c.Or(lt, eq))
			default:
				return c.Not(lt)
			}
		}
	}
	in.unsupported("binop %s on %T", op, a)
	return nil
}

// BNot2 is a bitwise complement that keeps constant structure.
func (c *Ctx) BNot2(a *Term) *Term {
	if a.isConst() {
		return c.BV(^a.val, a.w)
	}
	return c.bitop(OBXor, a, c.BV(mask(a.w), a.w))
}

func (in *Interp) convert(to, from types.Type, v Value) Value {
	if tp, ok := to.(*types.TypeParam); ok {
		in.unsupported("convert to type param %s", tp)
	}
	tu, fu := to.Underlying(), from.Underlying()
	switch t := tu.(type) {
	case *types.Basic:
		switch {
		case t.Kind() == types.UnsafePointer:
			return v
		case t.Info()&types.IsInteger != 0:
			w := scalarWidth(to)
			switch x := v.(type) {
			case *Term:
				if w <= x.w {
					return in.c.Extract(x, int(w)-1, 0)
				}
				if isSigned(from) {
					return in.c.Sext(x, w)
				}
				return in.c.Zext(x, w)
			case float64:
				if isSigned(to) {
					return in.c.BV(uint64(int64(x)), w)
				}
				return in.c.BV(uint64(x), w)
			case Ptr:
				in.unsupported("pointer to uintptr")
			}
		case t.Info()&types.IsFloat != 0:
			switch x := v.(type) {
			case float64:
				return f32(to, x)
			case *Term:
				if x.isConst() {
					if isSigned(from) {
						return f32(to, float64(sx(x.val, x.w)))
					}
					return f32(to, float64(x.val))
				}
				in.unsupported("symbolic int to float")
			}
		case t.Info()&types.IsString != 0:
			switch x := v.(type) {
			case string, *SymStr:
				return v
			case Slice:
				if s, ok := fu.(*types.Slice); ok && scalarWidth(s.Elem()) == 8 {
					return in.bytesToStr(x)
				}
				// []rune
				n := int(in.concretize(in.slLen(x), "rune slice"))
				var rs []rune
				for i := 0; i < n; i++ {
					r := in.arrGet(x.a, in.c.Add(x.off, in.c.Int(int64(i)))).(*Term)
					rs = append(rs, rune(in.concretize(r, "rune")))
				}
				return string(rs)
			case *Term:
				if x.isConst() {
					return string(rune(sx(x.val, x.w)))
				}
				if in.branch(in.c.Ult(x, in.c.BV(0x80, x.w))) {
					return in.mkStr([]*Term{in.c.Extract(x, 7, 0)})
				}
				return string(rune(in.concretize(x, "rune to string")))
			}
		}
	case *types.Slice:
		switch v.(type) {
		case string, *SymStr:
			if scalarWidth(t.Elem()) == 8 {
				n := in.strLen(v)
				a := &Arr{elem: t.Elem(), w: 8, n: n}
				if n.isConst() && n.val <= 600 {
					a.dense = in.strBytes(v)
				} else {
					m, off := in.strMem(v)
					a.mem = &Mem{kind: mCopy, w: 8, prev: &Mem{kind: mZero, w: 8}, idx: in.c.Int(0), src: m, srcOff: off, n: n}
				}
				return Slice{a: a, off: in.c.Int(0), len: n, cap: n}
			}
			// []rune
			var rs []*Term
			conc := true
			bs := in.strBytes(v)
			for _, b := range bs {
				if !b.isConst() {
					conc = false
				}
			}
			if conc {
				for _, r := range in.concStr(v, "runes") {
					rs = append(rs, in.c.BV(uint64(uint32(r)), 32))
				}
			} else {
				for _, b := range bs {
					if !in.branch(in.c.Ult(b, in.c.BV(0x80, 8))) {
						in.unsupported("non-ASCII symbolic string to runes")
					}
					rs = append(rs, in.c.Zext(b, 32))
				}
			}
			n := in.c.Int(int64(len(rs)))
			return Slice{a: in.arrOf(t.Elem(), rs), off: in.c.Int(0), len: n, cap: n}
		case Slice:
			return v
		}
	case *types.Pointer:
		if p, ok := v.(Ptr); ok {
			// unsafe conversions between pointer types
			if b, ok := fu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
				return in.unsafeCast(p, to)
			}
			return p
		}
	}
	if types.Identical(tu, fu) {
		return v
	}
	in.unsupported("convert %s -> %s", from, to)
	return nil
}

// unsafeCast supports the []byte <-> string header reinterpretation idiom.
func (in *Interp) unsafeCast(p Ptr, to types.Type) Value {
	el := to.Underlying().(*types.Pointer).Elem()
	if p.c == nil {
		return p
	}
	switch v := p.c.v.(type) {
	case Slice:
		if b, ok := el.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if v.a == nil {
				return Ptr{c: &Cell{v: ""}}
			}
			return Ptr{c: &Cell{v: &SymStr{live: v.a, off: v.off, len: v.len}}}
		}
	case string, *SymStr:
		if s, ok := el.Underlying().(*types.Slice); ok && scalarWidth(s.Elem()) == 8 {
			x := in.convert(el, types.Typ[types.String], v)
			return Ptr{c: &Cell{v: x}}
		}
	}
	return p
}

func (in *Interp) bytesToStr(x Slice) Value {
	if x.a == nil {
		return ""
	}
	in.accessArr(x.a, false)
	m := in.snapshot(x.a)
	if x.len.isConst() && x.len.val <= 600 {
		return in.mkStr(in.memBytes(m, x.off, int(x.len.val)))
	}
	return &SymStr{mem: m, off: x.off, len: x.len}
}

func (in *Interp) slLen(s Slice) *Term {
	if s.len == nil {
		return in.c.Int(0)
	}
	return s.len
}
func (in *Interp) slCap(s Slice) *Term {
	if s.cap == nil {
		return in.c.Int(0)
	}
	return s.cap
}
func (in *Interp) slOff(s Slice) *Term {
	if s.off == nil {
		return in.c.Int(0)
	}
	return s.off
}

func (in *Interp) makeSlice(elem types.Type, n, cp *Term) Value {
	c := in.c
	if !in.branch(c.And(c.Sle(c.Int(0), n), c.Sle(n, c.Int(1<<40)))) {
		in.rtPanic("makeslice: len out of range")
	}
	if n != cp && !in.branch(c.And(c.Sle(n, cp), c.Sle(cp, c.Int(1<<40)))) {
		in.rtPanic("makeslice: cap out of range")
	}
	if scalarWidth(elem) == nonScalar || scalarWidth(elem) == 0 {
		if !cp.isConst() {
			cp = c.Int(in.concretize(cp, "make cap"))
		}
	}
	a := in.newArr(elem, cp)
	return Slice{a: a, off: c.Int(0), len: n, cap: cp}
}

func (in *Interp) slice(fr *Frame, x *ssa.Slice) Value {
	c := in.c
	v := in.get(fr, x.X)
	opt := func(e ssa.Value) *Term {
		if e == nil {
			return nil
		}
		return in.idx64(in.get(fr, e).(*Term), e.Type())
	}
	lo, hi, mx := opt(x.Low), opt(x.High), opt(x.Max)
	if lo == nil {
		lo = c.Int(0)
	}
	switch s := v.(type) {
	case string, *SymStr:
		n := in.strLen(v)
		if hi == nil {
			hi = n
		}
		if !in.branch(c.And(c.Ule(hi, n), c.Ule(lo, hi))) {
			in.rtPanic("slice bounds out of range")
		}
		return in.subStr(v, lo, hi)
	case Slice:
		off, ln, cp := in.slOff(s), in.slLen(s), in.slCap(s)
		if hi == nil {
			hi = ln
		}
		if mx == nil {
			mx = cp
		}
		if !in.branch(c.And(c.Ule(lo, hi), c.Ule(hi, mx), c.Ule(mx, cp))) {
			in.rtPanic("slice bounds out of range")
		}
		if s.a == nil {
			return Slice{}
		}
		return Slice{a: s.a, off: c.Add(off, lo), len: c.Sub(hi, lo), cap: c.Sub(mx, lo)}
	case Ptr:
		if s.c == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		a := s.c.v.(*Arr)
		if hi == nil {
			hi = a.n
		}
		if mx == nil {
			mx = a.n
		}
		if !in.branch(c.And(c.Ule(lo, hi), c.Ule(hi, mx), c.Ule(mx, a.n))) {
			in.rtPanic("slice bounds out of range")
		}
		return Slice{a: a, off: lo, len: c.Sub(hi, lo), cap: c.Sub(mx, lo)}
	}
	in.unsupported("slice of %T", v)
	return nil
}

func (in *Interp) lookup(fr *Frame, x *ssa.Lookup) Value {
	v := in.get(fr, x.X)
	k := in.get(fr, x.Index)
	m, ok := v.(*Map)
	if !ok {
		return in.index(v, k.(*Term), x.Index.Type())
	}
	in.mapAccess(m, false)
	et := x.X.Type().Underlying().(*types.Map).Elem()
	e := in.mapFind(m, k)
	var r Value
	if e != nil {
		r = in.copyVal(e.cell.v)
	} else {
		r = in.zero(et)
	}
	if x.CommaOk {
		return Tuple{r, in.c.Bool(e != nil)}
	}
	return r
}

type mapIter struct {
	m    *Map
	ents []*mapEnt
	i    int
}
type strIter struct {
	v  Value
	bs []*Term
	i  int
}

func (in *Interp) rangeIter(v Value) Value {
	switch x := v.(type) {
	case *Map:
		it := &mapIter{m: x}
		if x != nil {
			in.mapAccess(x, false)
			for _, e := range x.ents {
				if !e.dead {
					it.ents = append(it.ents, e)
				}
			}
			if in.mapPerm && len(it.ents) > 1 {
				// any iteration order
				rest := append([]*mapEnt(nil), it.ents...)
				it.ents = nil
				for len(rest) > 0 {
					k := in.choose(len(rest))
					it.ents = append(it.ents, rest[k])
					rest = append(append([]*mapEnt(nil), rest[:k]...), rest[k+1:]...)
				}
			}
		}
		return it
	case string, *SymStr:
		return &strIter{v: v, bs: in.strBytes(v)}
	}
	in.unsupported("range over %T", v)
	return nil
}

func (in *Interp) iterNext(v Value, x *ssa.Next) Value {
	c := in.c
	switch it := v.(type) {
	case *mapIter:
		for it.i < len(it.ents) {
			e := it.ents[it.i]
			it.i++
			if e.dead {
				continue
			}
			return Tuple{c.True, e.k, in.copyVal(e.cell.v)}
		}
		tt := x.Type().(*types.Tuple)
		z := func(t types.Type) Value {
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
				return c.False
			}
			return in.zero(t)
		}
		return Tuple{c.False, z(tt.At(1).Type()), z(tt.At(2).Type())}
	case *strIter:
		if it.i >= len(it.bs) {
			return Tuple{c.False, c.Int(0), c.BV(0, 32)}
		}
		i := it.i
		b := it.bs[i]
		if b.isConst() && b.val >= 0x80 || !b.isConst() && !in.branch(c.Ult(b, c.BV(0x80, 8))) {
			// decode: concretize up to 4 bytes
			var buf []byte
			for j := i; j < len(it.bs) && j < i+4; j++ {
				buf = append(buf, byte(in.concretize(it.bs[j], "utf8")))
			}
			for k, r := range string(buf) {
				if k == 0 {
					n := len(string(r))
					if r == 0xfffd && !(len(buf) >= 3 && buf[0] == 0xef && buf[1] == 0xbf && buf[2] == 0xbd) {
						n = 1
					}
					it.i += n
					return Tuple{c.True, c.Int(int64(i)), c.BV(uint64(uint32(r)), 32)}
				}
			}
		}
		it.i++
		return Tuple{c.True, c.Int(int64(i)), c.Zext(b, 32)}
	}
	in.unsupported("next %T", v)
	return nil
}

func (in *Interp) implements(t types.Type, i *types.Interface) bool {
	k := implKey{t, i}
	if v, ok := in.implc[k]; ok {
		return v
	}
	var r bool
	if t == rtErrType {
		r = i.NumMethods() == 0 || (i.NumMethods() <= 2 && i.Method(0).Name() == "Error")
	} else {
		r = types.Implements(t, i)
	}
	in.implc[k] = r
	return r
}

func (in *Interp) typeAssert(x *ssa.TypeAssert, v Value) Value {
	i, ok := v.(Iface)
	if !ok {
		in.unsupported("type assert on %T", v)
	}
	var res Value
	good := false
	if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		if i.t != nil && in.implements(i.t, it) {
			good = true
			res = i
		}
	} else if i.t != nil && types.Identical(i.t, x.AssertedType) {
		good = true
		res = i.v
	}
	if !good {
		if !x.CommaOk {
			in.rtPanic(fmt.Sprintf("interface conversion: %v is not %s", i.t, x.AssertedType))
		}
		return Tuple{in.zero(x.AssertedType), in.c.False}
	}
	if x.CommaOk {
		return Tuple{res, in.c.True}
	}
	return res
}

// ---- calls ----

func (in *Interp) findMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	if f, ok := in.methods[k]; ok {
		return f
	}
	in.p.buildMu.Lock()
	f := in.p.prog.LookupMethod(t, m.Pkg(), m.Name())
	in.p.buildMu.Unlock()
	in.methods[k] = f
	return f
}

func (in *Interp) callMethod(caller *Frame, recv Iface, name string, args ...Value) (Value, bool) {
	if recv.t == rtErrType {
		if name == "Error" {
			return recv.v, true
		}
		return nil, false
	}
	in.p.buildMu.Lock()
	ms := in.p.prog.MethodSets.MethodSet(recv.t)
	in.p.buildMu.Unlock()
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			in.p.buildMu.Lock()
			f := in.p.prog.MethodValue(ms.At(i))
			in.p.buildMu.Unlock()
			if f == nil {
				return nil, false
			}
			return in.call(caller, &Func{fn: f}, append([]Value{recv.v}, args...)), true
		}
	}
	return nil, false
}

func (in *Interp) prepCall(fr *Frame, cc *ssa.CallCommon) (*Func, *ssa.Builtin, []Value) {
	if cc.IsInvoke() {
		r, ok := in.get(fr, cc.Value).(Iface)
		if !ok {
			in.unsupported("invoke on %T", in.get(fr, cc.Value))
		}
		if r.t == nil {
			in.rtPanic("invalid memory address or nil pointer dereference (nil interface)")
		}
		args := []Value{r.v}
		for _, a := range cc.Args {
			args = append(args, in.get(fr, a))
		}
		if r.t == rtErrType {
			msg := r.v
			return &Func{native: func(in *Interp, _ []Value) Value { return msg }}, nil, args
		}
		f := in.findMethod(r.t, cc.Method)
		if f == nil {
			in.unsupported("method %s of %s", cc.Method, r.t)
		}
		return &Func{fn: f}, nil, args
	}
	args := make([]Value, 0, len(cc.Args))
	for _, a := range cc.Args {
		args = append(args, in.get(fr, a))
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		return nil, f, args
	case *ssa.Function:
		return &Func{fn: f}, nil, args
	}
	fv, ok := in.get(fr, cc.Value).(*Func)
	if !ok {
		in.unsupported("call of %T", in.get(fr, cc.Value))
	}
	return fv, nil, args
}

func (in *Interp) doCall(fr *Frame, cc *ssa.CallCommon) Value {
	f, b, args := in.prepCall(fr, cc)
	if b != nil {
		return in.callBuiltin(fr, b, args, cc)
	}
	for _, a := range args {
		if p, ok := a.(Poison); ok {
			in.unsupported("poisoned argument: %s", p.why)
		}
	}
	return in.call(fr, f, args)
}

func (in *Interp) callBuiltin(fr *Frame, b *ssa.Builtin, args []Value, cc *ssa.CallCommon) Value {
	c := in.c
	switch b.Name() {
	case "len", "cap":
		switch x := args[0].(type) {
		case string, *SymStr:
			return in.strLen(x)
		case Slice:
			if b.Name() == "len" {
				return in.slLen(x)
			}
			return in.slCap(x)
		case *Map:
			in.mapAccess(x, false)
			if x == nil {
				return c.Int(0)
			}
			return c.Int(int64(x.n))
		case *Chan:
			if x == nil {
				return c.Int(0)
			}
			if b.Name() == "cap" {
				return c.Int(int64(x.cap))
			}
			return c.Int(int64(len(x.buf)))
		case *Arr:
			return x.n
		case Ptr:
			at := cc.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			return c.Int(at.Len())
		}
	case "append":
		return in.doAppend(args, cc)
	case "copy":
		return in.doCopy(args)
	case "delete":
		m, _ := args[0].(*Map)
		in.mapAccess(m, true)
		if m != nil {
			in.mapDelete(m, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				for _, e := range x.ents {
					e.dead = true
				}
				*x = Map{}
			}
			return nil
		}
	case "close":
		in.chanClose(args[0].(*Chan))
		return nil
	case "print", "println":
		return nil
	case "recover":
		// fr is the frame of the deferred function
		f := fr.caller
		if f != nil && f.panicking {
			f.panicking = false
			v := f.panicV
			f.panicV = nil
			if i, ok := v.(Iface); ok {
				return i
			}
			return Iface{}
		}
		return Iface{}
	case "min", "max":
		r := args[0]
		for _, y := range args[1:] {
			switch a := r.(type) {
			case *Term:
				t := cc.Args[0].Type()
				yb := y.(*Term)
				var lt *Term
				if isSigned(t) {
					lt = c.Slt(yb, a)
				} else {
					lt = c.Ult(yb, a)
				}
				if b.Name() == "max" {
					if isSigned(t) {
						lt = c.Slt(a, yb)
					} else {
						lt = c.Ult(a, yb)
					}
				}
				r = c.Ite(lt, yb, a)
			case float64:
				if b.Name() == "min" {
					r = math.Min(a, y.(float64))
				} else {
					r = math.Max(a, y.(float64))
				}
			default:
				in.unsupported("min/max of %T", r)
			}
		}
		return r
	case "panic":
		panic(goPanic{args[0]})
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.isNil() {
			in.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "StringData":
		m, off := in.strMem(args[0])
		n := in.strLen(args[0])
		if s, ok := args[0].(*SymStr); ok && s.live != nil {
			return Ptr{a: s.live, i: s.off}
		}
		return Ptr{a: &Arr{elem: types.Typ[types.Uint8], w: 8, n: c.Add(off, n), mem: m.freeze()}, i: off}
	case "SliceData":
		s := args[0].(Slice)
		if s.a == nil {
			return Ptr{}
		}
		if s.a.w == nonScalar {
			if len(s.a.cells) == 0 {
				return Ptr{c: &Cell{}}
			}
			return Ptr{c: &s.a.cells[in.concIdx(s.off, len(s.a.cells))]}
		}
		return Ptr{a: s.a, i: s.off}
	case "String":
		p := args[0].(Ptr)
		n := args[1].(*Term)
		if p.a == nil {
			return ""
		}
		return &SymStr{live: p.a, off: p.i, len: n}
	case "Slice":
		p := args[0].(Ptr)
		n := in.idx64(args[1].(*Term), cc.Args[1].Type())
		if p.a == nil {
			if p.c == nil {
				return Slice{}
			}
			in.unsupported("unsafe.Slice of cells")
		}
		return Slice{a: p.a, off: p.i, len: n, cap: n}
	}
	in.unsupported("builtin %s(%T)", b.Name(), args[0])
	return nil
}

func (in *Interp) doAppend(args []Value, cc *ssa.CallCommon) Value {
	c := in.c
	s := args[0].(Slice)
	if len(args) == 1 {
		return s
	}
	var elem types.Type
	if cc != nil {
		elem = cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	} else if s.a != nil {
		elem = s.a.elem
	}
	var srcN *Term
	var src Slice
	var strv Value
	switch y := args[1].(type) {
	case Slice:
		src = y
		srcN = in.slLen(y)
	case string, *SymStr:
		strv = y
		srcN = in.strLen(y)
	}
	if srcN.isConst() && srcN.val == 0 {
		return s
	}
	n := in.slLen(s)
	newLen := c.Add(n, srcN)
	w := scalarWidth(elem)
	if w == nonScalar || w == 0 {
		if !n.isConst() {
			n = c.Int(in.concretize(n, "append len"))
		}
		if !srcN.isConst() {
			srcN = c.Int(in.concretize(srcN, "append len"))
		}
		newLen = c.Add(n, srcN)
	}
	fits := false
	if s.a != nil {
		fits = in.branch(c.Sle(newLen, s.cap))
	}
	dst := s
	if !fits {
		var cp *Term
		if newLen.isConst() {
			k := newLen.val
			if n.isConst() && 2*n.val > k {
				k = 2 * n.val
			}
			// capacity rounding of the runtime is unspecified; a small spare capacity is used
			if k == 1 && w == nonScalar {
				k = 1
			}
			cp = c.Int(int64(k))
		} else {
			cp = newLen
		}
		a := in.newArr(elem, cp)
		dst = Slice{a: a, off: c.Int(0), len: n, cap: cp}
		if s.a != nil {
			in.copyElems(a, c.Int(0), s, n)
		}
	}
	if src.a != nil {
		in.copyElems(dst.a, c.Add(dst.off, n), src, srcN)
	} else if strv != nil {
		m, off := in.strMem(strv)
		in.arrCopy(dst.a, c.Add(dst.off, n), m, off, srcN)
	}
	return Slice{a: dst.a, off: dst.off, len: newLen, cap: dst.cap}
}

func (in *Interp) copyElems(dst *Arr, at *Term, src Slice, n *Term) {
	in.checkAlive(dst)
	in.checkAlive(src.a)
	in.accessArr(dst, true)
	in.accessArr(src.a, false)
	if dst.w == nonScalar {
		k := int(in.concretize(n, "copy len"))
		d := int(in.concretize(at, "copy dst"))
		s := int(in.concretize(src.off, "copy src"))
		tmp := make([]Value, k)
		for i := 0; i < k; i++ {
			tmp[i] = in.copyVal(src.a.cells[s+i].v)
		}
		for i := 0; i < k; i++ {
			in.assign(&dst.cells[d+i], tmp[i])
		}
		return
	}
	if n.isConst() && src.off.isConst() && at.isConst() && src.a.dense != nil && dst.dense != nil {
		copy(dst.dense[at.val:at.val+n.val], src.a.dense[src.off.val:src.off.val+n.val])
		return
	}
	in.arrCopy(dst, at, in.snapshot(src.a), src.off, n)
}

func (in *Interp) doCopy(args []Value) Value {
	c := in.c
	d := args[0].(Slice)
	var n *Term
	dl := in.slLen(d)
	switch y := args[1].(type) {
	case Slice:
		n = c.Ite(c.Slt(in.slLen(y), dl), in.slLen(y), dl)
		if !n.isConst() {
			// prefer a decided minimum
			switch in.decide(c.Sle(in.slLen(y), dl)) {
			case 1:
				n = in.slLen(y)
			case 0:
				n = dl
			}
		}
		if n.isConst() && n.val == 0 || d.a == nil || y.a == nil {
			return c.Int(0)
		}
		in.copyElems(d.a, d.off, y, n)
	case string, *SymStr:
		sl := in.strLen(y)
		n = c.Ite(c.Slt(sl, dl), sl, dl)
		if d.a == nil {
			return c.Int(0)
		}
		m, off := in.strMem(y)
		in.arrCopy(d.a, d.off, m, off, n)
	}
	return n
}
