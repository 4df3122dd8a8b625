package main

import (
	"fmt"
	"math/rand"
	"os"
	"sort"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Harness struct {
	Name       string
	Prop       string
	Pkg        string
	File       string
	Desc       string
	Budget     time.Duration
	Steps      int64
	Reach      []string
	Tiers      map[string]bool
	NoNative   bool
	Faults     bool
	Repeat     int
	Timeout    time.Duration // of one native replay
	Validate   *int          // at most so many path models are replayed natively
	Race       bool
	AllowPanic bool
	NoMerge    bool
	replace    map[string]*ssa.Function
	fn         *ssa.Function
}

type Violation struct {
	H      *Harness
	Msg    string
	Loc    string
	Inputs map[string]string
	Order  []string
	Sched  []string
	// replay
	Confirmed bool
	Native    string
	Path      string
	Race      bool
}

type Sample struct {
	Inputs map[string]string
	Obs    []string
	Panic  bool
}

type HStats struct {
	Paths, Done, Infeasible, Unsup, StepLim, Dead, Internal int
	Violations                                              []*Violation
	Unknown                                                 int
	UnknownAt                                               map[string]int
	UnsupAt                                                 map[string]int
	Reached                                                 map[string]bool
	Queries, Sat, Unsat, SolverUnknown                      int
	SolverTime                                              time.Duration
	MaxQuery                                                time.Duration
	Asserts, Trivial, Solved                                int
	Decisions                                               int64
	Instr                                                   int64
	MaxDepth                                                int
	Fns                                                     map[string]bool
	Samples                                                 []Sample
	nSample                                                 int
	Wall                                                    time.Duration
	Exhausted                                               bool
	Incomplete                                              string
	Cert                                                    certificate
}

type item struct {
	prefix []uint64
	cps    []cp
}

type Explorer struct {
	p          *Prog
	mu         sync.Mutex
	cond       *sync.Cond
	stack      []item
	active     int
	stop       bool
	h          *Harness
	st         *HStats
	deadline   time.Time
	workers    int
	rnd        *rand.Rand
	maxSamples int
	seenViol   map[string]int
}

func (ex *Explorer) push(h *Harness, prefix []uint64, cps []cp) {
	ex.mu.Lock()
	ex.stack = append(ex.stack, item{prefix, cps})
	ex.cond.Signal()
	ex.mu.Unlock()
}

func (ex *Explorer) noteUnknown(h *Harness, where string) {
	ex.mu.Lock()
	ex.st.Unknown++
	ex.st.UnknownAt[where]++
	ex.mu.Unlock()
}

type worker struct {
	c       *Ctx
	s       *Solver
	consts  map[*ssa.Const]Value
	methods map[methKey]*ssa.Function
	implc   map[implKey]bool
}

func newWorker() *worker {
	w := &worker{}
	w.reset()
	return w
}

func (w *worker) reset() {
	w.c = NewCtx()
	w.consts = map[*ssa.Const]Value{}
	if w.methods == nil {
		w.methods = map[methKey]*ssa.Function{}
		w.implc = map[implKey]bool{}
	}
	if w.s == nil {
		w.s = NewSolver(w.c, solverBin, solverTimeoutMs)
		if f := os.Getenv("GOSYM_SMTLOG"); f != "" {
			o, _ := os.Create(f)
			w.s.log = o
		}
	} else {
		w.s.ctx = w.c
		w.s.NewPath()
	}
}

var solverBin = "z3-new"
var solverTimeoutMs = 20000

func (ex *Explorer) Run(h *Harness, ws []*worker) *HStats {
	start := time.Now()
	ex.h = h
	ex.st = &HStats{UnknownAt: map[string]int{}, UnsupAt: map[string]int{}, Reached: map[string]bool{}, Fns: map[string]bool{}}
	ex.deadline = start.Add(h.Budget)
	ex.stack = []item{{}}
	ex.active = 0
	ex.stop = false
	ex.cond = sync.NewCond(&ex.mu)
	ex.seenViol = map[string]int{}
	var wg sync.WaitGroup
	for _, w := range ws {
		wg.Add(1)
		go func(w *worker) {
			defer wg.Done()
			w.s.nQueries, w.s.nSat, w.s.nUnsat, w.s.nUnknown, w.s.dur, w.s.maxQ = 0, 0, 0, 0, 0, 0
			for {
				ex.mu.Lock()
				for len(ex.stack) == 0 && ex.active > 0 && !ex.stop {
					ex.cond.Wait()
				}
				if ex.stop || len(ex.stack) == 0 {
					ex.cond.Broadcast()
					ex.mu.Unlock()
					break
				}
				it := ex.stack[len(ex.stack)-1]
				ex.stack = ex.stack[:len(ex.stack)-1]
				ex.active++
				ex.mu.Unlock()
				ex.runPath(w, h, it)
				ex.mu.Lock()
				ex.active--
				if time.Now().After(ex.deadline) {
					if len(ex.stack) > 0 || ex.active > 0 {
						ex.st.Incomplete = "time budget exhausted"
					}
					ex.stop = true
				}
				ex.cond.Broadcast()
				ex.mu.Unlock()
			}
			ex.mu.Lock()
			st := ex.st
			st.Queries += w.s.nQueries
			st.Sat += w.s.nSat
			st.Unsat += w.s.nUnsat
			st.SolverUnknown += w.s.nUnknown
			st.SolverTime += w.s.dur
			if w.s.maxQ > st.MaxQuery {
				st.MaxQuery = w.s.maxQ
			}
			ex.mu.Unlock()
		}(w)
	}
	wg.Wait()
	ex.st.Wall = time.Since(start)
	ex.st.Cert.check()
	ex.st.Exhausted = len(ex.stack) == 0 && ex.st.Incomplete == "" && !ex.stop
	return ex.st
}

func (ex *Explorer) runPath(w *worker, h *Harness, it item) {
	if w.c.nextID > 1500000 {
		w.reset()
	}
	w.c.resetBounds()
	w.s.NewPath()
	in := &Interp{p: ex.p, c: w.c, s: w.s, ex: ex, h: h, prefix: it.prefix, cps: append([]cp(nil), it.cps...),
		known: map[*Term]bool{}, decided: map[*Term]int8{}, model: NewModel(),
		globals: map[*ssa.Global]*Cell{}, inited: map[*ssa.Package]int{}, consts: w.consts,
		methods: w.methods, implc: w.implc, reached: map[string]bool{}, nvar: map[string]int{},
		maxSteps: h.Steps, deadline: ex.deadline, finished: make(chan struct{}),
		mutexes: map[*Cell]*mutexSt{}, side: map[any]any{}, fnsUsed: map[*ssa.Function]bool{},
		virtNow: w.c.Int(1700000000 * 1e9), timeOf: map[[2]*Term]*Term{}, clockTick: 1, allowPanic: h.AllowPanic,
	}
	g := in.newG("main")
	in.startG(g, func() { in.runMain(h.fn) })
	in.cur = g
	all := in.gs
	g.wake <- struct{}{}
	<-in.finished
	// stop the remaining goroutines
	in.aborting = true
	all = append(append([]*G(nil), all...), in.gs...)
	seen := map[*G]bool{}
	for _, x := range all {
		if seen[x] {
			continue
		}
		seen[x] = true
		for {
			select {
			case x.wake <- struct{}{}:
			case <-x.exited:
			}
			select {
			case <-x.exited:
			case <-time.After(time.Millisecond):
				continue
			}
			break
		}
	}
	ex.collect(in, h)
}

func (ex *Explorer) samplesOf(h *Harness) int {
	if h.Validate != nil && *h.Validate < ex.maxSamples {
		return *h.Validate
	}
	return ex.maxSamples
}

func (ex *Explorer) collect(in *Interp, h *Harness) {
	r := in.result
	var sample *Sample
	if r.kind == oDone {
		ex.mu.Lock()
		ex.st.nSample++
		n := ex.st.nSample
		max := ex.samplesOf(h)
		take := n <= 3 && n <= max || ex.rnd.Intn(n) < max
		ex.mu.Unlock()
		if take && !h.NoNative && !h.Faults {
			func() {
				defer func() { recover() }()
				in.deadline = time.Now().Add(5 * time.Second)
				in.ensureModel()
				if in.model != nil {
					ins, _ := in.modelInputs(in.model)
					s := &Sample{Inputs: ins, Panic: r.msg == "panic"}
					for _, o := range in.obs {
						s.Obs = append(s.Obs, o.name+"="+in.fmtObs(in.model, o.v))
					}
					sample = s
				}
			}()
		}
	}
	var viol *Violation
	if r.kind == oViolation {
		ins, ord := in.modelInputs(in.lastModel)
		viol = &Violation{H: h, Msg: r.msg, Loc: r.loc, Inputs: ins, Order: ord, Sched: in.schedLog, Race: in.raceOn}
	}
	ex.mu.Lock()
	defer ex.mu.Unlock()
	st := ex.st
	st.Paths++
	st.Decisions += int64(len(in.trace) - len(in.prefix))
	if len(in.trace) > st.MaxDepth {
		st.MaxDepth = len(in.trace)
	}
	st.Instr += in.steps
	st.Asserts += in.stats.asserts
	st.Trivial += in.stats.trivial
	st.Solved += in.stats.solved
	for f := range in.fnsUsed {
		st.Fns[f.String()] = true
	}
	switch r.kind {
	case oDone:
		st.Done++
		st.Cert.add(in)
		for k := range in.reached {
			st.Reached[k] = true
		}
		if sample != nil {
			if len(st.Samples) < ex.samplesOf(h) {
				st.Samples = append(st.Samples, *sample)
			} else {
				st.Samples[ex.rnd.Intn(len(st.Samples))] = *sample
			}
		}
	case oSideDone:
		st.Done++
		st.Cert.add(in)
	case oInfeasible:
		st.Infeasible++
		st.Cert.add(in)
	case oViolation:
		k := viol.Msg + "|" + firstFrame(viol.Loc)
		ex.seenViol[k]++
		if ex.seenViol[k] <= 3 && len(st.Violations) < 12 {
			st.Violations = append(st.Violations, viol)
		}
		if len(st.Violations) >= 12 || ex.seenViol[k] > 40 {
			ex.stop = true
			st.Incomplete = "stopped after violations"
		}
	case oUnsupported:
		st.Unsup++
		st.UnsupAt[r.msg+" @ "+r.loc]++
	case oSteps:
		st.StepLim++
		st.UnsupAt[r.msg+" @ "+r.loc]++
	case oDeadline:
		st.Dead++
		st.Incomplete = "time budget exhausted"
	default:
		st.Internal++
		st.UnsupAt["internal: "+r.msg]++
	}
}

func firstFrame(loc string) string {
	for i := 0; i < len(loc); i++ {
		if loc[i] == ' ' {
			return loc[:i]
		}
	}
	return loc
}

func (in *Interp) modelInputs(m *Model) (map[string]string, []string) {
	out := map[string]string{}
	var order []string
	cnt := map[string]int{}
	for _, x := range in.inputs {
		k := fmt.Sprintf("%s#%d", x.Name, cnt[x.Name])
		cnt[x.Name]++
		order = append(order, k)
		switch x.Kind {
		case "int":
			out[k] = fmt.Sprint(sx(m.eval(x.T), x.T.w))
		case "uint":
			out[k] = fmt.Sprint(m.eval(x.T))
		case "bool":
			out[k] = fmt.Sprint(m.eval(x.T) == 1)
		case "bytes":
			n := int(m.eval(x.T))
			if x.Bytes != nil {
				b := make([]byte, len(x.Bytes))
				for i, t := range x.Bytes {
					b[i] = byte(m.eval(t))
				}
				out[k] = fmt.Sprintf("%x", b)
				continue
			}
			// sparse content: only as many bytes as needed
			mx := -1
			for i := range m.apps[x.Mem] {
				if int(i) < n && int(i) > mx {
					mx = int(i)
				}
			}
			if mx > 1<<24 {
				mx = 1 << 24
			}
			b := make([]byte, mx+1)
			for i, v := range m.apps[x.Mem] {
				if int(i) <= mx && i < uint64(n) {
					b[i] = byte(v)
				}
			}
			out[k] = fmt.Sprintf("%x", b)
		}
	}
	return out, order
}

func (in *Interp) fmtObs(m *Model, v Value) string {
	i, ok := v.(Iface)
	if !ok {
		return "?"
	}
	if i.t == nil {
		return "nil"
	}
	hexTerms := func(ts []*Term) string {
		b := make([]byte, len(ts))
		for i, t := range ts {
			b[i] = byte(m.eval(t))
		}
		return fmt.Sprintf("s:%x", b)
	}
	switch x := i.v.(type) {
	case *Term:
		if x.w == 0 {
			return fmt.Sprint(m.eval(x) == 1)
		}
		if isSigned(i.t) {
			return fmt.Sprint(sx(m.eval(x), x.w))
		}
		return fmt.Sprint(m.eval(x))
	case string:
		return fmt.Sprintf("s:%x", x)
	case *SymStr:
		mm, off := in.strMem(x)
		n := int(m.eval(x.len))
		o := m.eval(off)
		var ts []*Term
		in.spec++
		for k := 0; k < n; k++ {
			ts = append(ts, in.memRead(mm, in.c.Int(int64(o)+int64(k))))
		}
		in.spec--
		return hexTerms(ts)
	case Slice:
		if x.a == nil {
			return "s:"
		}
		if x.a.w == 8 {
			n := int(m.eval(x.len))
			o := int64(m.eval(x.off))
			sn := in.snapshot(x.a)
			var ts []*Term
			in.spec++
			for k := 0; k < n; k++ {
				ts = append(ts, in.memRead(sn, in.c.Int(o+int64(k))))
			}
			in.spec--
			return hexTerms(ts)
		}
	case *Arr:
		if x.w == 8 && x.dense != nil {
			return hexTerms(x.dense)
		}
	}
	if in.hasMethod(i.t, "Error") {
		return "err"
	}
	return "?"
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
