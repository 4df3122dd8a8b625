package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type vclock []int32

func (a vclock) join(b vclock) vclock {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, v := range b {
		if v > a[i] {
			a[i] = v
		}
	}
	return a
}
func (a vclock) at(i int) int32 {
	if i < len(a) {
		return a[i]
	}
	return 0
}

type raceInfo struct {
	wg  int
	wc  int32
	wp  string
	rds map[int]int32
}

type G struct {
	id     int
	name   string
	top    *Frame
	wake   chan struct{}
	wait   func() bool // nil: runnable
	what   string
	done   bool
	vc     vclock
	exited chan struct{}
	depth  int
	recvOn []*Chan
}

type timer struct {
	when   *Term
	seq    int
	fn     func()
	active bool
}

type mutexSt struct {
	locked  bool
	readers int
	wwait   int
	vc, rvc vclock
}

type waitQ struct{ items []*bool }

type chItem struct {
	v     Value
	taken bool
	g     *G
	vc    vclock
}

type Chan struct {
	cap    int
	elem   types.Type
	buf    []chItem
	sendq  []*chItem
	closed bool
	rwait  int
	vc     vclock // close / recv clock
}

func (in *Interp) tick() {
	g := in.cur
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}
func (in *Interp) acquire(v vclock) { in.cur.vc = in.cur.vc.join(v) }
func (in *Interp) release(v *vclock) {
	*v = append(vclock(nil), *v...).join(in.cur.vc)
	in.tick()
}

// access records a memory access for the happens-before race check.
func (in *Interp) access(p Ptr, write bool) {
	if !in.raceOn || len(in.gs) < 2 || p.c == nil {
		return
	}
	in.accessCell(p.c, write)
}

func (in *Interp) accessCell(c *Cell, write bool) {
	if s, ok := c.v.(*Struct); ok {
		for i := range s.f {
			in.accessCell(&s.f[i], write)
		}
		return
	}
	if c.rw == nil {
		c.rw = &raceInfo{wg: -1}
	}
	in.raceCheck(c.rw, write)
}

func (in *Interp) accessArr(a *Arr, write bool) {}

func (in *Interp) mapAccess(m *Map, write bool) {
	if !in.raceOn || m == nil || len(in.gs) < 2 {
		return
	}
	if m.rw == nil {
		m.rw = &raceInfo{wg: -1}
	}
	in.raceCheck(m.rw, write)
}

func (in *Interp) raceCheck(r *raceInfo, write bool) {
	if in.initDepth > 0 {
		return
	}
	g := in.cur
	if r.wg >= 0 && r.wg != g.id && r.wc > g.vc.at(r.wg) {
		in.violate(fmt.Sprintf("data race: conflicting access, previous write at %s", r.wp), nil)
	}
	if write {
		for id, ck := range r.rds {
			if id != g.id && ck > g.vc.at(id) {
				in.violate("data race: write concurrent with a read", nil)
			}
		}
		r.wg, r.wc = g.id, g.vc.at(g.id)
		r.rds = nil
		if g.top != nil {
			r.wp = g.top.fn.Name()
		}
		return
	}
	if r.rds == nil {
		r.rds = map[int]int32{}
	}
	r.rds[g.id] = g.vc.at(g.id)
}

// ---- goroutines ----

func (in *Interp) newG(name string) *G {
	g := &G{id: in.nextG, name: name, wake: make(chan struct{}, 1), exited: make(chan struct{})}
	in.nextG++
	g.vc = make(vclock, g.id+1)
	g.vc[g.id] = 1
	in.gs = append(in.gs, g)
	return g
}

func (in *Interp) startG(g *G, body func()) {
	go func() {
		defer close(g.exited)
		<-g.wake
		defer func() {
			r := recover()
			if r != nil {
				in.endByPanic(g, r)
				return
			}
		}()
		if in.aborting {
			return
		}
		body()
		g.done = true
		g.top = nil
		if g.id == 0 {
			in.finish(&pathEnd{kind: oDone})
			return
		}
		in.removeG(g)
		in.lastID = g.id
		in.scheduleNext(nil)
	}()
}

func (in *Interp) removeG(g *G) {
	for i, x := range in.gs {
		if x == g {
			in.gs = append(in.gs[:i:i], in.gs[i+1:]...)
			return
		}
	}
}

func (in *Interp) finish(e *pathEnd) {
	if in.result == nil {
		in.result = e
		close(in.finished)
	}
}

func (in *Interp) endByPanic(g *G, r any) {
	switch x := r.(type) {
	case *pathEnd:
		in.finish(x)
	case goPanic:
		if in.allowPanic && g.id == 0 {
			in.finish(&pathEnd{kind: oDone, msg: "panic"})
			return
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if e, ok := r.(*pathEnd); ok {
						in.finish(e)
						return
					}
					in.finish(&pathEnd{kind: oInternal, msg: fmt.Sprint(r)})
				}
			}()
			in.violate("panic: "+in.panicText(x.v), nil)
		}()
	case abortG:
	default:
		in.finish(&pathEnd{kind: oInternal, msg: fmt.Sprintf("%v @ %s\n%s", r, in.where(), stack())})
	}
}

type abortG struct{}

func (in *Interp) panicText(v Value) string {
	i, ok := v.(Iface)
	if !ok || i.t == nil {
		return fmt.Sprint(v)
	}
	switch x := i.v.(type) {
	case string:
		return x
	}
	return i.t.String()
}

func (in *Interp) spawn(f *Func, args []Value, fr *Frame) {
	in.tick()
	name := "g"
	if f.fn != nil {
		name = f.fn.Name()
	}
	g := in.newG(fmt.Sprintf("%s#%d", name, in.nextG))
	g.vc = g.vc.join(in.cur.vc)
	in.tick()
	in.startG(g, func() { in.call(nil, f, args) })
	in.yield("go")
}

func (g *G) runnable() bool { return !g.done && (g.wait == nil || g.wait()) }

func (in *Interp) runnables() []*G {
	var rs []*G
	for _, g := range in.gs {
		if g.runnable() {
			rs = append(rs, g)
		}
	}
	return rs
}

func (in *Interp) switchTo(g *G) {
	me := in.cur
	if g == me {
		return
	}
	if me != nil {
		me.depth = in.depth
	}
	in.cur = g
	in.depth = g.depth
	g.wake <- struct{}{}
}

func (in *Interp) park(g *G) {
	<-g.wake
	if in.aborting {
		panic(abortG{})
	}
}

func (in *Interp) inOneStep(f *Frame) bool {
	return f.fn.Pkg != nil && in.p.oneStep[f.fn.Pkg.Pkg.Path()]
}

// yield is a scheduling point of the current goroutine.
func (in *Interp) yield(what string) {
	if in.spec > 0 {
		panic(specAbort{})
	}
	if !in.schedOn || len(in.gs) < 2 && !in.timePasses || in.initDepth > 0 {
		return
	}
	if in.preempt <= 0 {
		return
	}
	me := in.cur
	if what == "lock" || what == "atomic" {
		// what package context and the logger do inside is one step
		if f := me.top; f != nil && in.inOneStep(f) && (f.caller == nil || in.inOneStep(f.caller)) {
			return
		}
	}
	rs := in.runnables()
	passes := 0
	if in.timePasses && in.hasTimer() {
		passes = 1
	}
	if len(rs)+passes < 2 {
		return
	}
	// current first
	sort.SliceStable(rs, func(i, j int) bool { return rs[i] == me && rs[j] != me })
	k := in.choose(len(rs) + passes)
	if k == 0 {
		return
	}
	in.preempt--
	if k == len(rs) {
		// the current goroutine is slow: the next timer is due
		in.schedLog = append(in.schedLog, fmt.Sprintf("%s@%s time passes", me.name, what))
		in.fireTimer()
		return
	}
	in.schedLog = append(in.schedLog, fmt.Sprintf("%s@%s -> %s", me.name, what, rs[k].name))
	in.switchTo(rs[k])
	in.park(me)
}

// block waits until cond holds.
func (in *Interp) block(what string, cond func() bool) {
	if in.spec > 0 {
		panic(specAbort{})
	}
	if cond() {
		return
	}
	me := in.cur
	me.wait = cond
	me.what = what
	in.scheduleNext(me)
	me.wait = nil
}

// scheduleNext picks another goroutine; me is parked unless nil (goroutine exits).
func (in *Interp) scheduleNext(me *G) {
	for {
		rs := in.runnables()
		if len(rs) == 0 {
			fired := false
			step := func() {
				fired = in.fireTimer()
				if !fired {
					in.deadlock()
				}
			}
			if me == nil {
				func() {
					defer func() {
						if r := recover(); r != nil {
							if e, ok := r.(*pathEnd); ok {
								in.finish(e)
								return
							}
							panic(r)
						}
					}()
					step()
				}()
				if !fired {
					return
				}
				continue
			}
			step()
			continue
		}
		k := 0
		if in.schedOn && in.delays && len(rs) > 1 {
			// the next one in turn, another one costs a delay
			from := in.lastID
			if me != nil {
				from = me.id
			}
			sort.SliceStable(rs, func(i, j int) bool {
				if (rs[i].id > from) != (rs[j].id > from) {
					return rs[i].id > from
				}
				return rs[i].id < rs[j].id
			})
		}
		if in.schedOn && len(rs) > 1 && (!in.delays || in.preempt > 0) {
			if me == nil {
				var bad any
				func() {
					defer func() { bad = recover() }()
					k = in.choose(len(rs))
				}()
				if bad != nil {
					if e, ok := bad.(*pathEnd); ok {
						in.finish(e)
						return
					}
					panic(bad)
				}
			} else {
				k = in.choose(len(rs))
			}
			if in.delays && k > 0 {
				in.preempt--
			}
		}
		g := rs[k]
		if g == me {
			return
		}
		if me != nil {
			me.depth = in.depth
			in.schedLog = append(in.schedLog, fmt.Sprintf("%s blocked(%s) -> %s", me.name, me.what, g.name))
		}
		in.cur = g
		in.depth = g.depth
		g.wake <- struct{}{}
		if me != nil {
			in.park(me)
		}
		return
	}
}

func (in *Interp) deadlock() {
	s := "deadlock:"
	for _, g := range in.gs {
		if !g.done {
			s += " " + g.name + "(" + g.what + ")"
		}
	}
	in.violate(s, nil)
}

func (in *Interp) hasTimer() bool {
	for _, t := range in.timers {
		if t.active {
			return true
		}
	}
	return false
}

// before decides a < b, on both sides where both are possible
func (in *Interp) before(a, b *Term) bool {
	t := in.c.Slt(a, b)
	if t.isConst() {
		return t.val == 1
	}
	return in.branch(t)
}

// nextTimer is the timer which is due first; of two which are due at once the one made first
func (in *Interp) nextTimer() *timer {
	var best *timer
	for _, t := range in.timers {
		if !t.active {
			continue
		}
		if best == nil || t.seq < best.seq && !in.before(best.when, t.when) || t.seq >= best.seq && in.before(t.when, best.when) {
			best = t
		}
	}
	return best
}

func (in *Interp) fireTimer() bool {
	best := in.nextTimer()
	if best == nil {
		return false
	}
	if in.before(in.c.Int(1700000000*1e9+2*3600*1e9), best.when) {
		// timers go on for ever but nothing else happens
		return false
	}
	best.active = false
	if in.before(in.virtNow, best.when) {
		in.virtNow = best.when
	}
	n := 0
	for _, t := range in.timers {
		if t.active {
			in.timers[n] = t
			n++
		}
	}
	in.timers = in.timers[:n]
	best.fn()
	return true
}

func (in *Interp) addTimer(d *Term, fn func()) *timer {
	when := in.virtNow
	if in.before(in.c.Int(0), d) {
		when = in.c.Add(when, d)
	}
	t := &timer{when: when, seq: int(in.steps), fn: fn, active: true}
	in.timers = append(in.timers, t)
	return t
}

// ---- mutexes ----

func (in *Interp) mu(p Ptr) *mutexSt {
	if p.c == nil {
		in.rtPanic("invalid memory address or nil pointer dereference (mutex)")
	}
	m := in.mutexes[p.c]
	if m == nil {
		m = &mutexSt{}
		in.mutexes[p.c] = m
	}
	return m
}

func (in *Interp) lock(p Ptr) {
	m := in.mu(p)
	in.yield("lock")
	m.wwait++
	in.block("lock", func() bool { return !m.locked && m.readers == 0 })
	m.wwait--
	m.locked = true
	in.acquire(m.vc)
	in.acquire(m.rvc)
}
func (in *Interp) tryLock(p Ptr) bool {
	m := in.mu(p)
	in.yield("trylock")
	if m.locked || m.readers > 0 {
		return false
	}
	m.locked = true
	in.acquire(m.vc)
	in.acquire(m.rvc)
	return true
}
func (in *Interp) unlock(p Ptr) {
	m := in.mu(p)
	if !m.locked {
		in.fault("fatal error: sync: unlock of unlocked mutex")
	}
	m.locked = false
	in.release(&m.vc)
}
func (in *Interp) rlock(p Ptr) {
	m := in.mu(p)
	in.yield("rlock")
	in.block("rlock", func() bool { return !m.locked && m.wwait == 0 })
	m.readers++
	in.acquire(m.vc)
}
func (in *Interp) runlock(p Ptr) {
	m := in.mu(p)
	if m.readers <= 0 {
		in.fault("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	in.release(&m.rvc)
}

// ---- channels ----

func (in *Interp) chanReadyRecv(ch *Chan) bool {
	return ch != nil && (len(ch.buf) > 0 || len(ch.sendq) > 0 || ch.closed)
}
func (in *Interp) chanReadySend(ch *Chan) bool {
	return ch != nil && (ch.closed || len(ch.buf) < ch.cap || ch.rwait > len(ch.sendq) && ch.cap == 0)
}

func (in *Interp) chanTake(ch *Chan) (Value, bool) {
	if len(ch.buf) > 0 {
		it := ch.buf[0]
		ch.buf = append([]chItem(nil), ch.buf[1:]...)
		in.acquire(it.vc)
		in.release(&ch.vc)
		if len(ch.sendq) > 0 {
			s := ch.sendq[0]
			ch.sendq = append([]*chItem(nil), ch.sendq[1:]...)
			ch.buf = append(ch.buf, *s)
			s.taken = true
		}
		return it.v, true
	}
	if len(ch.sendq) > 0 {
		s := ch.sendq[0]
		ch.sendq = append([]*chItem(nil), ch.sendq[1:]...)
		s.taken = true
		in.acquire(s.vc)
		in.release(&ch.vc)
		return s.v, true
	}
	in.acquire(ch.vc)
	return in.zero(ch.elem), false
}

func (in *Interp) chanRecv(ch *Chan, commaOk bool) Value {
	in.yield("recv")
	if ch == nil {
		in.block("recv on nil channel", func() bool { return false })
	}
	if !in.chanReadyRecv(ch) {
		ch.rwait++
		in.block("chan receive", func() bool { return in.chanReadyRecv(ch) })
		ch.rwait--
	}
	v, ok := in.chanTake(ch)
	if commaOk {
		return Tuple{v, in.c.Bool(ok)}
	}
	return v
}

func (in *Interp) chanPut(ch *Chan, v Value) {
	if ch.closed {
		in.plainPanic("send on closed channel")
	}
	it := chItem{v: v, g: in.cur, vc: append(vclock(nil), in.cur.vc...)}
	in.tick()
	if len(ch.buf) < ch.cap {
		ch.buf = append(ch.buf, it)
		in.acquire(ch.vc)
		return
	}
	p := &it
	ch.sendq = append(ch.sendq, p)
	in.block("chan send", func() bool { return p.taken || ch.closed })
	if !p.taken {
		in.plainPanic("send on closed channel")
	}
	in.acquire(ch.vc)
}

func (in *Interp) plainPanic(msg string) {
	panic(goPanic{Iface{t: rtErrType, v: msg}})
}

func (in *Interp) chanSend(ch *Chan, v Value) {
	in.yield("send")
	if ch == nil {
		in.block("send on nil channel", func() bool { return false })
	}
	in.chanPut(ch, v)
}

func (in *Interp) chanClose(ch *Chan) {
	in.yield("close")
	if ch == nil {
		in.plainPanic("close of nil channel")
	}
	if ch.closed {
		in.plainPanic("close of closed channel")
	}
	ch.closed = true
	in.release(&ch.vc)
}

func (in *Interp) doSelect(fr *Frame, x *ssa.Select) Value {
	in.yield("select")
	type st struct {
		ch   *Chan
		send bool
		v    Value
	}
	var sts []st
	for _, s := range x.States {
		ch, _ := in.get(fr, s.Chan).(*Chan)
		e := st{ch: ch, send: s.Dir == types.SendOnly}
		if e.send {
			e.v = in.get(fr, s.Send)
		}
		sts = append(sts, e)
	}
	ready := func() []int {
		var r []int
		for i, s := range sts {
			if s.ch == nil {
				continue
			}
			if s.send && in.chanReadySend(s.ch) || !s.send && in.chanReadyRecv(s.ch) {
				r = append(r, i)
			}
		}
		return r
	}
	rs := ready()
	if len(rs) == 0 && x.Blocking {
		for _, s := range sts {
			if s.ch != nil && !s.send {
				s.ch.rwait++
			}
		}
		in.block("select", func() bool { return len(ready()) > 0 })
		for _, s := range sts {
			if s.ch != nil && !s.send {
				s.ch.rwait--
			}
		}
		rs = ready()
	}
	idx := -1
	recvOk := false
	var rv Value
	if len(rs) > 0 {
		k := 0
		if len(rs) > 1 {
			k = in.choose(len(rs))
		}
		idx = rs[k]
		s := sts[idx]
		if s.send {
			in.chanPut(s.ch, s.v)
		} else {
			rv, recvOk = in.chanTake(s.ch)
		}
	}
	res := Tuple{in.c.Int(int64(idx)), in.c.Bool(recvOk)}
	for i, s := range x.States {
		if s.Dir == types.RecvOnly {
			if i == idx {
				res = append(res, rv)
			} else {
				res = append(res, in.zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
	}
	return res
}
