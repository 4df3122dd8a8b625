package timeout

import (
	"sync"
	"time"

	"github.com/solarisdb/solaris/golibs/verifsym"
)

// tmCall is one scheduled call
type tmCall struct {
	at       time.Time // not before
	fu       Future
	ran      int
	canceled bool // before it was due
}

type tmWorld struct {
	mu    sync.Mutex
	calls []*tmCall
	ranCh chan bool
	late  time.Duration // a call may be so much late
	slow  bool          // time passes while goroutines run
}

func newTmWorld(late time.Duration) *tmWorld {
	verifsym.ClockTick(1)
	return &tmWorld{late: late, ranCh: make(chan bool, 100)}
}

// call schedules a call
func (w *tmWorld) call(d time.Duration, f func()) *tmCall {
	c := &tmCall{at: time.Now().Add(d)}
	w.mu.Lock()
	w.calls = append(w.calls, c)
	w.mu.Unlock()
	c.fu = Call(func() {
		now := time.Now()
		w.mu.Lock()
		verifsym.Assert(!now.Before(c.at), "timeout: a call is not made before its time")
		verifsym.Assert(w.slow || now.Before(c.at.Add(w.late)), "timeout: a call is made in time")
		verifsym.Assert(!c.canceled, "timeout: a cancelled call is not made")
		c.ran++
		verifsym.Assert(c.ran == 1, "timeout: a call is made once")
		w.mu.Unlock()
		if f != nil {
			f()
		}
		w.ranCh <- true
	}, d)
	return c
}

// cancel cancels the call, certain is whether it was not due yet
func (w *tmWorld) cancel(c *tmCall) {
	c.fu.Cancel()
	w.mu.Lock()
	if c.ran == 0 && time.Now().Before(c.at) {
		c.canceled = true
	}
	w.mu.Unlock()
}

// end waits for all the calls which must be made
func (w *tmWorld) end(maybe int) {
	verifsym.Schedule(0)
	w.mu.Lock()
	last, want, ran := time.Now(), 0, 0
	for _, c := range w.calls {
		if !c.canceled {
			want++
			if c.at.After(last) {
				last = c.at
			}
		}
	}
	w.mu.Unlock()
	late := time.After(time.Until(last) + w.late)
	for ran < want {
		select {
		case <-w.ranCh:
			ran++
		case <-late:
			verifsym.Assert(ran+maybe >= want, "timeout: every call which is not cancelled is made in time")
			ran = want
		}
	}
	// none is made again
	select {
	case <-w.ranCh:
		verifsym.Fail("timeout: a call too many")
	case <-time.After(5 * time.Millisecond):
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, c := range w.calls {
		verifsym.Assert(c.ran <= 1 && (c.ran == 0 || !c.canceled), "timeout: every call is made at most once, a cancelled one never")
	}
	verifsym.Reach("end")
}

const ms = time.Millisecond

// 4 calls at any multiples of 20 ms up to 1 s, all in this order or not, made by one goroutine, and any one of them or none cancelled after any such time: each of the others is made once, not before its time and not 300 ms later, the one cancelled in time is never made
//
//sym:harness prop=C24 budget=80s reach=end,cancelled validate=2
func HOrder() { tmOrder(4) }

// as HOrder with 5 calls
//
//sym:harness prop=C24 tier=thorough budget=1200s reach=end,cancelled validate=2
func HOrderDeep() { tmOrder(5) }

func tmOrder(n int) {
	w := newTmWorld(300 * ms)
	for i := 0; i < n; i++ {
		w.call(time.Duration(verifsym.Int64("delay"+string(rune('0'+i)), 0, 50))*20*ms, nil)
	}
	maybe := 0
	if k := verifsym.Choose("cancel", n+1); k < n {
		if verifsym.Choose("later", 2) == 1 {
			time.Sleep(time.Duration(verifsym.Int64("after", 1, 50))*20*ms - 10*ms)
		}
		c := w.calls[k]
		w.cancel(c)
		if c.canceled {
			verifsym.Reach("cancelled")
		} else {
			maybe = 1
		}
		c.fu.Cancel()
	}
	w.end(maybe)
}

// 1 or 2 calls in 0..100 ms are made, and all have run; then 3 more in 0..200 ms are made, and one of the first ones is cancelled before, between or after them (which changes nothing): each of the calls is made once and in time
//
//sym:harness prop=C24 budget=60s reach=end validate=2
func HAgain() {
	w := newTmWorld(300 * ms)
	n := 1 + verifsym.Choose("calls", 2)
	for i := 0; i < n; i++ {
		w.call(time.Duration(verifsym.Int64("delay"+string(rune('0'+i)), 0, 5))*20*ms, nil)
	}
	time.Sleep(500 * ms)
	old := w.calls[verifsym.Choose("old", n)]
	when := verifsym.Choose("when", 4)
	for i := 0; i < 3; i++ {
		if when == i {
			old.fu.Cancel()
		}
		w.call(time.Duration(verifsym.Int64("again"+string(rune('0'+i)), 0, 10))*20*ms, nil)
	}
	if when == 3 {
		old.fu.Cancel()
	}
	w.end(0)
}

// 2 goroutines: the first one makes a call in 0 or 10 ms and one in 20 ms, the second one makes one in 0, 10 or 30 ms and cancels it at once, later or never; every schedule with up to 1 preemption, time may pass at any point
//
//sym:harness prop=C24 budget=60s reach=end repeat=300 validate=2
func HConc() { tmConc(1) }

// as HConc with up to 2 preemptions
//
//sym:harness prop=C24 tier=thorough budget=600s reach=end repeat=300 validate=2
func HConcDeep() { tmConc(2) }

func tmConc(preempt int) {
	w := newTmWorld(400 * ms)
	d0 := time.Duration(10*verifsym.Choose("d0", 2)) * ms
	d1 := time.Duration(10*verifsym.Choose("d1", 3)) * ms
	if d1 == 20*ms {
		d1 = 30 * ms
	}
	how := verifsym.Choose("cancel", 3)
	maybe := 0
	w.slow = true
	verifsym.TimePasses()
	verifsym.Schedule(preempt)
	verifsym.Parallel(
		func() {
			w.call(d0, nil)
			w.call(20*ms, nil)
		},
		func() {
			verifsym.Pause()
			c := w.call(d1, nil)
			if how == 1 {
				time.Sleep(15 * ms)
			}
			if how > 0 {
				w.cancel(c)
				if !c.canceled {
					maybe = 1
				}
			}
		})
	w.end(maybe)
}

// 2 calls become due while a third one runs; then the first one made ends only when the second one has ended, or the other way round
//
//sym:harness prop=C24 budget=30s reach=end validate=0
func HBoth() {
	w := newTmWorld(400 * ms)
	first := verifsym.Choose("first", 2)
	gate := make(chan bool)
	w.call(0, func() { time.Sleep(40 * ms) })
	for i := 0; i < 2; i++ {
		if i == first {
			w.call(10*ms, func() { <-gate })
		} else {
			w.call(10*ms, func() { close(gate) })
		}
	}
	w.end(0)
}

// a call which runs until another one has run, which becomes due later
//
//sym:harness prop=C24 budget=30s validate=0
func HLater() {
	w := newTmWorld(400 * ms)
	gate := make(chan bool)
	done := make(chan bool)
	w.call(10*ms, func() {
		select {
		case <-gate:
		case <-time.After(300 * ms):
			verifsym.Fail("timeout: a call which becomes due while another one runs is kept waiting by it")
		}
		close(done)
	})
	w.call(30*ms, func() { close(gate) })
	<-done
	w.end(0)
}

// 3 calls 0 to 40 s ahead, so that the workers, which end when they are idle for 30 s, have ended before them or not, the last one made after 0 to 70 s: each is made once and in time
//
//sym:harness prop=C24 budget=60s reach=end validate=0 timeout=200s
func HIdle() {
	w := newTmWorld(2 * time.Second)
	far := func(n string, max int64) time.Duration { return time.Duration(verifsym.Int64(n, 0, max)) * time.Second }
	w.call(far("d0", 40)+100*ms, nil)
	w.call(far("d1", 40)+200*ms, nil)
	time.Sleep(far("then", 70))
	w.call(far("d2", 40), nil)
	w.end(0)
}
