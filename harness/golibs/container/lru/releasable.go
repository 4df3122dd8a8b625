package lru

import (
	"context"
	"sync"

	"github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/verifsym"
)

// ReleasableCache of 1 or 2 objects, one goroutine: every sequence of 6 steps out of asking for any key (the creation succeeds or fails), releasing any of the objects held and closing; the calls which would wait have an expired context
//
//sym:harness prop=C14 budget=90s reach=end,hit,full,evict,failed,closed
func HRelSeq() { relSeq(6) }

// as HRelSeq with 8 steps
//
//sym:harness prop=C14 tier=thorough budget=600s reach=end,hit,full,evict,failed,closed
func HRelSeqDeep() { relSeq(8) }

func relSeq(steps int) {
	maxSize := 1 + verifsym.Choose("max", 2)
	var ents []*cval // the objects alive
	var idle []*cval // those nobody holds, in the order of their release
	var held []*Releasable[*cval]
	created, fail, closed := 0, false, false
	without := func(l []*cval, v *cval) []*cval {
		var res []*cval
		for _, e := range l {
			if e != v {
				res = append(res, e)
			}
		}
		return res
	}
	find := func(k int) *cval {
		for _, e := range ents {
			if e.k == k {
				return e
			}
		}
		return nil
	}
	c, err := NewReleasableCache[int, *cval](maxSize, func(ctx context.Context, k int) (*cval, error) {
		verifsym.Assert(len(ents) < maxSize, "releasable: never more objects than the maximum")
		created++
		if fail {
			return nil, errors.ErrInternal
		}
		v := &cval{k: k}
		ents = append(ents, v)
		return v, nil
	}, func(k int, v *cval) {
		verifsym.Assert(v != nil && !v.deleted && v.k == k, "releasable: the delete function gets an existing object once and its key")
		verifsym.Assert(v.refs == 0, "releasable: an object which is held is not deleted")
		if !closed {
			verifsym.Assert(len(ents) >= maxSize, "releasable: an object is not deleted while there is room")
			verifsym.Assert(idle[0] == v, "releasable: the object released first is deleted first")
			verifsym.Reach("evict")
		}
		v.deleted = true
		ents, idle = without(ents, v), without(idle, v)
	})
	verifsym.Assert(err == nil, "releasable: new")
	expired, cancel := context.WithCancel(context.Background())
	cancel()
	release := func(i int) {
		rl := held[i]
		held = append(append([]*Releasable[*cval](nil), held[:i]...), held[i+1:]...)
		v := rl.Value()
		v.refs--
		if v.refs == 0 {
			idle = append(idle, v)
		}
		c.Release(rl)
		if closed && v.refs == 0 {
			verifsym.Assert(v.deleted, "releasable: after close an object is deleted when it is released")
		}
	}
	for s := 0; s < steps; s++ {
		n := string(rune('0' + s))
		op := verifsym.Choose("op"+n, 2+len(held))
		switch {
		case op == 0:
			k := verifsym.AnyInt("k" + n)
			v := find(k)
			was, full := created, len(ents) == maxSize && len(idle) == 0
			if v == nil && !full && !closed {
				fail = verifsym.Choose("fail"+n, 2) == 1
			}
			rl, err := c.GetOrCreate(expired, k)
			switch {
			case closed:
				verifsym.Assert(err != nil && errors.Is(err, errors.ErrClosed) && created == was, "releasable: nothing is given after close")
				verifsym.Reach("closed")
			case v != nil:
				verifsym.Assert(err == nil && created == was && rl.Value() == v && !v.deleted, "releasable: a known key gives its object, nothing is made")
				verifsym.Reach("hit")
			case full:
				verifsym.Assert(err != nil && errors.Is(err, context.Canceled) && created == was, "releasable: nothing is made while every object is held")
				verifsym.Reach("full")
			case fail:
				verifsym.Assert(err != nil && created == was+1, "releasable: the error of the creation is returned")
				verifsym.Reach("failed")
			default:
				v = find(k)
				verifsym.Assert(err == nil && created == was+1 && rl.Value() == v, "releasable: an unknown key makes an object once")
			}
			if err == nil {
				v.refs++
				idle = without(idle, v)
				held = append(held, &rl)
			}
		case op == 1:
			was := closed
			closed = true
			err := c.Close()
			verifsym.Assert((err != nil) == was, "releasable: it is closed once")
			verifsym.Assert(len(idle) == 0, "releasable: close deletes the objects nobody holds")
		default:
			release(op - 2)
		}
	}
	for len(held) > 0 {
		release(0)
	}
	if !closed {
		closed = true
		c.Close()
	}
	verifsym.Assert(len(ents) == 0, "releasable: after close and the last release every object is deleted")
	verifsym.Reach("end")
}

type ctxID struct{}

// relWorld is the world of a cache shared by goroutines
type relWorld struct {
	mu     sync.Mutex
	c      *ReleasableCache[int, *cval]
	making map[int]int
	live   int
	max    int
	fail   [4]bool
	closed bool
}

func newRelWorld(max int) *relWorld {
	w := &relWorld{max: max, making: map[int]int{}}
	w.c, _ = NewReleasableCache[int, *cval](max, func(ctx context.Context, k int) (*cval, error) {
		w.mu.Lock()
		verifsym.Assert(w.making[k] == 0, "releasable: an object is made by one at a time")
		w.making[k]++
		w.live++
		verifsym.Assert(w.live <= w.max, "releasable: never more objects than the maximum")
		w.mu.Unlock()
		verifsym.Pause()
		w.mu.Lock()
		defer w.mu.Unlock()
		w.making[k]--
		if w.fail[ctx.Value(ctxID{}).(int)] {
			w.live--
			return nil, errors.ErrInternal
		}
		return &cval{k: k}, nil
	}, func(k int, v *cval) {
		w.mu.Lock()
		defer w.mu.Unlock()
		verifsym.Assert(v != nil && v.k == k && !v.deleted, "releasable: the delete function gets an existing object once")
		verifsym.Assert(v.refs == 0, "releasable: an object which is held is not deleted")
		v.deleted = true
		w.live--
	})
	return w
}

// use takes an object, holds it for a while and gives it back
func (w *relWorld) use(ctx context.Context, i, k int, mayEnd bool) {
	rl, err := w.c.GetOrCreate(context.WithValue(ctx, ctxID{}, i), k)
	if err != nil {
		if errors.Is(err, errors.ErrClosed) {
			verifsym.Assert(w.closed, "releasable: closed only after close")
			verifsym.Reach("refused")
			return
		}
		if errors.Is(err, context.Canceled) {
			verifsym.Assert(mayEnd, "releasable: the wait ends by its context only")
			return
		}
		verifsym.Assert(w.fail[i] && errors.Is(err, errors.ErrInternal), "releasable: only a failed creation is an error")
		return
	}
	w.mu.Lock()
	v := rl.Value()
	v.refs++
	verifsym.Assert(v.k == k && !v.deleted, "releasable: the object given is the one of the key and is alive")
	w.mu.Unlock()
	verifsym.Pause()
	w.mu.Lock()
	verifsym.Assert(!v.deleted, "releasable: an object which is held is not deleted")
	v.refs--
	w.mu.Unlock()
	w.c.Release(&rl)
}

func (w *relWorld) end() {
	verifsym.Assert(w.closed || w.live == w.c.lruCache.Len(), "releasable: every object is in the cache or was deleted")
	w.closed = true
	w.c.Close()
	verifsym.Assert(w.live == 0, "releasable: after close and the last release every object is deleted")
	verifsym.Reach("end")
}

// ReleasableCache of 1 object, 3 goroutines taking and releasing the object of any of 2 keys, any of the creations fails: nobody waits for ever; every schedule with up to 1 preemption
//
//sym:harness prop=C14 budget=70s reach=end repeat=3000
func HRelConc() { relConc(1) }

// as HRelConc with up to 2 preemptions
//
//sym:harness prop=C14 tier=thorough budget=700s reach=end repeat=3000
func HRelConcDeep() { relConc(2) }

func relConc(preempt int) {
	w := newRelWorld(1)
	ks := []int{0, verifsym.Int("key1", 0, 1), verifsym.Int("key2", 0, 1)}
	for i := range ks {
		w.fail[i] = verifsym.Choose("fail"+string(rune('0'+i)), 2) == 1
	}
	verifsym.Schedule(preempt)
	verifsym.Parallel(
		func() { w.use(context.Background(), 0, ks[0], false) },
		func() { verifsym.Pause(); w.use(context.Background(), 1, ks[1], false) },
		func() { verifsym.Pause(); w.use(context.Background(), 2, ks[2], false) })
	w.end()
}

// 2 goroutines taking objects of any of 2 keys from a cache of 1, the first one's creation may fail, the context of the second one is cancelled at any time or not, and a third goroutine closes the cache; every schedule with up to 2 preemptions
//
//sym:harness prop=C14 budget=60s reach=end,refused repeat=3000
func HRelClose() {
	w := newRelWorld(1)
	k1 := verifsym.Int("key1", 0, 1)
	w.fail[0] = verifsym.Choose("fail0", 2) == 1
	cancels := verifsym.Choose("cancels", 2) == 1
	ctx, cancel := context.WithCancel(context.Background())
	verifsym.Schedule(2)
	verifsym.Parallel(
		func() { w.use(context.Background(), 0, 0, false) },
		func() { verifsym.Pause(); w.use(ctx, 1, k1, cancels) },
		func() {
			verifsym.Pause()
			if cancels {
				cancel()
			}
			w.mu.Lock()
			w.closed = true
			w.mu.Unlock()
			w.c.Close()
		})
	cancel()
	w.end()
}
