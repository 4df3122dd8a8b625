//sym:models common_lock.go

package dist

import (
	"context"
	"fmt"
	"sync"
	"time"

	"github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/kvs"
	"github.com/solarisdb/solaris/golibs/kvs/inmem"
	gsync "github.com/solarisdb/solaris/golibs/sync"
	"github.com/solarisdb/solaris/golibs/verifsym"
)

// 3 clients of a lock, the first two with providers of their own over one in-memory store, the third one with a lock object of its own or the one of the first client: each takes the lock (the second one by waiting or by an attempt) and releases it; every schedule with up to 2 delays
//
//sym:harness prop=C23 budget=60s reach=end,busy repeat=3000
func HMutex() { mutex(2) }

// as HMutex with up to 3 delays
//
//sym:harness prop=C23 tier=thorough budget=700s reach=end,busy repeat=3000
func HMutexDeep() { mutex(3) }

func mutex(preempt int) {
	verifsym.RealNewIDs()
	st := inmem.New()
	l0 := NewKvsLockProvider(st, "path/").NewLocker("x")
	p1 := NewKvsLockProvider(st, "path/")
	l1 := p1.NewLocker("x")
	l2 := l0
	if verifsym.Choose("own", 2) == 1 {
		l2 = p1.NewLocker("x")
	}
	try := verifsym.Choose("try", 2) == 1
	c := &section{}
	got := 0
	verifsym.Delays(preempt)
	verifsym.Parallel(
		func() {
			l0.Lock()
			c.enter()
			c.leave()
			l0.Unlock()
		},
		func() {
			verifsym.Pause()
			if try {
				if !l1.TryLock(bg) {
					verifsym.Reach("busy")
					return
				}
			} else {
				verifsym.Assert(l1.LockWithCtx(bg) == nil, "lock: a client gets the lock")
			}
			got = 1
			c.enter()
			c.leave()
			l1.Unlock()
		},
		func() {
			verifsym.Pause()
			verifsym.Assert(l2.LockWithCtx(bg) == nil, "lock: a client gets the lock")
			c.enter()
			c.leave()
			l2.Unlock()
		})
	verifsym.Assert(c.times == 2+got && (try || got == 1), "lock: every client which waits gets the lock")
	free(st, l0, l1, l2)
}

// a client holds a lock, a second one waits for it with the same lock object or one of its own with another provider; the context of the second one is cancelled, its provider is shut down or nothing happens while the first one holds the lock or releases it: it gets the lock exactly if it says so, cancellation and shutdown end its waiting also if the lock is not released; every schedule with up to 2 delays
//
//sym:harness prop=C23 budget=60s reach=end,refused,got repeat=3000
func HCancel() { cancelled(2) }

// as HCancel also with a lock object of its own with the same provider, and with up to 3 delays
//
//sym:harness prop=C23 tier=thorough budget=700s reach=end,refused,got repeat=3000
func HCancelDeep() { cancelled(3) }

func cancelled(preempt int) {
	verifsym.RealNewIDs()
	st := inmem.New()
	p0 := NewKvsLockProvider(st, "path/")
	l0 := p0.NewLocker("x")
	p1, l1 := p0, l0
	own := verifsym.Choose("own", 3)
	verifsym.Assume(own != 2 || preempt > 2)
	switch own {
	case 2:
		l1 = p0.NewLocker("x")
	case 1:
		p1 = NewKvsLockProvider(st, "path/")
		l1 = p1.NewLocker("x")
	}
	how := verifsym.Choose("how", 3)
	ends := verifsym.Choose("release", 2)
	if how == 0 {
		ends = 1
	}
	ctx, cancel := context.WithCancel(bg)
	c := &section{}
	verifsym.Assert(l0.LockWithCtx(bg) == nil, "lock: a client gets the lock")
	c.enter()
	verifsym.Delays(preempt)
	verifsym.Parallel(
		func() {
			verifsym.Pause()
			if ends == 1 {
				c.leave()
				l0.Unlock()
			}
		},
		func() {
			verifsym.Pause()
			switch how {
			case 1:
				cancel()
			case 2:
				p1.Shutdown()
			}
		},
		func() {
			c.mu.Lock()
			over := ctx.Err() != nil
			c.mu.Unlock()
			err := l1.LockWithCtx(ctx)
			if err != nil {
				verifsym.Assert(how > 0, "lock: only cancellation or shutdown keep a client from the lock")
				verifsym.Assert(how != 1 || errors.Is(err, context.Canceled), "lock: the error is that of the context")
				verifsym.Assert(how != 2 || errors.Is(err, errors.ErrClosed), "lock: the error tells about the shutdown")
				verifsym.Reach("refused")
				return
			}
			verifsym.Assert(!over, "lock: a cancelled client does not get the lock")
			verifsym.Reach("got")
			c.enter()
			c.leave()
			l1.Unlock()
		})
	cancel()
	if ends == 0 {
		c.leave()
		l0.Unlock()
	}
	if how == 2 {
		verifsym.Assert(l1.LockWithCtx(bg) != nil && !l1.TryLock(bg), "lock: a client which is shut down does not get the lock")
		free(st)
		return
	}
	free(st, l0, l1)
}

// the record of a lock was left by a client which died, its lease ends in 30 ms: a client which waits, also one which started to wait earlier, gets the lock then, not before
//
//sym:harness prop=C23 budget=30s reach=end repeat=10 validate=2
func HDead() {
	verifsym.RealNewIDs()
	st := inmem.New()
	at := time.Now().Add(30 * time.Millisecond)
	_, err := st.Create(bg, kvs.Record{Key: "path/x", ExpiresAt: &at})
	verifsym.Assert(err == nil, "lock: setup")
	l0 := NewKvsLockProvider(st, "path/").NewLocker("x")
	l1 := NewKvsLockProvider(st, "path/").NewLocker("x")
	verifsym.Assert(!l0.TryLock(bg), "lock: a lock which is held is not given")
	c := &section{}
	verifsym.Delays(2)
	use := func(l gsync.Locker) {
		verifsym.Assert(l.LockWithCtx(bg) == nil, "lock: a client gets the lock")
		verifsym.Assert(!time.Now().Before(at), "lock: a lock is not given while the lease of the holder goes on")
		c.enter()
		c.leave()
		l.Unlock()
	}
	verifsym.Parallel(func() { use(l0) }, func() {
		if verifsym.Choose("later", 2) == 1 {
			time.Sleep(40 * time.Millisecond)
		}
		use(l1)
	})
	free(st, l0, l1)
}

// two clients use one lock object, a third one another; the first one does not get the lock, for its call of the storage fails, or its context ends while it waits for the third one, or it only tries; the second one, which waits for the first one, gets it; up to 2 delays
//
//sym:harness prop=C23 budget=60s reach=end,failed,cancelled,busy repeat=3000
func HGiveUp() { giveUp(2) }

// noCreate fails the first creation of a record
type noCreate struct {
	kvs.Storage
	mu    sync.Mutex
	fails bool
}

func (b *noCreate) Create(ctx context.Context, r kvs.Record) (string, error) {
	b.mu.Lock()
	f := b.fails
	b.fails = false
	b.mu.Unlock()
	if f {
		return "", fmt.Errorf("no connection")
	}
	return b.Storage.Create(ctx, r)
}

func giveUp(preempt int) {
	verifsym.RealNewIDs()
	how := verifsym.Choose("how", 3)
	st := &noCreate{Storage: inmem.New(), fails: how == 0}
	l := NewKvsLockProvider(st, "path/").NewLocker("x")
	l2 := NewKvsLockProvider(st.Storage, "path/").NewLocker("x")
	ctx, cancel := context.WithCancel(bg)
	c := &section{}
	if how > 0 {
		verifsym.Assert(l2.LockWithCtx(bg) == nil, "lock: a client gets the lock")
		c.enter()
	}
	use := func(l gsync.Locker) {
		c.enter()
		c.leave()
		l.Unlock()
	}
	refused := 0
	verifsym.Delays(preempt)
	verifsym.Parallel(
		func() {
			switch {
			case how == 2:
				if l.TryLock(bg) {
					use(l)
					return
				}
				verifsym.Reach("busy")
				return
			}
			err := l.LockWithCtx(ctx)
			if err == nil {
				use(l)
				return
			}
			c.mu.Lock()
			refused++
			c.mu.Unlock()
			verifsym.Reach([]string{"failed", "cancelled"}[how])
		},
		func() {
			if err := l.LockWithCtx(bg); err == nil {
				use(l)
			} else {
				verifsym.Assert(how == 0, "lock: a client gets the lock")
				c.mu.Lock()
				refused++
				c.mu.Unlock()
			}
		},
		func() {
			verifsym.Pause()
			if how == 1 {
				cancel()
			}
			verifsym.Pause()
			if how > 0 {
				c.leave()
				l2.Unlock()
			}
		})
	cancel()
	verifsym.Assert(how != 0 || refused == 1, "lock: an error of the storage is reported once")
	free(st, l, l2)
}
