//sym:models common_lock.go

package dist

import (
	"context"
	"time"

	"github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/kvs"
	"github.com/solarisdb/solaris/golibs/kvs/inmem"
	"github.com/solarisdb/solaris/golibs/verifsym"
)

const ms = time.Millisecond

// tm is a time of 50 to 400 ms
func tm(n string) time.Duration { return time.Duration(verifsym.Int64(n, 1, 8)) * 50 * ms }

// a lock held by a client which died until its lease ends, or by nobody; one client takes the lock and holds it, a second one waits for it with a timeout and holds it, also longer than the lease of 200 ms; the end of the first lease, both requests, the timeout and both times of holding are any multiples of 50 ms up to 400 ms; a refreshing of the lease fails or none: there is one holder at a time, the lock is given as soon as it is free, the second client gives up only when the lock was never free while it waited
//
//sym:harness prop=C23 budget=90s reach=end,timeout,waited validate=2
func HTimes() { lockTimes(2) }

// as HTimes, one of the first 4 attempts to refresh the lease fails
//
//sym:harness prop=C23 tier=thorough budget=900s reach=end,timeout,waited validate=2
func HTimesDeep() { lockTimes(5) }

func lockTimes(fails int) {
	verifsym.RealNewIDs()
	verifsym.ClockTick(1)
	st := &badStore{Storage: inmem.New(), fail: map[int]bool{}}
	start := time.Now()
	dead := time.Duration(0)
	if verifsym.Choose("dead", 2) == 1 {
		dead = tm("lease") - 7*ms
		t := start.Add(dead)
		_, err := st.Create(bg, kvs.Record{Key: "path/x", ExpiresAt: &t})
		verifsym.Assert(err == nil, "lock: setup")
	}
	if k := verifsym.Choose("fail", fails); k > 0 {
		st.fail[k] = true
	}
	l0, l1 := leased(st), leased(st)
	never := 100 * time.Hour
	var req, got, rel [2]time.Duration
	req[0], req[1] = tm("a"), tm("b")-5*ms
	for i := range got {
		got[i], rel[i] = never, never
	}
	c := &section{}
	// free tells when the lock is free for client i
	free1 := func(i int) time.Duration {
		t := max(req[i], dead)
		if o := 1 - i; got[o] < t+ms && rel[o] > t {
			t = rel[o]
		}
		return t
	}
	now := func() time.Duration { return time.Since(start) }
	hold := func(i int, d time.Duration) {
		got[i] = now()
		c.enter()
		verifsym.Assert(got[i] >= dead, "lock: a lock is not given while the lease of the holder goes on")
		t := free1(i)
		verifsym.Assert(got[i] >= t && got[i] < t+45*ms, "lock: a client gets the lock as soon as it is free")
		if t > req[i] {
			verifsym.Reach("waited")
		}
		time.Sleep(d)
		c.leave()
		rel[i] = now()
	}
	ha, hb, tb := tm("holdA")-2*ms, tm("holdB")-3*ms, tm("tb")-11*ms
	verifsym.Parallel(func() {
		time.Sleep(req[0])
		verifsym.Assert(l0.LockWithCtx(bg) == nil, "lock: a client gets the lock")
		hold(0, ha)
		l0.Unlock()
	}, func() {
		time.Sleep(req[1])
		ctx, cancel := context.WithTimeout(bg, tb)
		defer cancel()
		err := l1.LockWithCtx(ctx)
		if err != nil {
			verifsym.Assert(errors.Is(err, context.DeadlineExceeded), "lock: the error is that of the context")
			verifsym.Assert(now() >= req[1]+tb && now() < req[1]+tb+45*ms, "lock: a client waits until its context is done")
			verifsym.Assert(free1(1) > req[1]+tb-ms, "lock: a client gets the lock as soon as it is free")
			verifsym.Reach("timeout")
			return
		}
		hold(1, hb)
		l1.Unlock()
	})
	verifsym.Assert(got[0] < never, "lock: every client which waits gets the lock")
	verifsym.Assert(l0.TryLock(bg), "lock: a lock nobody holds can be taken")
	verifsym.Reach("end")
}
