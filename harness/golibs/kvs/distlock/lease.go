//sym:models common_lock.go

package dist

import (
	"time"

	"github.com/solarisdb/solaris/golibs/kvs/inmem"
	"github.com/solarisdb/solaris/golibs/verifsym"
)

// a client holds a lock for 3.5 times of its lease while a second one waits for it, any one of the first 3 attempts to refresh the lease fails, or none: the second one gets the lock after it is released only
//
//sym:harness prop=C23 budget=30s reach=end,failed repeat=2 validate=0
func HRefresh() {
	verifsym.RealNewIDs()
	st := &badStore{Storage: inmem.New(), fail: map[int]bool{}}
	if k := verifsym.Choose("fail", 4); k > 0 {
		st.fail[k] = true
		verifsym.Reach("failed")
	}
	l0, l1 := leased(st), leased(st.Storage)
	c := &section{}
	verifsym.ClockTick(1)
	verifsym.Parallel(func() {
		l0.Lock()
		c.enter()
		time.Sleep(leaseTest*3 + leaseTest/2)
		c.leave()
		l0.Unlock()
	}, func() {
		time.Sleep(leaseTest / 10)
		l1.Lock()
		c.enter()
		c.leave()
		l1.Unlock()
	})
	verifsym.Assert(c.times == 2, "lock: both get the lock")
	free(st.Storage, l0, l1)
}

// a client which could not refresh its lease lost the lock to a second one, then it releases it: the second one holds the lock still
//
//sym:harness prop=C23 budget=30s repeat=2 validate=0
func HLost() {
	verifsym.RealNewIDs()
	st := &badStore{Storage: inmem.New(), all: true}
	l0, l1, l2 := leased(st), leased(st.Storage), leased(st.Storage)
	verifsym.ClockTick(1)
	l0.Lock()
	l1.Lock() // when the lease has ended
	l0.Unlock()
	verifsym.Assert(!l2.TryLock(bg), "lock: the release by a client whose lease was lost takes the lock from its new holder")
	l1.Unlock()
	free(st.Storage, l0, l1, l2)
}
