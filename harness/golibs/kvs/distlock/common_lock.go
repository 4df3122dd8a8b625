package dist

import (
	"context"
	"fmt"
	"sync"
	"time"

	"github.com/solarisdb/solaris/golibs/kvs"
	gsync "github.com/solarisdb/solaris/golibs/sync"
	"github.com/solarisdb/solaris/golibs/verifsym"
)

var bg = context.Background()

var nids int

//sym:replace github.com/solarisdb/solaris/golibs/ulidutils.NewID
func symNewID() string {
	nids++
	return "01HQ0000000000000000000" + string(rune('A'+nids/100)) + string(rune('A'+nids/10%10)) + string(rune('0'+nids%10))
}

// section is what the lock protects
type section struct {
	mu     sync.Mutex
	holder int
	times  int
	down   bool // the provider of the client 2 has been shut down
}

func (c *section) enter() {
	c.mu.Lock()
	c.holder++
	c.times++
	verifsym.Assert(c.holder == 1, "lock: there is one holder at a time")
	c.mu.Unlock()
	verifsym.Pause()
}

func (c *section) leave() {
	c.mu.Lock()
	c.holder--
	c.mu.Unlock()
}

// free checks that the lock can be taken by anybody
func free(st kvs.Storage, ls ...gsync.Locker) {
	verifsym.Delays(0)
	ls = append(ls, NewKvsLockProvider(st, "path/").NewLocker("x"))
	for _, l := range ls {
		verifsym.Assert(l.TryLock(bg), "lock: a lock nobody holds can be taken")
		for _, l2 := range ls {
			verifsym.Assert(!l2.TryLock(bg), "lock: a lock which is held is not given")
		}
		l.Unlock()
	}
	verifsym.Reach("end")
}

const leaseTest = 200 * time.Millisecond

// badStore fails the refreshing of the lease the times given
type badStore struct {
	kvs.Storage
	n    int
	fail map[int]bool
	all  bool
}

func (b *badStore) CasByVersion(ctx context.Context, r kvs.Record) (kvs.Record, error) {
	b.n++
	if b.all || b.fail[b.n] {
		return kvs.Record{}, fmt.Errorf("no connection")
	}
	return b.Storage.CasByVersion(ctx, r)
}

func leased(st kvs.Storage) gsync.Locker {
	p := New("path/")
	p.Storage = st
	p.leaseTTL = leaseTest
	return p.NewLocker("x")
}

