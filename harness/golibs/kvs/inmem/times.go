//sym:models common_kv.go

package inmem

import (
	"context"
	"time"

	"github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/kvs"
	"github.com/solarisdb/solaris/golibs/verifsym"
)

const ms = time.Millisecond

// at is a time from 20 ms to 1 s
func at(n string) time.Duration { return time.Duration(verifsym.Int64(n, 1, 50)) * 20 * ms }

// a record which expires or not, changed by a put, a compare-and-swap, a deletion or an attempt to create it, the new one with an expiration or not; a client which waits for the first version with a timeout and one which reads the record; expirations, changes, waits, timeout and reading at any multiples of 20 ms up to 1 s, in any order: every answer is that of a versioned map in which expired records do not exist, and the wait ends with the right answer in time
//
//sym:harness prop=C22 budget=90s reach=end,changed,gone,timeout validate=2
func HTimes() {
	verifsym.RealNewIDs()
	verifsym.ClockTick(1)
	s := New()
	start := time.Now()
	never := 100 * time.Hour
	expiry := func(n string, off time.Duration) (time.Duration, *time.Time) {
		if verifsym.Choose("has"+n, 2) == 0 {
			return never, nil
		}
		d := at(n) - off
		t := start.Add(d)
		return d, &t
	}
	e1, p1 := expiry("e1", 0)
	t2 := at("t2") - 5*ms
	op := verifsym.Choose("op", 4)
	e2, p2 := never, (*time.Time)(nil)
	if op != 2 {
		e2, p2 = expiry("e2", 2*ms)
	}
	ver, err := s.Create(bg, kvs.Record{Key: "k", ExpiresAt: p1})
	verifsym.Assert(err == nil && ver != "", "kvs: create")

	// there is the first record until end1, from t2 to e2 there is the second one if made
	end1 := e1
	made := op == 0 || (t2 < e1) == (op == 1) && op != 2
	if t2 < e1 && op != 3 {
		end1 = t2
	}
	has := func(t time.Duration) (first, second bool) {
		return t < end1, made && t > t2 && t < e2
	}
	ver2 := ""
	verifsym.Parallel(
		func() {
			time.Sleep(t2)
			var err error
			var r kvs.Record
			n := kvs.Record{Key: "k", Version: ver, ExpiresAt: p2}
			switch op {
			case 0:
				r, err = s.Put(bg, n)
				ver2 = r.Version
				verifsym.Assert(err == nil, "kvs: put")
			case 1:
				r, err = s.CasByVersion(bg, n)
				ver2 = r.Version
				verifsym.Assert((err == nil) == made && (made || errors.Is(err, errors.ErrNotExist)), "kvs: a compare-and-swap fails if the record has expired")
			case 2:
				err = s.Delete(bg, "k")
				verifsym.Assert((err == nil) == (t2 < e1) && (err == nil || errors.Is(err, errors.ErrNotExist)), "kvs: a record which has expired cannot be deleted")
			case 3:
				ver2, err = s.Create(bg, n)
				verifsym.Assert((err == nil) == made && (made || errors.Is(err, errors.ErrExist) && ver2 == ver), "kvs: a record can be created once it has expired")
			}
			verifsym.Assert(!made || ver2 != ver && ver2 != "", "kvs: a version is never given twice")
		},
		func() {
			t3, tw := at("t3")-8*ms, at("tw")-4*ms
			time.Sleep(t3)
			ctx, cancel := context.WithTimeout(bg, tw)
			defer cancel()
			err := s.WaitForVersionChange(ctx, "k", ver)
			now := time.Since(start)
			want := end1
			if want < t3 {
				want = t3
			}
			if t3+tw < want {
				verifsym.Assert(errors.Is(err, context.DeadlineExceeded), "kvs: a wait ends with its context")
				verifsym.Assert(now >= t3+tw && now < t3+tw+100*ms, "kvs: a wait ends with its context")
				verifsym.Reach("timeout")
				return
			}
			verifsym.Assert(now >= want, "kvs: a wait does not end before the change")
			verifsym.Assert(now < want+100*ms, "kvs: a wait ends with the change")
			second := made && want >= t2 && want < e2
			if second {
				verifsym.Assert(err == nil, "kvs: a wait ends with nil for another version")
				verifsym.Reach("changed")
			} else {
				verifsym.Assert(errors.Is(err, errors.ErrNotExist), "kvs: a wait for a record which does not exist any more fails")
				verifsym.Reach("gone")
			}
		},
		func() {
			t4 := at("t4") - 11*ms
			time.Sleep(t4)
			first, second := has(t4)
			switch verifsym.Choose("read", 3) {
			case 0:
				r, err := s.Get(bg, "k")
				verifsym.Assert((err == nil) == (first || second) && (err == nil || errors.Is(err, errors.ErrNotExist)), "kvs: an expired record does not exist")
				verifsym.Assert(err != nil || first && r.Version == ver || second && r.Version == ver2, "kvs: the last version is read")
			case 1:
				rs, err := s.GetMany(bg, "x", "k")
				verifsym.Assert(err == nil && len(rs) == 2 && rs[0] == nil && (rs[1] != nil) == (first || second), "kvs: an expired record does not exist")
				verifsym.Assert(rs[1] == nil || first && rs[1].Version == ver || second && rs[1].Version == ver2, "kvs: the last version is read")
			case 2:
				it, err := s.ListKeys(bg, "*")
				verifsym.Assert(err == nil && it.HasNext() == (first || second), "kvs: an expired record does not exist")
			}
		})
	verifsym.Reach("end")
}
