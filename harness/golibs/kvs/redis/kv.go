package redis

import (
	"context"
	"time"

	"github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/kvs"
	"github.com/solarisdb/solaris/golibs/verifsym"
)

//sym:models common_redis.go

type kvModel struct {
	c    *client
	s    *rserver
	recs map[string]*kvs.Record
	vers []string
}

func newModel() *kvModel {
	c, s := newServed()
	return &kvModel{c: c, s: s, recs: map[string]*kvs.Record{}}
}

func rexp(n string) *time.Time {
	if verifsym.Choose("exp"+n, 2) == 1 {
		t := time.Now().Add(time.Hour)
		return &t
	}
	return nil
}

func (m *kvModel) set(r kvs.Record, ver string) {
	for _, o := range m.vers {
		verifsym.Assert(o != ver, "redis: a version is never given twice")
	}
	m.vers = append(m.vers, ver)
	r.Version = ver
	m.recs[r.Key] = &r
}

func (m *kvModel) same(got kvs.Record, key string) {
	want := m.recs[key]
	verifsym.Assert(got.Key == key && got.Version == want.Version, "redis: the record of the key with its last version is returned")
	verifsym.CheckSame(got.Value, want.Value, "redis: the value is the last one written")
	verifsym.Assert((got.ExpiresAt == nil) == (want.ExpiresAt == nil), "redis: the expiration is the last one written")
	if got.ExpiresAt != nil {
		verifsym.Assert(got.ExpiresAt.Equal(*want.ExpiresAt), "redis: the expiration is the last one written")
	}
}

var rkeys = []string{"a", "ab"}

// learn reads the record which was put without telling its version
func (m *kvModel) learn(r kvs.Record) {
	got, err := m.c.Get(bg, r.Key)
	verifsym.Assert(err == nil, "redis: a record which was put is there")
	m.set(r, got.Version)
	m.same(got, r.Key)
}

func (m *kvModel) rec(k, n string) kvs.Record {
	r := kvs.Record{Key: k, Value: verifsym.Bytes("val"+n, verifsym.Choose("len"+n, 2)), ExpiresAt: rexp(n), Version: "any"}
	if old := m.recs[k]; old != nil {
		r.Version = old.Version
	}
	return r
}

// op does one operation; with fail the n-th command to the server fails
func (m *kvModel) op(n string, fail int) {
	k := rkeys[verifsym.Choose("key"+n, len(rkeys))]
	old := m.recs[k]
	m.s.mu.Lock()
	m.s.calls, m.s.failAt, m.s.failed = 0, fail, false
	m.s.mu.Unlock()
	// failing tells whether the server failed, which has to be the error then
	failing := func(err error) bool {
		m.s.mu.Lock()
		f := m.s.failed
		m.s.calls, m.s.failAt, m.s.failed = 0, 0, false
		m.s.mu.Unlock()
		if f {
			verifsym.Reach("failed")
			verifsym.Assert(err != nil && !errors.Is(err, errors.ErrNotExist) && !errors.Is(err, errors.ErrExist) && !errors.Is(err, errors.ErrConflict), "redis: a failure of the server is an error of its own")
		}
		return f
	}
	switch verifsym.Choose("op"+n, 8) {
	case 0:
		r := m.rec(k, n)
		ver, err := m.c.Create(bg, r)
		if failing(err) {
			return
		}
		if old != nil {
			verifsym.Reach("exist")
			verifsym.Assert(errors.Is(err, errors.ErrExist), "redis: a record which exists is not created")
			return
		}
		verifsym.Assert(err == nil, "redis: a record is created")
		m.set(r, ver)
	case 1:
		r := m.rec(k, n)
		res, err := m.c.Put(bg, r)
		if failing(err) {
			return
		}
		verifsym.Assert(err == nil, "redis: a record is put")
		m.set(r, res.Version)
		m.same(res, k)
	case 2:
		rs := []kvs.Record{m.rec(rkeys[0], n+"x"), m.rec(rkeys[1], n+"y")}
		if verifsym.Choose("one"+n, 2) == 1 {
			rs = rs[:1]
		}
		err := m.c.PutMany(bg, rs)
		if failing(err) {
			return
		}
		verifsym.Assert(err == nil, "redis: many records are put")
		for _, r := range rs {
			m.learn(r)
		}
		verifsym.Reach("many")
	case 3:
		r := m.rec(k, n)
		right := verifsym.Choose("right"+n, 2) == 1
		if !right {
			r.Version = "other"
		}
		res, err := m.c.CasByVersion(bg, r)
		if failing(err) {
			return
		}
		switch {
		case old == nil:
			verifsym.Assert(errors.Is(err, errors.ErrNotExist), "redis: a record which does not exist is not compared")
		case !right:
			verifsym.Reach("conflict")
			verifsym.Assert(errors.Is(err, errors.ErrConflict), "redis: another version is a conflict")
		default:
			verifsym.Reach("cas")
			verifsym.Assert(err == nil, "redis: a record of the version is set")
			m.set(r, res.Version)
			m.same(res, k)
		}
	case 4:
		err := m.c.Delete(bg, k)
		if failing(err) {
			return
		}
		if old == nil {
			verifsym.Assert(errors.Is(err, errors.ErrNotExist), "redis: a record which does not exist is not deleted")
			return
		}
		verifsym.Assert(err == nil, "redis: a record is deleted")
		delete(m.recs, k)
	case 5:
		ks := []string{rkeys[0], "none", rkeys[1], k}
		res, err := m.c.GetMany(bg, ks...)
		if failing(err) {
			return
		}
		verifsym.Assert(err == nil && len(res) == len(ks), "redis: many records are read")
		for i, k := range ks {
			verifsym.Assert((res[i] != nil) == (m.recs[k] != nil), "redis: the records which exist are read")
			if res[i] != nil {
				m.same(*res[i], k)
			}
		}
	case 6:
		pat := []string{"*", "a", "ab*", "none*"}[verifsym.Choose("pat"+n, 4)]
		it, err := m.c.ListKeys(bg, pat)
		verifsym.Assert(err == nil, "redis: keys are listed")
		got := map[string]int{}
		for it.HasNext() {
			verifsym.Assert(it.HasNext(), "redis: asking twice does not lose a key")
			k, ok := it.Next()
			verifsym.Assert(ok, "redis: there is a next key")
			got[k]++
		}
		_, ok := it.Next()
		verifsym.Assert(!ok, "redis: there is no key after the last one")
		it.Close()
		m.s.mu.Lock()
		f := m.s.failed
		m.s.failAt, m.s.failed = 0, false
		m.s.mu.Unlock()
		if f {
			return
		}
		want := 0
		for _, k := range rkeys {
			if m.recs[k] != nil && (pat == "*" || pat == k || pat == "ab*" && k == "ab") {
				want++
				verifsym.Assert(got[k] == 1, "redis: a key which matches is listed once")
			}
		}
		verifsym.Assert(len(got) == want, "redis: only keys which match are listed")
		verifsym.Reach("list")
	case 7:
		ver := "other"
		ctx := bg
		if old != nil && verifsym.Choose("same"+n, 2) == 1 {
			ver = old.Version
			c, cancel := context.WithTimeout(bg, 20*time.Millisecond)
			defer cancel()
			ctx = c
		} else {
			c, cancel := context.WithTimeout(bg, time.Second)
			defer cancel()
			ctx = c
		}
		err := m.c.WaitForVersionChange(ctx, k, ver)
		if failing(err) {
			return
		}
		switch {
		case old == nil:
			verifsym.Assert(errors.Is(err, errors.ErrNotExist), "redis: a record which does not exist is not waited for")
		case ver == "other":
			verifsym.Assert(err == nil, "redis: another version is not waited for")
		default:
			verifsym.Assert(errors.Is(err, context.DeadlineExceeded), "redis: a version which does not change is waited for")
		}
		verifsym.Reach("wait")
	}
}

func (m *kvModel) check() {
	for _, k := range rkeys {
		got, err := m.c.Get(bg, k)
		if m.recs[k] == nil {
			verifsym.Assert(errors.Is(err, errors.ErrNotExist), "redis: a record which does not exist is not found")
		} else {
			verifsym.Assert(err == nil, "redis: a record is found")
			m.same(got, k)
		}
	}
}

// the Redis storage with 2 keys, one of them absent or with a value of 0 or 1 arbitrary byte which expires in an hour or not, then every sequence of 2 operations out of all of them with arguments of the same kinds, then both keys are read; by one client
//
//sym:harness prop=C37 budget=100s reach=end,exist,many,conflict,cas,list,wait
func HRedisSeq() {
	m := newModel()
	if verifsym.Choose("there", 2) == 1 {
		r := m.rec(rkeys[0], "init")
		ver, err := m.c.Create(bg, r)
		verifsym.Assert(err == nil, "redis: a record is created")
		m.set(r, ver)
	}
	m.op("1", 0)
	m.op("2", 0)
	m.check()
	verifsym.Reach("end")
}

// as HRedisSeq with one operation, during which one of the commands to the server fails: an error of its own is returned
//
//sym:harness prop=C37 budget=60s reach=failed
func HRedisFail() {
	m := newModel()
	if verifsym.Choose("there", 2) == 1 {
		r := m.rec(rkeys[0], "init")
		ver, err := m.c.Create(bg, r)
		verifsym.Assert(err == nil, "redis: a record is created")
		m.set(r, ver)
	}
	m.op("1", 1+verifsym.Choose("fail", 3))
}

// two clients compare and set the same record from the same version, or one of them deletes or puts it: at most one of those which compare wins, the other one gets a conflict (or that it does not exist); the last state is that of some order; every schedule with up to 2 preemptions
//
//sym:harness prop=C37 budget=60s reach=won,lost repeat=1000
func HRedisCas() {
	verifsym.Schedule(2)
	m := newModel()
	ver, err := m.c.Create(bg, kvs.Record{Key: "a", Value: []byte{0}})
	verifsym.Assert(err == nil, "redis: a record is created")
	what := verifsym.Choose("what", 3)
	var errs [2]error
	var vers [2]string
	cas := func(i int) func() {
		return func() {
			r, err := m.c.CasByVersion(bg, kvs.Record{Key: "a", Value: []byte{byte(1 + i)}, Version: ver})
			errs[i], vers[i] = err, r.Version
		}
	}
	other := cas(1)
	switch what {
	case 1:
		other = func() {
			r, err := m.c.Put(bg, kvs.Record{Key: "a", Value: []byte{2}})
			errs[1], vers[1] = err, r.Version
		}
	case 2:
		other = func() { errs[1] = m.c.Delete(bg, "a") }
	}
	verifsym.Parallel(cas(0), other)
	got, gerr := m.c.Get(bg, "a")
	lost := func(err error) {
		verifsym.Reach("lost")
		verifsym.Assert(errors.Is(err, errors.ErrConflict) || what == 2 && errors.Is(err, errors.ErrNotExist), "redis: who loses gets a conflict")
	}
	switch what {
	case 0:
		verifsym.Assert((errs[0] == nil) != (errs[1] == nil), "redis: exactly one of two which compare the same version wins")
		w := 0
		if errs[0] != nil {
			w = 1
		}
		lost(errs[1-w])
		verifsym.Assert(gerr == nil && got.Version == vers[w] && got.Value[0] == byte(1+w), "redis: the record is the one of the winner")
		verifsym.Reach("won")
	case 1:
		verifsym.Assert(errs[1] == nil, "redis: a record is put")
		verifsym.Assert(gerr == nil && got.Version == vers[1] && got.Value[0] == 2, "redis: a record which was put is not replaced by one of an older version")
		if errs[0] != nil {
			lost(errs[0])
		}
	case 2:
		verifsym.Assert(errs[1] == nil, "redis: a record is deleted")
		verifsym.Assert(errors.Is(gerr, errors.ErrNotExist), "redis: a record which was deleted is not there")
		if errs[0] != nil {
			lost(errs[0])
		}
	}
}

// a client waits for the version of a record to change, another one puts, sets, deletes it or does nothing and the wait is cancelled, at any point of the first waits: the wait ends with the right result
//
//sym:harness prop=C37 budget=60s reach=changed,gone,ended repeat=20 validate=4
func HRedisWait() {
	verifsym.Schedule(1)
	m := newModel()
	ver, err := m.c.Create(bg, kvs.Record{Key: "a"})
	verifsym.Assert(err == nil, "redis: a record is created")
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	what := verifsym.Choose("what", 4)
	var werr error
	verifsym.Parallel(func() { werr = m.c.WaitForVersionChange(ctx, "a", ver) }, func() {
		time.Sleep(time.Duration(verifsym.Choose("after", 3)) * 5 * time.Millisecond)
		switch what {
		case 0:
			m.c.Put(bg, kvs.Record{Key: "a"})
		case 1:
			m.c.CasByVersion(bg, kvs.Record{Key: "a", Version: ver})
		case 2:
			m.c.Delete(bg, "a")
		case 3:
			cancel()
		}
	})
	switch what {
	case 0, 1:
		verifsym.Reach("changed")
		verifsym.Assert(werr == nil, "redis: a wait ends when the version has changed")
	case 2:
		verifsym.Reach("gone")
		verifsym.Assert(errors.Is(werr, errors.ErrNotExist), "redis: a wait ends when the record was deleted")
	case 3:
		verifsym.Reach("ended")
		verifsym.Assert(errors.Is(werr, context.Canceled), "redis: a wait ends with its context")
	}
}

// a record which expires in 300 ms is created, put, put among others or set, and read after none or 400 ms; or written again without an expiration in between: it is there until it expires, then it does not exist and can be created; or one which expired 0 to 1 ms ago is put
//
//sym:harness prop=C37 budget=60s reach=there,expired,kept,past validate=8
func HRedisExpire() {
	m := newModel()
	if verifsym.Choose("past", 2) == 1 {
		at := time.Now().Add(-time.Duration(verifsym.Choose("ago", 3)) * 500 * time.Microsecond)
		r := kvs.Record{Key: "a", Value: []byte("1"), ExpiresAt: &at}
		if verifsym.Choose("put", 2) == 0 {
			m.c.Create(bg, r)
		} else {
			m.c.Put(bg, r)
		}
		time.Sleep(400 * time.Millisecond)
		_, err := m.c.Get(bg, "a")
		verifsym.Reach("past")
		verifsym.Assert(errors.Is(err, errors.ErrNotExist), "redis: a record which is expired already does not stay")
		return
	}
	at := time.Now().Add(300 * time.Millisecond)
	r := kvs.Record{Key: "a", Value: []byte("1"), ExpiresAt: &at}
	var ver string
	switch verifsym.Choose("how", 4) {
	case 0:
		v, err := m.c.Create(bg, r)
		verifsym.Assert(err == nil, "redis: a record is created")
		ver = v
	case 1:
		p, err := m.c.Put(bg, r)
		verifsym.Assert(err == nil, "redis: a record is put")
		ver = p.Version
	case 2:
		verifsym.Assert(m.c.PutMany(bg, []kvs.Record{{Key: "b"}, r, {Key: "c"}}) == nil, "redis: many records are put")
		for _, k := range []string{"b", "c"} {
			_, err := m.c.Get(bg, k)
			verifsym.Assert(err == nil, "redis: all of many records are put")
		}
	case 3:
		v, err := m.c.Create(bg, kvs.Record{Key: "a"})
		verifsym.Assert(err == nil, "redis: a record is created")
		r.Version = v
		p, err := m.c.CasByVersion(bg, r)
		verifsym.Assert(err == nil, "redis: a record of the version is set")
		ver = p.Version
	}
	got, err := m.c.Get(bg, "a")
	verifsym.Assert(err == nil, "redis: a record is there before it expires")
	verifsym.Assert((ver == "" || got.Version == ver) && got.ExpiresAt != nil && got.ExpiresAt.Equal(at), "redis: the record has its version and expiration")
	verifsym.Reach("there")
	keep := verifsym.Choose("keep", 3)
	switch keep {
	case 1:
		_, err = m.c.Put(bg, kvs.Record{Key: "a"})
		verifsym.Assert(err == nil, "redis: a record is put")
	case 2:
		_, err = m.c.CasByVersion(bg, kvs.Record{Key: "a", Version: got.Version})
		verifsym.Assert(err == nil, "redis: a record of the version is set")
	}
	time.Sleep(400 * time.Millisecond)
	_, err = m.c.Get(bg, "a")
	if keep > 0 {
		verifsym.Reach("kept")
		verifsym.Assert(err == nil, "redis: a record which was written without an expiration stays")
		return
	}
	verifsym.Reach("expired")
	verifsym.Assert(errors.Is(err, errors.ErrNotExist), "redis: an expired record does not exist")
	_, err = m.c.Create(bg, kvs.Record{Key: "a"})
	verifsym.Assert(err == nil, "redis: an expired record can be created")
}

// a record which expires any time from 500 ms ago to 1 s from now, to the nanosecond, is created, put or set and read after 500 ms (the 100 ms around its expiry excepted): it is there exactly if it has not expired
//
//sym:harness prop=C37 budget=60s reach=there,gone validate=6
func HRedisExpireAt() {
	m := newModel()
	d := verifsym.Int64("ns", -500e6, 1000e6)
	verifsym.Assume(verifsym.Or(d <= 400e6, d >= 600e6))
	at := time.Now().Add(time.Duration(d))
	r := kvs.Record{Key: "a", Value: []byte("1"), ExpiresAt: &at}
	switch verifsym.Choose("how", 4) {
	case 0:
		_, err := m.c.Create(bg, r)
		verifsym.Assert(err == nil, "redis: a record is created")
	case 1:
		_, err := m.c.Put(bg, r)
		verifsym.Assert(err == nil, "redis: a record is put")
	case 2:
		verifsym.Assert(m.c.PutMany(bg, []kvs.Record{{Key: "b"}, r}) == nil, "redis: many records are put")
	case 3:
		v, err := m.c.Create(bg, kvs.Record{Key: "a"})
		verifsym.Assert(err == nil, "redis: a record is created")
		r.Version = v
		_, err = m.c.CasByVersion(bg, r)
		verifsym.Assert(err == nil, "redis: a record of the version is set")
	}
	time.Sleep(500 * time.Millisecond)
	got, err := m.c.Get(bg, "a")
	if d <= 400e6 {
		verifsym.Reach("gone")
		verifsym.Assert(errors.Is(err, errors.ErrNotExist), "redis: an expired record does not exist")
		return
	}
	verifsym.Reach("there")
	verifsym.Assert(err == nil, "redis: a record is there before it expires")
	verifsym.Assert(got.ExpiresAt != nil && got.ExpiresAt.Equal(at), "redis: the record has its expiration")
}
