//sym:models common_kv.go

package inmem

import (
	"context"
	"time"

	"github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/kvs"
	"github.com/solarisdb/solaris/golibs/verifsym"
)

// kvModel is one versioned map, an expired record is not in it
type kvModel struct {
	s     kvs.Storage
	recs  map[string]*kvs.Record
	vers  []string // all the versions given so far
	names []string
}

// exp gives no expiration, a time which has just passed or one which is ahead
func exp(n string) (*time.Time, bool) {
	switch verifsym.Choose("exp"+n, 3) {
	case 1:
		t := time.Now().Add(-1)
		return &t, true
	case 2:
		t := time.Now().Add(time.Hour)
		return &t, false
	}
	return nil, false
}

func (m *kvModel) newVer(v string) {
	for _, o := range m.vers {
		verifsym.Assert(o != v, "kvs: a version is never given twice")
	}
	m.vers = append(m.vers, v)
}

func (m *kvModel) set(r kvs.Record, ver string, gone bool) {
	m.newVer(ver)
	delete(m.recs, r.Key)
	if !gone {
		r.Version = ver
		m.recs[r.Key] = &r
	}
}

func (m *kvModel) same(got kvs.Record, key string) {
	want := m.recs[key]
	verifsym.Assert(got.Key == key && got.Version == want.Version, "kvs: the record of the key with its last version is returned")
	verifsym.CheckSame(got.Value, want.Value, "kvs: the value is the last one written")
	verifsym.Assert((got.ExpiresAt == nil) == (want.ExpiresAt == nil), "kvs: the expiration is the last one written")
	if got.ExpiresAt != nil {
		verifsym.Assert(got.ExpiresAt.Equal(*want.ExpiresAt), "kvs: the expiration is the last one written")
	}
}

func (m *kvModel) rec(n, key string) (kvs.Record, bool) {
	e, gone := exp(n)
	return kvs.Record{Key: key, Value: verifsym.Bytes("val"+n, 1), ExpiresAt: e, Version: "given"}, gone
}

func (m *kvModel) step(n string) {
	a, b := m.names[0], m.names[1]
	key := m.names[verifsym.Choose("key"+n, len(m.names))]
	cur := m.recs[key]
	switch verifsym.Choose("op"+n, 9) {
	case 0:
		r, gone := m.rec(n, key)
		ver, err := m.s.Create(bg, r)
		if cur != nil {
			verifsym.Assert(errors.Is(err, errors.ErrExist) && ver == cur.Version, "kvs: create of an existing record fails and gives its version")
			verifsym.Reach("exist")
			return
		}
		verifsym.Assert(err == nil, "kvs: create of a record which doesn't exist works")
		m.set(r, ver, gone)
	case 1:
		m.get(key)
	case 2:
		rs, err := m.s.GetMany(bg, b, a, "none", b)
		verifsym.Assert(err == nil && len(rs) == 4, "kvs: there is a place for every key asked for")
		for i, k := range []string{b, a, "none", b} {
			verifsym.Assert((rs[i] != nil) == (m.recs[k] != nil), "kvs: many: exactly the existing records are returned")
			if rs[i] != nil {
				m.same(*rs[i], k)
			}
		}
		verifsym.Reach("many")
	case 3:
		r, gone := m.rec(n, key)
		got, err := m.s.Put(bg, r)
		verifsym.Assert(err == nil, "kvs: put works")
		m.set(r, got.Version, gone)
	case 4:
		r0, gone0 := m.rec(n+"x", a)
		r1, gone1 := m.rec(n+"y", key)
		verifsym.Assert(m.s.PutMany(bg, []kvs.Record{r0, r1}) == nil, "kvs: put of many works")
		delete(m.recs, a)
		delete(m.recs, key)
		for i, r := range []kvs.Record{r0, r1} {
			if i == 0 && (key == a || gone0) || i == 1 && gone1 {
				continue
			}
			got, err := m.s.Get(bg, r.Key)
			verifsym.Assert(err == nil, "kvs: what was put can be got")
			m.set(r, got.Version, false)
			m.same(got, r.Key)
		}
	case 5:
		r, gone := m.rec(n, key)
		r.Version = "unknown"
		if len(m.vers) > 0 {
			r.Version = m.vers[verifsym.Choose("ver"+n, len(m.vers))]
		}
		got, err := m.s.CasByVersion(bg, r)
		if cur == nil {
			verifsym.Assert(errors.Is(err, errors.ErrNotExist), "kvs: compare and set of a record which doesn't exist fails")
		} else if cur.Version != r.Version {
			verifsym.Assert(errors.Is(err, errors.ErrConflict), "kvs: compare and set of another version is a conflict")
			verifsym.Reach("conflict")
		} else {
			verifsym.Assert(err == nil, "kvs: compare and set of the current version works")
			m.set(r, got.Version, gone)
			verifsym.Reach("cas")
		}
	case 6:
		err := m.s.Delete(bg, key)
		verifsym.Assert((err == nil) == (cur != nil), "kvs: exactly an existing record is deleted")
		verifsym.Assert(err == nil || errors.Is(err, errors.ErrNotExist), "kvs: delete of nothing is told")
		delete(m.recs, key)
	case 7:
		it, err := m.s.ListKeys(bg, "*")
		verifsym.Assert(err == nil, "kvs: list of keys works")
		left := map[string]bool{}
		for _, k := range m.names {
			if m.recs[k] != nil {
				left[k] = true
			}
		}
		for it.HasNext() {
			k, ok := it.Next()
			verifsym.Assert(ok, "kvs: there is a key if it said so")
			verifsym.Assert(left[k], "kvs: only the keys of existing records are listed, each once")
			delete(left, k)
		}
		_, ok := it.Next()
		verifsym.Assert(!ok, "kvs: there is no key if it said so")
		verifsym.Assert(len(left) == 0, "kvs: the keys of all the existing records are listed")
		verifsym.Reach("list")
	case 8:
		ver := "unknown"
		if cur != nil && verifsym.Choose("cur"+n, 2) == 1 {
			ver = cur.Version
		}
		ctx, cancel := context.WithCancel(bg)
		cancel()
		err := m.s.WaitForVersionChange(ctx, key, ver)
		if cur == nil {
			verifsym.Assert(errors.Is(err, errors.ErrNotExist), "kvs: there is no waiting for a record which doesn't exist")
		} else if ver == cur.Version {
			verifsym.Assert(errors.Is(err, context.Canceled), "kvs: the wait for a change ends with its context")
		} else {
			verifsym.Assert(err == nil, "kvs: there is no waiting if the version is another one already")
		}
		verifsym.Reach("wait")
	}
}

func (m *kvModel) get(key string) {
	got, err := m.s.Get(bg, key)
	if m.recs[key] == nil {
		verifsym.Assert(errors.Is(err, errors.ErrNotExist), "kvs: there is no record which was deleted, has expired or was never made")
		return
	}
	verifsym.Assert(err == nil, "kvs: an existing record can be got")
	m.same(got, key)
}

func kvSeq(steps int) {
	verifsym.RealNewIDs()
	m := &kvModel{s: New(), recs: map[string]*kvs.Record{}, names: []string{verifsym.String("a", 2), verifsym.String("b", 2)}}
	verifsym.Assume(m.names[0] != m.names[1])
	for i, k := range m.names {
		n := string(rune('a' + i))
		if verifsym.Choose("has"+n, 2) == 1 {
			r, gone := m.rec("init"+n, k)
			got, _ := m.s.Put(bg, r)
			m.set(r, got.Version, gone)
		}
	}
	for i := 0; i < steps; i++ {
		m.step(string(rune('0' + i)))
	}
	m.get(m.names[0])
	m.get(m.names[1])
	verifsym.Reach("end")
}

// the in-memory store with 2 keys of 2 arbitrary bytes: any of them absent, or with a value of an arbitrary byte and no expiration, one which has just passed or one ahead, then every sequence of 2 operations out of all of them with arbitrary arguments of the same kinds, then both keys are read; by one client
//
//sym:harness prop=C22 budget=60s reach=end,exist,many,conflict,cas,list,wait
func HSeq() { kvSeq(2) }

// as HSeq with 3 operations
//
//sym:harness prop=C22 tier=thorough budget=600s reach=end,exist,many,conflict,cas,list,wait
func HSeqDeep() { kvSeq(3) }

// change makes the version of the key another one or removes the record
func change(s kvs.Storage, op int, key, ver string) {
	var err error
	switch op {
	case 0:
		_, err = s.Put(bg, kvs.Record{Key: key, Value: []byte{1}})
	case 1:
		err = s.PutMany(bg, []kvs.Record{{Key: "other"}, {Key: key, Value: []byte{1}}})
	case 2:
		_, err = s.CasByVersion(bg, kvs.Record{Key: key, Version: ver, Value: []byte{1}})
	case 3:
		err = s.Delete(bg, key)
	case 4:
		err = s.Delete(bg, key)
		verifsym.Assert(err == nil, "kvs: the change works")
		_, err = s.Create(bg, kvs.Record{Key: key})
	}
	verifsym.Assert(err == nil, "kvs: the change works")
}

// two clients wait for the version of a record to change, the context of the second one ends at any time or not, and a third one changes the version in any of the ways (put, put of many, compare and set, deletion, deletion and creation): both waits end with the right result; every schedule with up to 2 preemptions
//
//sym:harness prop=C22 budget=60s reach=end,changed,deleted,ended repeat=3000
func HWait() { waiters(2) }

// as HWait with up to 3 preemptions
//
//sym:harness prop=C22 tier=thorough budget=600s reach=end,changed,deleted,ended repeat=3000
func HWaitDeep() { waiters(3) }

func waiters(preempt int) {
	verifsym.RealNewIDs()
	s := New()
	ver, err := s.Create(bg, kvs.Record{Key: "k"})
	verifsym.Assert(err == nil, "kvs: create")
	op := verifsym.Choose("op", 5)
	ends := verifsym.Choose("ends", 2) == 1
	ctx, cancel := context.WithCancel(bg)
	wait := func(ctx context.Context, mayEnd bool) {
		err := s.WaitForVersionChange(ctx, "k", ver)
		if errors.Is(err, context.Canceled) {
			verifsym.Assert(mayEnd, "kvs: the wait ends by its own context only")
			verifsym.Reach("ended")
			return
		}
		r, rerr := s.Get(bg, "k")
		if err == nil {
			verifsym.Assert(op != 3 && (rerr == nil || op == 4), "kvs: the wait ends well if there is another version")
			verifsym.Assert(rerr != nil || r.Version != ver, "kvs: the wait ends when the version is another one")
			verifsym.Reach("changed")
			return
		}
		verifsym.Assert(errors.Is(err, errors.ErrNotExist) && op >= 3, "kvs: the wait tells that the record was deleted only when it was")
		verifsym.Reach("deleted")
	}
	verifsym.Schedule(preempt)
	verifsym.Parallel(
		func() { wait(bg, false) },
		func() { verifsym.Pause(); wait(ctx, ends) },
		func() {
			if ends {
				verifsym.Pause()
				cancel()
			}
			verifsym.Pause()
			change(s, op, "k", ver)
		})
	cancel()
	verifsym.Reach("end")
}

// a client waits for the version of a record which expires soon while a second one reads it or nothing happens: the wait tells that the record does not exist, not before it has expired, and the record can be created again; every schedule with up to 1 preemption, time may pass at any point
//
//sym:harness prop=C22 budget=60s reach=end,again repeat=40 validate=4
func HExpire() {
	verifsym.RealNewIDs()
	s := New()
	at := time.Now().Add(20 * time.Millisecond)
	ver, err := s.Create(bg, kvs.Record{Key: "k", ExpiresAt: &at})
	verifsym.Assert(err == nil, "kvs: create")
	reads := verifsym.Choose("reads", 5)
	verifsym.TimePasses()
	verifsym.Schedule(1)
	verifsym.Parallel(
		func() {
			err := s.WaitForVersionChange(bg, "k", ver)
			verifsym.Assert(errors.Is(err, errors.ErrNotExist), "kvs: the wait ends when the record has expired")
			verifsym.Assert(!time.Now().Before(at), "kvs: a record does not expire before its time")
			_, err = s.Create(bg, kvs.Record{Key: "k"})
			verifsym.Assert(err == nil, "kvs: an expired record can be created again")
			verifsym.Reach("again")
		},
		func() {
			if reads == 0 {
				return
			}
			time.Sleep(21 * time.Millisecond)
			switch reads {
			case 1:
				s.Get(bg, "k")
			case 2:
				s.GetMany(bg, "k")
			case 3:
				s.CasByVersion(bg, kvs.Record{Key: "k", Version: ver})
			case 4:
				s.ListKeys(bg, "*")
			}
		})
	r, err := s.Get(bg, "k")
	verifsym.Assert(err == nil && r.Version != ver, "kvs: the record created again is there")
	verifsym.Reach("end")
}

// two clients compare and set the same record from the same version while a third one creates the record of another key, deletes the record or puts it: of the two at most one wins, and the last state is that of some order of the operations; every schedule with up to 2 preemptions
//
//sym:harness prop=C22 budget=60s reach=end,won race repeat=3000
func HCasConc() {
	verifsym.RealNewIDs()
	s := New()
	ver, err := s.Create(bg, kvs.Record{Key: "k"})
	verifsym.Assert(err == nil, "kvs: create")
	op := verifsym.Choose("op", 4)
	won := [2]bool{}
	vers := [2]string{}
	put, created := "", 0
	verifsym.Schedule(2)
	cas := func(i int) {
		r, err := s.CasByVersion(bg, kvs.Record{Key: "k", Version: ver, Value: []byte{byte(i)}})
		won[i], vers[i] = err == nil, r.Version
		_, err = s.Create(bg, kvs.Record{Key: "new", Value: []byte{byte(i)}})
		if err == nil && i == 0 {
			created |= 1
		}
	}
	other := 0
	verifsym.Parallel(func() { cas(0) }, func() {
		r, err := s.CasByVersion(bg, kvs.Record{Key: "k", Version: ver, Value: []byte{1}})
		won[1], vers[1] = err == nil, r.Version
		_, err = s.Create(bg, kvs.Record{Key: "new", Value: []byte{1}})
		if err == nil {
			other = 1
		}
	}, func() {
		switch op {
		case 1:
			s.Delete(bg, "k")
		case 2:
			r, _ := s.Put(bg, kvs.Record{Key: "k", Value: []byte{2}})
			put = r.Version
		case 3:
			s.Put(bg, kvs.Record{Key: "third"})
		}
	})
	verifsym.Assert(!(won[0] && won[1]), "kvs: at most one of two sets from the same version wins")
	if op == 0 || op == 3 {
		verifsym.Assert(won[0] || won[1], "kvs: one of two sets from the current version wins")
	}
	verifsym.Assert(created+other == 1, "kvs: a record is created once")
	r, err := s.Get(bg, "k")
	switch op {
	case 1:
		verifsym.Assert(errors.Is(err, errors.ErrNotExist), "kvs: the record deleted is not there")
	case 2:
		verifsym.Assert(err == nil && r.Version == put && r.Value[0] == 2, "kvs: what was put last stays")
	default:
		i := 0
		if won[1] {
			i = 1
		}
		verifsym.Assert(err == nil && r.Version == vers[i] && int(r.Value[0]) == i, "kvs: the set which won stays")
		verifsym.Reach("won")
	}
	r, err = s.Get(bg, "new")
	verifsym.Assert(err == nil && int(r.Value[0]) == other, "kvs: the record created is of the one who created it")
	verifsym.Reach("end")
}
