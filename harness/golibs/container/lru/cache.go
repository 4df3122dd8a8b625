package lru

import (
	"sync"
	"time"

	"github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/verifsym"
)

// cval is a value of a cache: who made it and whether it is still there
type cval struct {
	k       int
	serial  int
	deleted bool
	refs    int
}

// Cache of 1 or 2 values: every sequence of 5 steps out of asking for any key with the creation succeeding or failing, removing any key and clearing
//
//sym:harness prop=C14 budget=80s reach=end,hit,miss,evict,failed
func HCacheSeq() { cacheSeq(5) }

// as HCacheSeq with 7 steps
//
//sym:harness prop=C14 tier=thorough budget=600s reach=end,hit,miss,evict,failed
func HCacheSeqDeep() { cacheSeq(7) }

func cacheSeq(steps int) {
	maxSize := 1 + verifsym.Choose("max", 2)
	var ents []*cval // in the order of their use
	created, fail := 0, false
	var clearing bool
	drop := func(v *cval) {
		for i, e := range ents {
			if e == v {
				ents = append(append([]*cval(nil), ents[:i]...), ents[i+1:]...)
			}
		}
	}
	expDel := -1 // index of the entry which may be deleted now
	c, err := NewCache[int, *cval](maxSize, func(k int) (*cval, error) {
		created++
		if fail {
			return nil, errors.ErrInternal
		}
		v := &cval{k: k, serial: created}
		return v, nil
	}, func(k int, v *cval) {
		verifsym.Assert(v != nil && !v.deleted && v.k == k, "cache: the delete function gets an existing value once and its key")
		v.deleted = true
		if !clearing {
			verifsym.Assert(expDel >= 0 && ents[expDel] == v, "cache: what is deleted is the least recently used value or the removed one")
		}
		drop(v)
	})
	verifsym.Assert(err == nil, "cache: new")
	find := func(k int) int {
		for i, e := range ents {
			if e.k == k {
				return i
			}
		}
		return -1
	}
	for s := 0; s < steps; s++ {
		n := string(rune('0' + s))
		switch verifsym.Choose("op"+n, 4) {
		case 0, 1:
			k := verifsym.AnyInt("k" + n)
			i := find(k)
			was := created
			if i < 0 {
				fail = verifsym.Choose("fail"+n, 2) == 1
			}
			expDel = -1
			if i < 0 && !fail && len(ents) == maxSize {
				expDel = 0
				verifsym.Reach("evict")
			}
			v, err := c.GetOrCreate(k)
			if i >= 0 {
				verifsym.Reach("hit")
				verifsym.Assert(err == nil && created == was && v == ents[i], "cache: a known key gives its value, nothing is made")
				drop(v)
				ents = append(ents, v)
				break
			}
			verifsym.Assert(created == was+1, "cache: an unknown key makes a value once")
			if fail {
				verifsym.Assert(err != nil, "cache: the error of the creation is returned")
				verifsym.Reach("failed")
				break
			}
			verifsym.Assert(err == nil && v.k == k && v.serial == created && !v.deleted, "cache: the value made is returned")
			ents = append(ents, v)
			verifsym.Assert(len(ents) <= maxSize, "cache: never more than the maximum after the call")
			verifsym.Reach("miss")
		case 2:
			k := verifsym.AnyInt("k" + n)
			expDel = find(k)
			had := expDel >= 0
			l := len(ents)
			verifsym.Assert(c.Remove(k) == had, "cache: remove tells if the key was there")
			verifsym.Assert(len(ents) == l-verifsym.IteInt(had, 1, 0), "cache: remove deletes the value")
		case 3:
			clearing = true
			l := len(ents)
			verifsym.Assert(c.Clear() == l, "cache: clear tells how many values it deleted")
			verifsym.Assert(len(ents) == 0, "cache: clear deletes every value")
			clearing = false
		}
	}
	verifsym.Reach("end")
}

// Cache of 1 value, 2 goroutines asking for any of 2 keys each, one of them twice, and one removing a key; the creations fail or not; every schedule with up to 2 preemptions
//
//sym:harness prop=C14 budget=60s reach=end,shared repeat=3000
func HCacheConc() { cacheConc(2) }

// as HCacheConc with up to 3 preemptions
//
//sym:harness prop=C14 tier=thorough budget=300s reach=end,shared repeat=3000
func HCacheConcDeep() { cacheConc(3) }

func cacheConc(preempt int) {
	var mu sync.Mutex
	making := map[int]int{}
	live, deleted := 0, 0
	key := []int{verifsym.Int("key0", 0, 1), verifsym.Int("key1", 0, 1), verifsym.Int("key2", 0, 1)}
	fail := verifsym.Int("failing", -1, 1)
	c, _ := NewCache[int, *cval](1, func(k int) (*cval, error) {
		mu.Lock()
		verifsym.Assert(making[k] == 0, "cache: a value is made by one at a time")
		making[k]++
		mu.Unlock()
		verifsym.Pause()
		mu.Lock()
		making[k]--
		defer mu.Unlock()
		if k == fail {
			return nil, errors.ErrInternal
		}
		live++
		return &cval{k: k}, nil
	}, func(k int, v *cval) {
		mu.Lock()
		defer mu.Unlock()
		verifsym.Assert(v != nil && v.k == k && !v.deleted, "cache: the delete function gets an existing value once")
		v.deleted = true
		live--
		deleted++
	})
	got := make([]*cval, 3)
	ask := func(i int, k int) {
		v, err := c.GetOrCreate(k)
		verifsym.Assert((err != nil) == (k == fail), "cache: an error is returned exactly if the creation fails")
		if err == nil {
			verifsym.Assert(v != nil && v.k == k, "cache: the value of the key is returned")
			got[i] = v
		}
	}
	verifsym.Schedule(preempt)
	verifsym.Parallel(func() { ask(0, key[0]) }, func() { ask(1, key[1]); ask(2, key[1]) }, func() { verifsym.Pause(); c.Remove(key[2]) })
	verifsym.Assert(live == c.items.Len() && live <= 1, "cache: every value made is in the cache or was deleted")
	if got[0] != nil && got[0] == got[1] {
		verifsym.Reach("shared")
	}
	verifsym.Reach("end")
}

type expItem struct {
	*cval
	at time.Time
}

func (e expItem) GetValue() any           { return e.cval }
func (e expItem) GetExpiresAt() time.Time { return e.at }

// ExpirableCache of 2 values: 3 requests for any keys, the values expire in the past or in the future, a failing creation: a value which has expired is never given unless it was made just now
//
//sym:harness prop=C14 budget=60s reach=end,hit,expired
func HExpirable() {
	var cur map[int]*expItem = map[int]*expItem{}
	now := time.Now()
	made, fail := 0, false
	n := 0
	c, _ := NewExpirableCache[int, expItem](2, func(k int) (expItem, error) {
		made++
		if fail {
			return expItem{}, errors.ErrInternal
		}
		e := expItem{&cval{k: k, serial: made}, now.Add(time.Hour)}
		if verifsym.Choose("past"+string(rune('0'+n)), 2) == 1 {
			e.at = now.Add(-time.Hour)
		}
		cur[k] = &e
		return e, nil
	}, func(k int, v expItem) {
		verifsym.Assert(!v.deleted && cur[k] != nil && cur[k].cval == v.cval, "expirable: the delete function gets an existing value once")
		v.deleted = true
		delete(cur, k)
	})
	for ; n < 3; n++ {
		k := verifsym.AnyInt("k" + string(rune('0'+n)))
		e := cur[k]
		was := made
		fail = verifsym.Choose("fail"+string(rune('0'+n)), 2) == 1
		v, err := c.GetOrCreate(k)
		if e != nil && e.at.After(now) {
			verifsym.Reach("hit")
			verifsym.Assert(err == nil && v.cval == e.cval && made == was, "expirable: a value which has not expired is given")
			continue
		}
		if e != nil {
			verifsym.Reach("expired")
		}
		verifsym.Assert(made > was, "expirable: a value which has expired is made again")
		verifsym.Assert((err != nil) == fail, "expirable: an error means a failed creation")
		if err == nil {
			verifsym.Assert(v.k == k && v.serial == made, "expirable: the value made is given")
		}
	}
	verifsym.Reach("end")
}
