package cache

import (
	"context"
	"sync"

	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/verifsym"
	"github.com/solarisdb/solaris/pkg/storage"
	"github.com/solarisdb/solaris/pkg/storage/logfs"
)

// db is the storage behind the cache. An answer may take a while after it has been found.
type db struct {
	lock   sync.Mutex
	tags   map[string]byte // the logs which are not deleted
	chunks map[string][]logfs.ChunkInfo
	slow   bool
	fail   int // the next write fails before (1) or after (2) its work
}

var errDB = errors.ErrInternal

func newDB() *db {
	d := &db{tags: map[string]byte{}, chunks: map[string][]logfs.ChunkInfo{}}
	d.tags["a"] = verifsym.Byte("tag a")
	if verifsym.Choose("b", 2) == 1 {
		d.tags["b"] = verifsym.Byte("tag b")
	}
	if verifsym.Choose("chunks", 2) == 1 {
		d.chunks["a"] = []logfs.ChunkInfo{aChunk("c1"), aChunk("c3")}
	}
	return d
}

func aChunk(id string) logfs.ChunkInfo {
	return logfs.ChunkInfo{ID: id, RecordsCount: int(verifsym.Byte("records")) + 1}
}

func (d *db) pause() {
	if d.slow {
		verifsym.Pause()
	}
}

func (d *db) log(id string) *solaris.Log {
	return &solaris.Log{ID: id, Tags: map[string]string{"t": string([]byte{d.tags[id]})}}
}

// write does f, which may fail
func (d *db) write(f func() error) error {
	d.lock.Lock()
	defer d.lock.Unlock()
	k := d.fail
	d.fail = 0
	if k == 1 {
		return errDB
	}
	if err := f(); err != nil {
		return err
	}
	if k == 2 {
		return errDB
	}
	return nil
}

func (d *db) CreateLog(ctx context.Context, log *solaris.Log) (*solaris.Log, error) {
	var res *solaris.Log
	err := d.write(func() error {
		d.tags["b"] = log.Tags["t"][0]
		res = d.log("b")
		return nil
	})
	return res, err
}

func (d *db) GetLogByID(ctx context.Context, id string) (*solaris.Log, error) {
	d.lock.Lock()
	_, ok := d.tags[id]
	res := d.log(id)
	d.lock.Unlock()
	d.pause()
	if !ok {
		return nil, errors.ErrNotExist
	}
	return res, nil
}

func (d *db) UpdateLog(ctx context.Context, log *solaris.Log) (*solaris.Log, error) {
	d.pause()
	var res *solaris.Log
	err := d.write(func() error {
		if _, ok := d.tags[log.ID]; !ok {
			return errors.ErrNotExist
		}
		d.tags[log.ID] = log.Tags["t"][0]
		res = d.log(log.ID)
		return nil
	})
	d.pause()
	return res, err
}

func (d *db) QueryLogs(ctx context.Context, qr storage.QueryLogsRequest) (*solaris.QueryLogsResult, error) {
	d.lock.Lock()
	defer d.lock.Unlock()
	res := &solaris.QueryLogsResult{}
	for _, id := range []string{"a", "b"} {
		if _, ok := d.tags[id]; ok {
			res.Logs = append(res.Logs, d.log(id))
			res.Total++
		}
	}
	return res, nil
}

// DeleteLogs deletes the logs given, or all of them
func (d *db) DeleteLogs(ctx context.Context, req storage.DeleteLogsRequest) (*solaris.DeleteLogsResult, error) {
	d.pause()
	res := &solaris.DeleteLogsResult{}
	err := d.write(func() error {
		ids := req.IDs
		if len(ids) == 0 {
			ids = []string{"a", "b"}
		}
		for _, id := range ids {
			if _, ok := d.tags[id]; ok {
				res.DeletedIDs = append(res.DeletedIDs, id)
			}
			delete(d.tags, id)
			delete(d.chunks, id)
		}
		return nil
	})
	d.pause()
	if err != nil {
		return nil, err
	}
	return res, nil
}

func (d *db) GetLastChunk(ctx context.Context, logID string) (logfs.ChunkInfo, error) {
	cis, err := d.GetChunks(ctx, logID)
	if err == nil && len(cis) == 0 {
		err = errors.ErrNotExist
	}
	if err != nil {
		return logfs.ChunkInfo{}, err
	}
	return cis[len(cis)-1], nil
}

func (d *db) GetChunks(ctx context.Context, logID string) ([]logfs.ChunkInfo, error) {
	d.lock.Lock()
	_, ok := d.tags[logID]
	res := append([]logfs.ChunkInfo(nil), d.chunks[logID]...)
	d.lock.Unlock()
	d.pause()
	if !ok {
		return nil, errors.ErrNotExist
	}
	return res, nil
}

func (d *db) UpsertChunkInfos(ctx context.Context, logID string, cis []logfs.ChunkInfo) error {
	d.pause()
	err := d.write(func() error {
		if _, ok := d.tags[logID]; !ok {
			return errors.ErrNotExist
		}
		for _, ci := range cis {
			var res []logfs.ChunkInfo
			done := false
			for _, o := range d.chunks[logID] {
				if !done && ci.ID <= o.ID {
					res = append(res, ci)
					done = true
				}
				if ci.ID != o.ID {
					res = append(res, o)
				}
			}
			if !done {
				res = append(res, ci)
			}
			d.chunks[logID] = res
		}
		return nil
	})
	d.pause()
	return err
}

func sameErr(a, b error) bool {
	return (a == nil) == (b == nil) && errors.Is(a, errors.ErrNotExist) == errors.Is(b, errors.ErrNotExist)
}

func sameChunk(a, b logfs.ChunkInfo) bool {
	return verifsym.And(a.ID == b.ID, a.RecordsCount == b.RecordsCount, a.Min == b.Min, a.Max == b.Max)
}

// check asks the cache and the storage for everything about a log
func (d *db) check(s *CachedStorage, id string, kind int) {
	ctx := context.Background()
	switch kind {
	case 0:
		l, err := s.GetLogByID(ctx, id)
		w, werr := d.GetLogByID(ctx, id)
		verifsym.Assert(sameErr(err, werr), "cache: a log is there or not as in the storage")
		if err == nil {
			verifsym.Assert(l.ID == id && len(l.Tags) == 1 && l.Tags["t"] == w.Tags["t"], "cache: a log is that of the storage")
		}
	case 1:
		cs, err := s.GetChunks(ctx, id)
		w, werr := d.GetChunks(ctx, id)
		verifsym.Assert(sameErr(err, werr), "cache: the chunks are there or not as in the storage")
		verifsym.Assert(len(cs) == len(w), "cache: the chunks are those of the storage")
		for i := range cs {
			verifsym.Assert(sameChunk(cs[i], w[i]), "cache: the chunks are those of the storage")
		}
	case 2:
		c, err := s.GetLastChunk(ctx, id)
		w, werr := d.GetLastChunk(ctx, id)
		verifsym.Assert(sameErr(err, werr), "cache: the last chunk is there or not as in the storage")
		verifsym.Assert(sameChunk(c, w), "cache: the last chunk is that of the storage")
	}
}

func (d *db) write1(s *CachedStorage, op int, id string) {
	ctx := context.Background()
	var err error
	fails := d.fail != 0
	switch op {
	case 0:
		t := string([]byte{verifsym.Byte("new tag")})
		var l *solaris.Log
		l, err = s.UpdateLog(ctx, &solaris.Log{ID: id, Tags: map[string]string{"t": t}})
		verifsym.Assert(err != nil || l.Tags["t"] == t, "cache: the log changed is the answer")
	case 1:
		err = s.UpsertChunkInfos(ctx, id, []logfs.ChunkInfo{aChunk([]string{"c3", "c4"}[verifsym.Choose("chunk", 2)])})
	case 2:
		_, err = s.DeleteLogs(ctx, storage.DeleteLogsRequest{IDs: []string{id}, MarkOnly: true})
	case 3:
		_, err = s.DeleteLogs(ctx, storage.DeleteLogsRequest{Condition: "all"})
	case 4:
		if _, ok := d.tags["b"]; ok {
			return
		}
		_, err = s.CreateLog(ctx, &solaris.Log{Tags: map[string]string{"t": "n"}})
	}
	verifsym.Assert(!fails || err != nil, "cache: the failure of a write is told")
}

func seqs(n int, before bool) {
	d := newDB()
	s := NewCachedStorage(d)
	ids := []string{"a", "b"}
	for i := 0; i < n; i++ {
		id := ids[verifsym.Choose("log", 2)]
		op := verifsym.Choose("op", 8)
		if op < 3 {
			d.check(s, id, op)
			continue
		}
		d.fail = 2 * verifsym.Choose("fails", 2)
		if before && d.fail != 0 {
			d.fail = 1 + verifsym.Choose("before", 2)
		}
		if d.fail != 0 {
			verifsym.Reach("failed")
		}
		d.write1(s, op-3, id)
		d.fail = 0
	}
	r, err := s.QueryLogs(context.Background(), storage.QueryLogsRequest{})
	verifsym.Assert(err == nil && int(r.Total) == len(d.tags), "cache: the logs found are those of the storage")
	for _, id := range ids {
		for k := 0; k < 3; k++ {
			d.check(s, id, k)
		}
	}
	verifsym.Reach("end")
}

// a storage with 1 or 2 logs with any tags, one of them with chunks or not; every sequence of 3 reads and writes of any of the logs through the cache, a write fails after its work or not at all; then everything is read
//
//sym:harness prop=C21 budget=60s reach=end,failed
func HCached() { seqs(3, false) }

// as HCached, a write may fail before its work too
//
//sym:harness prop=C21 tier=thorough budget=600s reach=end,failed
func HCachedDeep() { seqs(3, true) }

func conc(delays int) {
	d := newDB()
	d.slow = true
	s := NewCachedStorage(d)
	kind, op := verifsym.Choose("read", 3), verifsym.Choose("op", 4)
	warm := verifsym.Choose("warm", 2) == 1
	if warm {
		d.slow = false
		s.GetLogByID(context.Background(), "a")
		s.GetChunks(context.Background(), "a")
		d.slow = true
	}
	verifsym.Delays(delays)
	read := func() {
		ctx := context.Background()
		switch kind {
		case 0:
			s.GetLogByID(ctx, "a")
		case 1:
			s.GetChunks(ctx, "a")
		case 2:
			s.GetLastChunk(ctx, "a")
		}
	}
	verifsym.Parallel(read, func() { d.write1(s, op, "a") }, read)
	d.slow = false
	for k := 0; k < 3; k++ {
		d.check(s, "a", k)
	}
	verifsym.Reach("end")
}

// two clients read a log, its chunks or the last one of them while a third one writes it, deletes it or its chunks; what was read before may be in the cache; the storage answers late; then everything is read: every schedule with up to 2 delays
//
//sym:harness prop=C21 budget=60s reach=end repeat=3000
func HCachedConc() { conc(2) }

// as HCachedConc with up to 3 delays
//
//sym:harness prop=C21 tier=thorough budget=600s reach=end repeat=3000
func HCachedConcDeep() { conc(3) }

