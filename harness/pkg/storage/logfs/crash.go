package logfs

import (
	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/golibs/files"
	"github.com/solarisdb/solaris/golibs/verifsym"
	"github.com/solarisdb/solaris/pkg/storage"
	"github.com/solarisdb/solaris/pkg/storage/chunkfs"
)

//sym:models common_fs.go
//sym:models common_log.go
//sym:steps pkg/storage/logfs/locallog.go pkg/storage/chunkfs/chunk.go golibs/files/mmfile.go

// restart gives the log as a new process finds it
func (w *lworld) restart(dir string) {
	w.prov = chunkfs.NewProvider(dir, 2, chunkfs.Config{NewSize: files.BlockSize, MaxChunkSize: files.BlockSize, MaxGrowIncreaseSize: files.BlockSize})
	w.prov.CA = chunkfs.NewChunkAccessor()
	w.prov.Replicator = chunkfs.NewReplicator(w.prov.GetFileNameByID)
	w.prov.Replicator.CA = w.prov.CA
	w.prov.Replicator.Storage = noStorage{}
	w.ll = NewLocalLog(bigCfg)
	w.ll.LMStorage = w.ms
	w.ll.ChnkProvider = w.prov
}

// has asserts that the log has its acknowledged records in order, and others only of those which were under way
func (w *lworld) has(way []*solaris.Record, desc bool, msg string) {
	res, more, err := w.ll.QueryRecords(w.ctx, storage.QueryRecordsRequest{LogID: "log", Limit: 100, Descending: desc})
	verifsym.Assert(err == nil && !more, msg+": the log can be read")
	n := 0
	for i := range res {
		r := res[i]
		if desc {
			r = res[len(res)-1-i]
		}
		if n < len(w.all) && r.ID == w.all[n].txt {
			verifsym.CheckSame(r.Payload, w.all[n].pl, msg+": acknowledged records have their payload")
			n++
			continue
		}
		known := false
		for _, x := range way {
			if x.ID == r.ID {
				verifsym.CheckSame(r.Payload, x.Payload, msg+": a record which was under way has its payload")
				known = true
			}
		}
		verifsym.Assert(known, msg+": no other records appear")
		verifsym.Reach("kept")
	}
	verifsym.Assert(n == len(w.all), msg+": no acknowledged record is missing")
}

// A log with 0 to 2 acknowledged records of 1900 bytes in chunks of 1 block; the process dies before any statement of
// locallog.go, chunk.go or mmfile.go which an append of 2 records of 1000 bytes executes (the ids are fixed ones); after that the log is read (both
// directions), a record is appended, and it is read again.
//
//sym:harness prop=C35 reach=kept,dead budget=100s
func HCrashLog() {
	w := newWorld(bigCfg, 2)
	verifsym.FixedIDs()
	dir := verifsym.TempDir()
	w.restart(dir)
	if n := verifsym.Choose("records", 3); n > 0 {
		w.fill(n, 1900)
	}
	recs := []*solaris.Record{{Payload: verifsym.Bytes("b0", 1000)}, {Payload: verifsym.Bytes("b1", 1000)}}
	var res *solaris.AppendRecordsResult
	if verifsym.Crash(verifsym.Int("crash at", 0, 1000), func() {
		res, _ = w.ll.AppendRecords(w.ctx, &solaris.AppendRecordsRequest{LogID: "log", Records: recs, ExpandIDs: true})
	}) {
		w.took(recs, res)
	} else {
		verifsym.Reach("dead")
	}
	w.restart(dir)
	desc := verifsym.Choose("desc", 2) == 1
	w.has(recs, desc, "after a crash")
	x := []*solaris.Record{{Payload: verifsym.Bytes("x", 30)}}
	res, err := w.ll.AppendRecords(w.ctx, &solaris.AppendRecordsRequest{LogID: "log", Records: x, ExpandIDs: true})
	verifsym.Assert(err == nil && res.Added == 1, "after a crash: an append works")
	w.all = append(w.all, lrec{txt: res.RecordIDs[0], pl: x[0].Payload})
	w.has(recs, desc, "after a crash and an append")
}
