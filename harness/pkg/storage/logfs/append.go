package logfs

import (
	"github.com/oklog/ulid/v2"
	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/golibs/verifsym"
	"github.com/solarisdb/solaris/pkg/storage"
)

//sym:models common_fs.go
//sym:models common_log.go

// one append of 2 records of 0..4500 bytes each into chunks of one block, one append of a record of 0..4500 bytes; everything is read back
//
//sym:harness prop=C05 budget=100s reach=all,error,partial,chunks
func HAppend() {
	w := newWorld(bigCfg, 2)
	k := 0
	for _, n := range []int{2, 1} {
		var recs []*solaris.Record
		fit := 0
		for i := 0; i < n; i++ {
			s := string(rune('0' + k))
			k++
			ln := verifsym.Int("len"+s, 0, 4500)
			recs = append(recs, &solaris.Record{Payload: verifsym.Bytes("pl"+s, ln)})
			if fit == i && verifsym.Branch(ln <= maxRec) {
				fit++
			}
		}
		res, err := w.ll.AppendRecords(w.ctx, &solaris.AppendRecordsRequest{LogID: "log", Records: recs, ExpandIDs: true})
		if fit == 0 {
			verifsym.Reach("error")
			verifsym.Assert(err != nil, "append: an error when the first record does not fit into a chunk")
		} else {
			verifsym.Assert(err == nil, "append: no error when records were added")
		}
		if fit == 1 && n == 2 {
			verifsym.Reach("partial")
		}
		verifsym.Assert(res != nil && int(res.Added) == fit, "append: the records before the first one which does not fit into a chunk are added")
		w.took(recs, res)
	}
	if len(w.ms.cis["log"]) > 1 {
		verifsym.Reach("chunks")
	}
	w.query(storage.QueryRecordsRequest{Limit: 100}, func(lrec) bool { return true }, 100, 1000000, "read back")
	w.close()
}

// A log with 0 or 1 record of 2000 bytes; one of the system calls or the meta storage fails while a record of 0..4000 bytes, or this and one of 3000, are
// appended: what is reported is added, nothing else is; then one more record of 10 bytes is appended and everything is read back.
//
//sym:harness prop=C05 budget=100s reach=failed,partial,all faults
func HAppendFault() {
	w := newWorld(bigCfg, 2)
	if verifsym.Choose("first", 2) == 1 {
		w.append(verifsym.Bytes("a", 2000))
	}
	recs := []*solaris.Record{{Payload: verifsym.Bytes("b", verifsym.Int("len", 0, 4000))}}
	if verifsym.Choose("second", 2) == 1 {
		recs = append(recs, &solaris.Record{Payload: verifsym.Bytes("c", 3000)})
	}
	if w.ms.fail = verifsym.Choose("meta fails", 2) == 1; !w.ms.fail {
		verifsym.FSFailAt(verifsym.Choose("failAt", 16))
	}
	res, err := w.ll.AppendRecords(w.ctx, &solaris.AppendRecordsRequest{LogID: "log", Records: recs, ExpandIDs: true})
	failed := w.ms.fail || verifsym.FSFailed()
	verifsym.Assert(!w.ms.fail || err != nil, "append: an error when the chunks of the log are not known")
	w.ms.fail = false
	verifsym.FSFailAt(0)
	n := 0
	if res != nil {
		n = int(res.Added)
	}
	verifsym.Assert((err != nil) == (n == 0), "append: either some records are added or there is an error")
	verifsym.Assert(n == len(recs) || failed, "append: all is added when nothing fails")
	if res != nil {
		w.took(recs, res)
	}
	switch {
	case n == 0:
		verifsym.Reach("failed")
	case n < len(recs):
		verifsym.Reach("partial")
	}
	w.append(verifsym.Bytes("d", 10))
	w.query(storage.QueryRecordsRequest{Limit: 100}, func(lrec) bool { return true }, 100, 1000000, "read back")
	w.prov.Close()
	verifsym.Assert(verifsym.OpenHandles() == 0, "append: no file is left open")
}

// Two clients append 1 record each of 0..4000 bytes to the same log, or to two logs, at the same time, with locks for 1 log or
// 2: each one gets the id of its own record, the log has each record once and the descriptors cover them.
//
//sym:harness prop=C05 budget=60s reach=same,other
func HAppendTwo() {
	verifsym.Schedule(1)
	cfg := bigCfg
	cfg.MaxLocks = 1 + verifsym.Choose("locks", 2)
	w := newWorld(cfg, 2)
	logs := []string{"log", "log"}
	if verifsym.Choose("logs", 2) == 1 {
		logs[1] = "log2"
	}
	w.append([]byte("first"))
	var recs [2]*solaris.Record
	var ress [2]*solaris.AppendRecordsResult
	add := func(i int) func() {
		recs[i] = &solaris.Record{Payload: verifsym.Bytes("pl"+string(rune('0'+i)), 10+verifsym.Choose("len"+string(rune('0'+i)), 2)*4000)}
		return func() {
			res, err := w.ll.AppendRecords(w.ctx, &solaris.AppendRecordsRequest{LogID: logs[i], Records: []*solaris.Record{recs[i]}, ExpandIDs: true})
			verifsym.Assert(err == nil && res.Added == 1, "append: a record which fits is added")
			ress[i] = res
		}
	}
	verifsym.Parallel(add(0), add(1))
	if logs[0] == logs[1] {
		verifsym.Reach("same")
		a, b := 0, 1
		if ress[0].RecordIDs[0] > ress[1].RecordIDs[0] {
			a, b = 1, 0
		}
		for _, i := range []int{a, b} {
			id, _ := ulid.Parse(ress[i].RecordIDs[0])
			w.all = append(w.all, lrec{id, ress[i].RecordIDs[0], recs[i].Payload})
		}
		w.checkMeta()
	} else {
		verifsym.Reach("other")
		w.took([]*solaris.Record{recs[0]}, ress[0])
		verifsym.Assert(len(w.ms.cis["log2"]) == 1 && w.ms.cis["log2"][0].RecordsCount == 1, "append: the other log has its record")
	}
	w.query(storage.QueryRecordsRequest{Limit: 100}, func(lrec) bool { return true }, 100, 1000000, "read back")
	w.close()
}
