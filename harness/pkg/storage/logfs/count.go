package logfs

import (
	"github.com/solarisdb/solaris/golibs/verifsym"
	"github.com/solarisdb/solaris/pkg/storage"
)

//sym:models common_fs.go
//sym:models common_log.go

// count compares the result of CountRecords with the number of records which match
func (w *lworld) count(rq storage.QueryRecordsRequest, in func(r lrec) bool, msg string) {
	rq.LogID = "log"
	total, cnt, err := w.ll.CountRecords(w.ctx, rq)
	verifsym.Assert(err == nil, msg+": no error")
	verifsym.Assert(int(total) == len(w.all), msg+": total is the number of records of the log")
	n := 0
	for _, r := range w.all {
		if verifsym.Branch(in(r)) {
			n++
		}
	}
	verifsym.Assert(int(cnt) == n, msg+": the records counted are the ones which match")
	verifsym.Reach("counted")
}

// 5 records in 2 chunks with any increasing ids; no start id or any one; both directions; limits of queries do not matter
//
//sym:harness prop=C07 nomerge budget=60s reach=counted
func HCountStart() {
	w := newWorld(Config{MaxRecordsLimit: 1, MaxBunchSize: 10, MaxLocks: 3}, 2)
	w.fill(5, 1300)
	rq := storage.QueryRecordsRequest{Descending: verifsym.Choose("desc", 2) == 1, Limit: verifsym.Int64("limit", -1, 10)}
	if verifsym.Choose("cond", 2) == 1 {
		rq.Condition = " "
	}
	in := start(&rq, func(lrec) bool { return true })
	w.count(rq, in, "count")
	w.close()
}

// 3 records in 2 chunks with any increasing ids made in 1970..2070; one comparison of the creation time with any instant of 1970..2100 (in nanoseconds), 6 operations; no start id or any one; both directions
//
//sym:harness prop=C07 nomerge budget=100s reach=counted
func HCountCond1() {
	w := newWorld(bigCfg, 2)
	w.fill(3, 1900)
	rq := storage.QueryRecordsRequest{Descending: verifsym.Choose("desc", 2) == 1}
	var in func(lrec) bool
	rq.Condition, in = condOne(leaf(0, lops[verifsym.Choose("op", 6)]))
	in = start(&rq, in)
	w.count(rq, in, "count")
	w.close()
}

// 2 records in a chunk; two comparisons of the creation time with any instants of 1970..2100: c < A OR c > B with any start id, c > A AND c < B without one; both directions
//
//sym:harness prop=C07 nomerge budget=100s reach=counted
func HCountCond2() {
	w := newWorld(bigCfg, 2)
	w.fill(2, 1900)
	rq := storage.QueryRecordsRequest{Descending: verifsym.Choose("desc", 2) == 1}
	var in func(lrec) bool
	if verifsym.Choose("cond", 2) == 0 {
		rq.Condition, in = condAnd(leaf(0, ">"), leaf(1, "<"))
	} else {
		rq.Condition, in = condOr(leaf(0, "<"), leaf(1, ">"))
		in = from(&rq, in)
	}
	w.count(rq, in, "count")
	w.close()
}

// 2 records in 2 chunks; the file of one of the chunks cannot be opened: any of the two, both directions, no start id or any one
//
//sym:harness prop=C07 budget=60s reach=failed
func HCountError() {
	w := newWorld(bigCfg, 2)
	w.fill(2, 3000)
	cis := w.ms.cis["log"]
	cis[verifsym.Choose("chunk", 2)].ID = "01HQ0000000000000000000ZZZ"
	rq := storage.QueryRecordsRequest{LogID: "log", Descending: verifsym.Choose("desc", 2) == 1, Condition: "ctime > '1'"}
	var in func(lrec) bool
	rq.Condition, in = condOne(leaf(0, ">="))
	total, cnt, err := w.ll.CountRecords(w.ctx, rq)
	n := 0
	for _, r := range w.all {
		if verifsym.Branch(in(r)) {
			n++
		}
	}
	verifsym.Assert(err != nil || int(total) == 2 && int(cnt) == n, "count: a chunk which cannot be read is an error, not a count")
	if err != nil {
		verifsym.Reach("failed")
	}
	w.close()
}
