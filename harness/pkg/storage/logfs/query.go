package logfs

import (
	"github.com/solarisdb/solaris/golibs/verifsym"
	"github.com/solarisdb/solaris/pkg/storage"
)

//sym:models common_fs.go
//sym:models common_log.go

// 5 records in 2 chunks with any increasing ids; no condition or a blank one; no start id or any one; both directions; any limit from -1 to 10, the limit of the configuration 4 records or 3500 bytes
//
//sym:harness prop=C06 nomerge budget=60s reach=all,cut
func HQueryStart() {
	cfg := bigCfg
	if verifsym.Choose("limits", 2) == 0 {
		cfg.MaxRecordsLimit = 4
	} else {
		cfg.MaxBunchSize = 3500
	}
	w := newWorld(cfg, 2)
	w.fill(5, 1300)
	rq := storage.QueryRecordsRequest{Descending: verifsym.Choose("desc", 2) == 1, Limit: verifsym.Int64("limit", -1, 10)}
	if verifsym.Choose("cond", 2) == 1 {
		rq.Condition = " "
	}
	in := start(&rq, func(lrec) bool { return true })
	w.query(rq, in, cfg.MaxRecordsLimit, cfg.MaxBunchSize, "query")
	w.close()
}

// 2 records in 1 or 2 chunks, read in both directions: the result is the caller's, who may change it
//
//sym:harness prop=C06 budget=30s reach=all
func HQueryOwn() {
	w := newWorld(bigCfg, 2)
	w.fill(2, 1000+1000*verifsym.Choose("size", 2))
	rq := storage.QueryRecordsRequest{Descending: verifsym.Choose("desc", 2) == 1, Limit: 100, LogID: "log"}
	res, _, err := w.ll.QueryRecords(w.ctx, rq)
	verifsym.Assert(err == nil && len(res) == 2, "query: no record which matches is left out")
	for _, r := range res {
		r.Payload[0]++
		r.Payload[len(r.Payload)-1]++
	}
	w.query(rq, func(lrec) bool { return true }, 100, 1000000, "query after the result of another one was changed")
	w.close()
}

// 3 records in 2 chunks with any increasing ids made in 1970..2070; one comparison of the creation time with any instant of 1970..2100 (in nanoseconds), 6 operations; no start id or any one; both directions
//
//sym:harness prop=C06 nomerge budget=100s reach=all
func HQueryCond1() {
	w := newWorld(bigCfg, 2)
	w.fill(3, 1900)
	rq := storage.QueryRecordsRequest{Descending: verifsym.Choose("desc", 2) == 1, Limit: 100}
	var in func(lrec) bool
	rq.Condition, in = condOne(leaf(0, lops[verifsym.Choose("op", 6)]))
	in = start(&rq, in)
	w.query(rq, in, 100, 1000000, "query")
	w.close()
}

// 2 records in a chunk with any increasing ids made in 1970..2070; two comparisons of the creation time with any instants of 1970..2100 joined with AND or OR; no start id; both directions
//
//sym:harness prop=C06 nomerge budget=100s reach=all
func HQueryCond2() { cond2(2, false) }

// 3 records in a chunk with any increasing ids made in 1970..2070; c < A OR c > B, A <= B, with any milliseconds A and B; any start id; both directions
//
//sym:harness prop=C06 nomerge budget=150s reach=all
func HQueryGap() {
	w := newWorld(bigCfg, 2)
	w.fill(3, 1300)
	rq := storage.QueryRecordsRequest{Descending: verifsym.Choose("desc", 2) == 1, Limit: 100}
	wholeMs = true
	var in func(lrec) bool
	rq.Condition, in = condOr(leaf(0, "<"), leaf(1, ">"))
	verifsym.Assume(tconsts[0] <= tconsts[1])
	in = from(&rq, in)
	w.query(rq, in, 100, 1000000, "query")
	w.close()
}

// as HQueryCond2 with 3 records in 2 chunks and a start id with every condition
//
//sym:harness prop=C06 nomerge tier=thorough budget=600s reach=all
func HQueryCond2Deep() { cond2(3, true) }

func cond2(n int, sid bool) {
	w := newWorld(bigCfg, 2)
	w.fill(n, 1900)
	rq := storage.QueryRecordsRequest{Descending: verifsym.Choose("desc", 2) == 1, Limit: 100}
	var in func(lrec) bool
	switch verifsym.Choose("cond", 4) {
	case 0:
		rq.Condition, in = condAnd(leaf(0, ">="), leaf(1, "<"))
	case 1:
		rq.Condition, in = condAnd(leaf(0, ">"), leaf(1, "<="))
	case 2:
		rq.Condition, in = condOr(leaf(0, "<"), leaf(1, ">"))
	default:
		rq.Condition, in = condOr(leaf(0, "="), leaf(1, "="))
	}
	if sid {
		in = start(&rq, in)
	}
	w.query(rq, in, 100, 1000000, "query")
	w.close()
}
