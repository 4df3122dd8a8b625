package chunkfs

import (
	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/files"
	"github.com/solarisdb/solaris/golibs/verifsym"
)

//sym:models common_fs.go

// checkFill appends and compares with the longest prefix that fits
func checkFill(c *Chunk, used int, all []wrec, recs []*solaris.Record, what string) (int, []wrec) {
	ar, err := c.AppendRecords(recs)
	before := used
	fits := 0
	more := true
	for _, r := range recs {
		n := used + len(r.Payload) + cMetaRecordSize
		ok := n <= int(c.cfg.MaxChunkSize)
		more = verifsym.And(more, ok)
		fits = verifsym.IteInt(more, fits+1, fits)
		used = verifsym.IteInt(more, n, used)
	}
	if err != nil {
		verifsym.Assert(errors.Is(err, errors.ErrExhausted), what+": the only error is ErrExhausted")
		verifsym.Assert(fits < len(recs), what+": no error while all the records fit")
		verifsym.Assert(len(all) > 0, what+": no error while the chunk is empty")
		verifsym.Assert(ar.Written == 0, what+": nothing is written with an error")
		verifsym.Reach("exhausted")
		used = before
	} else {
		verifsym.Assert(ar.Written == fits, what+": the longest prefix that fits is written")
	}
	verifsym.Assert(c.mmf.Size() <= c.cfg.MaxChunkSize, what+": the chunk does not exceed its maximum size")
	fs := verifsym.FileSize(c.fn)
	verifsym.Assert(int64(fs) <= c.cfg.MaxChunkSize, what+": the file does not exceed the maximum size")
	return used, took(all, recs[:ar.Written], ar)
}

// a chunk of 1 block (the maximum): appends of 2 and 2 records, payloads of 0..5000 bytes each
//
//sym:harness prop=C02 budget=60s reach=all,partial,none,exhausted
func HFillOneBlock() {
	c := newSymChunk(oneBlock(1))
	verifsym.Assert(c.Open(false) == nil, "an empty file opens as a chunk")
	used, all := checkFill(c, cHeaderSize, nil, symRecs("a", 2, 5000), "append")
	n1 := len(all)
	_, all = checkFill(c, used, all, symRecs("b", 2, 5000), "second append")
	switch len(all) - n1 {
	case 0:
		verifsym.Reach("none")
	case 1:
		verifsym.Reach("partial")
	case 2:
		verifsym.Reach("all")
	}
	readAll(c, all, false, "read back")
	c.Close()
}

// a chunk growing from 1 block to at most 3: appends of 2 and 1 records, payloads of 0..9000 bytes each
//
//sym:harness prop=C02 budget=60s reach=grown,partial
func HFillGrowing() {
	c := newSymChunk(oneBlock(3))
	verifsym.Assert(c.Open(false) == nil, "an empty file opens as a chunk")
	used, all := checkFill(c, cHeaderSize, nil, symRecs("a", 2, 9000), "append")
	n1 := len(all)
	_, all = checkFill(c, used, all, symRecs("b", 1, 9000), "second append")
	if c.mmf.Size() > files.BlockSize {
		verifsym.Reach("grown")
	}
	if len(all) < 3 && n1 == 1 {
		verifsym.Reach("partial")
	}
	readAll(c, all, true, "read back")
	c.Close()
}

// any config of up to 64 blocks with every combination of free offset and number of records a chunk can have: one record of any size up to 300000 bytes
//
//sym:harness prop=C02 budget=30s
func HGrowAnyState() {
	maxB := verifsym.Int("maxBlocks", 1, 64)
	incB := verifsym.Int("incBlocks", 1, 64)
	curB := verifsym.Int("curBlocks", 1, 64)
	total := verifsym.Int("total", 0, 10000)
	free := verifsym.Int("free", cHeaderSize, 300000)
	ln := verifsym.Int("ln", 0, 300000)
	verifsym.Assume(curB <= maxB)
	used := free + total*cMetaRecordSize
	verifsym.Assume(used <= curB*files.BlockSize)
	c := newSymChunk(Config{NewSize: files.BlockSize, MaxChunkSize: int64(maxB) * files.BlockSize, MaxGrowIncreaseSize: int64(incB) * files.BlockSize})
	f, err := files.NewMMFile(c.fn, int64(curB)*files.BlockSize)
	verifsym.Assert(err == nil, "the file opens")
	c.mmf, c.total, c.freeOffset = f, total, free
	n, size := c.writable([]*solaris.Record{{Payload: make([]byte, ln)}})
	need := ln + cMetaRecordSize
	if used+need > maxB*files.BlockSize {
		verifsym.Assert(n == 0 || total > 0 && errors.Is(c.growForWrite(int64(size)), errors.ErrExhausted), "a record that does not fit is left out")
		return
	}
	verifsym.Assert(n == 1, "a record that fits is written")
	verifsym.Assert(size == need, "the size of the records to write is their payloads and meta records")
	verifsym.Assert(c.growForWrite(int64(size)) == nil, "the chunk can grow for what fits")
	verifsym.Assert(c.mmf.Size() <= c.cfg.MaxChunkSize, "the chunk does not exceed its maximum size")
	verifsym.Assert(c.mmf.Size()-int64(used) >= int64(need), "the chunk has grown enough")
	f.Close()
}

// A chunk of 1 block with 1 or 2 records of 0..2500 bytes each, at most 3 blocks; one of the system calls fails while a record of
// 0..5000 bytes is appended: the append is an error or complete, the records are readable afterwards with the chunk, and with the
// file when it is opened again with the full check, and the next append succeeds and is readable.
//
//sym:harness prop=C02 budget=60s reach=failed,grown faults
func HFillFault() {
	c := newSymChunk(oneBlock(3))
	verifsym.Assert(c.Open(false) == nil, "an empty file opens as a chunk")
	all := appendAll(c, nil, symRecs("a", 1+verifsym.Choose("records", 2), 1500))
	recs := symRecs("b", 1, 5000)
	verifsym.FSFailAt(verifsym.Choose("failAt", 6))
	ar, err := c.AppendRecords(recs)
	failed := verifsym.FSFailed()
	verifsym.FSFailAt(0)
	if err != nil {
		verifsym.Assert(failed, "no error while nothing fails")
		verifsym.Assert(ar.Written == 0, "nothing is written with an error")
		verifsym.Reach("failed")
	} else {
		verifsym.Assert(ar.Written == 1, "the record is written when there is no error")
		all = took(all, recs, ar)
		if verifsym.Branch(len(recs[0].Payload) > 4096) {
			verifsym.Reach("grown")
		}
	}
	readAll(c, all, false, "after a failed append")
	if verifsym.Choose("reopen", 2) == 1 {
		c.Close()
		verifsym.Assert(c.Open(true) == nil, "the chunk opens after a failed append")
		readAll(c, all, true, "opened after a failed append")
	}
	all = appendAll(c, all, symRecs("c", 1, 4000))
	readAll(c, all, false, "after the next append")
	c.Close()
	verifsym.Assert(verifsym.OpenHandles() == 0, "no file is left open")
}
