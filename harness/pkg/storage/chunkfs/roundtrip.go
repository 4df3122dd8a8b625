package chunkfs

import (
	"github.com/oklog/ulid/v2"
	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/golibs/files"
	"github.com/solarisdb/solaris/golibs/verifsym"
)

//sym:models common_fs.go

// appends of 2 and of 1 records with arbitrary bytes (0..200 each) into a chunk of one block; read in both directions before and after a reopening
//
//sym:harness prop=C01 budget=60s reach=read
func HAppendRead() {
	c := newSymChunk(oneBlock(1))
	verifsym.Assert(c.Open(false) == nil, "an empty file opens as a chunk")
	all := appendAll(c, nil, symRecs("a", 2, 200))
	readAll(c, all, verifsym.Choose("desc", 2) == 1, "read")
	all = appendAll(c, all, symRecs("b", 1, 200))
	readAll(c, all, true, "read backwards")
	reopen(c)
	readAll(c, all, false, "read after reopening")
	verifsym.Reach("read")
	c.Close()
}

// a record of 0..300 and one of 0..9000 arbitrary bytes appended one by one, the chunk growing from 1 block up to 4 blocks; read back before and after a reopening
//
//sym:harness prop=C01 budget=60s reach=read,grown
func HGrow() {
	c := newSymChunk(oneBlock(4))
	verifsym.Assert(c.Open(false) == nil, "an empty file opens as a chunk")
	all := appendAll(c, nil, symRecs("a", 1, 300))
	all = appendAll(c, all, symRecs("b", 1, 9000))
	if c.mmf.Size() > files.BlockSize {
		verifsym.Reach("grown")
	}
	readAll(c, all, false, "read")
	reopen(c)
	readAll(c, all, true, "read backwards after reopening")
	verifsym.Reach("read")
	c.Close()
}

// a record of 0..300 arbitrary bytes (or none), the chunk is closed and opened again (with the full check or without), then one of 0..4000: both are read, before and after one more reopening with the full check; the chunk grows from 1 block up to 2
//
//sym:harness prop=C01 budget=60s reach=read,grown
func HReopenAppend() {
	c := newSymChunk(oneBlock(2))
	verifsym.Assert(c.Open(false) == nil, "an empty file opens as a chunk")
	var all []wrec
	if verifsym.Choose("first", 2) == 1 {
		all = appendAll(c, all, symRecs("a", 1, 300))
	}
	all = appendAll(c, all, nil)
	verifsym.Assert(c.Close() == nil, "a chunk closes")
	verifsym.Assert(c.Open(verifsym.Choose("full", 2) == 1) == nil, "a chunk that was written opens again")
	all = appendAll(c, all, symRecs("b", 1, 4000))
	if c.mmf.Size() > files.BlockSize {
		verifsym.Reach("grown")
	}
	readAll(c, all, false, "read")
	verifsym.Assert(c.Close() == nil, "a chunk closes")
	verifsym.Assert(c.Open(true) == nil, "a chunk that was written passes the full check")
	readAll(c, all, verifsym.Choose("desc", 2) == 1, "read after reopening")
	verifsym.Reach("read")
	c.Close()
}

// a chunk with a record; it is read, in either direction, while another goroutine appends two more records, the second one makes it grow: what is read is the records of before or after an append; every schedule with up to 2 preemptions
//
//sym:harness prop=C01 budget=60s reach=read,more race repeat=500
func HReadAppend() {
	c := newSymChunk(oneBlock(2))
	verifsym.Assert(c.Open(false) == nil, "an empty file opens as a chunk")
	all := appendAll(c, nil, []*solaris.Record{{Payload: verifsym.Bytes("a", 3)}})
	desc := verifsym.Choose("desc", 2) == 1
	b, d := verifsym.Bytes("b", 4), make([]byte, files.BlockSize)
	copy(d, verifsym.Bytes("d", 2))
	var ids []ulid.ULID
	var pls [][]byte
	verifsym.Schedule(2)
	verifsym.Races()
	verifsym.Parallel(func() {
		all = appendAll(c, all, []*solaris.Record{{Payload: b}})
		all = appendAll(c, all, []*solaris.Record{{Payload: d}})
	}, func() {
		cr, err := c.OpenChunkReader(desc)
		verifsym.Assert(err == nil, "a reader opens")
		for cr.HasNext() {
			r, ok := cr.Next()
			verifsym.Assert(ok, "no record is missing")
			ids = append(ids, r.ID)
			pls = append(pls, append([]byte(nil), r.UnsafePayload...))
		}
		cr.Close()
	})
	n := len(ids)
	verifsym.Assert(n >= 1 && n <= 3, "read while appending: the records of some moment")
	for i := range ids {
		w := all[i]
		if desc {
			w = all[n-1-i]
		}
		verifsym.Assert(ids[i] == w.raw, "read while appending: the records come in the order written")
		verifsym.CheckSame(pls[i], w.pl, "read while appending: the payload is the one written")
	}
	if n > 1 {
		verifsym.Reach("more")
	}
	verifsym.Reach("read")
	readAll(c, all, desc, "read")
	c.Close()
}
