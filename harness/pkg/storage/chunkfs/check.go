package chunkfs

import (
	"encoding/binary"

	"github.com/oklog/ulid/v2"
	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/golibs/files"
	"github.com/solarisdb/solaris/golibs/verifsym"
)

//sym:models common_fs.go

func useAny(c *Chunk, full bool, msg string) {
	desc := verifsym.Choose("desc", 2) == 1
	total := c.total
	cr, err := c.OpenChunkReader(desc)
	verifsym.Assert(err == nil, msg+": a reader opens")
	var prev ulid.ULID
	size := cHeaderSize + total*cMetaRecordSize
	for i := 0; i < total; i++ {
		verifsym.Assert(cr.HasNext(), msg+": every record is there")
		ur, ok := cr.Next()
		verifsym.Assert(ok, msg+": every record is there")
		if i > 0 {
			verifsym.Assert(verifsym.And(verifsym.Or(desc, prev.Compare(ur.ID) <= 0), verifsym.Or(!desc, prev.Compare(ur.ID) >= 0)), msg+": ids are ordered")
		}
		prev = ur.ID
		size += len(ur.UnsafePayload)
	}
	verifsym.Assert(size <= files.BlockSize, msg+": the records do not overlap what describes them")
	verifsym.Assert(!cr.HasNext(), msg+": nothing follows the last record")
	cr.Close()
}

// a file of one block with arbitrary bytes whose record counter is at most 2, opened with the full check
//
//sym:harness prop=C04 budget=120s reach=accepted,rejected
func HOpenAnyFull() {
	c := newSymChunk(oneBlock(1))
	buf := verifsym.Bytes("file", files.BlockSize)
	verifsym.WriteFile(c.fn, buf)
	total := binary.BigEndian.Uint32(buf[8:12])
	verifsym.Assume(total <= 2)
	err := c.Open(true)
	if err != nil {
		verifsym.Reach("rejected")
		verifsym.Assert(!c.isOpened(), "a chunk that is reported broken is not left open")
		return
	}
	verifsym.Reach("accepted")
	useAny(c, true, "a file accepted by the full check")
	c.Close()
}

// a file of one block with arbitrary bytes whose record counter is at most 2, opened without the full check and appended to: it works and leaves a chunk which opens or it is an error, never a crash
//
//sym:harness prop=C04 budget=120s reach=accepted,rejected,appended
func HOpenAnyFast() {
	c := newSymChunk(oneBlock(1))
	buf := verifsym.Bytes("file", files.BlockSize)
	verifsym.WriteFile(c.fn, buf)
	total := binary.BigEndian.Uint32(buf[8:12])
	verifsym.Assume(total <= 2)
	if err := c.Open(false); err != nil {
		verifsym.Reach("rejected")
		verifsym.Assert(!c.isOpened(), "a chunk that is reported broken is not left open")
		return
	}
	verifsym.Reach("accepted")
	r, err := c.AppendRecords([]*solaris.Record{{Payload: verifsym.Bytes("new", 10)}})
	if err == nil && r.Written == 1 {
		verifsym.Reach("appended")
		c.Close()
		verifsym.Assert(c.Open(false) == nil && c.total > 0, "an append leaves a chunk which opens and has records")
	}
	c.Close()
}

// a file of one block with arbitrary bytes whose record counter is 1 or 2, opened without the full check and read in any direction
//
//sym:harness prop=C04 budget=120s reach=accepted
func HOpenAnyRead() {
	c := newSymChunk(oneBlock(1))
	buf := verifsym.Bytes("file", files.BlockSize)
	copy(buf, hdrVersion)
	verifsym.WriteFile(c.fn, buf)
	total := binary.BigEndian.Uint32(buf[8:12])
	verifsym.Assume(verifsym.And(total >= 1, total <= 2))
	if err := c.Open(false); err != nil {
		return
	}
	// the payload of every record is inside of the file
	inside := true
	for i := 1; i <= c.total; i++ {
		m := buf[files.BlockSize-i*cMetaRecordSize:]
		off, size := int32(binary.BigEndian.Uint32(m[16:20])), int32(binary.BigEndian.Uint32(m[20:24]))
		inside = verifsym.And(inside, off >= 0, off < files.BlockSize, size >= 0, int64(off)+int64(size) <= files.BlockSize)
	}
	cr, err := c.OpenChunkReader(verifsym.Choose("desc", 2) == 1)
	verifsym.Assert(err == nil, "a reader opens")
	pan := verifsym.Try(func() {
		for i := 0; i < 3 && cr.HasNext(); i++ {
			cr.Next()
		}
	})
	verifsym.Assert(verifsym.Or(pan == "", !inside), "records inside of the file are read without a crash")
	verifsym.Assert(pan == "", "a record which says it is outside of the file is read without a crash")
	verifsym.Reach("accepted")
	cr.Close()
	c.Close()
}

// a file of one block with arbitrary bytes and an arbitrary counter above the 169 records which fit into a block
//
//sym:harness prop=C04 budget=60s reach=rejected
func HOpenAnyCount() {
	c := newSymChunk(oneBlock(1))
	buf := verifsym.Bytes("file", files.BlockSize)
	verifsym.WriteFile(c.fn, buf)
	copy(buf, hdrVersion)
	verifsym.WriteFile(c.fn, buf)
	total := binary.BigEndian.Uint32(buf[8:12])
	verifsym.Assume(total > 169)
	err := c.Open(verifsym.Choose("full", 2) == 1)
	verifsym.Assert(err != nil, "a counter larger than the file can hold is rejected")
	verifsym.Reach("rejected")
}

// what was written by appends of 0..2 and 0..1 records of 0..100 bytes (or nothing) passes the full check and reads back
//
//sym:harness prop=C04 budget=60s reach=full
func HFullCheckOwn() {
	c := newSymChunk(oneBlock(1))
	verifsym.Assert(c.Open(false) == nil, "an empty file opens as a chunk")
	var all []wrec
	if n := verifsym.Choose("na", 3); n > 0 {
		all = appendAll(c, all, symRecs("a", n, 100))
	}
	if n := verifsym.Choose("nb", 2); n > 0 {
		all = appendAll(c, all, symRecs("b", n, 100))
	}
	verifsym.Assert(c.Close() == nil, "a chunk closes")
	verifsym.Assert(c.Open(true) == nil, "a chunk written by appends passes the full check")
	verifsym.Assert(c.total == len(all), "the chunk has the records written")
	readAll(c, all, verifsym.Choose("desc", 2) == 1, "read after the full check")
	verifsym.Reach("full")
	c.Close()
}
