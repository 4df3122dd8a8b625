package chunkfs

import (
	"github.com/oklog/ulid/v2"
	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/golibs/files"
	"github.com/solarisdb/solaris/golibs/verifsym"
)

//sym:models common_fs.go
//sym:steps pkg/storage/chunkfs/chunk.go golibs/files/mmfile.go

// afterCrash opens the file as a new process does and compares what it has with what was acknowledged and what was on its way
func afterCrash(old *Chunk, all []wrec, recs []*solaris.Record, grows string) {
	c := NewChunk(old.fn, "c1", old.cfg)
	err := c.Open(true)
	verifsym.Assert(err == nil, "a chunk opens after a crash"+grows)
	n := 0
	cr, err := c.OpenChunkReader(false)
	verifsym.Assert(err == nil, "a reader opens after a crash"+grows)
	for cr.HasNext() {
		ur, ok := cr.Next()
		verifsym.Assert(ok && n < len(all)+len(recs), "no record appears after a crash"+grows)
		if n < len(all) {
			verifsym.Assert(ur.ID == all[n].raw, "acknowledged records are there after a crash"+grows)
			verifsym.CheckSame(ur.UnsafePayload, all[n].pl, "acknowledged records have their payload after a crash"+grows)
		} else {
			id, err := ulid.Parse(recs[n-len(all)].ID)
			verifsym.Assert(err == nil && ur.ID == id, "a record which appears after a crash is one which was being appended"+grows)
			verifsym.CheckSame(ur.UnsafePayload, recs[n-len(all)].Payload, "a record which was being appended has its payload after a crash"+grows)
		}
		n++
	}
	verifsym.Assert(n >= len(all), "no acknowledged record is missing after a crash"+grows)
	cr.Close()
	// the chunk goes on
	if n > len(all) {
		for _, r := range recs[:n-len(all)] {
			id, _ := ulid.Parse(r.ID)
			all = append(all, wrec{id: r.ID, raw: id, pl: r.Payload})
		}
		verifsym.Reach("kept")
	} else {
		verifsym.Reach("lost")
	}
	all = appendAll(c, all, symRecs("c", 1, 40))
	readAll(c, all, false, "after a crash")
}

// A chunk of 1 block with 0 to 2 records of 0..100 arbitrary bytes; the process dies before any statement of chunk.go or
// mmfile.go which the append of 1 or 2 records of 0..100 bytes executes (the chunk does not grow); then the file is opened with the
// full check, read, and one more record is appended.
//
//sym:harness prop=C35 reach=kept,lost budget=60s
func HCrashAppend() {
	c := newSymChunk(oneBlock(1))
	verifsym.Assert(c.Open(true) == nil, "a new chunk opens")
	var all []wrec
	if n := verifsym.Choose("records", 3); n > 0 {
		all = appendAll(c, nil, symRecs("a", n, 100))
	}
	recs := symRecs("b", 1+verifsym.Choose("more", 2), 100)
	verifsym.Crash(verifsym.Int("crash at", 0, 400), func() { c.AppendRecords(recs) })
	afterCrash(c, all, recs, "")
}

// A new chunk is opened for the first time, the process dies before any statement of it; then it is opened again.
//
//sym:harness prop=C35 reach=lost budget=60s
func HCrashNew() {
	c := newSymChunk(oneBlock(1))
	verifsym.Crash(verifsym.Int("crash at", 0, 400), func() { c.Open(true) })
	afterCrash(c, nil, nil, "")
}

// A chunk of 1 block with 1 record of 4000 bytes; the process dies at any statement of the append of one of 2000 bytes, for
// which the chunk grows.
//
//sym:harness prop=C35 reach=kept,lost,grown budget=60s
func HCrashGrow() {
	c := newSymChunk(oneBlock(3))
	verifsym.Assert(c.Open(true) == nil, "a new chunk opens")
	all := appendAll(c, nil, []*solaris.Record{{Payload: verifsym.Bytes("a", 4000)}})
	recs := []*solaris.Record{{Payload: verifsym.Bytes("b", 2000)}}
	verifsym.Crash(verifsym.Int("crash at", 0, 400), func() { c.AppendRecords(recs) })
	at := ""
	b, _ := verifsym.ReadFile(c.fn)
	if len(b) > files.BlockSize {
		verifsym.Reach("grown")
		var last ulid.ULID
		copy(last[:], b[len(b)-cMetaRecordSize:])
		if verifsym.Branch(last != all[0].raw) {
			at = " between growing the file and moving its meta"
		}
	}
	afterCrash(c, all, recs, at)
}
