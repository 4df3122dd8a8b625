package chunkfs

import (
	"path/filepath"

	"github.com/oklog/ulid/v2"
	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/golibs/files"
	"github.com/solarisdb/solaris/golibs/verifsym"
)

type wrec struct {
	id  string
	pl  []byte
	raw ulid.ULID
}

func symRecs(tag string, n, maxLen int) []*solaris.Record {
	var recs []*solaris.Record
	for i := 0; i < n; i++ {
		s := tag + string(rune('0'+i))
		ln := verifsym.Int("len"+s, 0, maxLen)
		recs = append(recs, &solaris.Record{Payload: verifsym.Bytes("pl"+s, ln)})
	}
	return recs
}

func took(all []wrec, recs []*solaris.Record, ar AppendRecordsResult) []wrec {
	for i := 0; i < ar.Written; i++ {
		id, err := ulid.Parse(recs[i].ID)
		verifsym.Assert(err == nil, "append: a written record carries its id")
		if len(all) > 0 {
			verifsym.Assert(all[len(all)-1].raw.Compare(id) < 0, "append: ids grow")
		}
		if i == 0 {
			verifsym.Assert(id == ar.StartID, "append: StartID is the id of the first record written")
		}
		if i == ar.Written-1 {
			verifsym.Assert(id == ar.LastID, "append: LastID is the id of the last record written")
		}
		all = append(all, wrec{id: recs[i].ID, raw: id, pl: recs[i].Payload})
	}
	return all
}

func readAll(c *Chunk, all []wrec, desc bool, msg string) {
	if len(all) == 0 {
		return
	}
	cr, err := c.OpenChunkReader(desc)
	verifsym.Assert(err == nil, msg+": a reader opens")
	for i := range all {
		w := all[i]
		if desc {
			w = all[len(all)-1-i]
		}
		verifsym.Assert(cr.HasNext(), msg+": no record is missing")
		ur, ok := cr.Next()
		verifsym.Assert(ok, msg+": no record is missing")
		verifsym.Assert(ur.ID == w.raw, msg+": the records come in the order written")
		verifsym.CheckSame(ur.UnsafePayload, w.pl, msg+": the payload is the one written")
	}
	verifsym.Assert(!cr.HasNext(), msg+": there is no record that was not written")
	_, ok := cr.Next()
	verifsym.Assert(!ok, msg+": there is no record that was not written")
	cr.Close()
}

func newSymChunk(cfg Config) *Chunk {
	fn := filepath.Join(verifsym.TempDir(), "c1")
	verifsym.WriteFile(fn, nil)
	return NewChunk(fn, "c1", cfg)
}

func oneBlock(max int64) Config {
	return Config{NewSize: files.BlockSize, MaxChunkSize: max * files.BlockSize, MaxGrowIncreaseSize: files.BlockSize}
}

func appendAll(c *Chunk, all []wrec, recs []*solaris.Record) []wrec {
	ar, err := c.AppendRecords(recs)
	verifsym.Assert(err == nil, "append: no error while everything fits")
	verifsym.Assert(ar.Written == len(recs), "append: everything that fits is written")
	return took(all, recs, ar)
}

func reopen(c *Chunk) {
	verifsym.Assert(c.Close() == nil, "a chunk closes")
	verifsym.Assert(c.Open(false) == nil, "a chunk that was written opens again")
}
