//sym:models common_fs.go
//sym:models common_zip.go

package chunkfs

import (
	"context"

	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/golibs/sss/inmem"
	"github.com/solarisdb/solaris/golibs/verifsym"
)

// a chunk with 2 records of symbolic bytes in the remote storage, the local file the same, missing or with a symbolic number of records in its header; the provider opens it while one or none of the calls of the remote storage fails, and again after that: when it is opened it has the records, a failure leaves it closed and able to be opened later
//
//sym:harness prop=C26 budget=60s reach=opened,failed
func HProvide() {
	dir := verifsym.TempDir()
	id := "01HQ000000000000000000000A"
	rem := &remote{st: inmem.NewStorage()}
	p := NewProvider(dir, 2, Config{NewSize: 4096, MaxChunkSize: 8192, MaxGrowIncreaseSize: 4096})
	fn := p.GetFileNameByID(id)
	p.CA = NewChunkAccessor()
	p.Replicator = NewReplicator(p.GetFileNameByID)
	p.Replicator.Storage, p.Replicator.CA = rem, p.CA
	verifsym.WriteFile(fn, nil)

	bg := context.Background()
	c := NewChunk(fn, id, p.ccfg)
	verifsym.Assert(c.Open(false) == nil, "provider: open")
	pl := [][]byte{verifsym.Bytes("p0", 2), verifsym.Bytes("p1", 3)}
	res, err := c.AppendRecords([]*solaris.Record{{Payload: pl[0]}, {Payload: pl[1]}})
	verifsym.Assert(err == nil && res.Written == 2, "provider: append")
	verifsym.Assert(c.Close() == nil, "provider: close")
	verifsym.Assert(p.Replicator.UploadChunk(bg, id) == nil, "provider: upload")
	whole, _ := verifsym.ReadFile(fn)
	local := verifsym.Choose("local", 3)
	bad := false
	switch local {
	case 1:
		verifsym.Assert(p.Replicator.DeleteChunk(bg, id, RFRemoteSync) == nil, "provider: delete")
	case 2:
		b := append([]byte(nil), whole...)
		vl := len(hdrVersion)
		b[vl], b[vl+1] = 0, verifsym.Byte("hi")
		b[vl+2], b[vl+3] = verifsym.Byte("mid"), verifsym.Byte("lo")
		total := int(b[vl+1])<<16 + int(b[vl+2])<<8 + int(b[vl+3])
		bad = cHeaderSize+total*cMetaRecordSize > 4096
		verifsym.Assume(bad)
		verifsym.WriteFile(fn, b)
	}
	rem.failAt = rem.calls + verifsym.Choose("fails", 2)
	if rem.failAt == rem.calls {
		rem.failAt = 0
	}
	rem.how = verifsym.Choose("how", 2)
	for i := 0; i < 2; i++ {
		rc, err := p.GetOpenedChunk(bg, id, false)
		if err != nil {
			verifsym.Assert(i == 0 && rem.failed, "provider: a chunk which has a complete copy can be opened")
			verifsym.Assert(p.CA.setDeleting(id), "provider: a chunk which was not opened is not in use")
			p.CA.SetIdle(id)
			verifsym.Reach("failed")
			continue
		}
		verifsym.Assert(!p.CA.setDeleting(id), "provider: an open chunk is in use")
		cr, err := rc.Value().OpenChunkReader(false)
		verifsym.Assert(err == nil, "provider: reader")
		for k := 0; k < 2; k++ {
			verifsym.Assert(cr.HasNext(), "provider: the records are there")
			r, _ := cr.Next()
			verifsym.CheckSame(r.UnsafePayload, pl[k], "provider: the records are as they were written")
		}
		verifsym.Assert(!cr.HasNext(), "provider: no other records are there")
		cr.Close()
		p.ReleaseChunk(&rc)
		verifsym.Reach("opened")
	}
	verifsym.Assert(p.Close() == nil, "provider: close")
	verifsym.Assert(p.CA.setDeleting(id), "provider: a chunk is not in use after all")
	verifsym.Assert(same(fileOf(fn), whole), "provider: the file is complete after all")
}

func fileOf(fn string) []byte {
	b, _ := verifsym.ReadFile(fn)
	return b
}
