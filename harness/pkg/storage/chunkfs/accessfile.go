//sym:models common_fs.go

package chunkfs

import (
	"context"
	"path/filepath"

	"github.com/solarisdb/solaris/golibs/verifsym"
)

// the file of a chunk, empty or not or not there, with somebody using the chunk in any way (writing, deleting, having it opened, opened and written) or nobody: DeleteFileIfEmpty removes the file only if it is empty and the chunk is not used, and what the user does stays exclusive
//
//sym:harness prop=C25 budget=30s reach=removed,kept
func HDeleteEmpty() {
	dir := verifsym.TempDir()
	ca := NewChunkAccessor()
	p := NewProvider(dir, 10, Config{NewSize: 4096, MaxChunkSize: 8192, MaxGrowIncreaseSize: 4096})
	p.CA = ca
	id := "00000000000000000000000001"
	fn := filepath.Join(dir, "01", id)
	size := []int{-1, 0, 1, 4096}[verifsym.Choose("size", 4)]
	if size >= 0 {
		b := make([]byte, size)
		for i := 0; i < len(b) && i < 3; i++ {
			b[i] = verifsym.Byte("b")
		}
		verifsym.WriteFile(fn, b)
	}
	bg := context.Background()
	used := verifsym.Choose("used", 5)
	switch used {
	case 1:
		verifsym.Assert(ca.SetWriting(bg, id) == nil, "access: a chunk nobody uses can be written")
	case 2:
		verifsym.Assert(ca.setDeleting(id), "access: a chunk nobody uses can be deleted")
	case 3, 4:
		verifsym.Assert(ca.openChunk(bg, id) == nil, "access: a chunk nobody uses can be opened")
		if used == 4 {
			verifsym.Assert(ca.SetWriting(bg, id) == nil, "access: an open chunk can be written")
		}
	}
	p.DeleteFileIfEmpty("")
	p.DeleteFileIfEmpty(id)
	now := verifsym.FileSize(fn)
	if size == 0 && used == 0 {
		verifsym.Assert(now == -1, "access: an empty file of a chunk nobody uses is removed")
		verifsym.Reach("removed")
	} else {
		verifsym.Assert(now == size, "access: the file of a chunk which is used or not empty is not removed")
		verifsym.Reach("kept")
	}
	ctx, cancel := context.WithCancel(bg)
	cancel()
	switch used {
	case 0:
		verifsym.Assert(ca.setDeleting(id), "access: a chunk nobody uses can be deleted")
		return
	case 1, 4:
		verifsym.Assert(ca.SetWriting(ctx, id) != nil, "access: writing is exclusive")
		verifsym.Assert(!ca.setDeleting(id), "access: a chunk being written is not deleted")
		if used == 1 {
			verifsym.Assert(ca.openChunk(ctx, id) != nil, "access: a chunk is not opened while it is written")
		}
	case 2:
		verifsym.Assert(ca.SetWriting(ctx, id) != nil && ca.openChunk(ctx, id) != nil && !ca.setDeleting(id), "access: a chunk being deleted is not used")
	case 3:
		verifsym.Assert(!ca.setDeleting(id), "access: an open chunk is not deleted")
		verifsym.Assert(ca.closeChunk(id) == nil, "access: a chunk which is opened can be closed")
	}
	if used != 3 {
		ca.SetIdle(id)
	}
	if used == 4 {
		verifsym.Assert(!ca.setDeleting(id), "access: an open chunk is not deleted")
		verifsym.Assert(ca.closeChunk(id) == nil, "access: a chunk which is opened can be closed")
	}
	verifsym.Assert(ca.setDeleting(id), "access: a chunk nobody uses can be deleted")
}
