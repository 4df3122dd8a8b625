//sym:models common_fs.go
//sym:models common_zip.go

package chunkfs

import (
	"context"
	"path/filepath"
	"strings"

	"github.com/solarisdb/solaris/golibs/sss/inmem"
	"github.com/solarisdb/solaris/golibs/verifsym"
)

const replID = "01HQ000000000000000000000A"

// replWorld is a chunk file here and there
type replWorld struct {
	dir    string
	r      *Replicator
	rem    *remote
	latest []byte
	fs     bool // calls of the system may fail
	n      int
}

func newReplWorld() *replWorld {
	w := &replWorld{dir: verifsym.TempDir(), rem: &remote{st: inmem.NewStorage()}}
	w.r = NewReplicator(func(id string) string { return filepath.Join(w.dir, id) })
	w.r.Storage = w.rem
	w.r.CA = NewChunkAccessor()
	return w
}

func (w *replWorld) local() []byte {
	b, ok := verifsym.ReadFile(filepath.Join(w.dir, replID))
	if !ok {
		return nil
	}
	return b
}

// there gives what a download of what is in the remote storage now would give to somebody else, nil if nothing
func (w *replWorld) there() []byte {
	dir := filepath.Join(w.dir, "other")
	w.n++
	name := filepath.Join(dir, "f"+string(rune('a'+w.n)))
	verifsym.WriteFile(filepath.Join(dir, "f"), []byte("old"))
	r := NewReplicator(func(string) string { return name })
	r.Storage = w.rem.st
	r.CA = NewChunkAccessor()
	if w.fs {
		verifsym.FSHold(true)
		defer verifsym.FSHold(false)
	}
	if err := r.DownloadChunk(context.Background(), replID, RFRemoteSync); err != nil {
		return nil
	}
	b, _ := verifsym.ReadFile(name)
	return b
}

func (w *replWorld) change(n string) {
	w.latest = verifsym.Bytes("content"+n, 2+2*len(n))
	verifsym.WriteFile(filepath.Join(w.dir, replID), w.latest)
}

// step makes a step and checks what it says about what it did
func (w *replWorld) step(i string) {
	ctx := context.Background()
	here, there := w.local(), w.there()
	bad := func() bool { return w.rem.failed || (w.fs && verifsym.FSFailed()) }
	was := bad()
	switch verifsym.Choose("step"+i, 5) {
	case 0:
		err := w.r.UploadChunk(ctx, replID)
		if err == nil {
			verifsym.Assert(here != nil && same(w.there(), here), "replication: what was uploaded is in the remote storage")
			verifsym.Reach("uploaded")
		} else {
			verifsym.Assert(here == nil || (bad() && !was), "replication: only a failure or a missing file keep a chunk from being uploaded")
		}
		verifsym.Assert(same(w.local(), here) || here == nil, "replication: an upload leaves the local file as it is")
	case 1:
		err := w.r.DownloadChunk(ctx, replID, 0)
		if err == nil {
			if here != nil {
				verifsym.Assert(same(w.local(), here), "replication: a file which is here is not downloaded")
			} else {
				verifsym.Assert(there != nil && same(w.local(), there), "replication: what was downloaded is what was uploaded")
				verifsym.Reach("downloaded")
			}
		} else {
			verifsym.Assert(there == nil || (bad() && !was), "replication: only a failure or a missing object keep a chunk from being downloaded")
			verifsym.Assert(here == nil || same(w.local(), here), "replication: a failed download leaves the local file as it is")
			verifsym.Assert(here != nil || w.local() == nil || same(w.local(), there), "replication: a failed download leaves no part of the file")
		}
	case 2:
		// downloads also if there is a file here: only for those which do not lose the latest
		verifsym.Assume(there == nil || same(there, w.latest))
		err := w.r.DownloadChunk(ctx, replID, RFRemoteSync)
		if err == nil {
			verifsym.Assert(there != nil && same(w.local(), there), "replication: what was downloaded is what was uploaded")
			verifsym.Reach("synced")
		} else {
			verifsym.Assert(there == nil || (bad() && !was), "replication: only a failure or a missing object keep a chunk from being downloaded")
			l := w.local()
			verifsym.Assert(l == nil || same(l, here) || same(l, there), "replication: a failed download leaves no part of the file")
		}
	case 3:
		err := w.r.DeleteChunk(ctx, replID, RFRemoteSync)
		if err == nil {
			verifsym.Assert(w.local() == nil, "replication: a deleted file is not here")
			verifsym.Assert(here != nil && same(w.there(), here), "replication: what was deleted here is in the remote storage")
			verifsym.Reach("deleted")
		} else {
			verifsym.Assert(here == nil || (bad() && !was), "replication: only a failure or a missing file keep a chunk from being deleted")
			verifsym.Reach("failed")
		}
	case 4:
		if here == nil {
			return
		}
		w.change(i)
	}
	verifsym.Assert(same(w.local(), w.latest) || same(w.there(), w.latest), "replication: a complete copy is left")
	if !w.fs || !bad() {
		for _, n := range verifsym.FileNames(w.dir) {
			verifsym.Assert(n == replID || n == replID+cChunkInfoExt || strings.HasPrefix(n, "other/"), "replication: no temporary file is left")
		}
	}
}

// a chunk file with 3 symbolic bytes, uploaded or deleted with synchronisation before or not, any 3 steps of uploading it, downloading it (if missing or in any case, the latter unless it loses changes), deleting it with synchronisation and changing it; any one or none of the calls of the remote storage fails before, in the midst of or after its work: what a step says to be done is done, no step loses the only complete copy of the latest content
//
//sym:harness prop=C26 budget=60s reach=uploaded,downloaded,synced,deleted,failed
func HReplicate() { replicateSteps(3) }

// as HReplicate with 4 steps
//
//sym:harness prop=C26 tier=thorough budget=600s reach=uploaded,downloaded,synced,deleted,failed
func HReplicateDeep() { replicateSteps(4) }

func replicateSteps(n int) {
	w := newReplWorld()
	w.rem.failAt = verifsym.Choose("failAt", n+1)
	if w.rem.failAt > 0 {
		w.rem.how = verifsym.Choose("how", 3)
	}
	w.latest = verifsym.Bytes("content", 3)
	verifsym.WriteFile(filepath.Join(w.dir, replID), w.latest)
	fa := w.rem.failAt
	w.rem.failAt = 0
	w.before()
	w.rem.calls, w.rem.failAt = 0, fa
	for i := 0; i < n; i++ {
		w.step(string(rune('a' + i)))
	}
	verifsym.Assert(w.r.CA.setDeleting(replID), "replication: a chunk is released after all")
}

func (w *replWorld) before() {
	switch verifsym.Choose("before", 3) {
	case 1:
		verifsym.Assert(w.r.UploadChunk(context.Background(), replID) == nil, "replication: upload")
	case 2:
		verifsym.Assert(w.r.DeleteChunk(context.Background(), replID, RFRemoteSync) == nil, "replication: delete")
	}
}

// as HReplicate with 2 steps, any one of the calls of the operating system (open, create, read, write of which a half is done, rename, remove) fails
//
//sym:harness prop=C26 budget=60s reach=uploaded,downloaded,synced,deleted,failed faults
func HReplicateFaults() { replicateFaults(2) }

// as HReplicateFaults with 3 steps
//
//sym:harness prop=C26 tier=thorough budget=600s reach=uploaded,downloaded,synced,deleted,failed faults
func HReplicateFaultsDeep() { replicateFaults(3) }

func replicateFaults(n int) {
	w := newReplWorld()
	w.latest = verifsym.Bytes("content", 3)
	verifsym.WriteFile(filepath.Join(w.dir, replID), w.latest)
	w.before()
	verifsym.FSFailAt(verifsym.Choose("failAt", 20*n))
	w.fs = true
	for i := 0; i < n; i++ {
		w.step(string(rune('a' + i)))
	}
	verifsym.Assert(w.r.CA.setDeleting(replID), "replication: a chunk is released after all")
}
