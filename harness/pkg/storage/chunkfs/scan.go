//sym:models common_fs.go
//sym:models common_zip.go

package chunkfs

import (
	"context"
	"path/filepath"
	"time"

	"github.com/solarisdb/solaris/golibs/sss/inmem"
	"github.com/solarisdb/solaris/golibs/verifsym"
)

var scanIDs = []string{"01HQ000000000000000000000A", "01HQ000000000000000000000B", "01HQ000000000000000000000C"}

type scanWorld struct {
	dir  string
	s    *Scanner
	rem  *remote
	cont map[string][]byte // the latest content
	used map[string]bool
}

func (w *scanWorld) file(id string) string { return filepath.Join(w.dir, id) }

// there is what the remote storage has, nil if nothing
func (w *scanWorld) there(id string) []byte {
	name := filepath.Join(filepath.Dir(w.dir), "other", id)
	verifsym.WriteFile(name, []byte("old"))
	r := NewReplicator(func(string) string { return name })
	r.Storage = w.rem.st
	r.CA = NewChunkAccessor()
	if err := r.DownloadChunk(context.Background(), id, RFRemoteSync); err != nil {
		return nil
	}
	b, _ := verifsym.ReadFile(name)
	return b
}

func (w *scanWorld) here(id string) []byte {
	b, ok := verifsym.ReadFile(w.file(id))
	if !ok {
		return nil
	}
	return b
}

// 2 scans of a folder with 3 chunks of 2 to 4 symbolic bytes, modified one after another; the thresholds of the sweep symbolic; one of the chunks may be open or being written; one of them is changed between the scans, the second one sweeps all or nothing; one or none of the calls of the remote storage fails: no chunk is lost nor one which is used deleted, without failures the size goes below the threshold, the oldest first, and the latest content of what is old enough is in the remote storage
//
//sym:harness prop=C26 budget=60s reach=swept,kept,replicated,again,failed
func HScan() { scanTwice(false) }

// as HScan with any order of modification
//
//sym:harness prop=C26 tier=thorough budget=600s reach=swept,kept,replicated,again,failed
func HScanDeep() { scanTwice(true) }

func scanTwice(deep bool) {
	verifsym.FSTimes()
	w := &scanWorld{dir: filepath.Join(verifsym.TempDir(), "d"), rem: &remote{st: inmem.NewStorage()}, cont: map[string][]byte{}, used: map[string]bool{}}
	r := NewReplicator(w.file)
	r.Storage = w.rem
	r.CA = NewChunkAccessor()
	cfg := GetDefaultScannerConfig()
	cfg.SweepMaxThresholdSize = verifsym.Int64("max", 1, 12)
	cfg.SweepMinThresholdSize = verifsym.Int64("min", 1, 12)
	verifsym.Assume(cfg.SweepMinThresholdSize <= cfg.SweepMaxThresholdSize)
	cfg.RemoteSyncThreshold = 90 * time.Minute
	w.s = NewScanner(r, cfg)
	now := time.Now()
	sizes := [][3]int{{2, 3, 4}, {3, 3, 3}, {4, 2, 3}}[verifsym.Choose("sizes", 3)]
	order := []int{0, 1, 2}
	if deep {
		order = [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}[verifsym.Choose("order", 6)]
	}
	// hours ago
	for i, id := range scanIDs {
		w.cont[id] = verifsym.Bytes("content"+id[25:], sizes[i])
		verifsym.WriteFile(w.file(id), w.cont[id])
		verifsym.SetMtime(w.file(id), now.Add(-time.Duration(3-order[i])*time.Hour))
	}
	verifsym.WriteFile(w.file("noise"), []byte("x"))
	w.rem.failAt = verifsym.Choose("failAt", 4)
	switch verifsym.Choose("used", 3) {
	case 1:
		w.used[scanIDs[0]] = true
		verifsym.Assert(r.CA.openChunk(context.Background(), scanIDs[0]) == nil, "replication: open")
	case 2:
		w.used[scanIDs[1]] = true
		verifsym.Assert(r.CA.openChunk(context.Background(), scanIDs[1]) == nil, "replication: open")
	}
	w.scan(order, cfg, 0)
	if w.rem.failed {
		verifsym.Reach("failed")
	}
	w.rem.failAt = 0
	// one is changed
	id := scanIDs[verifsym.Choose("changed", 2)]
	if w.here(id) != nil {
		w.cont[id] = verifsym.Bytes("again"+id[25:], len(w.cont[id]))
		verifsym.WriteFile(w.file(id), w.cont[id])
		verifsym.SetMtime(w.file(id), now.Add(time.Minute))
		w.s.cfg.RemoteSyncThreshold = -time.Hour
		w.s.cfg.SweepMaxThresholdSize = 1000
		if verifsym.Choose("sweep", 2) == 1 {
			w.s.cfg.SweepMaxThresholdSize, w.s.cfg.SweepMinThresholdSize = 1, 1
		}
		w.s.scanDir(context.Background(), w.dir)
		for _, x := range scanIDs {
			verifsym.Assert(same(w.there(x), w.cont[x]), "replication: the latest content of a chunk is replicated")
		}
		verifsym.Reach("again")
	}
}

func (w *scanWorld) scan(order []int, cfg ScannerConfig, k int) {
	w.s.scanDir(context.Background(), w.dir)
	var before, left int64
	youngest, oldest := -1, 3 // of the deleted and of those kept though they are not used
	for i, id := range scanIDs {
		h, size := w.here(id), int64(len(w.cont[id]))
		before += size
		verifsym.Assert(same(h, w.cont[id]) || h == nil && same(w.there(id), w.cont[id]), "replication: a complete copy is left")
		verifsym.Assert(h != nil || !w.used[id], "replication: a chunk which is used is not swept")
		if h != nil {
			left += size
			if !w.used[id] {
				oldest = min(oldest, order[i])
			}
			verifsym.Reach("kept")
			if order[i] < 2 && !w.rem.failed {
				verifsym.Assert(same(w.there(id), w.cont[id]), "replication: a chunk old enough is replicated")
				verifsym.Reach("replicated")
			}
			if order[i] == 2 {
				verifsym.Assert(w.there(id) == nil, "replication: a chunk not old enough is not replicated yet")
			}
		} else {
			youngest = max(youngest, order[i])
			verifsym.Reach("swept")
		}
	}
	verifsym.Assert(youngest < 0 || before >= cfg.SweepMaxThresholdSize, "replication: nothing is swept below the threshold")
	if !w.rem.failed {
		verifsym.Assert(youngest < oldest, "replication: the oldest chunks are swept first")
		verifsym.Assert(before < cfg.SweepMaxThresholdSize || oldest == 3 || left < cfg.SweepMinThresholdSize, "replication: the size goes below the threshold")
		// no more than needed
		if youngest >= 0 {
			for i, id := range scanIDs {
				if order[i] == youngest {
					verifsym.Assert(left+int64(len(w.cont[id])) >= cfg.SweepMinThresholdSize, "replication: no more than needed is swept")
				}
			}
		}
	}
	v, ok := verifsym.ReadFile(w.file("noise"))
	verifsym.Assert(ok && len(v) == 1, "replication: other files are left alone")
}
