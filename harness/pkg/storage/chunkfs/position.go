package chunkfs

import (
	"github.com/solarisdb/solaris/golibs/verifsym"
)

//sym:models common_fs.go

func checkPos(n int) {
	c := newSymChunk(oneBlock(1))
	verifsym.Assert(c.Open(false) == nil, "an empty file opens as a chunk")
	all := appendAll(c, nil, symRecs("a", n, 0))
	desc := verifsym.Choose("desc", 2) == 1
	start := verifsym.ULID("start")
	cr, err := c.OpenChunkReader(desc)
	verifsym.Assert(err == nil, "a reader opens")
	// the position before does not matter
	for i := verifsym.Choose("skip", 2); i > 0; i-- {
		cr.Next()
	}
	got := cr.SetStartID(start)
	want := 0
	for _, w := range all {
		cmp := w.raw.Compare(start)
		var in bool
		if desc {
			in = cmp <= 0
		} else {
			in = cmp >= 0
		}
		want = verifsym.IteInt(in, want+1, want)
	}
	verifsym.Assert(got == want, "SetStartID: the number of records left is the number of records on the right side of the id")
	if got > 0 {
		verifsym.Reach("some")
	} else {
		verifsym.Reach("nothing")
	}
	for i := 0; i < got; i++ {
		verifsym.Assert(cr.HasNext(), "SetStartID: all the records reported are there")
		ur, ok := cr.Next()
		verifsym.Assert(ok, "SetStartID: all the records reported are there")
		w := all[len(all)-got+i]
		if desc {
			w = all[got-1-i]
		}
		verifsym.Assert(ur.ID == w.raw, "SetStartID: reading goes on from the first matching record in order")
	}
	verifsym.Assert(!cr.HasNext(), "SetStartID: nothing follows the records reported")
	cr.Close()
	c.Close()
}

// 1..4 records with any increasing ids, any start id, both directions, before the first read or after it
//
//sym:harness prop=C03 nomerge budget=60s reach=some,nothing
func HPosition() { checkPos(1 + verifsym.Choose("n", 4)) }

// 5..9 records with any increasing ids, any start id, both directions
//
//sym:harness prop=C03 nomerge budget=60s reach=some,nothing
func HPositionMore() { checkPos(5 + verifsym.Choose("n", 5)) }
