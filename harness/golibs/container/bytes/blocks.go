package bytes

import (
	"github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/verifsym"
)

// bworld is a block storage and what it should be: which blocks are in use
type bworld struct {
	bs, segs int
	ib       *inmemBtsBuf
	b        *Blocks
	used     []bool
	extra    int
	avail    int
}

// newBworld makes a storage with any set of blocks in use
func newBworld(bs, segs, extra int, full bool) *bworld {
	w := &bworld{bs: bs, segs: segs, extra: extra}
	per := bs*8 + 1
	w.ib = NewInMemBytes(segs*per*bs + extra)
	for s := 0; s < segs; s++ {
		hdr, _ := w.ib.Buffer(int64(s*per*bs), bs)
		copy(hdr, verifsym.Bytes("hdr"+string(rune('0'+s)), bs))
		for i := range hdr {
			if i < bs-1 {
				hdr[i] = 0xFF
			} else if !full {
				hdr[i] |= 0xC7
			}
		}
		for _, h := range hdr {
			for j := 0; j < 8; j++ {
				u := h&(1<<j) == 0
				w.used = append(w.used, !u)
				w.avail += verifsym.IteInt(u, 1, 0)
			}
		}
	}
	return w
}

func (w *bworld) open(fit bool) {
	var err error
	w.b, err = NewBlocks(w.bs, w.ib, fit)
	verifsym.Assert(err == nil, "blocks: open")
	verifsym.Assert(w.b.Segments() == w.segs && w.b.Count() == len(w.used), "blocks: the number of blocks")
	w.check()
}

func (w *bworld) check() {
	verifsym.Assert(w.b.Available() == w.avail, "blocks: available is the number of the blocks which are not in use")
}

func (w *bworld) arrange() int {
	idx, err := w.b.ArrangeBlock()
	if err != nil {
		verifsym.Assert(errors.Is(err, errors.ErrExhausted), "blocks: the error of a full storage")
		verifsym.Assert(verifsym.And(w.used...), "blocks: a block is refused only if all of them are in use")
		verifsym.Reach("full")
		return -1
	}
	verifsym.Assert(idx >= 0 && idx < len(w.used), "blocks: the block is inside")
	verifsym.Assert(!w.used[idx], "blocks: a block in use is not given")
	w.used[idx] = true
	w.avail--
	verifsym.Reach("given")
	return idx
}

func (w *bworld) free(name string) {
	idx := verifsym.AnyInt(name)
	if idx >= 0 && idx < len(w.used) {
		idx = verifsym.Concretize(idx)
		if w.bs > 1 || w.segs > 2 {
			verifsym.Assume(idx%(w.bs*8) >= w.bs*8-8)
		}
	}
	err := w.b.FreeBlock(idx)
	if idx < 0 || idx >= len(w.used) {
		verifsym.Assert(err != nil && errors.Is(err, errors.ErrInvalid), "blocks: an index outside is rejected")
		return
	}
	if !w.used[idx] {
		verifsym.Assert(err != nil && errors.Is(err, errors.ErrNotExist), "blocks: a block which is not in use is not freed")
		return
	}
	verifsym.Assert(err == nil, "blocks: a block in use is freed")
	w.used[idx] = false
	w.avail++
	verifsym.Reach("freed")
}

func (w *bworld) steps(n int) {
	for s := 0; s < n; s++ {
		k := string(rune('0' + s))
		if verifsym.Choose("op"+k, 2) == 0 {
			w.arrange()
		} else {
			w.free("idx" + k)
		}
	}
	w.check()
	w.open(false)
	w.arrange()
	w.check()
}

// 2 segments of blocks of 1 byte, any of 3 blocks of each one in use, the others are; 2 steps of allocating a block or freeing the block of any index, reopening and allocating again
//
//sym:harness prop=C17 budget=90s reach=end,given,freed,full
func HBlocks1() {
	w := newBworld(1, 2, 0, false)
	w.open(true)
	w.steps(2)
	verifsym.Reach("end")
}

// 2 segments of blocks of 2 bytes with a byte to spare, any of 3 blocks of each one in use, the others are: 2 steps
//
//sym:harness prop=C17 budget=60s reach=end,given,freed
func HBlocks2() {
	w := newBworld(2, 2, 1, false)
	w.open(false)
	w.steps(2)
	verifsym.Reach("end")
}

// 3 segments of blocks of 1 byte, any set in use: 4 steps
//
//sym:harness prop=C17 tier=thorough budget=800s reach=end,given,freed
func HBlocksDeep() {
	w := newBworld(1, 3, 0, true)
	w.open(true)
	w.steps(4)
	verifsym.Reach("end")
}

// blocks of 1, 2 or 4 bytes in 2 segments: any two blocks keep their bytes apart from each other, from the headers and from the bytes behind; indexes outside are rejected
//
//sym:harness prop=C17 budget=60s reach=end,outside
func HBlocksApart() {
	bs := 1 << verifsym.Choose("bs", 3)
	w := newBworld(bs, 2, []int{0, 1, 3 * bs}[verifsym.Choose("extra", 3)], false)
	w.open(false)
	i, j := verifsym.AnyInt("i"), verifsym.AnyInt("j")
	bi, err := w.b.Block(i)
	if i < 0 || i >= len(w.used) {
		verifsym.Assert(err != nil && errors.Is(err, errors.ErrInvalid), "blocks: an index outside is rejected")
		err = w.b.FreeBlock(i)
		verifsym.Assert(err != nil && errors.Is(err, errors.ErrInvalid), "blocks: an index outside is not freed")
		verifsym.Reach("outside")
		return
	}
	verifsym.Assert(err == nil && len(bi) == bs, "blocks: a block has the size of a block")
	verifsym.Assume(j >= 0 && j < len(w.used) && j != i)
	bj, err := w.b.Block(j)
	verifsym.Assert(err == nil && len(bj) == bs, "blocks: a block has the size of a block")
	ci, cj := verifsym.Bytes("ci", bs), verifsym.Bytes("cj", bs)
	copy(bi, ci)
	copy(bj, cj)
	for s := 0; s < 2; s++ {
		hdr, _ := w.ib.Buffer(int64(s*(bs*8+1)*bs), bs)
		for k, h := range hdr {
			for j := 0; j < 8; j++ {
				verifsym.Assert(h&(1<<j) != 0 == w.used[s*bs*8+k*8+j], "blocks: writing to a block does not allocate or free another")
			}
		}
	}
	bi, _ = w.b.Block(i)
	bj, _ = w.b.Block(j)
	verifsym.CheckSame(bi, ci, "blocks: a block keeps its bytes")
	verifsym.CheckSame(bj, cj, "blocks: a block keeps its bytes")
	for k := 1; k <= w.extra; k++ {
		b, _ := w.ib.Buffer(w.ib.Size()-int64(k), 1)
		verifsym.Assert(b[0] == 0, "blocks: nothing is written behind the segments")
	}
	verifsym.Reach("end")
}

// any block size and a storage of 16 sizes up to 3000 bytes: a size which is not a power of two below the page or not a number of pages is rejected, a storage too small or not fitting too, nothing panics
//
//sym:harness prop=C17 budget=30s reach=end,rejected,opened nomerge
func HBlocksOpen() {
	bs := verifsym.Int("bs", -70000, 70000)
	size := []int{0, 8, 9, 10, 18, 33, 34, 35, 132, 135, 520, 1040, 2063, 2064, 2065, 3000}[verifsym.Choose("size", 16)]
	fit := verifsym.Choose("fit", 2) == 1
	ib := NewInMemBytes(size)
	n := GetBlocksInSegment(bs)
	ok := verifsym.Or(bs == 1, bs == 2, bs == 4, bs == 8, bs == 16, bs == 32, bs == 64, bs == 128, bs == 256, bs == 512, bs == 1024, bs == 2048, verifsym.And(bs > 0, bs%4096 == 0))
	verifsym.Assert(n == verifsym.IteInt(ok, bs*8+1, -1), "blocks: the number of blocks of a segment")
	if !ok {
		_, err := NewBlocks(bs, ib, fit)
		verifsym.Assert(err != nil && errors.Is(err, errors.ErrInvalid), "blocks: a bad block size is rejected")
		verifsym.Reach("rejected")
		return
	}
	if bs > 8 {
		verifsym.Assume(bs == 16 || bs == 32 || bs == 1024 || bs == 8192)
	}
	bs = verifsym.Concretize(bs)
	b, err := NewBlocks(bs, ib, fit)
	segm := (bs*8 + 1) * bs
	if size < segm || fit && size%segm != 0 {
		verifsym.Assert(err != nil && errors.Is(err, errors.ErrInvalid), "blocks: a storage which does not fit is rejected")
		return
	}
	verifsym.Assert(err == nil && b.Segments() == size/segm && b.Available() == b.Count(), "blocks: an empty storage is opened")
	verifsym.Reach("opened")
	verifsym.Reach("end")
}

// a segment of 8 blocks, any of 3 of them in use, the others are; 2 goroutines, one allocates twice, another frees a block and allocates: no block is given twice; every schedule with up to 2 preemptions
//
//sym:harness prop=C17 budget=60s reach=end race repeat=2000
func HBlocksConc() {
	w := newBworld(1, 1, 0, false)
	w.open(true)
	x := 3 + verifsym.Choose("x", 3)
	verifsym.Assume(w.used[x])
	var a, c [2]int
	verifsym.Schedule(2)
	verifsym.Races()
	get := func() int {
		i, err := w.b.ArrangeBlock()
		if err != nil {
			return -1
		}
		return i
	}
	verifsym.Parallel(func() { a[0] = get(); a[1] = get() }, func() {
		verifsym.Assert(w.b.FreeBlock(x) == nil, "blocks: a block in use is freed")
		c[0] = get()
	})
	w.used[x] = false
	w.avail++
	for _, i := range []int{a[0], a[1], c[0]} {
		if i < 0 {
			continue
		}
		verifsym.Assert(i < 8 && !w.used[i], "blocks: a block in use is not given")
		w.used[i] = true
		w.avail--
	}
	w.check()
	verifsym.Assert(c[0] >= 0 || verifsym.And(w.used...), "blocks: a block is refused only if all of them are in use")
	verifsym.Reach("end")
}

// a segment of 8 blocks, any of 3 of them in use, the others are; two goroutines free the same block or different ones: every block is freed once; every schedule with up to 2 preemptions
//
//sym:harness prop=C17 budget=60s reach=end race repeat=2000
func HBlocksFreeConc() {
	w := newBworld(1, 1, 0, false)
	w.open(true)
	x, y := 3+verifsym.Choose("x", 3), 3+verifsym.Choose("y", 3)
	verifsym.Assume(w.used[x])
	verifsym.Assume(w.used[y])
	var e1, e2 error
	verifsym.Schedule(2)
	verifsym.Races()
	verifsym.Parallel(func() { e1 = w.b.FreeBlock(x) }, func() { e2 = w.b.FreeBlock(y) })
	if x == y {
		verifsym.Assert((e1 == nil) != (e2 == nil), "blocks: a block is freed once")
	} else {
		verifsym.Assert(e1 == nil && e2 == nil, "blocks: a block in use is freed")
		w.used[y] = false
		w.avail++
	}
	w.used[x] = false
	w.avail++
	w.check()
	verifsym.Reach("end")
}
