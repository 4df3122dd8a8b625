//sym:models common_fs.go

package files

import (
	"path/filepath"

	"github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/verifsym"
)

// a file of 4 sizes up to 9000 bytes with a marked byte anywhere, opened with any minimal size up to 3 blocks, one buffer of any offset and size up to 2^40, growing to any size up to 4 blocks, then a write at any offset, close and reopen
//
//sym:harness prop=C27 budget=60s reach=end,opened,rejected,grown,clamped,outside nomerge
func HMMFile() {
	fn := filepath.Join(verifsym.TempDir(), "f")
	size := []int{0, 1, 4096, 9000}[verifsym.Choose("size", 4)]
	content := make([]byte, size)
	p1 := verifsym.Int("p1", 0, 8999)
	b1 := verifsym.Byte("b1")
	if p1 < size {
		content[p1] = b1
	}
	verifsym.WriteFile(fn, content)
	minSize := int64(verifsym.Int("min", -2, 3*BlockSize))
	mf, err := NewMMFile(fn, minSize)
	want := int(minSize)
	if minSize < 0 {
		want = size
	}
	if want <= 0 || want%BlockSize != 0 {
		verifsym.Assert(err != nil && errors.Is(err, errors.ErrInvalid), "mmfile: a size which is not a positive number of blocks is rejected")
		verifsym.Assert(verifsym.FileSize(fn) == size, "mmfile: a rejected size changes nothing")
		verifsym.Reach("rejected")
		return
	}
	verifsym.Assert(err == nil, "mmfile: open")
	verifsym.Reach("opened")
	cur := max(want, size)
	verifsym.Assert(int(mf.Size()) == cur && verifsym.FileSize(fn) == cur, "mmfile: the size is the larger of the file and the one asked for")
	expect := func(at int) byte {
		if at == p1 && p1 < size {
			return b1
		}
		return 0
	}
	look := func(n string) {
		offs := verifsym.Int64("offs"+n, -3, 1<<40)
		sz := verifsym.Int("sz"+n, 0, 1<<40)
		b, err := mf.Buffer(offs, sz)
		if offs < 0 || offs >= int64(cur) {
			verifsym.Assert(err != nil && errors.Is(err, errors.ErrInvalid), "mmfile: an offset outside is rejected")
			verifsym.Reach("outside")
			return
		}
		verifsym.Assert(err == nil, "mmfile: a buffer at an offset inside is given")
		exp := sz
		if exp > cur-int(offs) {
			exp = cur - int(offs)
			verifsym.Reach("clamped")
		}
		verifsym.Assert(len(b) == exp, "mmfile: the buffer has the bytes asked for up to the end of the file")
		if at := verifsym.Int("at"+n, 0, 5*BlockSize); at < exp {
			verifsym.Assert(b[at] == expect(int(offs)+at), "mmfile: the buffer is the content of the file")
		}
	}
	if verifsym.Choose("only", 2) == 1 {
		look("a")
		return
	}
	ns := int64(verifsym.Int("new", -1, 4*BlockSize))
	err = mf.Grow(ns)
	if ns == int64(cur) {
		verifsym.Assert(err == nil, "mmfile: growing to the same size is fine")
	} else if ns < int64(cur) || ns%BlockSize != 0 {
		verifsym.Assert(err != nil && errors.Is(err, errors.ErrInvalid), "mmfile: a smaller size or a part of a block is rejected")
	} else {
		verifsym.Assert(err == nil, "mmfile: grow")
		cur = int(ns)
		verifsym.Reach("grown")
	}
	verifsym.Assert(int(mf.Size()) == cur && verifsym.FileSize(fn) == cur, "mmfile: the size after growing")
	look("b")
	p2 := verifsym.Int("p2", 0, 4*BlockSize-1)
	b2 := verifsym.Byte("b2")
	if p2 < cur {
		b, err := mf.Buffer(int64(p2), 1)
		verifsym.Assert(err == nil && len(b) == 1, "mmfile: one byte")
		b[0] = b2
	}
	verifsym.Assert(mf.Close() == nil, "mmfile: close")
	_, err = mf.Buffer(int64(verifsym.Int("offsc", 0, 5*BlockSize)), 1)
	verifsym.Assert(err != nil, "mmfile: nothing is accessible after close")
	verifsym.Assert(mf.Close() == nil && mf.Size() < 0, "mmfile: closing twice is fine")
	verifsym.Assert(mf.Flush() != nil, "mmfile: nothing is flushed after close")
	left, _ := verifsym.ReadFile(fn)
	verifsym.Assert(len(left) == cur, "mmfile: close keeps the size")
	if at := verifsym.Int("look", 0, 4*BlockSize); at < cur {
		exp := expect(at)
		if at == p2 {
			exp = b2
		}
		verifsym.Assert(left[at] == exp, "mmfile: what was written is in the file, the rest is as it was")
	}
	verifsym.Reach("end")
}

// a failure of any one of the system calls while opening, growing and closing: an error, no open handle left, the content of the file as it was
//
//sym:harness prop=C27 budget=60s reach=failedopen,failedgrow,ok faults
func HMMFileFaults() {
	fn := filepath.Join(verifsym.TempDir(), "f")
	content := verifsym.Bytes("content", 16)
	full := make([]byte, BlockSize)
	copy(full, content)
	verifsym.WriteFile(fn, full)
	verifsym.FSFailAt(verifsym.Choose("failAt", 8))
	mf, err := NewMMFile(fn, int64(1+verifsym.Choose("blocks", 2))*BlockSize)
	if err != nil {
		verifsym.Reach("failedopen")
		verifsym.Assert(verifsym.OpenHandles() == 0, "mmfile: a failed open leaves no open file")
	} else {
		sz := mf.Size()
		err = mf.Grow(3 * BlockSize)
		if err != nil {
			verifsym.Reach("failedgrow")
			_, e := mf.Buffer(0, 1)
			verifsym.Assert(e != nil || mf.Size() == sz, "mmfile: after a failed grow the file is closed or as it was")
		} else {
			b, e := mf.Buffer(0, 16)
			verifsym.Assert(e == nil, "mmfile: buffer after grow")
			verifsym.CheckSame(b, content, "mmfile: growing keeps the content")
			verifsym.Reach("ok")
		}
		mf.Close()
		verifsym.Assert(verifsym.OpenHandles() == 0, "mmfile: no open file is left after close")
	}
	left, ok := verifsym.ReadFile(fn)
	verifsym.Assert(ok && len(left) >= BlockSize, "mmfile: the file is not cut")
	verifsym.CheckSame(left[:16], content, "mmfile: a failure keeps the content")
}
