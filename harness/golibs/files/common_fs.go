package files

import (
	"os"

	"github.com/edsrzf/mmap-go"
	"github.com/solarisdb/solaris/golibs/verifsym"
)

//sym:replace os.Stat
func symStat(p string) (os.FileInfo, error) { return verifsym.FSStat(p) }

//sym:replace os.OpenFile
func symOpenFile(p string, flag int, perm os.FileMode) (*os.File, error) {
	return verifsym.FSOpenFile(p, flag, perm)
}

//sym:replace os.Open
func symOpen(p string) (*os.File, error) { return verifsym.FSOpen(p) }

//sym:replace os.Create
func symCreate(p string) (*os.File, error) { return verifsym.FSCreate(p) }

//sym:replace (*os.File).Truncate
func symTruncate(f *os.File, n int64) error { return verifsym.FSTruncate(f, n) }

//sym:replace (*os.File).Close
func symFClose(f *os.File) error { return verifsym.FSClose(f) }

//sym:replace os.Remove
func symRemove(p string) error { return verifsym.FSRemove(p) }

//sym:replace os.MkdirAll
func symMkdirAll(p string, perm os.FileMode) error { return verifsym.FSMkdirAll(p, perm) }

//sym:replace github.com/edsrzf/mmap-go.MapRegion
func symMapRegion(f *os.File, length int, prot, flags int, offset int64) (mmap.MMap, error) {
	b, err := verifsym.FSMap(f, length)
	return mmap.MMap(b), err
}

//sym:replace (*github.com/edsrzf/mmap-go.MMap).Unmap
func symUnmap(m *mmap.MMap) error {
	err := verifsym.FSUnmap([]byte(*m))
	*m = nil
	return err
}

//sym:replace (github.com/edsrzf/mmap-go.MMap).Flush
func symFlush(m mmap.MMap) error { return nil }
