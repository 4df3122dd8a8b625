package files

import (
	"archive/zip"
	"bytes"
	"errors"
	"io"
	"os"
	"path/filepath"

	"github.com/solarisdb/solaris/golibs/verifsym"
)

//sym:replace (*os.File).Read
func symFRead(f *os.File, b []byte) (int, error) { return verifsym.FSRead(f, b) }

//sym:replace (*os.File).ReadAt
func symFReadAt(f *os.File, b []byte, off int64) (int, error) { return verifsym.FSReadAt(f, b, off) }

//sym:replace (*os.File).Write
func symFWrite(f *os.File, b []byte) (int, error) { return verifsym.FSWrite(f, b) }

//sym:replace (*os.File).WriteTo
func symFWriteTo(f *os.File, w io.Writer) (int64, error) { return verifsym.FSWriteTo(f, w) }

//sym:replace (*os.File).ReadFrom
func symFReadFrom(f *os.File, r io.Reader) (int64, error) { return verifsym.FSReadFrom(f, r) }

//sym:replace os.ReadFile
func symReadFile(p string) ([]byte, error) { return verifsym.FSReadFile(p) }

//sym:replace os.Rename
func symRename(from, to string) error { return verifsym.FSRename(from, to) }

//sym:replace path/filepath.Walk
func symWalk(root string, fn filepath.WalkFunc) error { return verifsym.FSWalk(root, fn) }

// zip archives: a plain container, entries first ("E", sizes, 0 or 1 if the checksum is wrong, name, content), the end mark at last; an archive which is
// not complete is not read, as with the real format
type symZip struct {
	w   io.Writer
	cur *symEntry
	err error
}

type symEntry struct {
	name string
	data []byte
	bad  bool // the checksum is wrong
	z    *symZip
}

var (
	symZips  = map[*zip.Writer]*symZip{}
	symFiles = map[*zip.File]*symEntry{}
)

//sym:replace archive/zip.NewWriter
func symNewZipWriter(w io.Writer) *zip.Writer {
	zw := new(zip.Writer)
	symZips[zw] = &symZip{w: w}
	return zw
}

func (z *symZip) flush() error {
	e := z.cur
	if e == nil || z.err != nil {
		return z.err
	}
	z.cur = nil
	hdr := []byte{'E', byte(len(e.name)), byte(len(e.data) >> 8), byte(len(e.data)), 0}
	_, z.err = z.w.Write(append(append(hdr, e.name...), e.data...))
	return z.err
}

//sym:replace (*archive/zip.Writer).Create
func symZipCreate(zw *zip.Writer, name string) (io.Writer, error) {
	z := symZips[zw]
	if err := z.flush(); err != nil {
		return nil, err
	}
	z.cur = &symEntry{name: name, z: z}
	return z.cur, nil
}

func (e *symEntry) Write(b []byte) (int, error) {
	if e.z.cur != e {
		return 0, errors.New("zip: write to closed file")
	}
	e.data = append(e.data, b...)
	return len(b), nil
}

//sym:replace (*archive/zip.Writer).Close
func symZipClose(zw *zip.Writer) error {
	z := symZips[zw]
	if err := z.flush(); err != nil {
		return err
	}
	_, z.err = z.w.Write([]byte("END"))
	return z.err
}

//sym:replace archive/zip.NewReader
func symNewZipReader(r io.ReaderAt, size int64) (*zip.Reader, error) {
	b := make([]byte, size)
	if k, err := r.ReadAt(b, 0); k < len(b) {
		return nil, err
	}
	if len(b) < 3 || string(b[len(b)-3:]) != "END" {
		return nil, zip.ErrFormat
	}
	b = b[:len(b)-3]
	zr := new(zip.Reader)
	for len(b) > 0 {
		if len(b) < 5 || b[0] != 'E' {
			return nil, zip.ErrFormat
		}
		nl, dl := int(b[1]), int(b[2])<<8+int(b[3])
		if len(b) < 5+nl+dl {
			return nil, zip.ErrFormat
		}
		zf := new(zip.File)
		zf.Name = string(b[5 : 5+nl])
		symFiles[zf] = &symEntry{name: zf.Name, data: b[5+nl : 5+nl+dl], bad: b[4] != 0}
		zr.File = append(zr.File, zf)
		b = b[5+nl+dl:]
	}
	return zr, nil
}

//sym:replace (*archive/zip.File).Open
func symZipOpen(zf *zip.File) (io.ReadCloser, error) {
	e := symFiles[zf]
	if e.bad {
		return io.NopCloser(io.MultiReader(bytes.NewReader(e.data), badSum{})), nil
	}
	return io.NopCloser(bytes.NewReader(e.data)), nil
}

type badSum struct{}

func (badSum) Read([]byte) (int, error) { return 0, zip.ErrChecksum }

// spoil makes the checksum of the entry k of the archive wrong
func spoil(path string, k int) {
	b, _ := verifsym.ReadFile(path)
	if verifsym.Symbolic() {
		at := 0
		for ; k > 0; k-- {
			at += 5 + int(b[at+1]) + int(b[at+2])<<8 + int(b[at+3])
		}
		b[at+4] = 1
	} else {
		at := -1
		for ; k >= 0; k-- {
			at += 1 + bytes.Index(b[at+1:], []byte("PK\x01\x02"))
		}
		b[at+16]++
	}
	verifsym.WriteFile(path, b)
}
