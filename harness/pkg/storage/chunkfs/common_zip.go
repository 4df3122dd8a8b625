package chunkfs

import (
	"archive/zip"
	"bytes"
	"encoding/json"
	"errors"
	"io"
	"os"
	"path/filepath"

	"github.com/solarisdb/solaris/golibs/verifsym"
)

//sym:replace (*os.File).Read
func symFRead(f *os.File, b []byte) (int, error) { return verifsym.FSRead(f, b) }

//sym:replace (*os.File).ReadAt
func symFReadAt(f *os.File, b []byte, off int64) (int, error) { return verifsym.FSReadAt(f, b, off) }

//sym:replace (*os.File).Write
func symFWrite(f *os.File, b []byte) (int, error) { return verifsym.FSWrite(f, b) }

//sym:replace (*os.File).WriteTo
func symFWriteTo(f *os.File, w io.Writer) (int64, error) { return verifsym.FSWriteTo(f, w) }

//sym:replace (*os.File).ReadFrom
func symFReadFrom(f *os.File, r io.Reader) (int64, error) { return verifsym.FSReadFrom(f, r) }

//sym:replace os.ReadFile
func symReadFile(p string) ([]byte, error) { return verifsym.FSReadFile(p) }

//sym:replace os.Rename
func symRename(from, to string) error { return verifsym.FSRename(from, to) }

//sym:replace path/filepath.Walk
func symWalk(root string, fn filepath.WalkFunc) error { return verifsym.FSWalk(root, fn) }

// zip archives: a plain container, entries first ("E", sizes, name, content), the end mark at last; an archive which is
// not complete is not read, as with the real format
type symZip struct {
	w   io.Writer
	cur *symEntry
	err error
}

type symEntry struct {
	name string
	data []byte
	z    *symZip
}

var (
	symZips  = map[*zip.Writer]*symZip{}
	symFiles = map[*zip.File]*symEntry{}
)

//sym:replace archive/zip.NewWriter
func symNewZipWriter(w io.Writer) *zip.Writer {
	zw := new(zip.Writer)
	symZips[zw] = &symZip{w: w}
	return zw
}

func (z *symZip) flush() error {
	e := z.cur
	if e == nil || z.err != nil {
		return z.err
	}
	z.cur = nil
	hdr := []byte{'E', byte(len(e.name)), byte(len(e.data) >> 8), byte(len(e.data))}
	_, z.err = z.w.Write(append(append(hdr, e.name...), e.data...))
	return z.err
}

//sym:replace (*archive/zip.Writer).Create
func symZipCreate(zw *zip.Writer, name string) (io.Writer, error) {
	z := symZips[zw]
	if err := z.flush(); err != nil {
		return nil, err
	}
	z.cur = &symEntry{name: name, z: z}
	return z.cur, nil
}

func (e *symEntry) Write(b []byte) (int, error) {
	if e.z.cur != e {
		return 0, errors.New("zip: write to closed file")
	}
	e.data = append(e.data, b...)
	return len(b), nil
}

//sym:replace (*archive/zip.Writer).Close
func symZipClose(zw *zip.Writer) error {
	z := symZips[zw]
	if err := z.flush(); err != nil {
		return err
	}
	_, z.err = z.w.Write([]byte("END"))
	return z.err
}

//sym:replace archive/zip.NewReader
func symNewZipReader(r io.ReaderAt, size int64) (*zip.Reader, error) {
	b := make([]byte, size)
	if k, err := r.ReadAt(b, 0); k < len(b) {
		return nil, err
	}
	if len(b) < 3 || string(b[len(b)-3:]) != "END" {
		return nil, zip.ErrFormat
	}
	b = b[:len(b)-3]
	zr := new(zip.Reader)
	for len(b) > 0 {
		if len(b) < 4 || b[0] != 'E' {
			return nil, zip.ErrFormat
		}
		nl, dl := int(b[1]), int(b[2])<<8+int(b[3])
		if len(b) < 4+nl+dl {
			return nil, zip.ErrFormat
		}
		zf := new(zip.File)
		zf.Name = string(b[4 : 4+nl])
		symFiles[zf] = &symEntry{name: zf.Name, data: b[4+nl : 4+nl+dl]}
		zr.File = append(zr.File, zf)
		b = b[4+nl+dl:]
	}
	return zr, nil
}

//sym:replace (*archive/zip.File).Open
func symZipOpen(zf *zip.File) (io.ReadCloser, error) {
	return io.NopCloser(bytes.NewReader(symFiles[zf].data)), nil
}

// JSON of the scan infos: a token which stands for the value
var symJSON [][]scanInfo

func symToken(v []scanInfo) []byte {
	var c []scanInfo
	for _, si := range v {
		si.size = 0
		c = append(c, si)
	}
	symJSON = append(symJSON, c)
	return []byte{'J', byte(len(symJSON)), ';'}
}

func symValue(b []byte) ([]scanInfo, error) {
	if len(b) < 3 || b[0] != 'J' || b[2] != ';' || int(b[1]) > len(symJSON) {
		return nil, errors.New("json: bad input")
	}
	return symJSON[b[1]-1], nil
}

//sym:replace encoding/json.Marshal
func symMarshal(v any) ([]byte, error) { return symToken([]scanInfo{v.(scanInfo)}), nil }

//sym:replace encoding/json.Unmarshal
func symUnmarshal(b []byte, v any) error {
	l, err := symValue(b)
	if err == nil {
		*(v.(*scanInfo)) = l[0]
	}
	return err
}

var (
	symDecs = map[*json.Decoder]io.Reader{}
	symEncs = map[*json.Encoder]io.Writer{}
)

//sym:replace encoding/json.NewDecoder
func symNewDecoder(r io.Reader) *json.Decoder {
	d := new(json.Decoder)
	symDecs[d] = r
	return d
}

//sym:replace (*encoding/json.Decoder).Decode
func symDecode(d *json.Decoder, v any) error {
	b := make([]byte, 3)
	if _, err := io.ReadFull(symDecs[d], b); err != nil {
		return err
	}
	l, err := symValue(b)
	if err == nil {
		*(v.(*[]scanInfo)) = append([]scanInfo(nil), l...)
	}
	return err
}

//sym:replace encoding/json.NewEncoder
func symNewEncoder(w io.Writer) *json.Encoder {
	e := new(json.Encoder)
	symEncs[e] = w
	return e
}

//sym:replace (*encoding/json.Encoder).Encode
func symEncode(e *json.Encoder, v any) error {
	_, err := symEncs[e].Write(symToken(v.([]scanInfo)))
	return err
}
