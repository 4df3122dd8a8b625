//sym:models common_fs.go
//sym:models common_zip.go

package files

import (
	"path/filepath"
	"strings"

	"github.com/solarisdb/solaris/golibs/verifsym"
)

// zsrc is the folder which is packed: names and contents
type zsrc struct {
	dir   string
	names []string
	cont  map[string][]byte
}

func zipSource(names ...string) *zsrc {
	z := &zsrc{dir: filepath.Join(verifsym.TempDir(), "src"), cont: map[string][]byte{}}
	EnsureDirExists(z.dir)
	for _, n := range names {
		if k := verifsym.Choose(n, 4); k > 0 {
			z.names = append(z.names, n)
			z.cont[n] = verifsym.Bytes("content of "+n, []int{0, 1, 3}[k-1])
			verifsym.WriteFile(filepath.Join(z.dir, n), z.cont[n])
		}
	}
	return z
}

// holds asserts that the folder has exactly the files wanted
func (z *zsrc) holds(dir string, want func(string) bool, msg string) {
	n := 0
	for _, f := range z.names {
		if want(f) {
			n++
			b, ok := verifsym.ReadFile(filepath.Join(dir, f))
			verifsym.Assert(ok, msg+": a file is there")
			verifsym.CheckSame(b, z.cont[f], msg+": a file has its content")
		}
	}
	verifsym.Assert(len(verifsym.FileNames(dir)) == n, msg+": there are no other files")
}

// up to 3 files in a folder, one of them in a folder of it, each with 0, 1 or 3 bytes; all folders or not, all files or those the filter accepts: packed and unpacked into a new folder or one which has one of the files already
//
//sym:harness prop=C30 budget=60s reach=end
func HPack() {
	verifsym.Unprivileged()
	z := zipSource("a", "b", "s/a")
	zf, dst := filepath.Join(verifsym.TempDir(), "z.zip"), filepath.Join(verifsym.TempDir(), "dst")
	if verifsym.Choose("there", 2) == 1 {
		for _, n := range z.names {
			verifsym.WriteFile(filepath.Join(dst, n), []byte("older and longer"))
			break
		}
	}
	rec, filter := verifsym.Choose("recursive", 2) == 1, verifsym.Choose("filter", 2) == 1
	var f func(string) bool
	if filter {
		f = func(p string) bool { return filepath.Base(p) != "b" }
	}
	src := z.dir
	if verifsym.Choose("slash", 2) == 1 {
		src += "/"
	}
	want := func(n string) bool { return (rec || !strings.Contains(n, "/")) && (!filter || filepath.Base(n) != "b") }
	verifsym.Assert(ZipFolder(src, zf, f, rec) == nil, "archive: a folder is packed")
	verifsym.Assume(len(z.names) == 0 || want(z.names[0]))
	verifsym.Assert(UnzipToFolder(zf, dst) == nil, "archive: a folder is unpacked")
	z.holds(dst, want, "archive")
	z.holds(z.dir, func(string) bool { return true }, "archive: the packed folder")
	verifsym.Assert(verifsym.OpenHandles() == 0, "archive: the files are closed")
	verifsym.Reach("end")
}

// as HPack with 2 files, all of them, any one of the calls of the operating system fails
//
//sym:harness prop=C30 budget=60s reach=packed,unpacked,failed faults
func HPackFaults() {
	verifsym.Unprivileged()
	z := zipSource("a", "s/a")
	all := func(string) bool { return true }
	zf, dst := filepath.Join(verifsym.TempDir(), "z.zip"), filepath.Join(verifsym.TempDir(), "dst")
	verifsym.FSFailAt(verifsym.Choose("failAt", 30))
	err := ZipFolder(z.dir, zf, nil, true)
	verifsym.Assert(err == nil || verifsym.FSFailed(), "archive: a folder is packed")
	if err != nil {
		verifsym.FSHold(true)
		_, ok := verifsym.ReadFile(zf)
		verifsym.Assert(!ok, "archive: an incomplete archive is removed")
		verifsym.Assert(verifsym.OpenHandles() == 0, "archive: the files are closed after a failure")
		verifsym.Reach("failed")
		return
	}
	verifsym.Reach("packed")
	err = UnzipToFolder(zf, dst)
	verifsym.FSHold(true)
	verifsym.Assert(err == nil || verifsym.FSFailed(), "archive: a folder is unpacked")
	verifsym.Assert(verifsym.OpenHandles() == 0, "archive: the files are closed")
	if err != nil {
		verifsym.Reach("failed")
		return
	}
	verifsym.Reach("unpacked")
	z.holds(dst, all, "archive")
}

// an archive made with ZipWriter of an entry with any name of up to 6 bytes of '.', '/' and 'a' and a second entry x: nothing outside of the destination is written; names inside are restored
//
//sym:harness prop=C30 budget=60s reach=inside,outside,folder,dots
func HUnpackNames() { unpackNames(6) }

// as HUnpackNames with up to 8 bytes
//
//sym:harness prop=C30 tier=thorough budget=300s reach=inside,outside,folder,dots
func HUnpackNamesDeep() { unpackNames(8) }

func unpackNames(max int) {
	verifsym.Unprivileged()
	name := make([]byte, verifsym.Choose("length", max)+1)
	for i := range name {
		name[i] = verifsym.Byte("byte")
		verifsym.Assume(verifsym.Or(name[i] == '.', verifsym.Or(name[i] == '/', name[i] == 'a')))
	}
	n := string(name)
	root := verifsym.TempDir()
	dst := filepath.Join(root, "1/2/3/dst")
	zf := filepath.Join(root, "z.zip")
	zw, err := NewZipWriter(zf)
	verifsym.Assert(err == nil, "archive: setup")
	cont := map[string][]byte{n: verifsym.Bytes("content", 2), "x": verifsym.Bytes("other", 2)}
	for _, e := range []string{"x", n} {
		w, err := zw.Create(e)
		if err != nil {
			verifsym.Assume(false)
		}
		if strings.HasSuffix(e, "/") {
			continue // a folder has no content
		}
		w.Write(cont[e])
	}
	verifsym.Assert(zw.Close() == nil, "archive: setup")
	err = UnzipToFolder(zf, dst)
	for _, f := range verifsym.FileNames(root) {
		verifsym.Assert(f == "z.zip" || strings.HasPrefix(f, "1/2/3/dst/"), "archive: nothing is written outside of the destination")
	}
	verifsym.Assert(verifsym.OpenHandles() == 0, "archive: the files are closed")
	in := filepath.Join("/d", n)
	switch {
	case strings.HasSuffix(n, "/"):
		verifsym.Reach("folder")
	case in == "/d" || !strings.HasPrefix(in, "/d/"):
		verifsym.Assert(err != nil, "archive: an entry with a name outside of the destination is an error")
		verifsym.Reach("outside")
		return
	case n[len(n)-1] == '.' && (len(n) == 1 || n[len(n)-2] == '/' || strings.HasSuffix(n, "/..")):
		verifsym.Reach("dots") // a name no file can have
		return
	default:
		b, ok := verifsym.ReadFile(filepath.Join(dst, in[3:]))
		verifsym.Assert(ok && err == nil, "archive: an entry is restored")
		verifsym.CheckSame(b, cont[n], "archive: an entry has its content")
		verifsym.Reach("inside")
	}
	b, ok := verifsym.ReadFile(filepath.Join(dst, "x"))
	verifsym.Assert(ok && err == nil, "archive: the other entry is restored")
	verifsym.CheckSame(b, cont["x"], "archive: the other entry has its content")
}

// an archive of 2 entries, the checksum of one of them or of none is wrong, unpacked or copied into another archive with or without a prefix after an entry of its own, which may have the name of one which is copied: it has them all, or there is an error
//
//sym:harness prop=C30 budget=60s reach=copied,spoiled,exists
func HCopy() {
	verifsym.Unprivileged()
	z := &zsrc{cont: map[string][]byte{}}
	root := verifsym.TempDir()
	zf, zf2 := filepath.Join(root, "z.zip"), filepath.Join(root, "z2.zip")
	zw, err := NewZipWriter(zf)
	verifsym.Assert(err == nil, "archive: setup")
	for _, n := range []string{"a", "s/b"} {
		z.names = append(z.names, n)
		z.cont[n] = verifsym.Bytes("content of "+n, 2*verifsym.Choose("size", 2))
		w, err := zw.Create(n)
		verifsym.Assert(err == nil, "archive: setup")
		w.Write(z.cont[n])
		_, err = zw.Create(n)
		verifsym.Assert(err != nil, "archive: a name is used once")
	}
	verifsym.Assert(zw.Close() == nil && zw.Close() == nil, "archive: setup")
	bad := verifsym.Choose("spoiled", 3)
	if bad > 0 {
		spoil(zf, bad-1)
	}
	if verifsym.Choose("copy", 2) == 0 {
		err = UnzipToFolder(zf, filepath.Join(root, "dst"))
		verifsym.Assert((err == nil) == (bad == 0), "archive: a spoiled entry is an error")
		verifsym.Assert(verifsym.OpenHandles() == 0, "archive: the files are closed")
		if bad > 0 {
			verifsym.Reach("spoiled")
			return
		}
		z.holds(filepath.Join(root, "dst"), func(string) bool { return true }, "archive")
		return
	}
	prefix := []string{"", "p", "p/q"}[verifsym.Choose("prefix", 3)]
	own := []string{"own", "s/b", "p/a"}[verifsym.Choose("own", 3)]
	zi, err := NewZipIterator(zf)
	verifsym.Assert(err == nil, "archive: an archive is opened")
	zw, err = NewZipWriter(zf2)
	verifsym.Assert(err == nil, "archive: setup")
	w, err := zw.Create(own)
	verifsym.Assert(err == nil, "archive: setup")
	w.Write([]byte("own"))
	err = ZipCopy(zw, zi, prefix)
	twice := own == "s/b" && prefix == "" || own == "p/a" && prefix == "p"
	verifsym.Assert((err == nil) == (bad == 0 && !twice), "archive: a copy is complete or an error")
	verifsym.Assert(zi.Close() == nil && zi.Close() == nil && zw.Close() == nil, "archive: the archives are closed")
	verifsym.Assert(verifsym.OpenHandles() == 0, "archive: the files are closed")
	if err != nil {
		verifsym.Reach(map[bool]string{true: "exists", false: "spoiled"}[bad == 0])
		return
	}
	verifsym.Assert(UnzipToFolder(zf2, filepath.Join(root, "dst")) == nil, "archive: a copy is unpacked")
	c := &zsrc{names: []string{own}, cont: map[string][]byte{own: []byte("own")}}
	for _, n := range z.names {
		p := filepath.Join(prefix, n)
		c.names = append(c.names, p)
		c.cont[p] = z.cont[n]
	}
	c.holds(filepath.Join(root, "dst"), func(string) bool { return true }, "archive: a copy")
	verifsym.Reach("copied")
}

// a file of up to 4 bytes which is no archive is opened as one: an error, and nothing is left open
//
//sym:harness prop=C30 budget=20s reach=refused
func HNoArchive() {
	verifsym.Unprivileged()
	f := filepath.Join(verifsym.TempDir(), "f")
	verifsym.WriteFile(f, verifsym.Bytes("content", verifsym.Choose("size", 3)))
	_, err := NewZipIterator(f)
	verifsym.Assert(err != nil, "archive: a file which is no archive is refused")
	verifsym.Assert(verifsym.OpenHandles() == 0, "archive: a refused file is closed")
	_, err = NewZipIterator(f + "none")
	verifsym.Assert(err != nil, "archive: a file which does not exist is refused")
	verifsym.Reach("refused")
}
