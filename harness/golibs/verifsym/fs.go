package verifsym

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// An in-memory file system with memory mapping: the model the engine executes instead of the operating system calls.
// Sizes may be symbolic; the content is an array of symbolic bytes. Every mapping is its own array: unmapping copies it
// back and makes further accesses a memory fault, as on the real system.

type fsNode struct {
	path  string
	dir   bool
	data  []byte
	size  int
	maps  []fsMap
	opens int
	mtime time.Time
}

type fsMap struct{ mem []byte }

type fsState struct {
	nodes map[string]*fsNode
	files map[*os.File]*fsHandle
	calls int
	// FailAt makes the n-th fallible call fail (0: none)
	failAt int
	fails  []string
	times  bool
	hold   bool
}

type fsHandle struct {
	n      *fsNode
	path   string
	pos    int
	closed bool
}

var theFS *fsState

func fsys() *fsState {
	if theFS == nil {
		theFS = &fsState{nodes: map[string]*fsNode{}, files: map[*os.File]*fsHandle{}}
		theFS.nodes["/sym"] = &fsNode{path: "/sym", dir: true}
	}
	return theFS
}

func fsErr(op, path string, err error) error { return &fs.PathError{Op: op, Path: path, Err: err} }

// FSFailAt makes the n-th call that may fail return an error. A replay chooses the call by itself.
func FSFailAt(n int) {
	if !Symbolic() {
		if cur.failAt > 0 && n > 0 && len(cur.tmp) > 0 {
			os.Remove("\x00verif:a" + strconv.Itoa(cur.failAt) + ":" + cur.tmp[0])
		}
		return
	}
	fsys().calls = 0
	fsys().failAt = n
}

// nativeCheck keeps the calls of the check itself from failing.
func nativeCheck() func() {
	if cur.failAt == 0 || nativeHeld {
		return func() {}
	}
	nativeHold(true)
	return func() { nativeHold(false) }
}

var nativeHeld bool

func nativeHold(on bool) {
	nativeHeld = on
	if on {
		os.Remove("\x00verif:h1")
	} else {
		os.Remove("\x00verif:h0")
	}
}

// FSHold keeps calls from being counted for FSFailAt.
func FSHold(on bool) {
	if !Symbolic() {
		nativeHold(on)
		return
	}
	fsys().hold = on
}

func (s *fsState) fail(op string) bool {
	if s.hold {
		return false
	}
	s.calls++
	if s.calls == s.failAt {
		s.fails = append(s.fails, op)
		return true
	}
	return false
}

// FSFailed tells whether the failure asked for was injected.
func FSFailed() bool {
	if !Symbolic() {
		return cur.failAt > 0 && os.Remove("\x00verif:f") != nil
	}
	return len(fsys().fails) > 0
}

// WriteFile creates a file with the content (for the harness, in both worlds).
func WriteFile(path string, data []byte) {
	if !Symbolic() {
		defer nativeCheck()()
		if err := os.MkdirAll(filepath.Dir(path), 0755); err != nil {
			panic(err)
		}
		if err := os.WriteFile(path, data, 0644); err != nil {
			panic(err)
		}
		return
	}
	for p := filepath.Dir(path); fsys().nodes[p] == nil; p = filepath.Dir(p) {
		fsys().nodes[p] = &fsNode{path: p, dir: true}
	}
	fsys().nodes[path] = &fsNode{path: path, data: append([]byte(nil), data...), size: len(data), mtime: fsNow()}
}

// FSTimes makes the model keep the times of modification.
func FSTimes() { fsys().times = true }

func fsNow() time.Time {
	if !fsys().times {
		return time.Time{}
	}
	return time.Now()
}

// ReadFile returns the content of a file and whether it exists.
func ReadFile(path string) ([]byte, bool) {
	if !Symbolic() {
		defer nativeCheck()()
		b, err := os.ReadFile(path)
		return b, err == nil
	}
	n := fsys().nodes[path]
	if n == nil || n.dir {
		return nil, false
	}
	n.sync()
	out := make([]byte, n.size)
	copy(out, n.data)
	return out, true
}

// FileSize returns the size of a file, -1 if there is none.
func FileSize(path string) int {
	if !Symbolic() {
		defer nativeCheck()()
		fi, err := os.Stat(path)
		if err != nil {
			return -1
		}
		return int(fi.Size())
	}
	n := fsys().nodes[path]
	if n == nil || n.dir {
		return -1
	}
	return n.size
}

// FileNames lists the files under the directory.
func FileNames(dir string) []string {
	var out []string
	if !Symbolic() {
		defer nativeCheck()()
		filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() {
				out = append(out, strings.TrimPrefix(p, dir+"/"))
			}
			return nil
		})
	} else {
		for p, n := range fsys().nodes {
			if !n.dir && strings.HasPrefix(p, dir+"/") {
				out = append(out, strings.TrimPrefix(p, dir+"/"))
			}
		}
	}
	sort.Strings(out)
	return out
}

// OpenHandles is the number of model file handles not closed.
func OpenHandles() int {
	if !Symbolic() {
		defer nativeCheck()()
		k := 0
		fds, _ := os.ReadDir("/proc/self/fd")
		for _, fd := range fds {
			if to, err := os.Readlink("/proc/self/fd/" + fd.Name()); err == nil && len(cur.tmp) > 0 && strings.HasPrefix(to, cur.tmp[0]) {
				k++
			}
		}
		return k
	}
	c := 0
	for _, h := range fsys().files {
		if !h.closed {
			c++
		}
	}
	return c
}

// sync copies live mappings into the file.
func (n *fsNode) sync() {
	for _, m := range n.maps {
		k := len(m.mem)
		if k > n.size {
			k = n.size
		}
		copy(n.data[:k], m.mem[:k])
	}
}

func (n *fsNode) resize(sz int) {
	n.sync()
	d := make([]byte, sz)
	k := n.size
	if sz < k {
		k = sz
	}
	copy(d[:k], n.data[:k])
	n.data = d
	n.size = sz
}

type fsInfo struct {
	name  string
	size  int
	dir   bool
	mtime time.Time
}

func (f fsInfo) Name() string { return f.name }
func (f fsInfo) Size() int64  { return int64(f.size) }
func (f fsInfo) Mode() fs.FileMode {
	if f.dir {
		return fs.ModeDir | 0755
	}
	return 0644
}
func (f fsInfo) ModTime() time.Time { return f.mtime }
func (f fsInfo) IsDir() bool        { return f.dir }
func (f fsInfo) Sys() any           { return nil }

func fsClean(p string) string {
	p = filepath.Clean(p)
	return p
}

// FSStat models os.Stat.
func FSStat(path string) (os.FileInfo, error) {
	s := fsys()
	path = fsClean(path)
	n := s.nodes[path]
	if n == nil {
		return nil, fsErr("stat", path, fs.ErrNotExist)
	}
	return n.info(), nil
}

// FSOpenFile models os.OpenFile.
func FSOpenFile(path string, flag int, perm os.FileMode) (*os.File, error) {
	s := fsys()
	path = fsClean(path)
	if s.fail("open") {
		return nil, fsErr("open", path, fs.ErrPermission)
	}
	n := s.nodes[path]
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, fsErr("open", path, fs.ErrNotExist)
		}
		d := s.nodes[filepath.Dir(path)]
		if d == nil || !d.dir {
			return nil, fsErr("open", path, fs.ErrNotExist)
		}
		n = &fsNode{path: path, mtime: fsNow()}
		s.nodes[path] = n
	}
	if n.dir && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
		return nil, fsErr("open", path, errors.New("is a directory"))
	}
	if flag&os.O_TRUNC != 0 && !n.dir {
		n.resize(0)
	}
	f := new(os.File)
	h := &fsHandle{n: n, path: path}
	if flag&os.O_APPEND != 0 {
		h.pos = n.size
	}
	s.files[f] = h
	n.opens++
	return f, nil
}

// FSOpen models os.Open.
func FSOpen(path string) (*os.File, error) { return FSOpenFile(path, os.O_RDONLY, 0) }

// FSCreate models os.Create.
func FSCreate(path string) (*os.File, error) {
	return FSOpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

// FSTruncate models (*os.File).Truncate.
func FSTruncate(f *os.File, size int64) error {
	s := fsys()
	h := s.files[f]
	if h == nil || h.closed {
		return fs.ErrClosed
	}
	if s.fail("truncate") {
		return fsErr("truncate", h.path, fs.ErrPermission)
	}
	h.n.resize(int(size))
	return nil
}

// FSClose models (*os.File).Close.
func FSClose(f *os.File) error {
	s := fsys()
	h := s.files[f]
	if h == nil || h.closed {
		return fs.ErrClosed
	}
	h.closed = true
	h.n.opens--
	return nil
}

// FSRemove models os.Remove.
func FSRemove(path string) error {
	s := fsys()
	path = fsClean(path)
	n := s.nodes[path]
	if n == nil {
		return fsErr("remove", path, fs.ErrNotExist)
	}
	if s.fail("remove") {
		return fsErr("remove", path, fs.ErrPermission)
	}
	delete(s.nodes, path)
	return nil
}

// FSMkdirAll models os.MkdirAll.
func FSMkdirAll(path string, perm os.FileMode) error {
	s := fsys()
	path = fsClean(path)
	if s.fail("mkdir") {
		return fsErr("mkdir", path, fs.ErrPermission)
	}
	for p := path; p != "/" && p != "."; p = filepath.Dir(p) {
		n := s.nodes[p]
		if n == nil {
			s.nodes[p] = &fsNode{path: p, dir: true}
		} else if !n.dir {
			return fsErr("mkdir", p, fs.ErrExist)
		}
	}
	return nil
}

// FSMap models mapping the whole file.
func FSMap(f *os.File, length int) ([]byte, error) {
	s := fsys()
	h := s.files[f]
	if h == nil || h.closed {
		return nil, fs.ErrClosed
	}
	if s.fail("mmap") {
		return nil, fsErr("mmap", h.path, fs.ErrPermission)
	}
	if length <= 0 || length > h.n.size {
		// touching pages beyond the end of the file faults: the model refuses the mapping
		Fail("memory fault: the file is mapped beyond its end")
	}
	h.n.sync()
	mem := make([]byte, length)
	copy(mem, h.n.data[:length])
	h.n.maps = append(h.n.maps, fsMap{mem: mem})
	return mem, nil
}

// FSUnmap models unmapping.
func FSUnmap(mem []byte) error {
	for _, n := range fsys().nodes {
		for i, m := range n.maps {
			if SameArray(m.mem, mem) {
				n.sync()
				n.maps = append(append([]fsMap(nil), n.maps[:i]...), n.maps[i+1:]...)
				Kill(mem, "memory unmapped before")
				return nil
			}
		}
	}
	return fs.ErrInvalid
}

func (n *fsNode) info() fsInfo {
	return fsInfo{name: filepath.Base(n.path), size: n.size, dir: n.dir, mtime: n.mtime}
}

// FSRead models (*os.File).Read.
func FSRead(f *os.File, b []byte) (int, error) {
	h := fsys().files[f]
	if h == nil || h.closed {
		return 0, fs.ErrClosed
	}
	if len(b) == 0 {
		return 0, nil
	}
	if fsys().fail("read") {
		return 0, fsErr("read", h.path, fs.ErrPermission)
	}
	h.n.sync()
	if h.pos >= h.n.size {
		return 0, io.EOF
	}
	k := copy(b, h.n.data[h.pos:h.n.size])
	h.pos += k
	return k, nil
}

// FSReadAt models (*os.File).ReadAt.
func FSReadAt(f *os.File, b []byte, off int64) (int, error) {
	h := fsys().files[f]
	if h == nil || h.closed {
		return 0, fs.ErrClosed
	}
	if fsys().fail("read") {
		return 0, fsErr("read", h.path, fs.ErrPermission)
	}
	h.n.sync()
	if int(off) >= h.n.size {
		return 0, io.EOF
	}
	k := copy(b, h.n.data[int(off):h.n.size])
	if k < len(b) {
		return k, io.EOF
	}
	return k, nil
}

// FSWrite models (*os.File).Write: a write that fails has written a half.
func FSWrite(f *os.File, b []byte) (int, error) {
	h := fsys().files[f]
	if h == nil || h.closed {
		return 0, fs.ErrClosed
	}
	if fsys().fail("write") {
		k := len(b) / 2
		h.put(b[:k])
		return k, fsErr("write", h.path, fs.ErrPermission)
	}
	h.put(b)
	return len(b), nil
}

func (h *fsHandle) put(b []byte) {
	if h.pos+len(b) > h.n.size {
		h.n.resize(h.pos + len(b))
	}
	copy(h.n.data[h.pos:], b)
	h.pos += len(b)
	h.n.mtime = fsNow()
}

// FSWriteTo models (*os.File).WriteTo.
func FSWriteTo(f *os.File, w io.Writer) (int64, error) {
	var total int64
	for {
		buf := make([]byte, 4096)
		k, err := FSRead(f, buf)
		if k > 0 {
			m, werr := w.Write(buf[:k])
			total += int64(m)
			if werr != nil {
				return total, werr
			}
		}
		if err == io.EOF {
			return total, nil
		}
		if err != nil {
			return total, err
		}
	}
}

// FSReadFrom models (*os.File).ReadFrom.
func FSReadFrom(f *os.File, r io.Reader) (int64, error) {
	var total int64
	for {
		buf := make([]byte, 4096)
		k, err := r.Read(buf)
		if k > 0 {
			m, werr := FSWrite(f, buf[:k])
			total += int64(m)
			if werr != nil {
				return total, werr
			}
		}
		if err == io.EOF {
			return total, nil
		}
		if err != nil {
			return total, err
		}
	}
}

// FSReadFile models os.ReadFile.
func FSReadFile(path string) ([]byte, error) {
	f, err := FSOpen(path)
	if err != nil {
		return nil, err
	}
	defer FSClose(f)
	n := fsys().files[f].n
	n.sync()
	return append([]byte(nil), n.data[:n.size]...), nil
}

// FSRename models os.Rename of a file.
func FSRename(from, to string) error {
	s := fsys()
	from, to = fsClean(from), fsClean(to)
	n := s.nodes[from]
	if n == nil {
		return fsErr("rename", from, fs.ErrNotExist)
	}
	if s.fail("rename") {
		return fsErr("rename", from, fs.ErrPermission)
	}
	delete(s.nodes, from)
	n.path = to
	s.nodes[to] = n
	return nil
}

// FSWalk models filepath.Walk (in lexical order of the paths).
func FSWalk(root string, fn filepath.WalkFunc) error {
	root = fsClean(root)
	var all []string
	for p := range fsys().nodes {
		if p == root || strings.HasPrefix(p, root+"/") {
			all = append(all, p)
		}
	}
	sort.Strings(all)
	for _, p := range all {
		if err := fn(p, fsys().nodes[p].info(), nil); err != nil {
			return err
		}
	}
	return nil
}

// SetMtime sets the time of modification of a file (in both worlds).
func SetMtime(path string, at time.Time) {
	if !Symbolic() {
		defer nativeCheck()()
		if err := os.Chtimes(path, at, at); err != nil {
			panic(err)
		}
		return
	}
	fsys().nodes[path].mtime = at
}
