package s3

//sym:models common_s3.go

import (
	"bytes"
	"context"
	"errors"
	"io"

	gerrors "github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/verifsym"
)

func okPath(p string) bool {
	if len(p) == 0 || p[0] != '/' || p[len(p)-1] != '/' {
		return false
	}
	for i := 1; i < len(p); i++ {
		if p[i] == '/' && p[i-1] == '/' {
			return false
		}
	}
	return true
}

func okKey(k string) bool {
	i := len(k)
	blank := true
	for i > 0 && k[i-1] != '/' {
		if k[i-1] != ' ' {
			blank = false
		}
		i--
	}
	return !blank && okPath(k[:i])
}

func key(n string, maxLen int) string {
	s := verifsym.String(n, verifsym.Choose("len"+n, maxLen+1))
	for i := 0; i < len(s); i++ {
		verifsym.Assume(verifsym.Or(s[i] == '/', s[i] == 'a', s[i] == '.'))
	}
	return s
}

type obj struct {
	k string
	v []byte
}

type objs struct {
	st  *Storage
	all []obj
}

func (o *objs) find(k string) int {
	for i := range o.all {
		if o.all[i].k == k {
			return i
		}
	}
	return -1
}

// failing tells whether the server failed, which has to be an error then
func (o *objs) failing(err error) bool {
	theServer.mu.Lock()
	defer theServer.mu.Unlock()
	f := theServer.failed
	theServer.failed, theServer.failAt = false, 0
	if f {
		verifsym.Assert(err != nil, "s3: a failure of the server is an error")
		verifsym.Assert(errors.Is(err, gerrors.ErrNotExist) == (theServer.status == 404), "s3: only what is missing does not exist")
		verifsym.Reach("failed")
	}
	return f
}

func (o *objs) put(n, k string) {
	v := verifsym.Bytes("v"+n, 2)
	src := append([]byte{'x'}, v...)
	rd := bytes.NewReader(src)
	rd.ReadByte()
	err := o.st.Put(bg, k, rd)
	if o.failing(err) {
		return
	}
	verifsym.Assert((err == nil) == okKey(k), "s3: a value is put under a well formed key only")
	if err != nil {
		verifsym.Assert(errors.Is(err, gerrors.ErrInvalid) && theServer.calls == 0, "s3: a malformed key is rejected")
		return
	}
	if i := o.find(k); i >= 0 {
		o.all[i].v = v
	} else {
		o.all = append(o.all, obj{k, v})
	}
}

func (o *objs) del(k string) {
	err := o.st.Delete(bg, k)
	if o.failing(err) {
		return
	}
	verifsym.Assert((err == nil) == okKey(k), "s3: a well formed key only is deleted")
	if i := o.find(k); i >= 0 && err == nil {
		o.all = append(append([]obj(nil), o.all[:i]...), o.all[i+1:]...)
		verifsym.Reach("deleted")
	}
}

func (o *objs) get(k string) {
	r, err := o.st.Get(bg, k)
	if o.failing(err) {
		return
	}
	i := o.find(k)
	if i < 0 {
		verifsym.Assert(err != nil, "s3: nothing is got for a key nothing is put under")
		verifsym.Assert(!okKey(k) || errors.Is(err, gerrors.ErrNotExist), "s3: a missing object does not exist")
		verifsym.Assert(okKey(k) || errors.Is(err, gerrors.ErrInvalid), "s3: a malformed key is rejected")
		return
	}
	verifsym.Assert(err == nil, "s3: what was put is got")
	b, err := io.ReadAll(r)
	verifsym.Assert(err == nil, "s3: what was put is got")
	verifsym.CheckSame(b, o.all[i].v, "s3: the last bytes put are got")
	r.Close()
	verifsym.Reach("got")
}

func (o *objs) list(p string) {
	res, err := o.st.List(bg, p)
	if o.failing(err) {
		return
	}
	verifsym.Assert((err == nil) == okPath(p), "s3: a well formed path only is listed")
	if err != nil {
		verifsym.Assert(errors.Is(err, gerrors.ErrInvalid), "s3: a malformed path is rejected")
		verifsym.Reach("rejected")
		return
	}
	var want []string
	for _, x := range o.all {
		if len(x.k) < len(p) || x.k[:len(p)] != p {
			continue
		}
		e := len(p)
		for e < len(x.k) && x.k[e] != '/' {
			e++
		}
		if e < len(x.k) {
			e++
			verifsym.Reach("subpath")
		}
		c, dup := x.k[:e], false
		for _, w := range want {
			dup = dup || w == c
		}
		if !dup {
			want = append(want, c)
		}
	}
	verifsym.Assert(len(res) == len(want), "s3: a path has its direct children, each once")
	for _, w := range want {
		found := false
		for _, r := range res {
			found = found || r == w
		}
		verifsym.Assert(found, "s3: a path has its direct children")
	}
	verifsym.Reach("listed")
}

// any key up to 5 characters of slash, letter and dot, and another one of 4: the first is accepted exactly if it is well formed, if it is, its bytes are got back and it is listed; the other one does not touch it
//
//sym:harness prop=C38 budget=60s reach=got,listed,subpath,deleted
func HS3Key() {
	o := &objs{st: newStorage(1000)}
	k := key("k", 5)
	o.put("a", k)
	o.get(k)
	o.list("/")
	k2 := []string{"/a", "/a/a", "/aa/a", "/./a"}[verifsym.Choose("k2", 4)]
	if verifsym.Choose("op", 2) == 0 {
		o.put("bb", k2)
	} else {
		o.del(k2)
	}
	o.get(k)
	o.get(k2)
	o.list("/")
	o.del(k)
	o.get(k)
}

var skeys = []string{"/a", "/a/a", "/a/b", "/ab/c/d", "/b"}

// any set of 5 keys, pages of 1 to 3 entries or one page, and a change: the listings of all paths, the bytes of all keys; or the listing of a path of up to 3 characters
//
//sym:harness prop=C38 budget=60s reach=got,listed,rejected,subpath,deleted
func HS3List() {
	o := &objs{st: newStorage([]int{1, 2, 3, 1000}[verifsym.Choose("page", 4)])}
	for i, k := range skeys {
		if verifsym.Choose("there"+k, 2) == 1 {
			o.put(string(rune('a'+i)), k)
		}
	}
	if verifsym.Choose("what", 2) == 0 {
		o.list(key("p", 3))
		return
	}
	o.del(skeys[verifsym.Choose("del", len(skeys))])
	for _, p := range []string{"/", "/a/", "/ab/", "/ab/c/", "/x/"} {
		o.list(p)
	}
	for _, k := range skeys {
		o.get(k)
	}
}

// 3 keys, pages of one entry, any request of any call fails with a status of 403 or 404, or its context has ended: it is an error and the storage is what it was
//
//sym:harness prop=C38 budget=60s reach=failed,ended,got
func HS3Fail() {
	o := &objs{st: newStorage(1)}
	for i, k := range skeys[:3] {
		o.put(string(rune('a'+i)), k)
	}
	what := verifsym.Choose("what", 4)
	if verifsym.Choose("ended", 2) == 1 {
		ctx, cancel := context.WithCancel(bg)
		cancel()
		var err error
		switch what {
		case 0:
			err = o.st.Put(ctx, "/a", bytes.NewReader([]byte("1")))
		case 1:
			_, err = o.st.Get(ctx, "/a")
		case 2:
			_, err = o.st.List(ctx, "/")
		case 3:
			err = o.st.Delete(ctx, "/a")
		}
		verifsym.Assert(err != nil, "s3: a call of a context which has ended is an error")
		verifsym.Reach("ended")
	} else {
		theServer.mu.Lock()
		theServer.calls, theServer.failAt = 0, 1+verifsym.Choose("at", 3)
		theServer.status = []int{403, 404}[verifsym.Choose("status", 2)]
		theServer.mu.Unlock()
		switch what {
		case 0:
			o.put("z", "/a")
		case 1:
			o.get("/a")
		case 2:
			o.list("/")
		case 3:
			o.del("/a")
		}
		theServer.failAt = 0
	}
	for _, k := range skeys {
		o.get(k)
	}
	o.list("/")
}
