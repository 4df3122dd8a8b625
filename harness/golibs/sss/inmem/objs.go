package inmem

import (
	"bytes"
	"context"
	"errors"
	"io"

	gerrors "github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/verifsym"
)

var bg = context.Background()

const maxKey = 5

// okPath: starts and ends with a slash, no empty name in between
func okPath(p string) bool {
	if len(p) == 0 || p[0] != '/' || p[len(p)-1] != '/' {
		return false
	}
	for i := 1; i < len(p); i++ {
		if p[i] == '/' && p[i-1] == '/' {
			return false
		}
	}
	return true
}

// okKey: a path and a name which is not blank
func okKey(k string) bool {
	i := len(k)
	blank := true
	for i > 0 && k[i-1] != '/' {
		if k[i-1] != ' ' {
			blank = false
		}
		i--
	}
	return !blank && okPath(k[:i])
}

func key(n string, maxLen int) string {
	s := verifsym.String(n, verifsym.Choose("len"+n, maxLen+1))
	for i := 0; i < len(s); i++ {
		verifsym.Assume(verifsym.Or(s[i] == '/', s[i] == 'a', s[i] == ' '))
	}
	return s
}

type obj struct {
	k string
	v []byte
}

type objs struct {
	st  *Storage
	all []obj
}

func (o *objs) find(k string) int {
	for i := range o.all {
		if o.all[i].k == k {
			return i
		}
	}
	return -1
}

func (o *objs) put(n, k string) {
	v := verifsym.Bytes("v"+n, 1+len(n)%2)
	src := append([]byte(nil), v...)
	err := o.st.Put(bg, k, bytes.NewReader(src))
	verifsym.Assert((err == nil) == okKey(k), "objects: a value is put under a well formed key only")
	for i := range src {
		src[i] = 0
	}
	if err == nil {
		if i := o.find(k); i >= 0 {
			o.all[i].v = v
			verifsym.Reach("again")
		} else {
			o.all = append(o.all, obj{k, v})
		}
	}
}

func (o *objs) del(k string) {
	err := o.st.Delete(bg, k)
	i := o.find(k)
	verifsym.Assert(i < 0 || err == nil, "objects: an object is deleted")
	verifsym.Assert(okKey(k) || err != nil, "objects: a malformed key is rejected")
	if i >= 0 {
		o.all = append(append([]obj(nil), o.all[:i]...), o.all[i+1:]...)
		verifsym.Reach("deleted")
	}
}

func (o *objs) get(k string) {
	r, err := o.st.Get(bg, k)
	i := o.find(k)
	if i < 0 {
		verifsym.Assert(err != nil, "objects: nothing is got for a key nothing is put under")
		verifsym.Assert(!okKey(k) || errors.Is(err, gerrors.ErrNotExist), "objects: a missing object does not exist")
		return
	}
	verifsym.Assert(err == nil, "objects: what was put is got")
	b, err := io.ReadAll(r)
	verifsym.Assert(err == nil, "objects: what was put is got")
	verifsym.CheckSame(b, o.all[i].v, "objects: the last bytes put are got")
	r.Close()
	verifsym.Reach("got")
}

func (o *objs) list(p string) {
	res, err := o.st.List(bg, p)
	verifsym.Assert((err == nil) == okPath(p), "objects: a well formed path only is listed")
	if err != nil {
		verifsym.Reach("rejected")
		return
	}
	var want []string
	for _, x := range o.all {
		if len(x.k) < len(p) || x.k[:len(p)] != p {
			continue
		}
		e := len(p)
		for e < len(x.k) && x.k[e] != '/' {
			e++
		}
		if e < len(x.k) {
			e++
			verifsym.Reach("subpath")
		}
		c, dup := x.k[:e], false
		for _, w := range want {
			if w == c {
				dup = true
			}
		}
		if !dup {
			want = append(want, c)
		}
	}
	verifsym.Assert(len(res) == len(want), "objects: a path has its direct children, each once")
	for _, w := range want {
		found := false
		for _, r := range res {
			if r == w {
				found = true
			}
		}
		verifsym.Assert(found, "objects: a path has its direct children")
	}
	verifsym.Reach("listed")
}

// any key up to 5 characters of slash, letter and space: it is accepted exactly if it is well formed; if it is, its bytes are got back and it is listed, else nothing is there
//
//sym:harness prop=C29 budget=30s reach=got,listed,rejected,subpath
func HKey() {
	o := &objs{st: NewStorage()}
	k := key("k", maxKey)
	o.put("a", k)
	o.get(k)
	o.list("/")
	o.list(key("p", 3))
	o.del(k)
	o.get(k)
	o.list("/")
}

// 2 values put under any keys up to 4 characters, one more put or deletion under any of 3 keys, then any get and list, a second copy of a value taken before stays what it was
//
//sym:harness prop=C29 budget=60s reach=again,got,listed,subpath,deleted
func HObjects() {
	o := &objs{st: NewStorage()}
	fixed := []string{"/a", "/a/a", "/aa/a", "/a/aa"}
	k1 := key("k1", 4)
	k2 := fixed[verifsym.Choose("k2", 4)]
	verifsym.Assume(okKey(k1))
	o.put("a", k1)
	o.put("bb", k2)
	r, err := o.st.Get(bg, k2)
	verifsym.Assert(err == nil, "objects: what was put is got")
	old := o.all[o.find(k2)].v
	k3 := []string{k1, k2, "/a"}[verifsym.Choose("k3", 3)]
	if verifsym.Choose("op", 2) == 0 {
		o.put("c", k3)
	} else {
		o.del(k3)
	}
	b, err := io.ReadAll(r)
	verifsym.Assert(err == nil, "objects: what was put is got")
	verifsym.CheckSame(b, old, "objects: a reader gives the bytes of its time")
	o.get(k1)
	o.get(k2)
	o.get("/a")
	o.list("/")
	o.list("/a/")
	o.list("/aa/")
}

// 3 goroutines use the storage: no data race, each sees its own values, all schedules with up to 1 delay
//
//sym:harness prop=C29 budget=60s race reach=end repeat=2000
func HObjectsParallel() {
	st := NewStorage()
	keys := []string{"/aa/x", "/aa/y", "/bb/x"}
	verifsym.Races()
	verifsym.Delays(1)
	use := func(i int) {
		o := &objs{st: st}
		o.put(string(rune('a'+i)), keys[i])
		o.get(keys[i])
		if i == 1 {
			_, err := st.List(bg, "/aa/")
			verifsym.Assert(err == nil, "objects: a well formed path is listed")
		}
		if i == 2 {
			o.del(keys[i])
			o.get(keys[i])
		}
	}
	verifsym.Parallel(func() { use(0) }, func() { use(1) }, func() { use(2) })
	verifsym.Delays(0)
	l, err := st.List(bg, "/aa/")
	verifsym.Assert(err == nil && len(l) == 2, "objects: a path has its direct children")
	verifsym.Reach("end")
}
