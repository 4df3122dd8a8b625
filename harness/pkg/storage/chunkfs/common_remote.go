package chunkfs

import (
	"bytes"
	"context"
	"errors"
	"io"

	"github.com/solarisdb/solaris/golibs/sss/inmem"
	"github.com/solarisdb/solaris/golibs/verifsym"
)

// remote is the remote storage whose n-th call fails in one of several ways
type remote struct {
	st     *inmem.Storage
	calls  int
	failAt int
	how    int
	failed bool
}

var errRemote = errors.New("remote storage is not available")

func (r *remote) fails() bool {
	r.calls++
	if r.calls == r.failAt {
		r.failed = true
		return true
	}
	return false
}

// cut gives a half of what is there and an error
type cut struct {
	r io.Reader
	n int
}

func (c *cut) Read(b []byte) (int, error) {
	if c.n == 0 {
		return 0, errRemote
	}
	if len(b) > c.n {
		b = b[:c.n]
	}
	k, err := c.r.Read(b)
	c.n -= k
	return k, err
}

func (c *cut) Close() error { return nil }

func (r *remote) Get(ctx context.Context, key string) (io.ReadCloser, error) {
	if r.fails() {
		rc, err := r.st.Get(ctx, key)
		if err != nil || r.how == 0 {
			return nil, errRemote
		}
		b, _ := io.ReadAll(rc)
		return &cut{r: bytes.NewReader(b), n: len(b) / 2}, nil
	}
	return r.st.Get(ctx, key)
}

func (r *remote) Put(ctx context.Context, key string, rd io.Reader) error {
	if r.fails() {
		switch r.how {
		case 1: // a part is read
			io.ReadAll(&cut{r: rd, n: 2})
		case 2: // the answer is lost
			r.st.Put(ctx, key, rd)
		}
		return errRemote
	}
	return r.st.Put(ctx, key, rd)
}

func (r *remote) List(ctx context.Context, path string) ([]string, error) {
	return r.st.List(ctx, path)
}

func (r *remote) Delete(ctx context.Context, key string) error {
	if r.fails() {
		return errRemote
	}
	return r.st.Delete(ctx, key)
}

func same(a, b []byte) bool {
	if a == nil || b == nil || len(a) != len(b) {
		return false
	}
	eq := true
	for i := range a {
		eq = verifsym.And(eq, a[i] == b[i])
	}
	return eq
}
