package redis

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/go-redis/redis/v8"
	golibskvspb "github.com/solarisdb/solaris/golibs/kvs/genproto/golibskvspb/v1"
	"github.com/solarisdb/solaris/golibs/verifsym"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"
)

var bg = context.Background()

var nids int

//sym:replace github.com/solarisdb/solaris/golibs/ulidutils.NewID
func symNewID() string {
	nids++
	return "01HQ0000000000000000000A" + string(rune('A'+nids/10)) + string(rune('0'+nids%10))
}

// ---- records as bytes: opaque, they give back the record which was encoded ----

var recTab []golibskvspb.Record

//sym:replace google.golang.org/protobuf/proto.Marshal
func symMarshal(m proto.Message) ([]byte, error) {
	r := m.(*golibskvspb.Record)
	c := golibskvspb.Record{Key: r.Key, Value: append([]byte(nil), r.Value...), Version: r.Version}
	if r.ExpiresAt != nil {
		c.ExpiresAt = &timestamppb.Timestamp{Seconds: r.ExpiresAt.Seconds, Nanos: r.ExpiresAt.Nanos}
	}
	recTab = append(recTab, c)
	return []byte{'R', byte(len(recTab) - 1)}, nil
}

//sym:replace google.golang.org/protobuf/proto.Unmarshal
func symUnmarshal(b []byte, m proto.Message) error {
	if len(b) != 2 || b[0] != 'R' {
		return errServer
	}
	c := recTab[int(b[1])]
	r := m.(*golibskvspb.Record)
	r.Key, r.Value, r.Version, r.ExpiresAt = c.Key, append([]byte(nil), c.Value...), c.Version, c.ExpiresAt
	return nil
}

// ---- the server: what the Redis documentation says about the commands used ----

type rent struct {
	val string
	exp time.Time
	ver int
}

type rserver struct {
	mu     sync.Mutex
	m      map[string]*rent
	names  []string
	nver   int
	calls  int
	failAt int
	failed bool
	during func()
}

var errServer = errors.New("ERR the server fails")

// enter begins a command
func (s *rserver) enter() error {
	s.mu.Lock()
	s.calls++
	if s.calls == s.failAt {
		s.failed = true
		return errServer
	}
	return nil
}

func (s *rserver) get(k string) *rent {
	e := s.m[k]
	if e != nil && !e.exp.IsZero() && !time.Now().Before(e.exp) {
		s.del(k)
		return nil
	}
	return e
}

func (s *rserver) del(k string) { s.nver++; delete(s.m, k) }

func (s *rserver) ver(k string) int {
	if e := s.get(k); e != nil {
		return e.ver
	}
	return 0
}

func (s *rserver) set(k, v string, ttl time.Duration) {
	s.nver++
	e := &rent{val: v, ver: s.nver}
	if ttl > 0 {
		if ttl < time.Millisecond {
			ttl = time.Millisecond
		}
		e.exp = time.Now().Add(ttl / time.Millisecond * time.Millisecond)
	}
	known := false
	for _, n := range s.names {
		known = known || n == k
	}
	if !known {
		s.names = append(s.names, k)
	}
	s.m[k] = e
}

func (s *rserver) setNX(k, v string, ttl time.Duration) (bool, error) {
	defer s.mu.Unlock()
	if err := s.enter(); err != nil {
		return false, err
	}
	if s.get(k) != nil {
		return false, nil
	}
	s.set(k, v, ttl)
	return true, nil
}

func (s *rserver) setAny(k, v string, ttl time.Duration) error {
	defer s.mu.Unlock()
	if err := s.enter(); err != nil {
		return err
	}
	s.set(k, v, ttl)
	return nil
}

func (s *rserver) getOne(k string) (string, error) {
	defer s.mu.Unlock()
	if err := s.enter(); err != nil {
		return "", err
	}
	if e := s.get(k); e != nil {
		return e.val, nil
	}
	return "", redis.Nil
}

func (s *rserver) mget(ks []string) ([]any, error) {
	defer s.mu.Unlock()
	if err := s.enter(); err != nil {
		return nil, err
	}
	var res []any
	for _, k := range ks {
		if e := s.get(k); e != nil {
			res = append(res, e.val)
		} else {
			res = append(res, nil)
		}
	}
	return res, nil
}

func (s *rserver) mset(kvs []string) error {
	defer s.mu.Unlock()
	if err := s.enter(); err != nil {
		return err
	}
	for i := 0; i < len(kvs); i += 2 {
		s.set(kvs[i], kvs[i+1], 0)
	}
	return nil
}

func (s *rserver) delMany(ks []string) (int, error) {
	defer s.mu.Unlock()
	if err := s.enter(); err != nil {
		return 0, err
	}
	n := 0
	for _, k := range ks {
		if s.get(k) != nil {
			n++
			s.del(k)
		}
	}
	return n, nil
}

// scan knows patterns which end with a star and ones without
func (s *rserver) scan(pat string) ([]string, error) {
	defer s.mu.Unlock()
	if err := s.enter(); err != nil {
		return nil, err
	}
	var res []string
	for _, k := range s.names {
		if s.get(k) == nil {
			continue
		}
		if k == pat || strings.HasSuffix(pat, "*") && strings.HasPrefix(k, pat[:len(pat)-1]) {
			res = append(res, k)
		}
	}
	return res, nil
}

func (s *rserver) watch(ks []string) (map[string]int, error) {
	defer s.mu.Unlock()
	if err := s.enter(); err != nil {
		return nil, err
	}
	w := map[string]int{}
	for _, k := range ks {
		w[k] = s.ver(k)
	}
	return w, nil
}

type rset struct {
	k, v string
	ttl  time.Duration
}

func (s *rserver) exec(w map[string]int, q []rset) (bool, error) {
	defer s.mu.Unlock()
	if err := s.enter(); err != nil {
		return false, err
	}
	for k, v := range w {
		if s.ver(k) != v {
			return false, nil
		}
	}
	for _, c := range q {
		s.set(c.k, c.v, c.ttl)
	}
	return true, nil
}

// ---- the client library in front of the server ----

var theServer *rserver

func newServed() (*client, *rserver) {
	s := &rserver{m: map[string]*rent{}}
	if verifsym.Symbolic() {
		theServer = s
		return &client{rdb: new(redis.Client)}, s
	}
	return New(&redis.Options{Addr: "verif", MaxRetries: -1, Dialer: func(context.Context, string, string) (net.Conn, error) {
		a, b := net.Pipe()
		go s.serve(b)
		return a, nil
	}}).(*client), s
}

func rstr(v any) string {
	if b, ok := v.([]byte); ok {
		return string(b)
	}
	return v.(string)
}

//sym:replace (github.com/go-redis/redis/v8.cmdable).SetNX
func symSetNX(_ func(context.Context, redis.Cmder) error, _ context.Context, k string, v any, ttl time.Duration) *redis.BoolCmd {
	ok, err := theServer.setNX(k, rstr(v), ttl)
	return redis.NewBoolResult(ok, err)
}

//sym:replace (github.com/go-redis/redis/v8.cmdable).Get
func symGet(_ func(context.Context, redis.Cmder) error, _ context.Context, k string) *redis.StringCmd {
	v, err := theServer.getOne(k)
	return redis.NewStringResult(v, err)
}

//sym:replace (github.com/go-redis/redis/v8.cmdable).MGet
func symMGet(_ func(context.Context, redis.Cmder) error, _ context.Context, ks ...string) *redis.SliceCmd {
	v, err := theServer.mget(ks)
	return redis.NewSliceResult(v, err)
}

//sym:replace (github.com/go-redis/redis/v8.cmdable).Set
func symSet(_ func(context.Context, redis.Cmder) error, _ context.Context, k string, v any, ttl time.Duration) *redis.StatusCmd {
	return redis.NewStatusResult("OK", theServer.setAny(k, rstr(v), ttl))
}

//sym:replace (github.com/go-redis/redis/v8.cmdable).MSet
func symMSet(_ func(context.Context, redis.Cmder) error, _ context.Context, vs ...any) *redis.StatusCmd {
	var kv []string
	if l, ok := vs[0].([]string); ok {
		kv = l
	} else {
		for _, v := range vs {
			kv = append(kv, rstr(v))
		}
	}
	return redis.NewStatusResult("OK", theServer.mset(kv))
}

//sym:replace (github.com/go-redis/redis/v8.cmdable).Del
func symDel(_ func(context.Context, redis.Cmder) error, _ context.Context, ks ...string) *redis.IntCmd {
	n, err := theServer.delMany(ks)
	return redis.NewIntResult(int64(n), err)
}

//sym:replace (github.com/go-redis/redis/v8.cmdable).Scan
func symScan(_ func(context.Context, redis.Cmder) error, _ context.Context, _ uint64, pat string, _ int64) *redis.ScanCmd {
	ks, err := theServer.scan(pat)
	return redis.NewScanCmdResult(ks, 0, err)
}

//sym:replace (*github.com/go-redis/redis/v8.Client).Watch
func symWatch(_ *redis.Client, _ context.Context, fn func(*redis.Tx) error, ks ...string) error {
	w, err := theServer.watch(ks)
	if err != nil {
		return err
	}
	tx := new(redis.Tx)
	watches[tx] = w
	return fn(tx)
}

var watches = map[*redis.Tx]map[string]int{}

type rpipe struct {
	redis.Pipeliner
	q []rset
}

func (p *rpipe) Set(_ context.Context, k string, v interface{}, ttl time.Duration) *redis.StatusCmd {
	p.q = append(p.q, rset{k, rstr(v), ttl})
	return redis.NewStatusResult("", nil)
}

//sym:replace (*github.com/go-redis/redis/v8.Tx).TxPipelined
func symTxPipelined(tx *redis.Tx, _ context.Context, fn func(redis.Pipeliner) error) ([]redis.Cmder, error) {
	p := &rpipe{}
	if err := fn(p); err != nil {
		return nil, err
	}
	if len(p.q) == 0 {
		return nil, nil
	}
	ok, err := theServer.exec(watches[tx], p.q)
	if err == nil && !ok {
		err = redis.TxFailedErr
	}
	return nil, err
}

// ---- the protocol, natively ----

func (s *rserver) serve(c net.Conn) {
	defer c.Close()
	r := bufio.NewReader(c)
	var w map[string]int
	var q []rset
	multi := false
	for {
		a, err := rread(r)
		if err != nil {
			return
		}
		out := ""
		er := func(err error) {
			switch {
			case err == redis.Nil:
				out = "$-1\r\n"
			case err != nil:
				out = "-" + err.Error() + "\r\n"
			}
		}
		switch strings.ToLower(a[0]) {
		case "setnx":
			ok, err := s.setNX(a[1], a[2], 0)
			out = map[bool]string{true: ":1\r\n", false: ":0\r\n"}[ok]
			er(err)
		case "set":
			var ttl time.Duration
			nx := false
			for i := 3; i < len(a); i++ {
				switch strings.ToLower(a[i]) {
				case "px", "ex":
					n, _ := strconv.Atoi(a[i+1])
					ttl = time.Duration(n) * time.Millisecond
					if strings.ToLower(a[i]) == "ex" {
						ttl *= 1000
					}
					i++
				case "nx":
					nx = true
				}
			}
			if multi {
				q = append(q, rset{a[1], a[2], ttl})
				out = "+QUEUED\r\n"
				break
			}
			if nx {
				ok, err := s.setNX(a[1], a[2], ttl)
				out = map[bool]string{true: "+OK\r\n", false: "$-1\r\n"}[ok]
				er(err)
			} else {
				out = "+OK\r\n"
				er(s.setAny(a[1], a[2], ttl))
			}
		case "get":
			v, err := s.getOne(a[1])
			out = rbulk(v)
			er(err)
		case "mget":
			l, err := s.mget(a[1:])
			out = fmt.Sprintf("*%d\r\n", len(l))
			for _, v := range l {
				if v == nil {
					out += "$-1\r\n"
				} else {
					out += rbulk(v.(string))
				}
			}
			er(err)
		case "mset":
			out = "+OK\r\n"
			er(s.mset(a[1:]))
		case "del":
			n, err := s.delMany(a[1:])
			out = fmt.Sprintf(":%d\r\n", n)
			er(err)
		case "scan":
			pat := "*"
			for i := 2; i+1 < len(a); i++ {
				if strings.ToLower(a[i]) == "match" {
					pat = a[i+1]
				}
			}
			l, err := s.scan(pat)
			out = fmt.Sprintf("*2\r\n$1\r\n0\r\n*%d\r\n", len(l))
			for _, v := range l {
				out += rbulk(v)
			}
			er(err)
		case "watch":
			var err error
			w, err = s.watch(a[1:])
			out = "+OK\r\n"
			er(err)
		case "unwatch":
			w, out = nil, "+OK\r\n"
		case "multi":
			multi, q, out = true, nil, "+OK\r\n"
		case "exec":
			ok, err := s.exec(w, q)
			out = "*-1\r\n"
			if ok {
				out = fmt.Sprintf("*%d\r\n", len(q)) + strings.Repeat("+OK\r\n", len(q))
			}
			er(err)
			multi, w = false, nil
		default:
			out = "-ERR unknown command\r\n"
		}
		if _, err := io.WriteString(c, out); err != nil {
			return
		}
	}
}

func rbulk(v string) string { return fmt.Sprintf("$%d\r\n%s\r\n", len(v), v) }

func rread(r *bufio.Reader) ([]string, error) {
	l, err := r.ReadString('\n')
	if err != nil || l[0] != '*' {
		return nil, io.EOF
	}
	n, _ := strconv.Atoi(strings.TrimSpace(l[1:]))
	var a []string
	for i := 0; i < n; i++ {
		if l, err = r.ReadString('\n'); err != nil {
			return nil, err
		}
		m, _ := strconv.Atoi(strings.TrimSpace(l[1:]))
		b := make([]byte, m+2)
		if _, err = io.ReadFull(r, b); err != nil {
			return nil, err
		}
		a = append(a, string(b[:m]))
	}
	return a, nil
}
