package s3

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"path"
	"strings"
	"sync"

	"github.com/aws/aws-sdk-go/aws"
	"github.com/aws/aws-sdk-go/aws/awserr"
	"github.com/aws/aws-sdk-go/aws/client"
	"github.com/aws/aws-sdk-go/aws/credentials"
	"github.com/aws/aws-sdk-go/aws/request"
	"github.com/aws/aws-sdk-go/aws/session"
	"github.com/aws/aws-sdk-go/service/s3"
	"github.com/solarisdb/solaris/golibs/verifsym"
)

var bg = context.Background()

// server is what the documentation of S3 says about the requests used: a map of objects for each bucket
type server struct {
	mu     sync.Mutex
	objs   []sobj // ordered by the path, which is /bucket/key
	page   int
	calls  int
	failAt int
	status int
	failed bool
}

type sobj struct {
	k string
	v []byte
}

var theServer *server

func (s *server) enter() bool {
	s.calls++
	if s.calls == s.failAt {
		s.failed = true
		return false
	}
	return true
}

func (s *server) find(p string) int {
	for i := range s.objs {
		if s.objs[i].k == p {
			return i
		}
	}
	return -1
}

func (s *server) put(p string, v []byte) {
	if i := s.find(p); i >= 0 {
		s.objs[i].v = v
		return
	}
	i := len(s.objs)
	s.objs = append(s.objs, sobj{p, v})
	for i > 0 && s.objs[i-1].k > p {
		s.objs[i-1], s.objs[i] = s.objs[i], s.objs[i-1]
		i--
	}
}

func (s *server) del(p string) {
	if i := s.find(p); i >= 0 {
		s.objs = append(append([]sobj(nil), s.objs[:i]...), s.objs[i+1:]...)
	}
}

type listing struct {
	keys, prefixes []string
	truncated      bool
	next           string
}

// list gives at most max (and at most s.page) keys and prefixes which come after the marker
func (s *server) list(bucket, prefix, delim, marker string, max int) listing {
	var r listing
	if max > s.page {
		max = s.page
	}
	last := ""
	for _, o := range s.objs {
		if !strings.HasPrefix(o.k, "/"+bucket+"/") {
			continue
		}
		k := o.k[len(bucket)+2:]
		if !strings.HasPrefix(k, prefix) {
			continue
		}
		e, sub := k, false
		if delim != "" {
			if i := strings.Index(k[len(prefix):], delim); i >= 0 {
				e, sub = k[:len(prefix)+i+len(delim)], true
			}
		}
		if e <= marker || e == last {
			continue
		}
		if len(r.keys)+len(r.prefixes) >= max {
			r.truncated = true
			if delim != "" {
				r.next = last
			}
			break
		}
		last = e
		if sub {
			r.prefixes = append(r.prefixes, e)
		} else {
			r.keys = append(r.keys, e)
		}
	}
	return r
}

// where is the path the request for a key goes to
func where(c *s3.S3, bucket, key string) string {
	p := "/" + bucket + "/" + key
	if !aws.BoolValue(c.Config.DisableRestProtocolURICleaning) {
		p = path.Clean(p)
		if strings.HasSuffix(key, "/") {
			p += "/"
		}
	}
	return p
}

func (s *server) failure() error {
	return awserr.NewRequestFailure(awserr.New("Failure", "the server fails", nil), s.status, "1")
}

//sym:replace github.com/aws/aws-sdk-go/aws/session.NewSession
func symNewSession(cfgs ...*aws.Config) (*session.Session, error) {
	c := &aws.Config{}
	symMerge(c, cfgs)
	return &session.Session{Config: c}, nil
}

func symMerge(c *aws.Config, cfgs []*aws.Config) {
	for _, o := range cfgs {
		if o != nil && o.DisableRestProtocolURICleaning != nil {
			c.DisableRestProtocolURICleaning = o.DisableRestProtocolURICleaning
		}
	}
}

//sym:replace github.com/aws/aws-sdk-go/service/s3.New
func symNew(p client.ConfigProvider, cfgs ...*aws.Config) *s3.S3 {
	c := &aws.Config{}
	symMerge(c, []*aws.Config{p.(*session.Session).Config})
	symMerge(c, cfgs)
	return &s3.S3{Client: &client.Client{Config: *c}}
}

//sym:replace (*github.com/aws/aws-sdk-go/service/s3.S3).GetObjectWithContext
func symGet(c *s3.S3, ctx aws.Context, in *s3.GetObjectInput, _ ...request.Option) (*s3.GetObjectOutput, error) {
	s := theServer
	if ctx.Err() != nil {
		return nil, awserr.New("RequestCanceled", "request context canceled", ctx.Err())
	}
	if !s.enter() {
		return nil, s.failure()
	}
	i := s.find(where(c, aws.StringValue(in.Bucket), aws.StringValue(in.Key)))
	if i < 0 {
		return nil, awserr.NewRequestFailure(awserr.New("NoSuchKey", "not found", nil), 404, "1")
	}
	return &s3.GetObjectOutput{Body: io.NopCloser(bytes.NewReader(append([]byte(nil), s.objs[i].v...)))}, nil
}

//sym:replace (*github.com/aws/aws-sdk-go/service/s3.S3).PutObjectWithContext
func symPut(c *s3.S3, ctx aws.Context, in *s3.PutObjectInput, _ ...request.Option) (*s3.PutObjectOutput, error) {
	s := theServer
	if ctx.Err() != nil {
		return nil, awserr.New("RequestCanceled", "request context canceled", ctx.Err())
	}
	if !aws.IsReaderSeekable(in.Body) {
		return nil, awserr.New("SerializationError", "cannot use unseekable request body", nil)
	}
	v, err := io.ReadAll(in.Body)
	if err != nil {
		return nil, awserr.New("SerializationError", "failed to read the body", err)
	}
	if !s.enter() {
		return nil, s.failure()
	}
	s.put(where(c, aws.StringValue(in.Bucket), aws.StringValue(in.Key)), v)
	return &s3.PutObjectOutput{}, nil
}

//sym:replace (*github.com/aws/aws-sdk-go/service/s3.S3).DeleteObjectWithContext
func symDel(c *s3.S3, ctx aws.Context, in *s3.DeleteObjectInput, _ ...request.Option) (*s3.DeleteObjectOutput, error) {
	s := theServer
	if ctx.Err() != nil {
		return nil, awserr.New("RequestCanceled", "request context canceled", ctx.Err())
	}
	if !s.enter() {
		return nil, s.failure()
	}
	s.del(where(c, aws.StringValue(in.Bucket), aws.StringValue(in.Key)))
	return &s3.DeleteObjectOutput{}, nil
}

//sym:replace (*github.com/aws/aws-sdk-go/service/s3.S3).ListObjectsWithContext
func symList(c *s3.S3, ctx aws.Context, in *s3.ListObjectsInput, _ ...request.Option) (*s3.ListObjectsOutput, error) {
	s := theServer
	if ctx.Err() != nil {
		return nil, awserr.New("RequestCanceled", "request context canceled", ctx.Err())
	}
	if !s.enter() {
		return nil, s.failure()
	}
	max := 1000
	if in.MaxKeys != nil {
		max = int(*in.MaxKeys)
	}
	l := s.list(aws.StringValue(in.Bucket), aws.StringValue(in.Prefix), aws.StringValue(in.Delimiter), aws.StringValue(in.Marker), max)
	out := &s3.ListObjectsOutput{IsTruncated: aws.Bool(l.truncated)}
	for _, k := range l.keys {
		out.Contents = append(out.Contents, &s3.Object{Key: aws.String(k)})
	}
	for _, p := range l.prefixes {
		out.CommonPrefixes = append(out.CommonPrefixes, &s3.CommonPrefix{Prefix: aws.String(p)})
	}
	if l.next != "" {
		out.NextMarker = aws.String(l.next)
	}
	return out, nil
}

// RoundTrip is the server natively
func (s *server) RoundTrip(r *http.Request) (*http.Response, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if r.Context().Err() != nil {
		return nil, r.Context().Err()
	}
	var body []byte
	if r.Body != nil {
		body, _ = io.ReadAll(r.Body)
		r.Body.Close()
	}
	answer := func(status int, b string) (*http.Response, error) {
		return &http.Response{StatusCode: status, Status: fmt.Sprint(status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
			Header: http.Header{}, Body: io.NopCloser(strings.NewReader(b)), ContentLength: int64(len(b)), Request: r}, nil
	}
	if !s.enter() {
		return answer(s.status, "<Error><Code>Failure</Code><Message>the server fails</Message></Error>")
	}
	p, _ := url.PathUnescape(r.URL.EscapedPath())
	q := r.URL.Query()
	if r.Method == "GET" && strings.Trim(p, "/") == "bkt" {
		max := 1000
		if m := q.Get("max-keys"); m != "" {
			fmt.Sscan(m, &max)
		}
		l := s.list("bkt", q.Get("prefix"), q.Get("delimiter"), q.Get("marker"), max)
		x := fmt.Sprintf("<ListBucketResult><IsTruncated>%v</IsTruncated>", l.truncated)
		if l.next != "" {
			x += "<NextMarker>" + l.next + "</NextMarker>"
		}
		for _, k := range l.keys {
			x += "<Contents><Key>" + k + "</Key></Contents>"
		}
		for _, k := range l.prefixes {
			x += "<CommonPrefixes><Prefix>" + k + "</Prefix></CommonPrefixes>"
		}
		return answer(200, x+"</ListBucketResult>")
	}
	switch r.Method {
	case "GET":
		i := s.find(p)
		if i < 0 {
			return answer(404, "<Error><Code>NoSuchKey</Code><Message>not found</Message></Error>")
		}
		return answer(200, string(s.objs[i].v))
	case "PUT":
		s.put(p, body)
		return answer(200, "")
	case "DELETE":
		s.del(p)
		return answer(204, "")
	}
	return answer(400, "<Error><Code>Bad</Code><Message>bad</Message></Error>")
}

func newStorage(page int) *Storage {
	theServer = &server{page: page, status: 403}
	st := &Storage{Bucket: "bkt", AwsConfig: &aws.Config{}}
	if !verifsym.Symbolic() {
		os.Unsetenv("AWS_CA_BUNDLE")
		st.AwsConfig = aws.NewConfig().WithRegion("us-east-1").WithEndpoint("http://s3.local").WithS3ForcePathStyle(true).WithMaxRetries(0).
			WithCredentials(credentials.NewStaticCredentials("a", "b", "")).WithHTTPClient(&http.Client{Transport: theServer})
	}
	verifsym.Assert(st.Init(bg) == nil, "s3: the storage is made")
	return st
}
