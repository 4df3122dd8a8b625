package rest

import (
	"bytes"
	"context"
	"encoding/json"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"time"

	"github.com/gin-gonic/gin"
	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	restapi "github.com/solarisdb/solaris/api/genpublic/v1"
	"github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/verifsym"
	"github.com/solarisdb/solaris/pkg/api"
	"github.com/solarisdb/solaris/pkg/storage"
	"google.golang.org/protobuf/types/known/timestamppb"
)

// the body of the request and the answer, which are JSON texts in a native run

var body any
var badBody bool
var code int
var answer any

//sym:replace github.com/solarisdb/solaris/pkg/api/rest.BindAppJson
func symBind(c *gin.Context, inf interface{}) error {
	if badBody {
		// gin writes the status at once
		code = http.StatusBadRequest
		return errors.ErrInternal
	}
	switch p := inf.(type) {
	case *restapi.CreateLogRequest:
		*p = body.(restapi.CreateLogRequest)
	case *restapi.UpdateLogRequest:
		*p = body.(restapi.UpdateLogRequest)
	case *restapi.DeleteLogsRequest:
		*p = body.(restapi.DeleteLogsRequest)
	case *restapi.CreateRecordsRequest:
		*p = body.(restapi.CreateRecordsRequest)
	}
	return nil
}

//sym:replace (*github.com/gin-gonic/gin.Context).JSON
func symJSON(c *gin.Context, st int, obj any) {
	if badBody && code == http.StatusBadRequest {
		st = code
	} else {
		verifsym.Assert(code == 0, "rest: there is one answer")
	}
	code, answer = st, obj
}

// call makes the context of a request with the body b, calls f and gives the answer
func call[T any](b any, f func(c *gin.Context)) (int, T) {
	var res T
	if verifsym.Symbolic() {
		body, code, answer = b, 0, nil
		f(&gin.Context{Request: &http.Request{Method: "POST"}})
		if t, ok := answer.(T); ok {
			res = t
		}
		return code, res
	}
	w := httptest.NewRecorder()
	gin.SetMode(gin.ReleaseMode)
	c, _ := gin.CreateTestContext(w)
	js, _ := json.Marshal(b)
	if badBody {
		js = []byte("{")
	}
	c.Request = &http.Request{Method: "POST", Header: http.Header{"Content-Type": {"application/json"}}, Body: io.NopCloser(bytes.NewReader(js)), URL: &url.URL{}}
	f(c)
	if w.Code < 300 && json.Unmarshal(w.Body.Bytes(), &res) != nil {
		verifsym.Fail("rest: the answer is the object in JSON")
	}
	return w.Code, res
}

// recorder is the storage behind the service: it keeps the requests and gives the answers set
type recorder struct {
	err    error
	log    *solaris.Log
	reqLog *solaris.Log
	what   string
	ql     storage.QueryLogsRequest
	logs   *solaris.QueryLogsResult
	dl     storage.DeleteLogsRequest
	del    *solaris.DeleteLogsResult
	ap     *solaris.AppendRecordsRequest
	added  int64
	qr     []storage.QueryRecordsRequest
	recs   []*solaris.Record
	more   bool
	count  uint64
}

func (r *recorder) CreateLog(ctx context.Context, log *solaris.Log) (*solaris.Log, error) {
	r.what, r.reqLog = "create", log
	return r.log, r.err
}
func (r *recorder) GetLogByID(ctx context.Context, id string) (*solaris.Log, error) {
	return r.log, r.err
}
func (r *recorder) UpdateLog(ctx context.Context, log *solaris.Log) (*solaris.Log, error) {
	r.what, r.reqLog = "update", log
	return r.log, r.err
}
func (r *recorder) QueryLogs(ctx context.Context, qr storage.QueryLogsRequest) (*solaris.QueryLogsResult, error) {
	r.what, r.ql = "logs", qr
	return r.logs, r.err
}
func (r *recorder) DeleteLogs(ctx context.Context, q storage.DeleteLogsRequest) (*solaris.DeleteLogsResult, error) {
	r.what, r.dl = "delete", q
	return r.del, r.err
}
func (r *recorder) AppendRecords(ctx context.Context, q *solaris.AppendRecordsRequest) (*solaris.AppendRecordsResult, error) {
	r.what, r.ap = "append", q
	return &solaris.AppendRecordsResult{Added: r.added}, r.err
}
func (r *recorder) QueryRecords(ctx context.Context, q storage.QueryRecordsRequest) ([]*solaris.Record, bool, error) {
	r.qr = append(r.qr, q)
	return r.recs, r.more, r.err
}
func (r *recorder) CountRecords(ctx context.Context, q storage.QueryRecordsRequest) (uint64, uint64, error) {
	r.qr = append(r.qr, q)
	return r.count + 5, r.count, r.err
}

func setup() (*Rest, *recorder) {
	r := &recorder{}
	svc := api.NewService()
	svc.LogsStorage, svc.LogStorage = r, r
	return New(svc), r
}

// text is a text of any lower case letter
func text(n string) string {
	return string([]byte{byte(verifsym.Int(n, 'a', 'z')), 'x'})
}

func stamp(n string) *timestamppb.Timestamp {
	if verifsym.Choose("has "+n, 2) == 0 {
		return nil
	}
	return &timestamppb.Timestamp{Seconds: verifsym.Int64("sec "+n, 1, 4000000000), Nanos: int32(verifsym.Int("nano "+n, 0, 999999999))}
}

func tags(n string) map[string]string {
	m := map[string]string{}
	for i := verifsym.Choose("tags "+n, 3); i > 0; i-- {
		m["k"+string(rune('0'+i))] = text("tag " + n)
	}
	return m
}

func sameTags(a, b map[string]string) bool {
	ok := len(a) == len(b)
	for k, v := range a {
		w, has := b[k]
		ok = verifsym.And(ok, has, v == w)
	}
	return ok
}

func sameTime(a time.Time, t *timestamppb.Timestamp) bool {
	if t == nil {
		return a.IsZero()
	}
	return a.Equal(time.Unix(t.Seconds, int64(t.Nanos)))
}

func aLog(n string) *solaris.Log {
	return &solaris.Log{ID: text("id " + n), Tags: tags(n), CreatedAt: stamp("c" + n), UpdatedAt: stamp("u" + n)}
}

func sameLog(r restapi.Log, l *solaris.Log) bool {
	return verifsym.And(r.Id == l.ID, sameTags(r.Tags, l.Tags), sameTime(r.CreatedAt, l.CreatedAt), sameTime(r.UpdatedAt, l.UpdatedAt))
}

// a log made or changed with up to 2 tags of any values; the log given back with any id, times and tags
//
//sym:harness prop=C31 budget=40s reach=end
func HLog() {
	r, st := setup()
	st.log = aLog("a")
	tg := tags("new")
	if verifsym.Choose("op", 2) == 0 {
		c, l := call[restapi.Log](restapi.CreateLogRequest{Tags: tg}, func(c *gin.Context) { r.CreateLog(c) })
		verifsym.Assert(c == http.StatusCreated && st.what == "create" && sameLog(l, st.log), "rest: the log made is the answer")
		verifsym.Assert(st.reqLog.ID == "", "rest: the log is made with the fields given")
	} else {
		id := text("log")
		c, l := call[restapi.Log](restapi.UpdateLogRequest{Tags: tg}, func(c *gin.Context) { r.UpdateLog(c, id) })
		verifsym.Assert(c == http.StatusOK && st.what == "update" && sameLog(l, st.log), "rest: the log changed is the answer")
		verifsym.Assert(st.reqLog.ID == id, "rest: the log given is changed")
	}
	verifsym.Assert(sameTags(st.reqLog.Tags, tg), "rest: the tags given are set")
	verifsym.Reach("end")
}

// a query for logs with any condition, page and limit or without them, its answer of up to 2 logs, any next page and total; the deletion of logs by any condition
//
//sym:harness prop=C31 budget=40s reach=logs,deleted
func HLogs() {
	r, st := setup()
	if verifsym.Choose("op", 2) == 0 {
		var p restapi.QueryLogsParams
		cond, page, limit := "", "", 0
		if verifsym.Choose("cond", 2) == 1 {
			cond = text("condition")
			p.LogsCondFilter = &cond
		}
		if verifsym.Choose("page", 2) == 1 {
			page = text("from")
			p.FromPageId = &page
		}
		if verifsym.Choose("limit", 2) == 1 {
			limit = verifsym.Int("max", -1, 1000000)
			p.Limit = &limit
		}
		st.logs = &solaris.QueryLogsResult{Total: verifsym.Int64("total", 0, 1<<40)}
		if verifsym.Choose("next", 2) == 1 {
			st.logs.NextPageID = text("next page")
		}
		for i := verifsym.Choose("n", 3); i > 0; i-- {
			st.logs.Logs = append(st.logs.Logs, &solaris.Log{ID: text("id"), Tags: map[string]string{"k": text("tag")}, UpdatedAt: stamp("u")})
		}
		c, res := call[restapi.QueryLogsResult](nil, func(c *gin.Context) { r.QueryLogs(c, p) })
		verifsym.Assert(c == http.StatusOK, "rest: the status")
		verifsym.Assert(verifsym.And(st.ql.Condition == cond, st.ql.Page == page, st.ql.Limit == int64(limit), len(st.ql.IDs) == 0, !st.ql.Deleted), "rest: the query is made with the parameters given")
		verifsym.Assert(int64(res.Total) == st.logs.Total && len(res.Items) == len(st.logs.Logs), "rest: the logs found are the answer")
		for i, l := range res.Items {
			verifsym.Assert(sameLog(l, st.logs.Logs[i]), "rest: the logs found are the answer")
		}
		verifsym.Assert((res.NextPageId != nil) == (st.logs.NextPageID != "") && (res.NextPageId == nil || *res.NextPageId == st.logs.NextPageID), "rest: the next page is that of the answer")
		verifsym.Reach("logs")
		return
	}
	cond := text("condition")
	st.del = &solaris.DeleteLogsResult{}
	for i := verifsym.Choose("n", 3); i > 0; i-- {
		st.del.DeletedIDs = append(st.del.DeletedIDs, text("id"))
	}
	c, res := call[restapi.DeleteLogsResponse](restapi.DeleteLogsRequest{FilterCondition: cond}, func(c *gin.Context) { r.DeleteLogs(c) })
	verifsym.Assert(c == http.StatusOK && st.what == "delete" && res.Deleted == len(st.del.DeletedIDs), "rest: the number of logs deleted is the answer")
	verifsym.Assert(st.dl.Condition == cond && len(st.dl.IDs) == 0 && st.dl.MarkOnly, "rest: the logs of the condition are marked as deleted")
	verifsym.Reach("deleted")
}

// up to 3 records of any 2 bytes added to any log; a query for records of one log with any conditions, page, limit and direction or without them, its answer of up to 2 records of any contents
//
//sym:harness prop=C31 budget=60s reach=added,records
func HRecords() {
	r, st := setup()
	id := text("log")
	if verifsym.Choose("op", 2) == 0 {
		st.added = verifsym.Int64("added", 0, 1000000)
		var req restapi.CreateRecordsRequest
		for i := verifsym.Choose("n", 4); i > 0; i-- {
			req.Records = append(req.Records, restapi.CreateRecordRequest{Payload: verifsym.Bytes("payload", 2)})
		}
		c, res := call[restapi.CreateRecordsResponse](req, func(c *gin.Context) { r.CreateRecords(c, id) })
		verifsym.Assert(c == http.StatusCreated && int64(res.Added) == st.added, "rest: the number of records added is the answer")
		verifsym.Assert(st.ap.LogID == id && len(st.ap.Records) == len(req.Records), "rest: the records given are added to the log given")
		for i, rec := range st.ap.Records {
			verifsym.Assert(string(rec.Payload) == string(req.Records[i].Payload), "rest: the records given are added in their order")
		}
		verifsym.Reach("added")
		return
	}
	var p restapi.QueryRecordsParams
	cond, page, limit, desc := "", "", 0, false
	p.LogIds = &[]string{id}
	if verifsym.Choose("cond", 2) == 1 {
		cond = text("condition")
		p.RecordsCondFilter = &cond
	}
	if verifsym.Choose("page", 2) == 1 {
		page = text("from")
		p.FromPageId = &page
	}
	if verifsym.Choose("limit", 2) == 1 {
		limit = verifsym.Int("max", -1, 1000000)
		p.Limit = &limit
	}
	if verifsym.Choose("desc", 2) == 1 {
		desc = verifsym.Bool("descending")
		p.Desc = &desc
	}
	if verifsym.Choose("logs", 2) == 1 {
		// the ids go first
		lc := text("logs condition")
		p.LogsCondFilter = &lc
	}
	st.count = uint64(verifsym.Int64("count", 0, 1<<40))
	for i := verifsym.Choose("n", 3); i > 0; i-- {
		st.recs = append(st.recs, &solaris.Record{ID: text("id"), LogID: text("log id"), Payload: verifsym.Bytes("payload", 2), CreatedAt: stamp("c")})
	}
	c, res := call[restapi.QueryRecordsResult](nil, func(c *gin.Context) { r.QueryRecords(c, p) })
	verifsym.Assert(c == http.StatusOK && len(st.qr) == 2, "rest: the records are queried and counted")
	for _, q := range st.qr {
		verifsym.Assert(verifsym.And(q.Condition == cond, q.LogID == id, q.StartID == page, q.Limit == int64(limit), q.Descending == desc), "rest: the query is made with the parameters given")
	}
	verifsym.Assert(res.Total == int(st.count) && len(res.Items) == len(st.recs) && res.NextPageId == nil, "rest: the records found are the answer")
	for i, x := range res.Items {
		o := st.recs[i]
		verifsym.Assert(verifsym.And(x.Id == o.ID, x.LogId == o.LogID, string(x.Payload) == string(o.Payload), sameTime(x.CreatedAt, o.CreatedAt)), "rest: the records found are the answer")
	}
	verifsym.Reach("records")
}

// a query for records whose page is not the last one: the next page is in the answer
//
//sym:harness prop=C31 budget=20s reach=end
func HNextPage() {
	r, st := setup()
	p := restapi.QueryRecordsParams{LogIds: &[]string{"log"}}
	desc := verifsym.Choose("desc", 2) == 1
	limit := 1
	p.Desc, p.Limit = &desc, &limit
	st.recs, st.more = []*solaris.Record{{ID: "01HQ0000000000000000000005"}}, true
	_, res := call[restapi.QueryRecordsResult](nil, func(c *gin.Context) { r.QueryRecords(c, p) })
	want := "01HQ0000000000000000000006"
	if desc {
		want = "01HQ0000000000000000000004"
	}
	verifsym.Assert(res.NextPageId != nil && *res.NextPageId == want, "rest: the next page is that of the answer")
	verifsym.Reach("end")
}

// every request with a body that is not the JSON expected or a failure of the storage of every kind: one answer with the status of the failure
//
//sym:harness prop=C31 budget=20s reach=end,bad
func HFailures() {
	r, st := setup()
	kinds := []error{errors.ErrNotExist, errors.ErrInvalid, errors.ErrExist, errors.ErrConflict, errors.ErrInternal, errors.ErrDataLoss, errors.ErrExhausted}
	codes := []int{http.StatusNotFound, http.StatusBadRequest, http.StatusConflict, http.StatusConflict, 500, 500, 500}
	k := verifsym.Choose("kind", len(kinds))
	st.err = kinds[k]
	want := codes[k]
	op := verifsym.Choose("op", 6)
	badBody = op < 4 && verifsym.Choose("bad", 2) == 1
	if badBody {
		want = http.StatusBadRequest
		verifsym.Reach("bad")
	}
	defer func() { badBody = false }()
	bodies := []any{restapi.CreateLogRequest{}, restapi.UpdateLogRequest{}, restapi.DeleteLogsRequest{}, restapi.CreateRecordsRequest{}, nil, nil}
	c, _ := call[restapi.Log](bodies[op], func(c *gin.Context) {
		switch op {
		case 0:
			r.CreateLog(c)
		case 1:
			r.UpdateLog(c, "x")
		case 2:
			r.DeleteLogs(c)
		case 3:
			r.CreateRecords(c, "x")
		case 4:
			r.QueryLogs(c, restapi.QueryLogsParams{})
		case 5:
			r.QueryRecords(c, restapi.QueryRecordsParams{LogIds: &[]string{"x"}})
		}
	})
	verifsym.Assert(c == want, "rest: a failure has its status")
	verifsym.Assert(!badBody || st.what == "", "rest: a request which is not understood does nothing")
	verifsym.Reach("end")
}
