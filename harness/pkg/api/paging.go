package api

import (
	"context"
	"math"

	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/ulidutils"
	"github.com/solarisdb/solaris/golibs/verifsym"
	"github.com/solarisdb/solaris/pkg/storage"
)

// the neighbours of the ids of this harness, which differ in their last digit from 1 to 8 only

//sym:replace github.com/solarisdb/solaris/golibs/ulidutils.NextID
func symNextID(id string) string { return id[:25] + string([]byte{id[25] + 1}) }

//sym:replace github.com/solarisdb/solaris/golibs/ulidutils.PrevID
func symPrevID(id string) string { return id[:25] + string([]byte{id[25] - 1}) }

var _ = ulidutils.NextID

var bg = context.Background()

// pgStore is the storage of logs with the contract of storage.Log, a query returns up to bunch records
type pgStore struct {
	names  []string
	recs   map[string][]*solaris.Record // by ascending ids
	bunch  int
	calls  int
	failAt int
	cond   string
	lcond  string
	many   bool
	added  string
}

var errBad = errors.ErrDataLoss

func (s *pgStore) fails() bool {
	s.calls++
	return s.calls == s.failAt
}

func (s *pgStore) CreateLog(ctx context.Context, log *solaris.Log) (*solaris.Log, error) {
	return log, nil
}

func (s *pgStore) GetLogByID(ctx context.Context, id string) (*solaris.Log, error) {
	if s.fails() {
		return nil, errBad
	}
	if _, ok := s.recs[id]; !ok {
		return nil, errors.ErrNotExist
	}
	return &solaris.Log{ID: id}, nil
}

func (s *pgStore) UpdateLog(ctx context.Context, log *solaris.Log) (*solaris.Log, error) {
	return log, nil
}

func (s *pgStore) QueryLogs(ctx context.Context, qr storage.QueryLogsRequest) (*solaris.QueryLogsResult, error) {
	verifsym.Assert(qr.Condition == s.lcond && qr.Page == "", "query: the logs which match the condition are asked for")
	if s.fails() {
		return nil, errBad
	}
	res := &solaris.QueryLogsResult{}
	for _, n := range s.names {
		if int64(len(res.Logs)) < qr.Limit {
			res.Logs = append(res.Logs, &solaris.Log{ID: n})
		}
	}
	for i := 0; s.many && i < 1005 && int64(len(res.Logs)) < qr.Limit; i++ {
		res.Logs = append(res.Logs, &solaris.Log{ID: "m"})
	}
	return res, nil
}

func (s *pgStore) DeleteLogs(ctx context.Context, request storage.DeleteLogsRequest) (*solaris.DeleteLogsResult, error) {
	return nil, nil
}

func (s *pgStore) AppendRecords(ctx context.Context, request *solaris.AppendRecordsRequest) (*solaris.AppendRecordsResult, error) {
	s.added += request.LogID
	if s.fails() {
		return nil, errBad
	}
	return &solaris.AppendRecordsResult{Added: int64(len(request.Records))}, nil
}

func (s *pgStore) QueryRecords(ctx context.Context, q storage.QueryRecordsRequest) ([]*solaris.Record, bool, error) {
	verifsym.Assert(q.Condition == s.cond, "query: records are asked for by the condition given")
	if s.fails() {
		return nil, false, errBad
	}
	all, ok := s.recs[q.LogID]
	if !ok {
		return nil, false, errors.ErrNotExist
	}
	n := len(all)
	var res []*solaris.Record
	size := 0
	for i := range all {
		r := all[i]
		if q.Descending {
			r = all[n-1-i]
		}
		if q.StartID != "" && (q.Descending && r.ID > q.StartID || !q.Descending && r.ID < q.StartID) {
			continue
		}
		if int64(len(res)) >= q.Limit || size >= s.bunch {
			break
		}
		res = append(res, r)
		size++
	}
	return res, int64(len(res)) >= q.Limit || size >= s.bunch, nil
}

func (s *pgStore) CountRecords(ctx context.Context, q storage.QueryRecordsRequest) (uint64, uint64, error) {
	verifsym.Assert(q.Condition == s.cond, "query: records are counted by the condition given")
	if s.fails() {
		return 0, 0, errBad
	}
	all, ok := s.recs[q.LogID]
	if !ok {
		return 0, 0, errors.ErrNotExist
	}
	c := 0
	for _, r := range all {
		if q.StartID == "" || q.Descending && r.ID <= q.StartID || !q.Descending && r.ID >= q.StartID {
			c++
		}
	}
	return uint64(len(all)), uint64(c), nil
}

const idPrefix = "01HQ000000000000000000000"

func pgID(n string) string {
	return idPrefix + string([]byte{byte(verifsym.Int(n, '1', '8'))})
}

// pgWorld makes a service over a storage with logs of up to max records each, no two of them with the same id
func pgWorld(logs, max int) (*Service, *pgStore) {
	s := &pgStore{recs: map[string][]*solaris.Record{}, bunch: 1000}
	var all []*solaris.Record
	for i := 0; i < logs; i++ {
		n := string(rune('a' + i))
		s.names = append(s.names, n)
		k := verifsym.Choose("n"+n, max+1)
		rs := []*solaris.Record{}
		for j := 0; j < k; j++ {
			r := &solaris.Record{ID: pgID("id" + n), LogID: n}
			if j > 0 {
				verifsym.Assume(rs[j-1].ID < r.ID)
			}
			for _, o := range all {
				verifsym.Assume(o.ID != r.ID)
			}
			rs = append(rs, r)
		}
		all = append(all, rs...)
		s.recs[n] = rs
	}
	svc := NewService()
	svc.LogsStorage, svc.LogStorage = s, s
	return svc, s
}

func (s *pgStore) page(svc *Service, desc bool, limit int64, names []string) {
	req := &solaris.QueryRecordsRequest{LogIDs: names, Descending: desc, Limit: limit, Condition: s.cond, LogsCondition: s.lcond}
	from := ""
	if verifsym.Choose("from", 2) == 1 {
		from = pgID("start")
		req.StartRecordID = from
	}
	want, total := 0, 0
	for _, n := range s.names {
		for _, r := range s.recs[n] {
			total++
			if from == "" || !desc && r.ID >= from || desc && r.ID <= from {
				want++
			}
		}
	}
	cnt, err := svc.CountRecords(bg, req)
	verifsym.Assert(err == nil && cnt.Total == int64(total) && cnt.Count == int64(want), "query: the records of all the logs are counted")
	seen := map[*solaris.Record]bool{}
	var last *solaris.Record
	for pages := 0; ; pages++ {
		verifsym.Assert(pages <= total+1, "query: paging comes to an end")
		res, err := svc.QueryRecords(bg, req)
		verifsym.Assert(err == nil, "query: no error")
		verifsym.Assert(int64(len(res.Records)) <= limit, "query: a page is not longer than its limit")
		for _, r := range res.Records {
			verifsym.Assert(!seen[r], "query: a record is given once")
			seen[r] = true
			ok := false
			for _, o := range s.recs[r.LogID] {
				ok = ok || o == r
			}
			verifsym.Assert(ok, "query: records are given as they are stored")
			verifsym.Assert(from == "" || !desc && r.ID >= from || desc && r.ID <= from, "query: records are given from the start on")
			verifsym.Assert(last == nil || !desc && last.ID < r.ID || desc && last.ID > r.ID, "query: records are given in the order of their ids")
			last = r
		}
		if res.NextPageID == "" {
			break
		}
		verifsym.Assert(len(res.Records) > 0, "query: a page before the last one is not empty")
		verifsym.Reach("pages")
		req.StartRecordID = res.NextPageID
	}
	verifsym.Assert(len(seen) == want, "query: every record is given")
	verifsym.Reach("end")
}

// 3 logs with up to 2 records each whose ids are in any order; pages of 1 to 3 records, in either direction, from the start or any id on
//
//sym:harness prop=C13 budget=90s reach=end,pages
func HPaging() { paging(3, 2, 3) }

// as HPaging with up to 3 records each and pages up to 4 records
//
//sym:harness prop=C13 tier=thorough budget=900s reach=end,pages
func HPagingDeep() { paging(3, 3, 4) }

// 1 to 4 logs with up to 1 record each, asked for by their names or by a condition
//
//sym:harness prop=C13 budget=90s reach=end,pages
func HLogs() { paging(verifsym.Int("logs", 1, 4), 1, 2) }

func paging(logs, recs, max int) {
	named := recs > 1
	svc, s := pgWorld(verifsym.Concretize(logs), recs)
	s.cond = "the condition"
	names := s.names
	if !named && verifsym.Choose("named", 2) == 0 {
		names, s.lcond = nil, "logs"
	}
	s.page(svc, verifsym.Choose("desc", 2) == 1, int64(1+verifsym.Choose("limit", max)), names)
}

// one log with up to 4 records, pages of 1 to 4 records, the storage gives at most 1 to 4 of them at once
//
//sym:harness prop=C13 budget=60s reach=end,pages
func HOneLog() {
	svc, s := pgWorld(1, 4)
	s.bunch = 1 + verifsym.Choose("bunch", 4)
	s.page(svc, verifsym.Choose("desc", 2) == 1, int64(1+verifsym.Choose("limit", 4)), s.names)
}

// two logs with up to 3 records, the storage gives at most 1 or 2 of them at once
//
//sym:harness prop=C13 budget=60s reach=end,pages
func HBunches() {
	svc, s := pgWorld(2, 3)
	s.bunch = 1 + verifsym.Choose("bunch", 2)
	s.page(svc, verifsym.Choose("desc", 2) == 1, int64(2+verifsym.Choose("limit", 2)), s.names)
}

// any call of the storage fails while records of 0 to 3 logs are queried, counted or appended; limits from -2 to 2 or the greatest one, an unknown log; more logs than can be merged: the answer is an error with the status of the failure, or that of the request without failure
//
//sym:harness prop=C13 budget=60s reach=failed,fine,none,many
func HFailures() {
	svc, s := pgWorld(verifsym.Choose("logs", 4), 1)
	s.failAt = verifsym.Choose("fail", 8)
	req := &solaris.QueryRecordsRequest{LogIDs: s.names, Descending: verifsym.Choose("desc", 2) == 1, Limit: int64(verifsym.Choose("limit", 6) - 2)}
	if req.Limit == 3 {
		req.Limit = math.MaxInt64
	}
	unknown := false
	switch verifsym.Choose("which", 4) {
	case 1:
		req.LogIDs = nil
	case 2:
		req.LogIDs = append(append([]string{}, s.names...), "unknown")
		unknown = true
	case 3:
		req.LogIDs = nil
		s.many = true
	}
	var err error
	tot := 0
	for _, rs := range s.recs {
		tot += len(rs)
	}
	switch verifsym.Choose("op", 3) {
	case 0:
		var res *solaris.QueryRecordsResult
		res, err = svc.QueryRecords(bg, req)
		if err == nil {
			verifsym.Assert(int64(len(res.Records)) == max(0, min(int64(tot), req.Limit)), "query: the page is as long as possible")
		}
		if req.Limit <= 0 && err == nil {
			verifsym.Reach("none")
		}
	case 1:
		var res *solaris.CountResult
		res, err = svc.CountRecords(bg, req)
		verifsym.Assert(err != nil || res.Total == int64(tot) && res.Count == int64(tot), "query: the records of all the logs are counted")
	case 2:
		id := "unknown"
		if !unknown && len(s.names) > 0 {
			id = s.names[0]
		} else {
			unknown = true
		}
		s.many = false
		var res *solaris.AppendRecordsResult
		res, err = svc.AppendRecords(bg, &solaris.AppendRecordsRequest{LogID: id, Records: []*solaris.Record{{}, {}}})
		verifsym.Assert(err != nil || res.Added == 2, "append: the records are added")
		verifsym.Assert(s.added == "" || s.added == id && !unknown, "append: records are added to the log given, if it exists")
		verifsym.Assert(err != nil || s.added == id, "append: records are added to the log given, if it exists")
	}
	if s.failAt > 0 && s.calls >= s.failAt {
		verifsym.Assert(err != nil && (errors.Is(err, errBad) || unknown && errors.Is(err, errors.ErrNotExist)) && errors.GRPCWrap(err) == err, "query: a failure of the storage is an error with its status")
		verifsym.Reach("failed")
		return
	}
	switch {
	case s.many:
		verifsym.Assert(errors.Is(err, errors.ErrExhausted) && errors.GRPCWrap(err) == err, "query: too many logs are an error")
		verifsym.Reach("many")
	case unknown && (err != nil || req.Limit > 0):
		verifsym.Assert(errors.Is(err, errors.ErrNotExist) && errors.GRPCWrap(err) == err, "query: a log which does not exist is an error")
	case !unknown:
		verifsym.Assert(err == nil, "query: no error")
		verifsym.Reach("fine")
	}
}
