package logfs

import (
	"fmt"
	"context"
	"io"
	"strconv"
	"time"

	"github.com/alecthomas/participle/v2"
	"github.com/alecthomas/participle/v2/lexer"
	"github.com/oklog/ulid/v2"
	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/golibs/datetime"
	"github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/files"
	"github.com/solarisdb/solaris/golibs/sss"
	"github.com/solarisdb/solaris/golibs/verifsym"
	"github.com/solarisdb/solaris/pkg/ql"
	"github.com/solarisdb/solaris/pkg/storage"
	"github.com/solarisdb/solaris/pkg/storage/chunkfs"
)

// ---- the condition parser is not executed: the condition texts are a rendering of the conditions made here ----

var curCond *ql.Expression

//sym:replace github.com/solarisdb/solaris/pkg/ql.Parse
func symParse(s string) (*ql.Expression, error) { return curCond, nil }

//sym:replace github.com/alecthomas/participle/v2.MustBuild
func symMustBuild(o ...participle.Option) *participle.Parser[ql.Expression] { return nil }

//sym:replace github.com/alecthomas/participle/v2/lexer.MustSimple
func symMustSimple(r []lexer.SimpleRule) *lexer.StatefulDefinition { return nil }

//sym:replace github.com/alecthomas/participle/v2.Lexer
func symLexer(d lexer.Definition) participle.Option { return nil }

//sym:replace github.com/alecthomas/participle/v2.Unquote
func symUnquote(s ...string) participle.Option { return nil }

//sym:replace github.com/alecthomas/participle/v2.CaseInsensitive
func symCaseI(s ...string) participle.Option { return nil }

// no date format matches the constants used here, they are numbers of nanoseconds
//
//sym:replace github.com/solarisdb/solaris/golibs/datetime.NewParser
func symNewParser(f ...string) any { return datetime.NewParser() }

var tconsts []int64

// wholeMs: the constants are whole milliseconds
var wholeMs bool

// the constants are written "t0", "t1"... in place of their decimal text
//
//sym:replace strconv.ParseInt
func symParseInt(s string, base, bits int) (int64, error) {
	if len(s) == 2 && s[0] == 't' {
		return tconsts[int(s[1]-'0')], nil
	}
	return strconv.ParseInt(s, base, bits)
}

// ---- ids of chunks ----

var nids int

//sym:replace github.com/solarisdb/solaris/golibs/ulidutils.NewID
func symNewID() string {
	nids++
	return "01HQ0000000000000000000A" + string(rune('A'+nids/10)) + string(rune('0'+nids%10))
}

// ---- the meta storage: what the interface promises, nothing more ----

type fakeMeta struct {
	cis  map[string][]ChunkInfo
	bad  string
	fail bool
}

var errMeta = fmt.Errorf("the meta storage fails: %w", errors.ErrCommunication)

func (f *fakeMeta) GetLastChunk(_ context.Context, logID string) (ChunkInfo, error) {
	if f.fail {
		return ChunkInfo{}, errMeta
	}
	c := f.cis[logID]
	if len(c) == 0 {
		return ChunkInfo{}, errors.ErrNotExist
	}
	return c[len(c)-1], nil
}

func (f *fakeMeta) GetChunks(_ context.Context, logID string) ([]ChunkInfo, error) {
	return append([]ChunkInfo(nil), f.cis[logID]...), nil
}

func (f *fakeMeta) UpsertChunkInfos(_ context.Context, logID string, cis []ChunkInfo) error {
	l := append([]ChunkInfo(nil), f.cis[logID]...)
	for _, ci := range cis {
		found := false
		for i := range l {
			if l[i].ID == ci.ID {
				l[i] = ci
				found = true
			}
		}
		if !found {
			if len(l) > 0 && l[len(l)-1].ID >= ci.ID {
				f.bad = "a new chunk has an id less than the last one"
			}
			l = append(l, ci)
		}
	}
	f.cis[logID] = l
	return nil
}

// noStorage is an object storage with nothing in it
type noStorage struct{ sss.Storage }

func (noStorage) Get(context.Context, string) (io.ReadCloser, error) { return nil, errors.ErrNotExist }

// ---- the log under test ----

type lworld struct {
	ll   *localLog
	ms   *fakeMeta
	prov *chunkfs.Provider
	ctx  context.Context
	all  []lrec
}

type lrec struct {
	id  ulid.ULID
	txt string
	pl  []byte
}

func newWorld(cfg Config, maxOpened int) *lworld {
	verifsym.RealNewIDs()
	w := &lworld{ctx: context.Background(), ms: &fakeMeta{cis: map[string][]ChunkInfo{}}}
	w.prov = chunkfs.NewProvider(verifsym.TempDir(), maxOpened, chunkfs.Config{NewSize: files.BlockSize, MaxChunkSize: files.BlockSize, MaxGrowIncreaseSize: files.BlockSize})
	w.prov.CA = chunkfs.NewChunkAccessor()
	w.prov.Replicator = chunkfs.NewReplicator(w.prov.GetFileNameByID)
	w.prov.Replicator.CA = w.prov.CA
	w.prov.Replicator.Storage = noStorage{}
	w.ll = NewLocalLog(cfg)
	w.ll.LMStorage = w.ms
	w.ll.ChnkProvider = w.prov
	return w
}

func (w *lworld) close() {
	w.ll.Shutdown()
	w.prov.Close()
}

// maxRec is the biggest payload which fits into a chunk of one block (C02 checks it)
const maxRec = files.BlockSize - 40 - 16

// append appends records with the payloads to the log and checks what the call says and what the meta storage got
func (w *lworld) append(pls ...[]byte) {
	var recs []*solaris.Record
	for _, p := range pls {
		recs = append(recs, &solaris.Record{Payload: p})
	}
	res, err := w.ll.AppendRecords(w.ctx, &solaris.AppendRecordsRequest{LogID: "log", Records: recs, ExpandIDs: true})
	verifsym.Assert(err == nil, "append: no error while every record fits into a chunk")
	verifsym.Assert(int(res.Added) == len(recs), "append: all the records which fit into a chunk are added")
	w.took(recs, res)
}

func (w *lworld) took(recs []*solaris.Record, res *solaris.AppendRecordsResult) {
	verifsym.Assert(len(res.RecordIDs) == int(res.Added), "append: there is an id for every record added")
	for i := 0; i < int(res.Added); i++ {
		id, err := ulid.Parse(res.RecordIDs[i])
		verifsym.Assert(err == nil, "append: the ids returned are record ids")
		if len(w.all) > 0 {
			verifsym.Assert(w.all[len(w.all)-1].id.Compare(id) < 0, "append: the ids of a log grow")
		}
		w.all = append(w.all, lrec{id, res.RecordIDs[i], recs[i].Payload})
	}
	w.checkMeta()
}

// checkMeta: the chunks known to the meta storage cover exactly the records of the log, in order
func (w *lworld) checkMeta() {
	verifsym.Assert(w.ms.bad == "", "append: the ids of the chunks of a log grow")
	n := 0
	for _, ci := range w.ms.cis["log"] {
		verifsym.Assert(ci.RecordsCount > 0, "append: every known chunk has records")
		verifsym.Assert(n+ci.RecordsCount <= len(w.all), "append: the chunks have no more records than were added")
		verifsym.Assert(ci.Min == w.all[n].id, "append: Min of a chunk is its first record")
		n += ci.RecordsCount
		verifsym.Assert(ci.Max == w.all[n-1].id, "append: Max of a chunk is its last record")
	}
	verifsym.Assert(n == len(w.all), "append: the chunks have all the records added")
}

// query compares the result of a query with the records which are expected
func (w *lworld) query(rq storage.QueryRecordsRequest, in func(r lrec) bool, maxLimit, maxSize int, msg string) {
	rq.LogID = "log"
	res, more, err := w.ll.QueryRecords(w.ctx, rq)
	verifsym.Assert(err == nil, msg+": no error")
	limit := int(rq.Limit)
	if limit > maxLimit {
		limit = maxLimit
	}
	n, size := 0, 0
	for i := range w.all {
		r := w.all[i]
		if rq.Descending {
			r = w.all[len(w.all)-1-i]
		}
		if !verifsym.Branch(in(r)) {
			continue
		}
		if n >= limit || size >= maxSize {
			verifsym.Assert(len(res) == n, msg+": no more records than the limits allow")
			verifsym.Assert(more, msg+": the result says there may be more records when it was cut")
			verifsym.Reach("cut")
			return
		}
		verifsym.Assert(n < len(res), msg+": no record which matches is left out")
		verifsym.Assert(res[n].ID == r.txt, msg+": the records which match come in order, no other ones do")
		verifsym.Assert(res[n].LogID == "log", msg+": a record knows its log")
		verifsym.CheckSame(res[n].Payload, r.pl, msg+": the payload is the one appended")
		verifsym.Assert(res[n].CreatedAt.AsTime().Equal(ulid.Time(r.id.Time())), msg+": the creation time is the one of the id")
		n++
		size += len(r.pl)
	}
	verifsym.Assert(len(res) == n, msg+": only the records which match are returned")
	verifsym.Reach("all")
}

// ---- conditions ----

type lcond struct {
	text string
	hold func(ms int64) bool
}

func tconst(k int) (*ql.Param, string, int64) {
	// any time from 1970 up to 2100 with nanoseconds
	ms := verifsym.Int64("tms"+strconv.Itoa(k), 0, 4102444800000)
	ns := ms * 1000000
	if !wholeMs {
		ns += verifsym.Int64("tns"+strconv.Itoa(k), 0, 999999)
	}
	for len(tconsts) <= k {
		tconsts = append(tconsts, 0)
	}
	tconsts[k] = ns
	s := "t" + strconv.Itoa(k)
	if verifsym.Symbolic() {
		return &ql.Param{Const: &ql.Const{String: &s}}, s, ns
	}
	return nil, strconv.FormatInt(ns, 10), ns
}

type lleaf struct {
	c    *ql.Condition
	text string
	hold func(ns int64) bool
}

func leaf(k int, op string) lleaf {
	p, txt, v := tconst(k)
	return lleaf{&ql.Condition{FirstParam: ql.Param{Identifier: "ctime"}, Op: op, SecondParam: p}, "ctime " + op + " '" + txt + "'", func(ns int64) bool {
		switch op {
		case "<":
			return ns < v
		case ">":
			return ns > v
		case "<=":
			return ns <= v
		case ">=":
			return ns >= v
		case "=":
			return ns == v
		}
		return ns != v
	}}
}

func condAnd(a, b lleaf) (string, func(r lrec) bool) {
	curCond = &ql.Expression{Or: []*ql.OrCondition{{And: []*ql.XCondition{{Cond: a.c}, {Cond: b.c}}}}}
	return a.text + " AND " + b.text, func(r lrec) bool { return verifsym.And(a.hold(nanos(r)), b.hold(nanos(r))) }
}

func condOr(a, b lleaf) (string, func(r lrec) bool) {
	curCond = &ql.Expression{Or: []*ql.OrCondition{{And: []*ql.XCondition{{Cond: a.c}}}, {And: []*ql.XCondition{{Cond: b.c}}}}}
	return a.text + " OR " + b.text, func(r lrec) bool { return verifsym.Or(a.hold(nanos(r)), b.hold(nanos(r))) }
}

func condOne(a lleaf) (string, func(r lrec) bool) {
	curCond = &ql.Expression{Or: []*ql.OrCondition{{And: []*ql.XCondition{{Cond: a.c}}}}}
	return a.text, func(r lrec) bool { return a.hold(nanos(r)) }
}

// nanos is the creation time of a record, its id has it in milliseconds
func nanos(r lrec) int64 { return int64(r.id.Time()) * 1000000 }

// recent: the records are made between 1970 and 2070
func (w *lworld) recent() {
	for _, r := range w.all {
		verifsym.Assume(int64(r.id.Time()) < time.Date(2070, 1, 1, 0, 0, 0, 0, time.UTC).UnixMilli())
	}
}

var lops = []string{"<", ">", "<=", ">=", "=", "!="}

func ulidOf(name string) ulid.ULID { return ulid.ULID(verifsym.ULID(name)) }

var bigCfg = Config{MaxRecordsLimit: 100, MaxBunchSize: 1000000, MaxLocks: 3}

// fill appends n records of the size: 3 of 1300 bytes or 2 of 1900 bytes fit into a chunk
func (w *lworld) fill(n, size int) {
	var pls [][]byte
	for i := 0; i < n; i++ {
		pls = append(pls, verifsym.Bytes("pl"+string(rune('0'+i)), size))
	}
	w.append(pls...)
	w.recent()
}

func start(rq *storage.QueryRecordsRequest, in func(lrec) bool) func(lrec) bool {
	if verifsym.Choose("start", 2) == 0 {
		return in
	}
	s := ulidOf("sid")
	rq.StartID = s.String()
	desc := rq.Descending
	return func(r lrec) bool {
		c := r.id.Compare(s)
		if desc {
			return verifsym.And(c <= 0, in(r))
		}
		return verifsym.And(c >= 0, in(r))
	}
}

// from is start with a start id which is always there
func from(rq *storage.QueryRecordsRequest, in func(lrec) bool) func(lrec) bool {
	s := ulidOf("sid")
	rq.StartID = s.String()
	desc := rq.Descending
	return func(r lrec) bool {
		c := r.id.Compare(s)
		if desc {
			return verifsym.And(c <= 0, in(r))
		}
		return verifsym.And(c >= 0, in(r))
	}
}
