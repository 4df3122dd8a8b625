package buntdb

import (
	"context"
	"strings"

	"github.com/alecthomas/participle/v2"
	"github.com/alecthomas/participle/v2/lexer"
	"github.com/oklog/ulid/v2"
	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/logging"
	"github.com/solarisdb/solaris/golibs/verifsym"
	"github.com/solarisdb/solaris/pkg/ql"
	"github.com/solarisdb/solaris/pkg/storage"
	"github.com/solarisdb/solaris/pkg/storage/logfs"
	"github.com/tidwall/buntdb"
)

// ---- the condition parser is not executed: the condition texts are a rendering of the conditions made here ----

var curCond = &ql.Expression{}

//sym:replace github.com/solarisdb/solaris/pkg/ql.Parse
func symParse(s string) (*ql.Expression, error) {
	if strings.TrimSpace(s) == "" {
		return &ql.Expression{}, nil
	}
	return curCond, nil
}

//sym:replace github.com/alecthomas/participle/v2.MustBuild
func symMustBuild(o ...participle.Option) *participle.Parser[ql.Expression] { return nil }

//sym:replace github.com/alecthomas/participle/v2/lexer.MustSimple
func symMustSimple(r []lexer.SimpleRule) *lexer.StatefulDefinition { return nil }

//sym:replace github.com/alecthomas/participle/v2.Lexer
func symLexer(d lexer.Definition) participle.Option { return nil }

//sym:replace github.com/alecthomas/participle/v2.Unquote
func symUnquote(s ...string) participle.Option { return nil }

//sym:replace github.com/alecthomas/participle/v2.CaseInsensitive
func symCaseI(s ...string) participle.Option { return nil }

//sym:replace github.com/solarisdb/solaris/golibs/datetime.NewParser
func symNewParser(f ...string) any { return nil }

// the logger is not under test
//
//sym:replace github.com/solarisdb/solaris/golibs/logging.NewLogger
func symNewLogger(n string) logging.Logger { return noLog{} }

type noLog struct{ logging.Logger }

func (noLog) Infof(string, ...any) {}

// the ids given are ascending
var nextID int

//sym:replace github.com/solarisdb/solaris/golibs/ulidutils.NewID
func symNewID() string {
	nextID++
	return "01H000000000000000000000L" + string(rune('0'+nextID))
}

// nothing expires and nothing is written to a file: the housekeeping of the database has nothing to do
//
//sym:replace (*github.com/tidwall/buntdb.DB).backgroundManager
func symManager(db *buntdb.DB) {}

const noID = "01H000000000000000000000ZZ"

type bworld struct {
	s    *Storage
	ctx  context.Context
	logs []*blog // in the order of their ids
}

// blog is what the storage should know of a log
type blog struct {
	id     string
	tag    byte
	tags   map[string]string // instead of tag, if not nil
	marked bool // marked for deletion
	gone   bool // deleted
	was    *solaris.Log
	chunks []logfs.ChunkInfo // by id
}

func newBunt(n int) *bworld {
	w := &bworld{ctx: context.Background()}
	w.s = NewStorage(Config{})
	verifsym.Assert(w.s.Init(w.ctx) == nil, "Init failed")
	for i := 0; i < n; i++ {
		w.create()
	}
	return w
}

func letter(n string) byte {
	b := verifsym.Byte(n)
	verifsym.Assume(b >= 'a' && b <= 'z')
	return b
}

func (w *bworld) create() *blog {
	l := &blog{tag: letter("tag")}
	given := &solaris.Log{Tags: map[string]string{"t": string([]byte{l.tag})}}
	r, err := w.s.CreateLog(w.ctx, given)
	verifsym.Assert(err == nil && r != nil, "CreateLog failed")
	l.id, l.was = r.ID, r
	if n := len(w.logs); n > 0 {
		verifsym.Assert(w.logs[n-1].id < l.id, "a new log has no new id")
	}
	w.logs = append(w.logs, l)
	w.same(r, l, "CreateLog")
	return l
}

// same asserts that r is the log l
func (w *bworld) same(r *solaris.Log, l *blog, m string) {
	verifsym.Assert(r != nil && r.ID == l.id, m+" gives another log")
	tags := l.tags
	if tags == nil {
		tags = map[string]string{"t": string([]byte{l.tag})}
	}
	verifsym.Assert(len(r.Tags) == len(tags), m+" gives a log with other tags")
	for _, k := range []string{"t", "u"} {
		v, ok := r.Tags[k]
		w, has := tags[k]
		verifsym.Assert(ok == has && v == w, m+" gives a log with other tags")
	}
	verifsym.Assert(r.CreatedAt != nil && r.UpdatedAt != nil, m+" gives a log without its times")
	verifsym.Assert(r.CreatedAt.Seconds == l.was.CreatedAt.Seconds && r.CreatedAt.Nanos == l.was.CreatedAt.Nanos, m+" gives another time of creation")
	verifsym.Assert(l.marked || r.UpdatedAt.Seconds == l.was.UpdatedAt.Seconds && r.UpdatedAt.Nanos == l.was.UpdatedAt.Nanos, m+" gives another time of update")
}

// dispose leaves the log, marks it for deletion or deletes it
func (w *bworld) dispose(l *blog, k int) {
	if k == 0 {
		return
	}
	r, err := w.s.DeleteLogs(w.ctx, storage.DeleteLogsRequest{IDs: []string{l.id}, MarkOnly: k == 1})
	verifsym.Assert(err == nil && len(r.DeletedIDs) == 1 && r.DeletedIDs[0] == l.id, "a log cannot be deleted")
	l.marked, l.gone = k == 1, k == 2
	if l.gone {
		l.chunks = nil
	}
}

// isAll asserts that the storage has what it should have
func (w *bworld) isAll() {
	for _, l := range w.logs {
		r, err := w.s.GetLogByID(w.ctx, l.id)
		if l.marked || l.gone {
			verifsym.Assert(errors.Is(err, errors.ErrNotExist) && r == nil, "a deleted log is returned")
		} else {
			verifsym.Assert(err == nil, "a log is lost")
			if r != nil && l.was.UpdatedAt == nil { // not known which
				l.was.UpdatedAt = r.UpdatedAt
			}
			w.same(r, l, "GetLogByID")
		}
		w.isChunks(l)
	}
}

func (w *bworld) isChunks(l *blog) {
	cis, err := w.s.GetChunks(w.ctx, l.id)
	if l.marked || l.gone {
		verifsym.Assert(errors.Is(err, errors.ErrNotExist) && len(cis) == 0, "the chunks of a deleted log are returned")
	} else {
		verifsym.Assert(err == nil, "the chunks of a log cannot be read")
		verifsym.Assert(len(cis) == len(l.chunks), "a log has not the chunks which were stored")
		for i := range cis {
			verifsym.Assert(sameChunk(cis[i], l.chunks[i]), "a chunk is not as it was stored")
		}
	}
	if l.marked {
		return
	}
	c, err := w.s.GetLastChunk(w.ctx, l.id)
	if n := len(l.chunks); n > 0 {
		verifsym.Assert(err == nil && sameChunk(c, l.chunks[n-1]), "the last chunk of a log is another one")
	} else {
		verifsym.Assert(errors.Is(err, errors.ErrNotExist), "a log without chunks has a last chunk")
	}
}

func sameChunk(a, b logfs.ChunkInfo) bool {
	return a.ID == b.ID && a.Min == b.Min && a.Max == b.Max && a.RecordsCount == b.RecordsCount
}

func aChunk(id string) logfs.ChunkInfo {
	return logfs.ChunkInfo{ID: id, Min: ulid.ULID(verifsym.ULID("min")), Max: ulid.ULID(verifsym.ULID("max")), RecordsCount: verifsym.AnyInt("records")}
}

// put stores the chunk descriptors
func (w *bworld) put(l *blog, cis ...logfs.ChunkInfo) {
	verifsym.Assert(w.s.UpsertChunkInfos(w.ctx, l.id, cis) == nil, "UpsertChunkInfos failed")
	l.keep(cis)
}

func (l *blog) keep(cis []logfs.ChunkInfo) {
	for _, c := range cis {
		i := 0
		for i < len(l.chunks) && l.chunks[i].ID < c.ID {
			i++
		}
		if i < len(l.chunks) && l.chunks[i].ID == c.ID {
			l.chunks[i] = c
			continue
		}
		l.chunks = append(l.chunks[:i:i], append([]logfs.ChunkInfo{c}, l.chunks[i:]...)...)
	}
}

// condition makes a condition over the tag; holds is its meaning
func condition() (text string, holds func(b byte) bool) {
	k := verifsym.Choose("condition", 4)
	if k == 0 {
		return "", func(byte) bool { return true }
	}
	op := []string{"", "=", "!=", "<"}[k]
	v := letter("v")
	cs := string([]byte{v})
	ts := "t"
	curCond = &ql.Expression{Or: []*ql.OrCondition{{And: []*ql.XCondition{{Cond: &ql.Condition{
		FirstParam: ql.Param{Function: &ql.Function{Name: "tag", Params: []*ql.Param{{Const: &ql.Const{String: &ts}}}}},
		Op: op, SecondParam: &ql.Param{Const: &ql.Const{String: &cs}}}}}}}}
	text = "tag('t') " + op + " '" + cs + "'"
	switch op {
	case "=":
		return text, func(b byte) bool { return b == v }
	case "!=":
		return text, func(b byte) bool { return b != v }
	}
	return text, func(b byte) bool { return b < v }
}
