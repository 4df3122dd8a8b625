package buntdb

import (
	"context"

	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/verifsym"
	"github.com/solarisdb/solaris/pkg/storage"
	"github.com/solarisdb/solaris/pkg/storage/logfs"
)

//sym:models common_bunt.go

// Up to 3 logs with any tag, each of them left, marked for deletion or deleted; a query with any condition over the tag
// (none, =, !=, < with any letter), of deleted ones too or not, with any limit (64 bits), all pages of it.
//
//sym:harness prop=C20 reach=paged,none budget=60s
func HByCondition() {
	w := newBunt(verifsym.Choose("logs", 4))
	for _, l := range w.logs {
		w.dispose(l, verifsym.Choose("state", 3))
	}
	text, holds := condition()
	del := verifsym.Choose("deleted too", 2) == 1
	var exp []*blog
	for _, l := range w.logs {
		if !l.gone && (!l.marked || del) && holds(l.tag) {
			exp = append(exp, l)
		}
	}
	w.pages(storage.QueryLogsRequest{Condition: text, Deleted: del, Limit: int64(verifsym.AnyInt("limit"))}, exp)
	w.isAll()
}

// pages reads all pages of the query and compares them with what is expected
func (w *bworld) pages(qr storage.QueryLogsRequest, exp []*blog) {
	limit := verifsym.IteInt(qr.Limit <= 0, 50, int(qr.Limit))
	total := len(exp)
	for n := 0; ; n++ {
		verifsym.Assert(n < 5, "the pages do not end")
		r, err := w.s.QueryLogs(w.ctx, qr)
		verifsym.Assert(err == nil && r != nil, "QueryLogs failed")
		if n == 0 {
			verifsym.Assert(r.Total == int64(total), "the total is not the number of logs which match")
		}
		verifsym.Assert(len(r.Logs) <= limit, "a page has more logs than its limit")
		verifsym.Assert(len(r.Logs) <= len(exp), "a log too many is returned")
		for i, l := range r.Logs {
			w.same(l, exp[i], "QueryLogs")
		}
		exp = exp[len(r.Logs):]
		if r.NextPageID == "" {
			break
		}
		verifsym.Assert(len(r.Logs) > 0, "an empty page is not the last one")
		verifsym.Reach("paged")
		qr.Page = r.NextPageID
	}
	verifsym.Assert(len(exp) == 0, "a log is not returned")
	if total == 0 {
		verifsym.Reach("none")
	}
}

// 3 logs as above; a query of any of the ids of them and an unknown one, in either order, with any limit, all pages.
//
//sym:harness prop=C20 reach=paged,none budget=60s
func HByIDs() {
	w := newBunt(3)
	for _, l := range w.logs {
		w.dispose(l, verifsym.Choose("state", 3))
	}
	del := verifsym.Choose("deleted too", 2) == 1
	var ids []string
	var exp []*blog
	for _, l := range w.logs {
		if verifsym.Choose("asked", 2) == 1 {
			ids = append(ids, l.id)
			if !l.gone && (!l.marked || del) {
				exp = append(exp, l)
			}
		}
	}
	if len(ids) == 0 || verifsym.Choose("unknown", 2) == 1 {
		ids = append(ids, noID)
	}
	if verifsym.Choose("reverse", 2) == 1 {
		for i, j := 0, len(ids)-1; i < j; i, j = i+1, j-1 {
			ids[i], ids[j] = ids[j], ids[i]
		}
	}
	w.pages(storage.QueryLogsRequest{IDs: ids, Deleted: del, Limit: int64(verifsym.AnyInt("limit"))}, exp)
}

// 2 logs with up to 2 chunks each, left or marked; a deletion of any of their ids and an unknown one, or of what a
// condition matches, physically or not; then everything is read.
//
//sym:harness prop=C20 reach=all,failed budget=60s
func HDelete() {
	w := newBunt(2)
	for _, l := range w.logs {
		for i := verifsym.Choose("chunks", 2) * 2; i > 0; i-- {
			w.put(l, aChunk("c"+string(rune('0'+i))))
		}
		w.dispose(l, verifsym.Choose("state", 2))
	}
	req := storage.DeleteLogsRequest{MarkOnly: verifsym.Choose("mark", 2) == 1}
	var exp []*blog
	unknown := false
	if verifsym.Choose("by condition", 2) == 1 {
		text, holds := condition()
		req.Condition = text
		for _, l := range w.logs {
			if text != "" && !(l.marked && req.MarkOnly) && holds(l.tag) {
				exp = append(exp, l)
			}
		}
	} else {
		for _, l := range w.logs {
			if verifsym.Choose("asked", 2) == 1 {
				req.IDs = append(req.IDs, l.id)
				exp = append(exp, l)
				unknown = unknown || l.marked && req.MarkOnly
			}
		}
		if verifsym.Choose("unknown", 2) == 1 {
			req.IDs = append(req.IDs, noID)
			unknown = unknown || req.MarkOnly
		}
	}
	r, err := w.s.DeleteLogs(w.ctx, req)
	if err != nil {
		verifsym.Assert(unknown && errors.Is(err, errors.ErrNotExist), "DeleteLogs failed")
		verifsym.Reach("failed")
		w.isAll() // nothing has been deleted
		return
	}
	verifsym.Assert(!unknown, "a log which does not exist is marked for deletion")
	k := 0
	for _, id := range r.DeletedIDs {
		if id == noID {
			continue
		}
		verifsym.Assert(k < len(exp) && exp[k].id == id, "DeleteLogs reports other logs than it should delete")
		k++
	}
	verifsym.Assert(k == len(exp), "DeleteLogs does not report all it should delete")
	for _, l := range exp {
		l.marked, l.gone = req.MarkOnly, !req.MarkOnly
		if l.gone {
			l.chunks = nil
		}
	}
	if len(exp) == 2 {
		verifsym.Reach("all")
	}
	w.isAll()
}

// 2 logs, each left, marked or deleted; an update of one of them or of an unknown one with any tag: it is the old one with a new value, another one, both or none.
//
//sym:harness prop=C20 reach=updated,failed budget=60s
func HUpdate() {
	w := newBunt(2)
	for _, l := range w.logs {
		w.put(l, aChunk("c1"))
		w.dispose(l, verifsym.Choose("state", 3))
	}
	tag := letter("new tag")
	k := verifsym.Choose("which", 4)
	tags := map[string]string{}
	if n := verifsym.Choose("tags", 4); n > 0 {
		if n != 2 {
			tags["t"] = string([]byte{tag})
		}
		if n != 1 {
			tags["u"] = string([]byte{letter("other tag")})
		}
	}
	lg := &solaris.Log{ID: []string{"", noID, w.logs[0].id, w.logs[1].id}[k], Tags: tags}
	r, err := w.s.UpdateLog(w.ctx, lg)
	if k < 2 || w.logs[k-2].marked || w.logs[k-2].gone {
		verifsym.Assert(err != nil && r == nil, "a log which does not exist is updated")
		verifsym.Assert(errors.Is(err, errors.ErrNotExist) || k == 0, "UpdateLog of a log which does not exist gives another error")
		verifsym.Reach("failed")
	} else {
		verifsym.Assert(err == nil && r != nil && r.UpdatedAt != nil, "UpdateLog failed")
		l := w.logs[k-2]
		l.tags = tags
		verifsym.Assert(r.UpdatedAt.AsTime().After(l.was.UpdatedAt.AsTime()), "the time of the update is not later")
		l.was.UpdatedAt = r.UpdatedAt
		w.same(r, l, "UpdateLog")
		verifsym.Reach("updated")
	}
	_, err = w.s.GetLogByID(w.ctx, noID)
	verifsym.Assert(errors.Is(err, errors.ErrNotExist), "an unknown log exists")
	w.isAll()
}

// 2 logs, one of them may be marked or deleted; two calls which store up to 2 descriptors of any of 3 chunks each, in any
// order, with any contents, for either log; the id of a chunk may be blank.
//
//sym:harness prop=C20 reach=stored,failed budget=60s
func HChunks() {
	w := newBunt(2)
	w.put(w.logs[0], aChunk("c2"))
	w.put(w.logs[1], aChunk("c2"))
	w.dispose(w.logs[1], verifsym.Choose("state", 3))
	ids := []string{"c1", "c2", "c3", " "}
	for n := 0; n < 2; n++ {
		l := w.logs[verifsym.Choose("log", 2)]
		cis := append(w.logs[0].chunks[:0:0], aChunk(ids[verifsym.Choose("id", 4)]))
		if verifsym.Choose("two", 2) == 1 {
			cis = append(cis, aChunk(ids[verifsym.Choose("id", 4)]))
		}
		bad := l.marked || l.gone
		for _, c := range cis {
			bad = bad || c.ID == " "
		}
		err := w.s.UpsertChunkInfos(w.ctx, l.id, cis)
		if bad {
			verifsym.Assert(err != nil, "descriptors which are not acceptable are stored")
			verifsym.Reach("failed")
		} else {
			verifsym.Assert(err == nil, "UpsertChunkInfos failed")
			l.keep(cis)
			verifsym.Reach("stored")
		}
		w.isAll()
	}
}

// lateCtx is cancelled when it is looked at for the n-th time
type lateCtx struct {
	context.Context
	n int
}

func (c *lateCtx) Err() error {
	c.n--
	if c.n < 0 {
		return context.Canceled
	}
	return nil
}

// 2 logs with 2 chunks; a call (store 2 descriptors, delete or mark both logs, query, read the chunks) with a context which
// is cancelled when it is looked at for the 1st to 4th time: the call fails and changes nothing, or it is complete.
//
//sym:harness prop=C20 reach=failed,done budget=60s
func HCancel() {
	w := newBunt(2)
	for _, l := range w.logs {
		w.put(l, aChunk("c1"), aChunk("c3"))
	}
	ctx := &lateCtx{w.ctx, verifsym.Choose("looks", 4)}
	a := w.logs[0]
	var err error
	switch op := verifsym.Choose("call", 5); op {
	case 0:
		cis := append(a.chunks[:0:0], aChunk("c2"), aChunk("c3"))
		if err = w.s.UpsertChunkInfos(ctx, a.id, cis); err == nil {
			a.keep(cis)
		}
	case 1, 2:
		_, err = w.s.DeleteLogs(ctx, storage.DeleteLogsRequest{IDs: []string{a.id, w.logs[1].id}, MarkOnly: op == 1})
		if err == nil {
			for _, l := range w.logs {
				l.marked, l.gone = op == 1, op == 2
				if l.gone {
					l.chunks = nil
				}
			}
		}
	case 3:
		var r *solaris.QueryLogsResult
		if r, err = w.s.QueryLogs(ctx, storage.QueryLogsRequest{}); err == nil {
			verifsym.Assert(len(r.Logs) == 2, "a cancelled query is not complete")
		}
	case 4:
		var cis []logfs.ChunkInfo
		if cis, err = w.s.GetChunks(ctx, a.id); err == nil {
			verifsym.Assert(len(cis) == 2, "the chunks of a cancelled call are not complete")
		}
	}
	if err == nil {
		verifsym.Reach("done")
	} else {
		verifsym.Assert(errors.Is(err, context.Canceled), "a cancelled call fails with another error")
		verifsym.Reach("failed")
	}
	w.isAll()
}

// A log with a chunk: an update of it (at most 2 preemptions) at the same time as another update, a deletion or marking, a stored chunk, or a
// query: what is found after that, and what the query gives, is what one order of the two leaves.
//
//sym:harness prop=C20 reach=done budget=60s
func HParallel() {
	w := newBunt(1)
	l := w.logs[0]
	w.put(l, aChunk("c1"))
	t1, t2 := letter("tag1"), letter("tag2")
	op := verifsym.Choose("other", 5)
	var e1, e2 error
	var r1, r2 *solaris.Log
	var q *solaris.QueryLogsResult
	ci := aChunk("c0")
	upd := func(t byte) (*solaris.Log, error) {
		return w.s.UpdateLog(w.ctx, &solaris.Log{ID: l.id, Tags: map[string]string{"t": string([]byte{t})}})
	}
	verifsym.Schedule(2)
	verifsym.Parallel(func() { r1, e1 = upd(t1) }, func() {
		switch op {
		case 0:
			r2, e2 = upd(t2)
		case 1, 2:
			_, e2 = w.s.DeleteLogs(w.ctx, storage.DeleteLogsRequest{IDs: []string{l.id}, MarkOnly: op == 1})
		case 3:
			e2 = w.s.UpsertChunkInfos(w.ctx, l.id, []logfs.ChunkInfo{ci})
		case 4:
			q, e2 = w.s.QueryLogs(w.ctx, storage.QueryLogsRequest{})
		}
	})
	verifsym.Schedule(0)
	verifsym.Reach("done")
	verifsym.Assert(e2 == nil, "the second call failed")
	verifsym.Assert(e1 == nil || (op == 1 || op == 2) && errors.Is(e1, errors.ErrNotExist), "the update failed")
	was := l.tag
	l.tag = t1
	l.was.UpdatedAt = nil
	switch op {
	case 0:
		g, err := w.s.GetLogByID(w.ctx, l.id)
		verifsym.Assert(err == nil, "a log is lost")
		verifsym.Assert(r1.Tags["t"] == string([]byte{t1}) && r2.Tags["t"] == string([]byte{t2}), "an update gives what another one has stored")
		if verifsym.Branch(g.Tags["t"] != string([]byte{t1})) {
			l.tag = t2
		}
	case 1, 2:
		l.marked, l.gone = op == 1, op == 2
		if l.gone {
			l.chunks = nil
		}
	case 3:
		l.keep([]logfs.ChunkInfo{ci})
	case 4:
		verifsym.Assert(len(q.Logs) == 1, "a log is missing in a query")
		t := q.Logs[0].Tags["t"]
		verifsym.Assert(verifsym.Or(t == string([]byte{t1}), t == string([]byte{was})), "a query gives a log as it never was")
	}
	w.isAll()
}
