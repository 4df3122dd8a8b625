From 62b8701b6fd3f11195b6ed50397bfe1e0684012f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:05 +0000
Subject: [PATCH 01/39] fix: full check of a chunk walks over the records from
 the first one

---
 pkg/storage/chunkfs/chunk.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/storage/chunkfs/chunk.go b/pkg/storage/chunkfs/chunk.go
index 2780015..ad6eafe 100644
--- a/pkg/storage/chunkfs/chunk.go
+++ b/pkg/storage/chunkfs/chunk.go
@@ -190,7 +190,7 @@ func (c *Chunk) init(fullCheck bool) error {
 		binary.BigEndian.PutUint32(hdr[vLen:vLen+4], uint32(0))
 	}
 	c.total = int(binary.BigEndian.Uint32(hdr[vLen : vLen+4]))
-	if c.total < 0 {
+	if int64(cHeaderSize+c.total*cMetaRecordSize) > c.mmf.Size() {
 		return fmt.Errorf("the chunk is corrupted, wrong total=%d: %w", c.total, errCorrupted)
 	}
 	c.freeOffset = cHeaderSize
@@ -205,15 +205,15 @@ func (c *Chunk) init(fullCheck bool) error {
 	if c.freeOffset < cHeaderSize || int64(c.freeOffset) > c.mmf.Size() {
 		return fmt.Errorf("the chunk is corrupted, wrong freeOffset=%d: %w", c.freeOffset, errCorrupted)
 	}
-	if !fullCheck {
+	if !fullCheck || c.total == 0 {
 		return nil
 	}
 
-	mb, err := c.getMetaBuf(0, int(c.total))
+	mb, err := c.getMetaBuf(c.total-1, c.total)
 	if err != nil {
 		return err
 	}
-	startOffs := c.freeOffset
+	startOffs := cHeaderSize
 	var id ulid.ULID
 	pMax := int(c.mmf.Size() - int64(c.total*cMetaRecordSize))
 	for i := 0; i < c.total; i++ {
@@ -225,8 +225,8 @@ func (c *Chunk) init(fullCheck bool) error {
 			return fmt.Errorf("the record #%d offset=%d is not what expected %d: %w", i, mr.offset, startOffs, errCorrupted)
 		}
 		id = mr.ID
-		startOffs = int(mr.offset + mr.size)
-		if startOffs > pMax {
+		startOffs = int(mr.offset) + int(mr.size)
+		if mr.size < 0 || startOffs > pMax {
 			return fmt.Errorf("the record #%d size=%d exceed the maximum payload value: %w", i, mr.size, errCorrupted)
 		}
 	}
-- 
2.43.0


From 6eb9c715c6e72ce968f0e97fa40012fffd951766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:05 +0000
Subject: [PATCH 02/39] fix: a reader can be opened on a chunk without records

---
 pkg/storage/chunkfs/chunk.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pkg/storage/chunkfs/chunk.go b/pkg/storage/chunkfs/chunk.go
index ad6eafe..27a0fc4 100644
--- a/pkg/storage/chunkfs/chunk.go
+++ b/pkg/storage/chunkfs/chunk.go
@@ -394,10 +394,13 @@ func (c *Chunk) OpenChunkReader(descending bool) (*ChunkReader, error) {
 		c.lock.RUnlock()
 		return nil, fmt.Errorf("the chunk %s is closed: %w ", c.fn, errors.ErrClosed)
 	}
-	mb, err := c.getMetaBuf(c.total-1, c.total)
-	if err != nil {
-		c.lock.RUnlock()
-		return nil, err
+	var mb metaBuf
+	if c.total > 0 {
+		var err error
+		if mb, err = c.getMetaBuf(c.total-1, c.total); err != nil {
+			c.lock.RUnlock()
+			return nil, err
+		}
 	}
 
 	cr := new(ChunkReader)
-- 
2.43.0


From 28ed6e606a606e521cfadc512b61e1817ec939b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:53 +0000
Subject: [PATCH 03/39] fix: intervals of a condition with a negated or
 contradictory group

---
 pkg/ql/intervalbuilder.go | 102 ++++++++++++++++++++------------------
 1 file changed, 53 insertions(+), 49 deletions(-)

diff --git a/pkg/ql/intervalbuilder.go b/pkg/ql/intervalbuilder.go
index 92c5863..423d557 100644
--- a/pkg/ql/intervalbuilder.go
+++ b/pkg/ql/intervalbuilder.go
@@ -46,135 +46,139 @@ func NewParamIntervalBuilder[T, K any](basis intervals.Basis[T], dialect Dialect
 }
 
 // Build returns a list of intervals built from the AST expression.
-// Returned intervals are sorted by the L border.
+// Returned intervals are sorted by the L border. The result is empty if there is no value of the parameter
+// which satisfies the expression, or if the expression doesn't restrict the parameter at all.
 func (ib *ParamIntervalBuilder[T, K]) Build(expr *Expression) ([]intervals.Interval[T], error) {
+	res, _, err := ib.buildExpr(expr)
+	return res, err
+}
+
+// buildExpr returns the intervals for the expression and the flag whether the expression restricts the parameter.
+func (ib *ParamIntervalBuilder[T, K]) buildExpr(expr *Expression) ([]intervals.Interval[T], bool, error) {
 	var res []intervals.Interval[T]
+	restricts := len(expr.Or) > 0
 	for _, or := range expr.Or {
-		tt, err := ib.buildOR(or)
+		tt, ok, err := ib.buildOR(or)
 		if err != nil {
-			return nil, err
-		}
-		if len(tt) > 0 {
-			res = append(res, tt...)
+			return nil, false, err
 		}
+		// if one of the alternatives accepts any value, the whole expression does
+		restricts = restricts && ok
+		res = append(res, tt...)
 	}
-	return ib.union(res), nil
+	if !restricts {
+		return nil, false, nil
+	}
+	return ib.union(res), true, nil
 }
 
-func (ib *ParamIntervalBuilder[T, K]) buildOR(or *OrCondition) ([]intervals.Interval[T], error) {
+func (ib *ParamIntervalBuilder[T, K]) buildOR(or *OrCondition) ([]intervals.Interval[T], bool, error) {
 	var groups [][]intervals.Interval[T]
 	for _, and := range or.And {
-		group, err := ib.buildXCond(and)
+		group, ok, err := ib.buildXCond(and)
 		if err != nil {
-			return nil, err
+			return nil, false, err
 		}
-		if len(group) > 0 {
+		if ok {
 			groups = append(groups, group)
 		}
 	}
-	return ib.intersect(groups), nil
+	return ib.intersect(groups), len(groups) > 0, nil
 }
 
-func (ib *ParamIntervalBuilder[T, K]) buildXCond(and *XCondition) ([]intervals.Interval[T], error) {
+func (ib *ParamIntervalBuilder[T, K]) buildXCond(and *XCondition) ([]intervals.Interval[T], bool, error) {
 	var res []intervals.Interval[T]
+	var ok bool
+	var err error
 	if and.Expr != nil {
-		var err error
-		res, err = ib.Build(and.Expr)
-		if err != nil {
-			return nil, err
-		}
+		res, ok, err = ib.buildExpr(and.Expr)
 	} else {
-		tt, err := ib.buildCond(and.Cond)
-		if err != nil {
-			return nil, err
-		}
-		if len(tt) > 0 {
-			res = append(res, tt...)
-		}
+		res, ok, err = ib.buildCond(and.Cond)
 	}
-	if !and.Not {
-		return res, nil
+	if err != nil || !ok || !and.Not {
+		return res, ok, err
 	}
-	var negated []intervals.Interval[T]
+	// a value is out of all the intervals, if it is out of every one of them
+	negated := [][]intervals.Interval[T]{{ib.basis.Closed(ib.basis.Min, ib.basis.Max)}}
 	for _, t := range res {
-		negated = append(negated, ib.basis.Negate(t)...)
+		negated = append(negated, ib.basis.Negate(t))
 	}
-	return negated, nil
+	return ib.intersect(negated), true, nil
 }
 
-func (ib *ParamIntervalBuilder[T, K]) buildCond(cond *Condition) ([]intervals.Interval[T], error) {
+func (ib *ParamIntervalBuilder[T, K]) buildCond(cond *Condition) ([]intervals.Interval[T], bool, error) {
 	// param1
 	p1 := cond.FirstParam
 	dp1, ok := ib.dialect[p1.ID()]
 	if !ok {
-		return nil, fmt.Errorf("the parameter %s must be known: %w", p1.Name(false), errors.ErrInvalid)
+		return nil, false, fmt.Errorf("the parameter %s must be known: %w", p1.Name(false), errors.ErrInvalid)
 	}
 	if dp1.Flags&PfLValue == 0 {
-		return nil, fmt.Errorf("the parameter %s must be on the left side of the condition: %w", p1.Name(false), errors.ErrInvalid)
+		return nil, false, fmt.Errorf("the parameter %s must be on the left side of the condition: %w", p1.Name(false), errors.ErrInvalid)
 	}
 	if dp1.Flags&PfNop != 0 {
-		return nil, fmt.Errorf("the parameter %s must allow operation (%s): %w", p1.Name(false), cond.Op, errors.ErrInvalid)
+		return nil, false, fmt.Errorf("the parameter %s must allow operation (%s): %w", p1.Name(false), cond.Op, errors.ErrInvalid)
 	}
 	if p1.Name(false) != ib.param { // skip not the param we look for
-		return nil, nil
+		return nil, false, nil
 	}
 
 	// param2
 	p2 := cond.SecondParam
 	if p2 == nil {
-		return nil, fmt.Errorf("the second parameter must be specified for the parameter %s and the operation %q: %w", p1.Name(false), cond.Op, errors.ErrInvalid)
+		return nil, false, fmt.Errorf("the second parameter must be specified for the parameter %s and the operation %q: %w", p1.Name(false), cond.Op, errors.ErrInvalid)
 	}
 	dp2, ok := ib.dialect[p2.ID()]
 	if !ok {
-		return nil, fmt.Errorf("the second parameter %s must be known: %w", p2.Name(false), errors.ErrInvalid)
+		return nil, false, fmt.Errorf("the second parameter %s must be known: %w", p2.Name(false), errors.ErrInvalid)
 	}
 	if dp2.Flags&PfRValue == 0 {
-		return nil, fmt.Errorf("the second parameter %s must be on the right side of the condition: %w", p2.Name(false), errors.ErrInvalid)
+		return nil, false, fmt.Errorf("the second parameter %s must be on the right side of the condition: %w", p2.Name(false), errors.ErrInvalid)
 	}
 	if dp2.Flags&PfNop != 0 {
-		return nil, fmt.Errorf("the second parameter %s must allow operation (%s): %w", p2.Name(false), cond.Op, errors.ErrInvalid)
+		return nil, false, fmt.Errorf("the second parameter %s must allow operation (%s): %w", p2.Name(false), cond.Op, errors.ErrInvalid)
 	}
 	if p2.Const == nil { // skip not a constant param
-		return nil, nil
+		return nil, false, nil
 	}
 
 	// operation
 	if !ib.ops[cond.Op] { // skip not the ops we look for
-		return nil, nil
+		return nil, false, nil
 	}
 	switch cond.Op {
 	case "<", ">":
 		if dp1.Flags&PfComparable == 0 && dp1.Flags&PfGreaterLess == 0 {
-			return nil, fmt.Errorf("the first parameter %s must be comparable for the operation %s: %w", p1.Name(false), cond.Op, errors.ErrInvalid)
+			return nil, false, fmt.Errorf("the first parameter %s must be comparable for the operation %s: %w", p1.Name(false), cond.Op, errors.ErrInvalid)
 		}
 		if dp2.Flags&PfComparable == 0 && dp2.Flags&PfGreaterLess == 0 {
-			return nil, fmt.Errorf("the second parameter %s must be comparable for the operation %s: %w", p2.Name(false), cond.Op, errors.ErrInvalid)
+			return nil, false, fmt.Errorf("the second parameter %s must be comparable for the operation %s: %w", p2.Name(false), cond.Op, errors.ErrInvalid)
 		}
 	case "<=", ">=", "=", "!=":
 		if dp1.Flags&PfComparable == 0 {
-			return nil, fmt.Errorf("the first parameter %s must be comparable for the operation %s: %w", p1.Name(false), cond.Op, errors.ErrInvalid)
+			return nil, false, fmt.Errorf("the first parameter %s must be comparable for the operation %s: %w", p1.Name(false), cond.Op, errors.ErrInvalid)
 		}
 		if dp2.Flags&PfComparable == 0 {
-			return nil, fmt.Errorf("the second parameter %s must be comparable for the operation %s: %w", p2.Name(false), cond.Op, errors.ErrInvalid)
+			return nil, false, fmt.Errorf("the second parameter %s must be comparable for the operation %s: %w", p2.Name(false), cond.Op, errors.ErrInvalid)
 		}
 	}
 
 	// value
 	vf, err := castValueF(dp2.ValueF, dp2.Type, dp1.Type)
 	if err != nil {
-		return nil, err
+		return nil, false, err
 	}
 	kVal, err := vf(cond.SecondParam, *new(K))
 	if err != nil {
-		return nil, err
+		return nil, false, err
 	}
 	tVal, ok := kVal.(T)
 	if !ok {
-		return nil, fmt.Errorf("cannot cast the second parameter value(type=%T) to interval point(type=%T): %w", kVal, tVal, errors.ErrInvalid)
+		return nil, false, fmt.Errorf("cannot cast the second parameter value(type=%T) to interval point(type=%T): %w", kVal, tVal, errors.ErrInvalid)
 	}
 
 	// intervals
-	return ib.getIntervals(cond.Op, tVal), nil
+	return ib.getIntervals(cond.Op, tVal), true, nil
 }
 
 func (ib *ParamIntervalBuilder[T, K]) union(intervalsL []intervals.Interval[T]) []intervals.Interval[T] {
-- 
2.43.0


From 3a7ce3a64a8caeb04b2e779314f753fc9c0cffef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:53 +0000
Subject: [PATCH 04/39] fix: a condition may have constants out of the interval
 basis

---
 pkg/ql/intervalbuilder.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pkg/ql/intervalbuilder.go b/pkg/ql/intervalbuilder.go
index 423d557..7813e61 100644
--- a/pkg/ql/intervalbuilder.go
+++ b/pkg/ql/intervalbuilder.go
@@ -224,6 +224,19 @@ func (ib *ParamIntervalBuilder[T, K]) intersect(groups [][]intervals.Interval[T]
 }
 
 func (ib *ParamIntervalBuilder[T, K]) getIntervals(op string, val T) []intervals.Interval[T] {
+	// the value may be out of the basis, then either all the values of the basis fit or none of them does
+	if ib.basis.CmpF(val, ib.basis.Min) < 0 || (op == "<" && ib.basis.CmpF(val, ib.basis.Min) == 0) {
+		if op == ">" || op == ">=" || op == "!=" {
+			return []intervals.Interval[T]{ib.basis.Closed(ib.basis.Min, ib.basis.Max)}
+		}
+		return nil
+	}
+	if ib.basis.CmpF(val, ib.basis.Max) > 0 || (op == ">" && ib.basis.CmpF(val, ib.basis.Max) == 0) {
+		if op == "<" || op == "<=" || op == "!=" {
+			return []intervals.Interval[T]{ib.basis.Closed(ib.basis.Min, ib.basis.Max)}
+		}
+		return nil
+	}
 	switch op {
 	case "<":
 		return []intervals.Interval[T]{ib.basis.OpenR(ib.basis.Min, val)}
-- 
2.43.0


From 69d5a4371272c301498f926a512d0a75f892eeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:08 +0000
Subject: [PATCH 05/39] fix: bounds of a condition by creation time with
 fractions of a millisecond

---
 pkg/storage/logfs/locallog.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pkg/storage/logfs/locallog.go b/pkg/storage/logfs/locallog.go
index 7d126c5..c0d13ae 100644
--- a/pkg/storage/logfs/locallog.go
+++ b/pkg/storage/logfs/locallog.go
@@ -477,22 +477,25 @@ func getRanges(tis []intervals.Interval[time.Time], ci ChunkInfo) []idRange {
 	var ranges []idRange
 	for _, ti := range tis {
 		if ri, ok := tiBasis.Intersect(cti, ti); ok {
-			ranges = append(ranges, toRange(ri))
+			if rng, ok := toRange(ri); ok {
+				ranges = append(ranges, rng)
+			}
 		}
 	}
 	return ranges
 }
 
-func toRange(ti intervals.Interval[time.Time]) idRange {
-	if ti.IsClosed() {
-		return idRange{start: minULIDForTime(ti.L), end: maxULIDForTime(ti.R)}
-	} else if ti.IsOpenL() {
-		return idRange{start: minULIDForTime(ti.L.Add(time.Millisecond)), end: maxULIDForTime(ti.R)}
-	} else if ti.IsOpenR() {
-		return idRange{start: minULIDForTime(ti.L), end: maxULIDForTime(ti.R.Add(-time.Millisecond))}
-	} else { // open
-		return idRange{start: minULIDForTime(ti.L.Add(time.Millisecond)), end: maxULIDForTime(ti.R.Add(-time.Millisecond))}
+// toRange turns the interval ti into the range of the record IDs. The IDs have the time in milliseconds, so
+// the interval may contain none of them, then the second result is false
+func toRange(ti intervals.Interval[time.Time]) (idRange, bool) {
+	l, r := time.UnixMilli(ti.L.UnixMilli()), time.UnixMilli(ti.R.UnixMilli()) // rounded down
+	if l.Before(ti.L) || !ti.IsClosed() && !ti.IsOpenR() {
+		l = l.Add(time.Millisecond)
+	}
+	if r.Equal(ti.R) && !ti.IsClosed() && !ti.IsOpenL() {
+		r = r.Add(-time.Millisecond)
 	}
+	return idRange{start: minULIDForTime(l), end: maxULIDForTime(r)}, !r.Before(l)
 }
 
 func minULIDForTime(t time.Time) ulid.ULID {
-- 
2.43.0


From 3ef46d0825cb04c3be72d0699589bf3fac0f13f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:08 +0000
Subject: [PATCH 06/39] fix: CountRecords returns the error of reading a chunk,
 and the total with a condition nothing matches

---
 pkg/storage/logfs/locallog.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pkg/storage/logfs/locallog.go b/pkg/storage/logfs/locallog.go
index c0d13ae..cf7aec4 100644
--- a/pkg/storage/logfs/locallog.go
+++ b/pkg/storage/logfs/locallog.go
@@ -349,9 +349,6 @@ func (l *localLog) CountRecords(ctx context.Context, request storage.QueryRecord
 	if err != nil {
 		return 0, 0, err
 	}
-	if len(request.Condition) > 0 && len(tis) == 0 {
-		return 0, 0, nil
-	}
 
 	var total uint64
 	var count uint64
@@ -368,7 +365,7 @@ func (l *localLog) CountRecords(ctx context.Context, request storage.QueryRecord
 			if sid.Compare(ulidutils.ZeroULID) != 0 || len(idRanges) > 0 {
 				recCnt, err = l.countRecords(ctx, ci, request.Descending, considerSIDAndDesc(idRanges, sid, request.Descending))
 				if err != nil {
-					return 0, 0, nil
+					return 0, 0, err
 				}
 			}
 			count += recCnt
-- 
2.43.0


From 4c883a2276bc1dc6e55a35592f0efa9526008522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:08 +0000
Subject: [PATCH 07/39] fix: a blank condition of a log request is no condition

---
 pkg/storage/logfs/locallog.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/storage/logfs/locallog.go b/pkg/storage/logfs/locallog.go
index cf7aec4..9540abd 100644
--- a/pkg/storage/logfs/locallog.go
+++ b/pkg/storage/logfs/locallog.go
@@ -262,6 +262,7 @@ func (l *localLog) QueryRecords(ctx context.Context, request storage.QueryRecord
 		}
 	}
 
+	request.Condition = strings.TrimSpace(request.Condition) // a blank condition is no condition
 	tis, err := getIntervals(request.Condition)
 	if err != nil {
 		return nil, false, err
@@ -345,6 +346,7 @@ func (l *localLog) CountRecords(ctx context.Context, request storage.QueryRecord
 		}
 	}
 
+	request.Condition = strings.TrimSpace(request.Condition) // a blank condition is no condition
 	tis, err := getIntervals(request.Condition)
 	if err != nil {
 		return 0, 0, err
-- 
2.43.0


From fb24e397e21e8826b7960d9c3a2643bda0f577a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:40 +0000
Subject: [PATCH 08/39] fix: a log goes on in a new chunk when the last one is
 exhausted

---
 pkg/storage/logfs/locallog.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/storage/logfs/locallog.go b/pkg/storage/logfs/locallog.go
index 9540abd..a8f7189 100644
--- a/pkg/storage/logfs/locallog.go
+++ b/pkg/storage/logfs/locallog.go
@@ -143,7 +143,7 @@ func (l *localLog) AppendRecords(ctx context.Context, request *solaris.AppendRec
 			l.logger.Infof("creating new chunk id=%s for the logID=%s", ci.ID, lid)
 		}
 		arr, err := l.appendRecords(ctx, ci.ID, ci.RecordsCount == 0, recs)
-		if err != nil {
+		if err != nil && (ci.RecordsCount == 0 || !errors.Is(err, errors.ErrExhausted)) {
 			gerr = err
 			break
 		}
-- 
2.43.0


From 9351c1257f6beb9d87d252ce4ceae28ec18f66f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:32 +0000
Subject: [PATCH 09/39] fix: closing an iterator over a removed first element
 keeps the head of the map

---
 golibs/container/iterable/map.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/golibs/container/iterable/map.go b/golibs/container/iterable/map.go
index 405716c..eecb752 100644
--- a/golibs/container/iterable/map.go
+++ b/golibs/container/iterable/map.go
@@ -132,7 +132,9 @@ func (im *Map[K, V]) getValue(p *rlItem[K, V]) *rlItem[K, V] {
 func (im *Map[K, V]) release(p *rlItem[K, V]) {
 	p.refCnt--
 	if p.state == rlDeleted {
-		p.delete()
+		if head := p.delete(); head != nil {
+			im.head = head
+		}
 		if p.refCnt == 0 {
 			im.pool.Put(p)
 		}
-- 
2.43.0


From 9ed30e7e0cf6cec94923bf3038a72350bf9ae1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:32 +0000
Subject: [PATCH 10/39] fix: a failed creation of a releasable object wakes the
 waiting ones and deletes nothing

---
 golibs/container/lru/releasable.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/golibs/container/lru/releasable.go b/golibs/container/lru/releasable.go
index 6a45242..66c3eb0 100644
--- a/golibs/container/lru/releasable.go
+++ b/golibs/container/lru/releasable.go
@@ -132,7 +132,7 @@ func (r *ReleasableCache[K, V]) GetOrCreate(ctx context.Context, k K) (Releasabl
 		r.lock.Lock()
 		// if it was closed while we were creating the new object...
 		if r.closed {
-			if r.onDeleteF != nil {
+			if err == nil && r.onDeleteF != nil {
 				r.onDeleteF(k, v)
 			}
 			r.lock.Unlock()
@@ -145,6 +145,10 @@ func (r *ReleasableCache[K, V]) GetOrCreate(ctx context.Context, k K) (Releasabl
 		if err == nil {
 			rh = &rHolder[V]{refCounter: 1, value: v}
 			r.allKnown[k] = rh
+		} else if r.waiter != nil {
+			// the place reserved for the object is free again
+			close(r.waiter)
+			r.waiter = nil
 		}
 		r.lock.Unlock()
 
-- 
2.43.0


From 5c93f980fd10f8767e005b10311c3c1632a529e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:32 +0000
Subject: [PATCH 11/39] fix: NewBlocks rejects an unacceptable block size

---
 golibs/container/bytes/blocks.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golibs/container/bytes/blocks.go b/golibs/container/bytes/blocks.go
index 613e1e3..0b21848 100644
--- a/golibs/container/bytes/blocks.go
+++ b/golibs/container/bytes/blocks.go
@@ -87,7 +87,7 @@ func GetBlocksInSegment(blkSize int) int {
 func NewBlocks(bs int, bts Buffer, fit bool) (*Blocks, error) {
 	// get absolute number of blocks in a segment
 	blksInSegm := GetBlocksInSegment(bs)
-	if bs < 0 {
+	if blksInSegm < 0 {
 		return nil, fmt.Errorf("incorrect block size=%d, should multiple on naturanl integer to get %d: %w ", bs, os.Getpagesize(), errors.ErrInvalid)
 	}
 
-- 
2.43.0


From 771c5b6f282497e1c678441a3b0a38673a8e9c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:04 +0000
Subject: [PATCH 12/39] fix: UnmarshalBytes returns an error for a length
 larger than the buffer can be

---
 golibs/xbinary/xbinary.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/golibs/xbinary/xbinary.go b/golibs/xbinary/xbinary.go
index 80fb62c..59cd9f2 100644
--- a/golibs/xbinary/xbinary.go
+++ b/golibs/xbinary/xbinary.go
@@ -266,10 +266,10 @@ func UnmarshalBytes(buf []byte, newBuf bool) (int, []byte, error) {
 		return 0, nil, err
 	}
 
-	ln := int(uln)
-	if len(buf) < ln+idx {
-		return 0, nil, noBufErr("UnmarshalBytes-size-body", len(buf)-idx, ln)
+	if uint(len(buf)-idx) < uln {
+		return 0, nil, noBufErr("UnmarshalBytes-size-body", len(buf)-idx, int(uln))
 	}
+	ln := int(uln)
 
 	res := buf[idx : idx+ln]
 	if newBuf {
-- 
2.43.0


From 2c4de2b841d96ea51d3ee992a08db165a3d9f658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:26 +0000
Subject: [PATCH 13/39] fix: an expired record of the in-memory key-value store
 doesn't exist for all the operations

---
 golibs/kvs/inmem/inmem.go | 89 ++++++++++++++++++++++-----------------
 1 file changed, 50 insertions(+), 39 deletions(-)

diff --git a/golibs/kvs/inmem/inmem.go b/golibs/kvs/inmem/inmem.go
index 8ef80ba..4c2bab8 100644
--- a/golibs/kvs/inmem/inmem.go
+++ b/golibs/kvs/inmem/inmem.go
@@ -57,7 +57,7 @@ func (s *service) Create(ctx context.Context, record kvs.Record) (string, error)
 	if ctx.Err() != nil {
 		return "", ctx.Err()
 	}
-	if r, ok := s.recs[record.Key]; ok {
+	if r, ok := s.get(record.Key); ok {
 		return r.Version, errors.ErrExist
 	}
 	record.Version = ulidutils.NewID()
@@ -68,17 +68,10 @@ func (s *service) Create(ctx context.Context, record kvs.Record) (string, error)
 func (s *service) Get(ctx context.Context, key string) (kvs.Record, error) {
 	s.lock.Lock()
 	defer s.lock.Unlock()
-	r, ok := s.recs[key]
+	r, ok := s.get(key)
 	if !ok {
 		return kvs.Record{}, errors.ErrNotExist
 	}
-	if r.ExpiresAt != nil {
-		if r.ExpiresAt.Before(time.Now()) {
-			delete(s.recs, key)
-			s.notifyWaiters(key)
-			return kvs.Record{}, errors.ErrNotExist
-		}
-	}
 	return r, nil
 }
 
@@ -108,17 +101,10 @@ func (s *service) GetMany(ctx context.Context, keys ...string) ([]*kvs.Record, e
 
 	res := make([]*kvs.Record, len(keys))
 	for idx, key := range keys {
-		r, ok := s.recs[key]
+		r, ok := s.get(key)
 		if !ok {
 			continue
 		}
-		if r.ExpiresAt != nil {
-			if r.ExpiresAt.Before(time.Now()) {
-				delete(s.recs, key)
-				s.notifyWaiters(key)
-				continue
-			}
-		}
 		res[idx] = &r
 	}
 	return res, nil
@@ -127,17 +113,10 @@ func (s *service) GetMany(ctx context.Context, keys ...string) ([]*kvs.Record, e
 func (s *service) CasByVersion(ctx context.Context, record kvs.Record) (kvs.Record, error) {
 	s.lock.Lock()
 	defer s.lock.Unlock()
-	r, ok := s.recs[record.Key]
+	r, ok := s.get(record.Key)
 	if !ok {
 		return kvs.Record{}, errors.ErrNotExist
 	}
-	if r.ExpiresAt != nil {
-		if r.ExpiresAt.Before(time.Now()) {
-			delete(s.recs, record.Key)
-			s.notifyWaiters(record.Key)
-			return kvs.Record{}, errors.ErrNotExist
-		}
-	}
 	if r.Version != record.Version {
 		return kvs.Record{}, errors.ErrConflict
 	}
@@ -151,7 +130,7 @@ func (s *service) Delete(ctx context.Context, key string) error {
 	s.lock.Lock()
 	defer s.lock.Unlock()
 
-	if _, ok := s.recs[key]; !ok {
+	if _, ok := s.get(key); !ok {
 		return errors.ErrNotExist
 	}
 	delete(s.recs, key)
@@ -162,7 +141,7 @@ func (s *service) Delete(ctx context.Context, key string) error {
 func (s *service) WaitForVersionChange(ctx context.Context, key, ver string) error {
 	for {
 		s.lock.Lock()
-		r, ok := s.recs[key]
+		r, ok := s.get(key)
 		if !ok {
 			s.lock.Unlock()
 			return errors.ErrNotExist
@@ -179,22 +158,18 @@ func (s *service) WaitForVersionChange(ctx context.Context, key, ver string) err
 		ws.waiters++
 		s.lock.Unlock()
 
+		expired, stop := expiration(r)
 		select {
 		case <-ctx.Done():
-			s.lock.Lock()
-			defer s.lock.Unlock()
-			ws1, ok := s.verChange[key]
-			if !ok || ws.done != ws1.done {
-				return ctx.Err()
-			}
-			ws.waiters--
-			if ws.waiters == 0 {
-				close(ws.done)
-				delete(s.verChange, key)
-			}
+			stop()
+			s.removeWaiter(key, ws)
 			return ctx.Err()
+		case <-expired:
+			// the record doesn't exist anymore, go around
+			s.removeWaiter(key, ws)
 		case <-ws.done:
 			// need to check the version, go around
+			stop()
 		}
 	}
 }
@@ -209,13 +184,49 @@ func (s *service) ListKeys(ctx context.Context, pattern string) (iterable.Iterat
 	}
 	res := []string{}
 	for k := range s.recs {
-		if g.Match(k) {
+		if _, ok := s.get(k); ok && g.Match(k) {
 			res = append(res, k)
 		}
 	}
 	return &keysIterator{res: res}, nil
 }
 
+// get returns the record by its key, an expired record doesn't exist
+func (s *service) get(key string) (kvs.Record, bool) {
+	r, ok := s.recs[key]
+	if ok && r.ExpiresAt != nil && r.ExpiresAt.Before(time.Now()) {
+		delete(s.recs, key)
+		s.notifyWaiters(key)
+		return kvs.Record{}, false
+	}
+	return r, ok
+}
+
+// expiration returns the channel, which is signaled when the record r expires,
+// and the function, which frees the resources of the channel
+func expiration(r kvs.Record) (<-chan time.Time, func()) {
+	if r.ExpiresAt == nil {
+		return nil, func() {}
+	}
+	tmr := time.NewTimer(time.Until(*r.ExpiresAt) + 1)
+	return tmr.C, func() { tmr.Stop() }
+}
+
+// removeWaiter must be called by a waiter, which was not notified via ws.done
+func (s *service) removeWaiter(key string, ws *waiter) {
+	s.lock.Lock()
+	defer s.lock.Unlock()
+	ws1, ok := s.verChange[key]
+	if !ok || ws.done != ws1.done {
+		return
+	}
+	ws.waiters--
+	if ws.waiters == 0 {
+		close(ws.done)
+		delete(s.verChange, key)
+	}
+}
+
 func (s *service) notifyWaiters(key string) {
 	ws, ok := s.verChange[key]
 	if !ok {
-- 
2.43.0


From b2682c22a744834d63be40e01acbfd61303db7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:38 +0000
Subject: [PATCH 14/39] fix: shutdown of a lock provider ends the waiting for
 its locks

---
 golibs/kvs/distlock/kvlock.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/golibs/kvs/distlock/kvlock.go b/golibs/kvs/distlock/kvlock.go
index ffb2b20..5d66542 100644
--- a/golibs/kvs/distlock/kvlock.go
+++ b/golibs/kvs/distlock/kvlock.go
@@ -179,8 +179,7 @@ func (l *kvsLock) lockWithCtx(ctx context.Context) error {
 		}
 
 		if errors.Is(err, errors.ErrExist) {
-			_ = l.dlp.Storage.WaitForVersionChange(ctx, l.key, ver)
-			err = ctx.Err()
+			err = l.waitForVersionChange(ctx, ver)
 		}
 	}
 
@@ -189,6 +188,25 @@ func (l *kvsLock) lockWithCtx(ctx context.Context) error {
 	return err
 }
 
+// waitForVersionChange waits until the record of the lock is changed or deleted. It returns an error if the ctx is closed or the
+// provider is shutdown
+func (l *kvsLock) waitForVersionChange(ctx context.Context, ver string) error {
+	wctx, cancel := context.WithCancel(ctx)
+	defer cancel()
+	go func() {
+		select {
+		case <-l.dlp.done:
+			cancel()
+		case <-wctx.Done():
+		}
+	}()
+	_ = l.dlp.Storage.WaitForVersionChange(wctx, l.key, ver)
+	if ctx.Err() == nil && !chans.IsOpened(l.dlp.done) {
+		return fmt.Errorf("kvsLock.waitForVersionChange(): locking mechanism is shutdown: %w", errors.ErrClosed)
+	}
+	return ctx.Err()
+}
+
 // supportTimeout tries to refresh the record timeout if we hold it too long (at least twice of leaseTTL)
 // the function is tricky, cause it uses CAS operation to update the record version and if the version
 // is updated, it recharges the timeout. This is where the new raise can happen and the new future may
-- 
2.43.0


From 43de4ad7bee12a11283344157a24065b976d37f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:39 +0000
Subject: [PATCH 15/39] fix: a lock goes on refreshing its lease after a
 temporary storage error

---
 golibs/kvs/distlock/kvlock.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/golibs/kvs/distlock/kvlock.go b/golibs/kvs/distlock/kvlock.go
index 5d66542..3b1d84d 100644
--- a/golibs/kvs/distlock/kvlock.go
+++ b/golibs/kvs/distlock/kvlock.go
@@ -219,11 +219,18 @@ func (l *kvsLock) supportTimeout(ver string) {
 		Version:   ver,
 		ExpiresAt: cast.Ptr(time.Now().Add(l.dlp.leaseTTL)),
 	})
-	if err != nil {
+	if errors.Is(err, errors.ErrConflict) || errors.Is(err, errors.ErrNotExist) {
 		l.dlp.logger.Debugf("supportTimeout raise detected, just do nothing for the key=%s, err=%s", l.key, err)
 		return
 	}
-	newFuture := timeout.Call(func() { l.supportTimeout(r.Version) }, l.dlp.leaseTTL/2)
+	tmt := l.dlp.leaseTTL / 2
+	if err != nil {
+		// the record may be ours still, so try again before it is expired
+		l.dlp.logger.Warnf("supportTimeout could not refresh the key=%s, will try again: %s", l.key, err)
+		r.Version = ver
+		tmt = l.dlp.leaseTTL / 10
+	}
+	newFuture := timeout.Call(func() { l.supportTimeout(r.Version) }, tmt)
 	if !l.future.CompareAndSwap(future, newFuture) {
 		// somebody already started the new timer, so drop this and forget about the incident
 		l.dlp.logger.Debugf("supportTimeout raise 2 detected, just cancelling the call timeout")
-- 
2.43.0


From 1a849137d811547d1d11e71451d79433aadab0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 16/39] fix: DeleteFileIfEmpty leaves a chunk which is used
 alone

---
 pkg/storage/chunkfs/provider.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/storage/chunkfs/provider.go b/pkg/storage/chunkfs/provider.go
index a884117..835162b 100644
--- a/pkg/storage/chunkfs/provider.go
+++ b/pkg/storage/chunkfs/provider.go
@@ -78,6 +78,8 @@ func (p *Provider) DeleteFileIfEmpty(cID string) {
 	}
 	if !p.CA.setDeleting(cID) {
 		p.logger.Errorf("DeleteFileIfEmpty(): something goes wrong, cannot mark chunk %s for deleting", cID)
+		// the chunk is used by somebody else, who will release the access
+		return
 	}
 	defer p.CA.SetIdle(cID)
 	fn := p.GetFileNameByID(cID)
-- 
2.43.0


From 2ec56936809cf2225ec5407ed0c35ede1a7e7e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 17/39] fix: DeleteChunk keeps the local file if it could not
 be uploaded

---
 pkg/storage/chunkfs/replicator.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/storage/chunkfs/replicator.go b/pkg/storage/chunkfs/replicator.go
index a2c5097..11c3762 100644
--- a/pkg/storage/chunkfs/replicator.go
+++ b/pkg/storage/chunkfs/replicator.go
@@ -109,7 +109,8 @@ func (r *Replicator) DeleteChunk(ctx context.Context, cID string, flags int) err
 	if flags&RFRemoteSync != 0 {
 		if err := r.zipAndUploadChunk(ctx, cID); err != nil {
 			r.logger.Warnf("error while syncing chunk cID=%s, flags=%d to remote: %s", cID, flags, err)
-			resErr = err
+			// the local file may be the only copy of the data
+			return err
 		}
 	}
 
-- 
2.43.0


From 8046cf1a7d39edf17030ba0c62437d959a7aa4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 18/39] fix: an incomplete archive of a chunk is not uploaded

---
 pkg/storage/chunkfs/replicator.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/storage/chunkfs/replicator.go b/pkg/storage/chunkfs/replicator.go
index 11c3762..e8731e8 100644
--- a/pkg/storage/chunkfs/replicator.go
+++ b/pkg/storage/chunkfs/replicator.go
@@ -156,12 +156,17 @@ func (r *Replicator) zipAndUploadChunk(ctx context.Context, cID string) error {
 	return r.Storage.Put(ctx, getStorageKey(cID), zf)
 }
 
-func zipFile(cID, fn, zfn string) error {
+func zipFile(cID, fn, zfn string) (err error) {
 	zw, err := files.NewZipWriter(zfn)
 	if err != nil {
 		return err
 	}
-	defer zw.Close()
+	defer func() {
+		// the archive is complete only when it is closed with no error
+		if cerr := zw.Close(); err == nil {
+			err = cerr
+		}
+	}()
 
 	// the chunk file
 	f, err := os.Open(fn)
-- 
2.43.0


From b4225944e63d072f6f206f26cafc1ea58fcb1ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 19/39] fix: a failed download leaves no incomplete chunk file

---
 pkg/storage/chunkfs/replicator.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkg/storage/chunkfs/replicator.go b/pkg/storage/chunkfs/replicator.go
index e8731e8..3bda81a 100644
--- a/pkg/storage/chunkfs/replicator.go
+++ b/pkg/storage/chunkfs/replicator.go
@@ -223,12 +223,21 @@ func (r *Replicator) unzip(zfn, fn string) error {
 	}
 	defer it.Close()
 
-	_ = os.Remove(fn)
-	f, err := os.Create(fn)
+	// the chunk file must be complete, so write aside first
+	tfn := fn + ".tmp"
+	f, err := os.Create(tfn)
 	if err != nil {
 		return err
 	}
-	defer f.Close()
 	_, err = io.Copy(f, it)
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		err = os.Rename(tfn, fn)
+	}
+	if err != nil {
+		_ = os.Remove(tfn)
+	}
 	return err
 }
-- 
2.43.0


From fb841478f6dfdfa9f616b6542457f38a9871e3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:58 +0000
Subject: [PATCH 20/39] fix: the in-memory object storage may be used by
 several goroutines

---
 golibs/sss/inmem/storage.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/golibs/sss/inmem/storage.go b/golibs/sss/inmem/storage.go
index c9e9212..7c789bc 100755
--- a/golibs/sss/inmem/storage.go
+++ b/golibs/sss/inmem/storage.go
@@ -23,11 +23,13 @@ import (
 	"io"
 	"io/ioutil"
 	"strings"
+	"sync"
 )
 
 // Storage provides kvs.Storage functionality in local process memory. This instance can be
 // used in a single-node configuration or in a test-purposes.
 type Storage struct {
+	lock    sync.RWMutex
 	storage map[string][]byte
 }
 
@@ -47,6 +49,8 @@ func (st *Storage) Get(_ context.Context, key string) (io.ReadCloser, error) {
 		return nil, fmt.Errorf("Storage.Get(): invalid key=%s", key)
 	}
 
+	st.lock.RLock()
+	defer st.lock.RUnlock()
 	if buf, ok := st.storage[key]; ok {
 		return ioutil.NopCloser(bytes.NewReader(buf)), nil
 	}
@@ -66,6 +70,8 @@ func (st *Storage) Put(_ context.Context, key string, r io.Reader) error {
 	}
 	b1 := make([]byte, len(buf))
 	copy(b1, buf)
+	st.lock.Lock()
+	defer st.lock.Unlock()
 	st.storage[key] = b1
 	return nil
 }
@@ -84,6 +90,8 @@ func (st *Storage) List(_ context.Context, path string) ([]string, error) {
 
 	res := make([]string, 0, 10)
 	added := make(map[string]bool)
+	st.lock.RLock()
+	defer st.lock.RUnlock()
 	for k := range st.storage {
 		if strings.HasPrefix(k, path) {
 			idx := strings.Index(k[len(path):], "/")
@@ -109,6 +117,8 @@ func (st *Storage) Delete(_ context.Context, key string) error {
 		return fmt.Errorf("Storage.Delete(): invalid key=%s", key)
 	}
 
+	st.lock.Lock()
+	defer st.lock.Unlock()
 	if _, ok := st.storage[key]; !ok {
 		return errors.ErrNotExist
 	}
-- 
2.43.0


From 8763e0b2b8adde9b0f1190c5b3968ccbd30fe80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:00 +0000
Subject: [PATCH 21/39] fix: the next page of a log queried in descending order
 starts after the last record

---
 pkg/api/service.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/api/service.go b/pkg/api/service.go
index de44642..301714a 100644
--- a/pkg/api/service.go
+++ b/pkg/api/service.go
@@ -119,7 +119,12 @@ func (s *Service) QueryRecords(ctx context.Context, request *solaris.QueryRecord
 		}
 		nextID := ""
 		if more {
-			nextID = ulidutils.NextID(res[len(res)-1].ID)
+			lastID := res[len(res)-1].ID
+			if request.Descending {
+				nextID = ulidutils.PrevID(lastID)
+			} else {
+				nextID = ulidutils.NextID(lastID)
+			}
 		}
 		return &solaris.QueryRecordsResult{Records: res, NextPageID: nextID}, nil
 	}
-- 
2.43.0


From e7924a8bdce7c172d87d80b99ede9136707f3a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:00 +0000
Subject: [PATCH 22/39] fix: QueryRecords does not crash on a limit which is 0,
 negative or too big

---
 pkg/api/service.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/api/service.go b/pkg/api/service.go
index 301714a..e720c25 100644
--- a/pkg/api/service.go
+++ b/pkg/api/service.go
@@ -118,7 +118,7 @@ func (s *Service) QueryRecords(ctx context.Context, request *solaris.QueryRecord
 			return nil, errors.GRPCWrap(err)
 		}
 		nextID := ""
-		if more {
+		if more && len(res) > 0 {
 			lastID := res[len(res)-1].ID
 			if request.Descending {
 				nextID = ulidutils.PrevID(lastID)
@@ -139,7 +139,7 @@ func (s *Service) QueryRecords(ctx context.Context, request *solaris.QueryRecord
 
 	lim := request.Limit
 
-	res := make([]*solaris.Record, 0, lim)
+	res := []*solaris.Record{}
 	for mx.HasNext() && lim > 0 {
 		r, ok := mx.Next()
 		if !ok {
-- 
2.43.0


From d4ebe372fc0a872951156e65e9a021dac280759e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:00 +0000
Subject: [PATCH 23/39] fix: CountRecords gives its errors with their status

---
 pkg/api/service.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/api/service.go b/pkg/api/service.go
index e720c25..6122066 100644
--- a/pkg/api/service.go
+++ b/pkg/api/service.go
@@ -191,7 +191,7 @@ func (s *Service) CountRecords(ctx context.Context, request *solaris.QueryRecord
 			Limit:   request.Limit},
 		)
 		if err != nil {
-			return nil, err
+			return nil, errors.GRPCWrap(err)
 		}
 
 		total += t
-- 
2.43.0


From 2a5df05a4eb45b4f52c56afdc282b87d7e922c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:08 +0000
Subject: [PATCH 24/39] fix: a filter with tag as its right side which is not a
 proper call is an error instead of a crash when it is evaluated

---
 pkg/ql/evaluator.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/ql/evaluator.go b/pkg/ql/evaluator.go
index a71210c..c852947 100644
--- a/pkg/ql/evaluator.go
+++ b/pkg/ql/evaluator.go
@@ -159,7 +159,7 @@ func (eb *exprBuilder[T]) buildCond(cn *Condition) (err error) {
 
 	p2 := cn.SecondParam
 	if p2 == nil {
-		return fmt.Errorf("wrong condition for the param %s and the operation %q - no second parameter: %w", p2.Name(false), cn.Op, errors.ErrInvalid)
+		return fmt.Errorf("wrong condition for the param %s and the operation %q - no second parameter: %w", p1.Name(false), cn.Op, errors.ErrInvalid)
 	}
 	d2, ok := eb.dialect[p2.ID()]
 	if !ok {
@@ -171,6 +171,9 @@ func (eb *exprBuilder[T]) buildCond(cn *Condition) (err error) {
 	if d2.Flags&PfNop != 0 {
 		return fmt.Errorf("parameter %s cannot be compared (%s) in the condition: %w", p2.Name(false), cn.Op, errors.ErrInvalid)
 	}
+	if err := d2.check(p2); err != nil {
+		return err
+	}
 
 	op := strings.ToUpper(cn.Op)
 	switch op {
-- 
2.43.0


From 5f10124fe5da1303ee1afe2c23f0855009d92f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:39 +0000
Subject: [PATCH 25/39] fix: a string constant with a quote in it does not end
 in the SQL before its end

---
 pkg/ql/dialect.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pkg/ql/dialect.go b/pkg/ql/dialect.go
index 6627c93..1051564 100644
--- a/pkg/ql/dialect.go
+++ b/pkg/ql/dialect.go
@@ -129,9 +129,7 @@ var (
 			Flags: PfRValue | PfComparable, // strings are rvalues only
 			TranslateF: func(tr Translator[*solaris.Log], sb *strings.Builder, p Param) error {
 				// use single quotes for string constants
-				sb.WriteString("'")
-				sb.WriteString(*p.Const.String)
-				sb.WriteString("'")
+				writeSqlString(sb, *p.Const.String)
 				return nil
 			},
 		},
@@ -146,9 +144,7 @@ var (
 					if c.String == nil {
 						return fmt.Errorf("array must contain only strings: %w", errors.ErrInvalid)
 					}
-					sb.WriteString("'")
-					sb.WriteString(*c.String)
-					sb.WriteString("'")
+					writeSqlString(sb, *c.String)
 				}
 				sb.WriteString(")")
 				return nil
@@ -207,3 +203,10 @@ func (pd ParamDialect[T]) check(p *Param) error {
 	}
 	return nil
 }
+
+// writeSqlString writes the string s as the SQL constant
+func writeSqlString(sb *strings.Builder, s string) {
+	sb.WriteString("'")
+	sb.WriteString(strings.ReplaceAll(s, "'", "''"))
+	sb.WriteString("'")
+}
-- 
2.43.0


From 9df98d218b3b23f9ab6bb6da76912d827c54f6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:06 +0000
Subject: [PATCH 26/39] fix: the cached storage says that the last chunk of a
 log without chunks does not exist

---
 pkg/storage/cache/cache.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/storage/cache/cache.go b/pkg/storage/cache/cache.go
index c4f3992..ae827d4 100644
--- a/pkg/storage/cache/cache.go
+++ b/pkg/storage/cache/cache.go
@@ -19,6 +19,7 @@ import (
 	"github.com/logrange/linker"
 	"github.com/solarisdb/solaris/api/gen/solaris/v1"
 	"github.com/solarisdb/solaris/golibs/container/lru"
+	"github.com/solarisdb/solaris/golibs/errors"
 	"github.com/solarisdb/solaris/pkg/storage"
 	"github.com/solarisdb/solaris/pkg/storage/logfs"
 	"sort"
@@ -122,7 +123,7 @@ func (s *CachedStorage) GetLastChunk(ctx context.Context, logID string) (logfs.C
 		return logfs.ChunkInfo{}, err
 	}
 	if len(cis) == 0 {
-		return logfs.ChunkInfo{}, nil
+		return logfs.ChunkInfo{}, errors.ErrNotExist
 	}
 	return cis[len(cis)-1], nil
 }
-- 
2.43.0


From 405583bd515d5f2ac6ed5dbd71dc13683c08308f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:08 +0000
Subject: [PATCH 27/39] fix: the cached storage does not keep what a failed
 write may have changed

---
 pkg/storage/cache/cache.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pkg/storage/cache/cache.go b/pkg/storage/cache/cache.go
index ae827d4..6c1c948 100644
--- a/pkg/storage/cache/cache.go
+++ b/pkg/storage/cache/cache.go
@@ -91,10 +91,11 @@ func (s *CachedStorage) GetLogByID(ctx context.Context, id string) (*solaris.Log
 // UpdateLog implements storage.Logs
 func (s *CachedStorage) UpdateLog(ctx context.Context, log *solaris.Log) (*solaris.Log, error) {
 	l, err := s.storage.UpdateLog(ctx, log)
+	// a failed update may have been done
+	s.logsCache.Remove(log.ID)
 	if err != nil {
 		return nil, err
 	}
-	s.logsCache.Remove(log.ID)
 	return l, err
 }
 
@@ -107,6 +108,9 @@ func (s *CachedStorage) QueryLogs(ctx context.Context, qr storage.QueryLogsReque
 func (s *CachedStorage) DeleteLogs(ctx context.Context, request storage.DeleteLogsRequest) (*solaris.DeleteLogsResult, error) {
 	dr, err := s.storage.DeleteLogs(ctx, request)
 	if err != nil {
+		// a failed deletion may have been done for any of the logs
+		s.logsCache.Clear()
+		s.chunksCache.Clear()
 		return nil, err
 	}
 	for _, id := range dr.DeletedIDs {
@@ -135,9 +139,8 @@ func (s *CachedStorage) GetChunks(ctx context.Context, logID string) ([]logfs.Ch
 
 // UpsertChunkInfos implements logfs.LogsMetaStorage
 func (s *CachedStorage) UpsertChunkInfos(ctx context.Context, logID string, cis []logfs.ChunkInfo) error {
-	if err := s.storage.UpsertChunkInfos(ctx, logID, cis); err != nil {
-		return err
-	}
+	err := s.storage.UpsertChunkInfos(ctx, logID, cis)
+	// failed changes may have been done
 	s.chunksCache.Remove(logID)
-	return nil
+	return err
 }
-- 
2.43.0


From c7dede114785b48cdb8fc65de580f0c36508d300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:18 +0000
Subject: [PATCH 28/39] fix: an element removed from the cache while it is
 created is not kept in it

---
 golibs/container/lru/ecache.go | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/golibs/container/lru/ecache.go b/golibs/container/lru/ecache.go
index fc651d5..bbdeebe 100644
--- a/golibs/container/lru/ecache.go
+++ b/golibs/container/lru/ecache.go
@@ -27,12 +27,19 @@ type ECache[PK any, K comparable, V any] struct {
 	lock           sync.Mutex
 	maxSize        int
 	items          *iterable.Map[K, pair[PK, V]]
-	inflight       map[K]chan struct{}
+	inflight       map[K]*creation
 	createNewF     CreatePoolElemF[PK, V]
 	onDeleteF      OnDeleteElemF[PK, V]
 	mapToInnerKeyF MapToInnerKeyF[PK, K]
 }
 
+// creation describes an element which is being created
+type creation struct {
+	done chan struct{}
+	// removed is set if the element must not be added, cause it was removed since its creation started
+	removed bool
+}
+
 type pair[PK any, V any] struct {
 	pk PK
 	v  V
@@ -54,7 +61,7 @@ func NewECache[PK any, K comparable, V any](maxSize int, toComparableF MapToInne
 	}
 	p := new(ECache[PK, K, V])
 	p.items = iterable.NewMap[K, pair[PK, V]]()
-	p.inflight = make(map[K]chan struct{})
+	p.inflight = make(map[K]*creation)
 	p.maxSize = maxSize
 	p.createNewF = createNewF
 	p.onDeleteF = onDeleteF
@@ -74,26 +81,30 @@ func (p *ECache[PK, K, V]) GetOrCreate(pk PK) (V, error) {
 			p.lock.Unlock()
 			return res.v, nil
 		}
-		ch, watcher := p.inflight[k]
+		cr, watcher := p.inflight[k]
 		if !watcher {
-			ch = make(chan struct{})
-			p.inflight[k] = ch
+			cr = &creation{done: make(chan struct{})}
+			p.inflight[k] = cr
 		}
 		p.lock.Unlock()
 
 		// if watcher is true, it means that another goroutine already creating the new item,
 		// so it needs to wait for the result instead of requesting new value.
 		if watcher {
-			<-ch
+			<-cr.done
 			continue
 		}
 
 		v, err := p.createNewF(pk)
 
 		p.lock.Lock()
-		close(ch)
+		close(cr.done)
 		delete(p.inflight, k)
-		if err == nil {
+		if err == nil && cr.removed {
+			if p.onDeleteF != nil {
+				p.onDeleteF(pk, v)
+			}
+		} else if err == nil {
 			p.items.Add(k, pair[PK, V]{pk, v})
 			if p.maxSize < p.items.Len() {
 				k, _ := p.items.First()
@@ -117,6 +128,9 @@ func (p *ECache[PK, K, V]) Remove(pk PK) bool {
 	p.lock.Lock()
 	defer p.lock.Unlock()
 
+	if cr, ok := p.inflight[k]; ok {
+		cr.removed = true
+	}
 	v, ok := p.items.Get(k)
 	if !ok {
 		return false
@@ -132,6 +146,9 @@ func (p *ECache[PK, K, V]) Remove(pk PK) bool {
 func (p *ECache[PK, K, V]) Clear() int {
 	p.lock.Lock()
 	defer p.lock.Unlock()
+	for _, cr := range p.inflight {
+		cr.removed = true
+	}
 	it := p.items.Iterator()
 	removed := 0
 	for it.HasNext() {
-- 
2.43.0


From f82f4f6cdadff1b2b6c828129b8d7f06762d75e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:54 +0000
Subject: [PATCH 29/39] fix: a query of logs with a negative limit does not
 crash the embedded metadata store

---
 pkg/storage/buntdb/buntdb.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/storage/buntdb/buntdb.go b/pkg/storage/buntdb/buntdb.go
index 1038772..8f164d6 100644
--- a/pkg/storage/buntdb/buntdb.go
+++ b/pkg/storage/buntdb/buntdb.go
@@ -288,7 +288,7 @@ func (s *Storage) deleteLogsByCondition(ctx context.Context, req storage.DeleteL
 
 func (s *Storage) queryLogsByIDs(ctx context.Context, qr storage.QueryLogsRequest, skipMarkedDeleted bool) (*solaris.QueryLogsResult, error) {
 	limit := min(int(qr.Limit), 1000)
-	if qr.Limit == 0 {
+	if qr.Limit <= 0 {
 		limit = 50
 	}
 
@@ -350,7 +350,7 @@ func (s *Storage) queryLogsByCondition(ctx context.Context, qr storage.QueryLogs
 	}
 
 	limit := min(int(qr.Limit), 1000)
-	if qr.Limit == 0 {
+	if qr.Limit <= 0 {
 		limit = 50
 	}
 
-- 
2.43.0


From dfc1847e18f3ed7369c8587de312468029babf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:06 +0000
Subject: [PATCH 30/39] fix: UnzipToFolder wrote files outside of the
 destination folder

An entry of the archive with a name like ../x was written there, whoever made
the archive could overwrite any file. Such a name is an error now.
---
 golibs/files/files.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/golibs/files/files.go b/golibs/files/files.go
index bdab0f4..6248f61 100644
--- a/golibs/files/files.go
+++ b/golibs/files/files.go
@@ -198,6 +198,10 @@ func UnzipToFolder(zipFile, destDir string) error {
 		if z.FileInfo().IsDir() {
 			continue
 		}
+		// the name comes from the archive, it must not lead out of the destDir
+		if !filepath.IsLocal(filepath.Join(".", z.Name)) {
+			return fmt.Errorf("UnzipToFolder: the name %q is out of the dest dir: %w", z.Name, errors.ErrInvalid)
+		}
 
 		partPath, _ := filepath.Split(z.Name)
 		destPath := filepath.Join(destDir, partPath)
-- 
2.43.0


From 4efe3549549993fce3a496c75379cbd0742bd2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:06 +0000
Subject: [PATCH 31/39] fix: ZipFolder gave no error when a file could not be
 written completely

---
 golibs/files/files.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/golibs/files/files.go b/golibs/files/files.go
index 6248f61..b524d42 100644
--- a/golibs/files/files.go
+++ b/golibs/files/files.go
@@ -170,11 +170,16 @@ func ZipFolder(srcDir, destFile string, testFunc func(string) bool, recursive bo
 		if err != nil {
 			return fmt.Errorf("ZipFolder: could not write %s into %s, err=%w", path, dstFileName, err)
 		}
-		io.Copy(out, in)
+		_, err = io.Copy(out, in)
 		in.Close()
+		if err != nil {
+			return fmt.Errorf("ZipFolder: could not write %s into %s, err=%w", path, dstFileName, err)
+		}
 		return nil
 	})
-	w.Close()
+	if err1 := w.Close(); err == nil {
+		err = err1
+	}
 	if err != nil {
 		os.Remove(destFile)
 	}
-- 
2.43.0


From 4ed54871d1368ac2778934bef0ab9812f95f4492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:06 +0000
Subject: [PATCH 32/39] fix: ZipCopy gave no error when a file could not be
 copied

---
 golibs/files/ziputil.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/golibs/files/ziputil.go b/golibs/files/ziputil.go
index 0ad3417..e51d638 100644
--- a/golibs/files/ziputil.go
+++ b/golibs/files/ziputil.go
@@ -132,8 +132,11 @@ func ZipCopy(zw *ZipWriter, zi ZipIterator, prefix string) error {
 		if err != nil {
 			return fmt.Errorf("could not open file %s: %w", f.Name, err)
 		}
-		io.Copy(w, in)
+		_, err = io.Copy(w, in)
 		in.Close()
+		if err != nil {
+			return fmt.Errorf("could not copy file %s: %w", f.Name, err)
+		}
 	}
 	return nil
 }
-- 
2.43.0


From d77862f19fe771ffcafd3d5f98e00b0b638e7460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:06 +0000
Subject: [PATCH 33/39] fix: a file was left open when an archive could not be
 read or written

---
 golibs/files/ziputil.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/golibs/files/ziputil.go b/golibs/files/ziputil.go
index e51d638..22c7c2a 100644
--- a/golibs/files/ziputil.go
+++ b/golibs/files/ziputil.go
@@ -58,6 +58,7 @@ func NewZipIterator(zipFile string) (ZipIterator, error) {
 
 	zr, err := zip.NewReader(f, fi.Size())
 	if err != nil {
+		f.Close()
 		return nil, err
 	}
 	return &zipIterator{zr: zr, idx: 0, f: f}, nil
@@ -113,8 +114,10 @@ func (zw *ZipWriter) Close() error {
 	}
 	err := zw.zw.Close()
 	zw.zw = nil
-	if err == nil && zw.f != nil {
-		err = zw.f.Close()
+	if zw.f != nil {
+		if err1 := zw.f.Close(); err == nil {
+			err = err1
+		}
 		zw.f = nil
 	}
 	return err
-- 
2.43.0


From ac9104ecadc4b723046715c292b9ae65c5ebb7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:34 +0000
Subject: [PATCH 34/39] fix: a file which could not grow was closed, and the
 records of its chunk were lost

---
 golibs/files/mmfile.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/golibs/files/mmfile.go b/golibs/files/mmfile.go
index 570d0da..003af92 100644
--- a/golibs/files/mmfile.go
+++ b/golibs/files/mmfile.go
@@ -127,20 +127,34 @@ func (mmf *MMFile) Grow(newSize int64) (err error) {
 		return err
 	}
 
+	if mmf.f == nil {
+		return errors.ErrClosed
+	}
+
 	mmf.unmap()
 
-	if err = mmf.f.Truncate(newSize); err != nil {
-		mmf.Close()
-		return fmt.Errorf("could not extend file size to %d: %w", newSize, err)
+	if err = mmf.mapTo(newSize); err != nil {
+		// return to the state before the call, the data already mapped must stay available
+		if err1 := mmf.mapTo(mmf.size); err1 != nil {
+			mmf.Close()
+		}
+		return err
 	}
+	mmf.size = newSize
+	return nil
+}
 
-	mmf.mf, err = mmap.MapRegion(mmf.f, int(newSize), mmap.RDWR, 0, 0)
+// mapTo sets the file size and maps the whole file
+func (mmf *MMFile) mapTo(size int64) error {
+	if err := mmf.f.Truncate(size); err != nil {
+		return fmt.Errorf("could not set file size to %d: %w", size, err)
+	}
+	mf, err := mmap.MapRegion(mmf.f, int(size), mmap.RDWR, 0, 0)
 	if err != nil {
-		mmf.Close()
 		return err
 	}
-	mmf.size = newSize
-	return
+	mmf.mf = mf
+	return nil
 }
 
 // Flush allows to sync the mapped file to the disk. The operation can be long, so should be called often
-- 
2.43.0


From 2edd182dda9fa54cb69f888710053ae137a6017d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:36 +0000
Subject: [PATCH 35/39] fix: a hash changed with the buffer it was made of

---
 golibs/strutil/hash.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golibs/strutil/hash.go b/golibs/strutil/hash.go
index f0685aa..025e01f 100644
--- a/golibs/strutil/hash.go
+++ b/golibs/strutil/hash.go
@@ -69,7 +69,7 @@ func createHash(buf []byte, create bool) (hash, error) {
 	}
 	res := buf
 	if create {
-		res := make([]byte, len(buf))
+		res = make([]byte, len(buf))
 		copy(res, buf)
 	}
 	return hash{res, base64.URLEncoding.EncodeToString(res)}, nil
-- 
2.43.0


From b9ac5c7a622ecaa60f10f082bcc4dde5e04d5ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:36 +0000
Subject: [PATCH 36/39] fix: an element which is in both slices could be in the
 difference of them

---
 golibs/container/sliceutils.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/golibs/container/sliceutils.go b/golibs/container/sliceutils.go
index a68fe3e..a5bdf1f 100644
--- a/golibs/container/sliceutils.go
+++ b/golibs/container/sliceutils.go
@@ -64,15 +64,18 @@ func SliceExcludeOverlaps[V comparable](s1, s2 []V) ([]V, []V) {
 	}
 	uniqueS2 := []V{}
 	for _, v := range s2 {
-		if m[v] {
-			delete(m, v)
+		if _, ok := m[v]; ok {
+			// keep it in the map, it can be in s2 more than once
+			m[v] = false
 		} else {
 			uniqueS2 = append(uniqueS2, v)
 		}
 	}
 	uniqueS1 := make([]V, 0, len(m))
-	for v := range m {
-		uniqueS1 = append(uniqueS1, v)
+	for v, unique := range m {
+		if unique {
+			uniqueS1 = append(uniqueS1, v)
+		}
 	}
 	return uniqueS1, uniqueS2
 }
-- 
2.43.0


From e0595b1b250b57195e389ef3f81dc1fb2ff5cb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:46 +0000
Subject: [PATCH 37/39] fix: records put together in Redis kept the version
 they came with

---
 golibs/kvs/redis/redis.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/golibs/kvs/redis/redis.go b/golibs/kvs/redis/redis.go
index 76d8d34..66ab1eb 100644
--- a/golibs/kvs/redis/redis.go
+++ b/golibs/kvs/redis/redis.go
@@ -99,6 +99,7 @@ func (c *client) PutMany(ctx context.Context, records []kvs.Record) error {
 			mset = nil
 			break
 		}
+		r.Version = ulidutils.NewID()
 		mset = append(mset, rKey(r.Key))
 		mset = append(mset, cast.ByteArrayToString(rec2db(&r)))
 	}
-- 
2.43.0


From e36b95df2f9ea2b2629d8356a174ed2ee6b216d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:47 +0000
Subject: [PATCH 38/39] fix: a record of Redis changed by someone else was not
 reported as a conflict

---
 golibs/kvs/redis/redis.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/golibs/kvs/redis/redis.go b/golibs/kvs/redis/redis.go
index 66ab1eb..f78a59e 100644
--- a/golibs/kvs/redis/redis.go
+++ b/golibs/kvs/redis/redis.go
@@ -135,6 +135,10 @@ func (c *client) CasByVersion(ctx context.Context, record kvs.Record) (kvs.Recor
 		})
 		return err
 	}, key)
+	if err == redis.TxFailedErr {
+		// the record was changed after it had been read
+		err = errors.ErrConflict
+	}
 	return record, err
 }
 
-- 
2.43.0


From 8aced5e9b6785b309e0850dbbfb210a5a9bdc18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:28 +0000
Subject: [PATCH 39/39] fix: keys of S3 with . or .. were taken for other keys

---
 golibs/sss/s3/storage.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/golibs/sss/s3/storage.go b/golibs/sss/s3/storage.go
index 6830353..0309349 100755
--- a/golibs/sss/s3/storage.go
+++ b/golibs/sss/s3/storage.go
@@ -42,7 +42,8 @@ func (st *Storage) Init(_ context.Context) error {
 	if err != nil {
 		return fmt.Errorf("could not initialize Storage, bucket=%s: %w", st.Bucket, err)
 	}
-	st.client = s3.New(newSession)
+	// a key is what it is, "/a/./b" and "/a/b" are different objects
+	st.client = s3.New(newSession, &aws.Config{DisableRestProtocolURICleaning: aws.Bool(true)})
 	return nil
 }
 
-- 
2.43.0

