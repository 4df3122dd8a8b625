package main

import (
	"fmt"
	"os"
	"sort"
	"sync"
	"time"
)

// query profile, printed with GOSYM_PROF=1
var profOn = os.Getenv("GOSYM_PROF") != ""
var profMu sync.Mutex
var prof = map[string]*profE{}

type profE struct {
	n   int
	d   time.Duration
	max time.Duration
}

func profAdd(w string, d time.Duration) {
	profMu.Lock()
	defer profMu.Unlock()
	e := prof[w]
	if e == nil {
		e = &profE{}
		prof[w] = e
	}
	e.n++
	e.d += d
	if d > e.max {
		e.max = d
	}
}

func profPrint() {
	var ks []string
	for k := range prof {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return prof[ks[i]].d > prof[ks[j]].d })
	for i, k := range ks {
		if i > 25 {
			break
		}
		e := prof[k]
		fmt.Printf("PROF %8.2fs n=%-6d max=%.2fs %s\n", e.d.Seconds(), e.n, e.max.Seconds(), clip(k, 220))
	}
}

var profSlow = func() time.Duration {
	if d, err := time.ParseDuration(os.Getenv("GOSYM_SLOW")); err == nil {
		return d
	}
	return 3 * time.Second
}()

func (t *Term) short(d int) string {
	if t == nil {
		return "nil"
	}
	if t.op == OConst {
		return fmt.Sprint(sx(t.val, max(t.w, 1)))
	}
	if t.op == OVar {
		return t.name
	}
	if d == 0 {
		return "..."
	}
	s := fmt.Sprintf("(%d:%d%s", t.op, t.w, t.name)
	for i, a := range t.args {
		if len(t.coefs) > i {
			s += fmt.Sprintf(" %d*", sx(t.coefs[i], 64))
		}
		s += " " + a.short(d-1)
	}
	if t.op == OLin {
		s += fmt.Sprintf(" + %d", sx(t.val, max(t.w, 1)))
	}
	return s + ")"
}
