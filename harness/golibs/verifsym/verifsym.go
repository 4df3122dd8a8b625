// Package verifsym is the harness vocabulary of the solver-based checks. Under the symbolic engine the functions
// are intercepted; compiled natively they read the values of a concrete case (a solver model) and replay it.
package verifsym

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

// Case is one concrete assignment to replay.
type Case struct {
	Harness string
	Inputs  map[string]string // name#k -> value (decimal, true/false or hex)
	Repeat  int
	Timeout int // milliseconds, 0 for the usual
	FailAt  int // the native call which fails
}

// Result is the native outcome of a case.
type Result struct {
	Index   int
	Harness string
	Status  string // ok, assume, fail, panic, timeout
	Msg     string
	Obs     []string
	Missing int
}

type assumeFailed struct{}
type assertFailed struct{ msg string }

type state struct {
	oneTmp     bool
	goroutines int
	mu         sync.Mutex
	in         map[string]string
	cnt        map[string]int
	obs        []string
	missing    int
	failed     string
	tmp        []string
	realIDs    bool
	failAt     int
}

var cur = &state{in: map[string]string{}, cnt: map[string]int{}}

func (s *state) get(name string) (string, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	k := name + "#" + strconv.Itoa(s.cnt[name])
	s.cnt[name]++
	v, ok := s.in[k]
	if !ok {
		s.missing++
	}
	return v, ok
}

// Symbolic reports whether the code runs under the symbolic engine.
func Symbolic() bool { return false }

func Int(name string, lo, hi int) int {
	v, ok := cur.get(name)
	if !ok {
		return lo
	}
	n, _ := strconv.ParseInt(v, 10, 64)
	return int(n)
}
func Int64(name string, lo, hi int64) int64 { return int64(Int(name, int(lo), int(hi))) }
func AnyInt(name string) int                { return Int(name, 0, 0) }
func AnyInt32(name string) int32            { return int32(Int(name, 0, 0)) }
func Uint64(name string) uint64 {
	v, _ := cur.get(name)
	n, _ := strconv.ParseUint(v, 10, 64)
	return n
}
func Uint32(name string) uint32 { return uint32(Uint64(name)) }
func Uint16(name string) uint16 { return uint16(Uint64(name)) }
func Byte(name string) byte     { return byte(Uint64(name)) }
func Bool(name string) bool {
	v, _ := cur.get(name)
	return v == "true"
}

// Choose is a nondeterministic choice out of n.
func Choose(name string, n int) int { return Int(name, 0, n-1) }

// Bytes returns a slice of length n with arbitrary content.
func Bytes(name string, n int) []byte {
	v, _ := cur.get(name)
	b, _ := hex.DecodeString(v)
	res := make([]byte, n)
	copy(res, b)
	return res
}
func String(name string, n int) string { return string(Bytes(name, n)) }
func ULID(name string) [16]byte {
	var r [16]byte
	copy(r[:], Bytes(name, 16))
	return r
}

func Assume(b bool) {
	if !b {
		panic(assumeFailed{})
	}
}

// Assert states the property.
func Assert(b bool, msg string) {
	if !b {
		Fail(msg)
	}
}

func Fail(msg string) {
	cur.mu.Lock()
	if cur.failed == "" {
		cur.failed = msg
	}
	cur.mu.Unlock()
	panic(assertFailed{msg})
}

// Reach marks a point that must be reachable (vacuity witness).
func Reach(label string) {}

// Tag has no effect.
func Tag(string) {}

func And(bs ...bool) bool {
	for _, b := range bs {
		if !b {
			return false
		}
	}
	return true
}
func Or(bs ...bool) bool {
	for _, b := range bs {
		if b {
			return true
		}
	}
	return false
}
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func Concretize(n int) int { return n }
func Branch(b bool) bool   { return b }
func Schedule(preempt int) {}

// Delays explores the schedules which are those in turn but for n choices: a preemption or another goroutine than the next
// one when one blocks or ends.
func Delays(n int)         {}
func Races()               {}
func MapOrder()            {}
func Kill([]byte, string)  {}
func AdvanceClock(d int64) {}

// TimePasses lets timers fire (and the clock go to their time) while goroutines run, each such time is a preemption.
func TimePasses() {}

// ClockTick is what every reading of the engine's clock adds to it.
func ClockTick(d int64) {}

// nextULID is what ulid.Make returns in a native replay.
func nextULID() (r [16]byte, ok bool) {
	s := cur
	if s.realIDs {
		pc := make([]uintptr, 6)
		fr := runtime.CallersFrames(pc[:runtime.Callers(2, pc)])
		for {
			f, more := fr.Next()
			if strings.HasSuffix(f.Function, "ulidutils.NewID") {
				return r, false
			}
			if !more {
				break
			}
		}
	}
	s.mu.Lock()
	k := "ulidMake#" + strconv.Itoa(s.cnt["ulidMake"])
	v, ok := s.in[k]
	if ok {
		s.cnt["ulidMake"]++
	}
	s.mu.Unlock()
	if ok {
		b, _ := hex.DecodeString(v)
		copy(r[:], b)
	}
	return r, ok
}

// RealNewIDs tells that the harness replaces ulidutils.NewID in the engine: natively it makes ids of its own.
func RealNewIDs() { cur.realIDs = true }

// FixedIDs tells that the ids made are some concrete ones, where their values do not matter.
func FixedIDs() {}

// Observe records values which must be equal in the symbolic and the native run.
func Observe(name string, vs ...any) {
	cur.mu.Lock()
	defer cur.mu.Unlock()
	for _, v := range vs {
		cur.obs = append(cur.obs, name+"="+Format(v))
	}
}

func Format(v any) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case bool:
		return strconv.FormatBool(x)
	case string:
		return "s:" + hex.EncodeToString([]byte(x))
	case []byte:
		return "s:" + hex.EncodeToString(x)
	case [16]byte:
		return "s:" + hex.EncodeToString(x[:])
	case error:
		return "err"
	}
	s := fmt.Sprintf("%d", v)
	if strings.HasPrefix(s, "%!") {
		return "?"
	}
	return s
}

// Try runs f and returns the text of its panic ("" if none).
func Try(f func()) (res string) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case assumeFailed, assertFailed:
				panic(r)
			}
			res = "panic"
		}
	}()
	f()
	return ""
}

var crash struct {
	on   bool
	left int
	done chan bool
}

// Crash runs f up to the crash point with the number at, where the process dies: nothing of f is executed any more. It says
// whether f has ended before.
func Crash(at int, f func()) bool {
	crash.on, crash.left, crash.done = true, at, make(chan bool)
	go func() {
		f()
		crash.on = false
		crash.done <- true
	}()
	return <-crash.done
}

// CrashPoint is called before every statement of the files named by sym:steps.
func CrashPoint() {
	if !crash.on {
		return
	}
	if crash.left <= 0 {
		crash.on = false
		crash.done <- false
		select {}
	}
	crash.left--
}

// Parallel runs all functions concurrently and waits for them. A panic of one of them is the caller's.
func Parallel(fs ...func()) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	var bad any
	wg.Add(len(fs))
	for _, f := range fs {
		f := f
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					mu.Lock()
					if bad == nil {
						bad = r
					}
					mu.Unlock()
				}
			}()
			f()
		}()
	}
	wg.Wait()
	if bad != nil {
		panic(bad)
	}
}

// Goroutines is the number of goroutines beside the caller which are left of those started by the harness, once nothing else happens.
func Goroutines() int {
	n := 0
	for i := 0; i < 100; i++ {
		if n = runtime.NumGoroutine() - cur.goroutines; n <= 0 {
			return 0
		}
		time.Sleep(10 * time.Millisecond)
	}
	return n
}

// Pause is a point where the scheduler may switch.
func Pause() {
	switch n := rand.Intn(8); n {
	case 0, 1:
	case 2, 3:
		runtime.Gosched()
	default:
		time.Sleep(time.Duration(rand.Intn(1<<(n+4))) * time.Microsecond)
	}
}

var (
	perturbing                = os.Getenv("VERIF_PERTURB") != ""
	perturbOdds, perturbSleep = 2, 1
)

// Delay is called between the statements of the code in a perturbed native run.
func Delay() {
	if !perturbing {
		return
	}
	switch rand.Intn(perturbOdds) {
	case 0:
		time.Sleep(time.Duration(rand.Intn(perturbSleep)+1) * time.Microsecond)
	case 1:
		runtime.Gosched()
	}
}

// TempDir returns a scratch directory removed after the case.
func TempDir() string {
	if Symbolic() {
		return "/sym"
	}
	if len(cur.tmp) > 0 && cur.oneTmp {
		return cur.tmp[0]
	}
	d, err := os.MkdirTemp(tempBase, "verifcase")
	if err != nil {
		panic(err)
	}
	cur.tmp = append(cur.tmp, d)
	return d
}

var tempBase string

// Unprivileged makes the native process an unprivileged user (for good), who can write nothing but scratch files; TempDir
// returns the same directory for the whole case.
func Unprivileged() {
	if Symbolic() {
		return
	}
	cur.oneTmp = true
	if os.Getuid() != 0 {
		return
	}
	d, err := os.MkdirTemp("/tmp", "verifuser")
	if err == nil {
		err = os.Chmod(d, 0777)
	}
	if err == nil {
		err = os.WriteFile(os.Getenv("VERIF_OUT")+".user", []byte(d), 0644) // who removes it
	}
	if err == nil {
		err = syscall.Setgroups(nil)
	}
	if err == nil {
		err = syscall.Setgid(65534)
	}
	if err == nil {
		err = syscall.Setuid(65534)
	}
	if err != nil {
		panic(err)
	}
	tempBase = d
}

// RunReplay replays all the cases of the file named by VERIF_CASES.
func RunReplay(hs map[string]func()) {
	buf, err := os.ReadFile(os.Getenv("VERIF_CASES"))
	if err != nil {
		panic(err)
	}
	var cases []Case
	if err := json.Unmarshal(buf, &cases); err != nil {
		panic(err)
	}
	out, err := os.OpenFile(os.Getenv("VERIF_OUT"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
	if err != nil {
		panic(err)
	}
	defer out.Close()
	tmo := 10 * time.Second
	if s := os.Getenv("VERIF_CASE_TIMEOUT"); s != "" {
		if d, err := time.ParseDuration(s); err == nil {
			tmo = d
		}
	}
	maxMs, _ := strconv.Atoi(os.Getenv("VERIF_REPEAT_MS"))
	for i, c := range cases {
		h := hs[c.Harness]
		if h == nil {
			continue
		}
		rep := c.Repeat
		if rep < 1 {
			rep = 1
		}
		var r Result
		began := time.Now()
		for k := 0; k < rep; k++ {
			perturbOdds, perturbSleep = 2<<rand.Intn(6), 1<<rand.Intn(9)
			t := tmo
			if c.Timeout > 0 {
				t = time.Duration(c.Timeout) * time.Millisecond
			}
			r = runCase(c, h, t)
			if maxMs > 0 && time.Since(began) > time.Duration(maxMs)*time.Millisecond/time.Duration(len(cases)) && k+1 < rep && r.Status == "ok" {
				break
			}
			if r.Status != "ok" {
				break
			}
		}
		r.Index = i
		r.Harness = c.Harness
		var b bytes.Buffer
		json.NewEncoder(&b).Encode(r)
		out.Write(b.Bytes())
	}
}

func runCase(c Case, h func(), tmo time.Duration) Result {
	os.Remove("\x00verif:a0:/")
	st := &state{failAt: c.FailAt, in: c.Inputs, cnt: map[string]int{}}
	cur = st
	st.goroutines = runtime.NumGoroutine() + 1
	res := make(chan Result, 1)
	go func() {
		var r Result
		r.Status = "ok"
		defer func() {
			if p := recover(); p != nil {
				switch x := p.(type) {
				case assumeFailed:
					r.Status = "assume"
				case assertFailed:
					r.Status = "fail"
					r.Msg = x.msg
				default:
					r.Status = "panic"
					st := string(debug.Stack())
					if len(st) > 2500 {
						st = st[:2500]
					}
					r.Msg = fmt.Sprint(p) + "\n" + st
				}
			}
			if r.Status == "ok" && st.failed != "" {
				r.Status = "fail"
				r.Msg = st.failed
			}
			res <- r
		}()
		h()
	}()
	var r Result
	select {
	case r = <-res:
	case <-time.After(tmo):
		r = Result{Status: "timeout", Msg: "no answer within " + tmo.String()}
	}
	st.mu.Lock()
	r.Obs = append([]string(nil), st.obs...)
	r.Missing = st.missing
	for _, d := range st.tmp {
		os.RemoveAll(d)
	}
	st.mu.Unlock()
	return r
}

// StringOf tells whether a (not empty) string shares its memory with the slice. The engine tells whether any string was made of its array.
func StringOf(s string, b []byte) bool {
	if len(s) == 0 || len(b) == 0 {
		return false
	}
	p, q := uintptr(unsafe.Pointer(unsafe.StringData(s))), uintptr(unsafe.Pointer(&b[0]))
	return p >= q && p < q+uintptr(len(b))
}

// SameArray tells whether two slices share their array (engine only).
func SameArray(a, b []byte) bool { return false }

// CheckSame states that two byte slices have the same content.
func CheckSame(a, b []byte, msg string) {
	Assert(len(a) == len(b), msg+" (length)")
	Assert(bytes.Equal(a, b), msg+" (bytes)")
}
