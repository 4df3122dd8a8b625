package context

import (
	ctx "context"
	"errors"
	"time"

	errors2 "github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/verifsym"
)

const ms = time.Millisecond

var errOne, errTwo = errors.New("one"), errors.New("two")

type keyT string

// at is a time from 20 ms to 1 s
func at(n string) time.Duration { return time.Duration(verifsym.Int64(n, 1, 50)) * 20 * ms }

func closed(c ctx.Context) bool {
	select {
	case _, ok := <-c.Done():
		verifsym.Assert(!ok, "context: nothing is sent to the channel of a context")
		return true
	default:
		return false
	}
}

// look checks what can be seen of a context at any time
func look(c ctx.Context, msg string) error {
	before := closed(c)
	err := c.Err()
	verifsym.Assert(!before || err != nil, "context: a context which is done has an error")
	verifsym.Assert(err == nil || closed(c), "context: a context with an error is done")
	return err
}

// 3 goroutines: two cancel a context with an error of their own, or with nil, or cancel its parent, once or twice, the third one looks at it and waits for it; every schedule which delays a goroutine up to 2 times. The context is done, has the error of one of them for good and no goroutine is left
//
//sym:harness prop=C34 budget=80s reach=end,own,nil,parent repeat=100 validate=2
func HCancelErr() { cancelErr(2) }

// as HCancelErr with up to 4 delays
//
//sym:harness prop=C34 tier=thorough budget=900s reach=end,own,nil,parent repeat=100 validate=2
func HCancelErrDeep() { cancelErr(4) }

func cancelErr(preempt int) {
	parent, pcf := ctx.WithCancel(ctx.WithValue(ctx.Background(), keyT("k"), "v"))
	defer pcf()
	c, cf := WithCancelError(parent)
	verifsym.Assert(c.Err() == nil && !closed(c), "context: a new context is not done")
	errs := []error{errOne, errTwo, nil}
	want := []error{errOne, errTwo, errors2.ErrClosed, ctx.Canceled}
	a, b := verifsym.Choose("a", 4), verifsym.Choose("b", 4)
	twice := verifsym.Choose("twice", 2) == 1
	cancel := func(i int) {
		if i == 3 {
			pcf()
			return
		}
		cf(errs[i])
		verifsym.Assert(look(c, "") != nil, "context: a cancelled context is done")
	}
	var seen error
	verifsym.Delays(preempt)
	verifsym.Parallel(
		func() {
			cancel(a)
			if twice {
				cancel((a + 1) % 3)
			}
		},
		func() { cancel(b) },
		func() {
			first := look(c, "")
			<-c.Done()
			seen = look(c, "")
			verifsym.Assert(seen != nil && (first == nil || first == seen), "context: the first error is kept")
		})
	err := look(c, "")
	verifsym.Assert(err == seen, "context: the first error is kept")
	ok := err == want[a] || err == want[b] || twice && err == want[(a+1)%3]
	verifsym.Assert(ok, "context: the error is the one the context was cancelled with")
	cf(errors.New("late"))
	pcf()
	verifsym.Assert(c.Value(keyT("k")) == "v" && c.Value(keyT("x")) == nil, "context: values are the parent's")
	verifsym.Assert(verifsym.Goroutines() == 0, "context: no goroutine is left")
	verifsym.Assert(look(c, "") == err, "context: the first error is kept")
	switch err {
	case ctx.Canceled:
		verifsym.Reach("parent")
	case errors2.ErrClosed:
		verifsym.Reach("nil")
	default:
		verifsym.Reach("own")
	}
	verifsym.Reach("end")
}

// a context with an error of its own in a context of the same kind in one with a timeout; each is cancelled, by the timeout or the caller, at any multiple of 20 ms up to 1 s, or never, looked at twice at any times in between: every context is done from the first of its own and its parent's time on, with the error of it, not before
//
//sym:harness prop=C34 budget=80s reach=end,timeout,own,outer validate=2
func HCancelTimes() {
	start := time.Now()
	tp, to, ti := at("timeout"), at("outer"), at("inner")
	parent, pcf := ctx.WithTimeout(ctx.WithValue(ctx.Background(), keyT("k"), "v"), tp)
	defer pcf()
	outer, ocf := WithCancelError(parent)
	inner, icf := WithCancelError(outer)
	no := verifsym.Choose("not", 3)
	if no != 1 {
		time.AfterFunc(to-5*ms, func() { ocf(errOne) })
	}
	if no != 2 {
		time.AfterFunc(ti-8*ms, func() { icf(nil) })
	}
	d, ok := inner.Deadline()
	pd, _ := parent.Deadline()
	verifsym.Assert(ok && d.Equal(pd), "context: the deadline is the parent's")
	verifsym.Assert(inner.Value(keyT("k")) == "v", "context: values are the parent's")
	var before [2]error
	check := func() {
		now := time.Since(start)
		for i, c := range []ctx.Context{outer, inner} {
			err := look(c, "")
			first, want := tp, ctx.DeadlineExceeded
			if no != 1 && to-5*ms < first {
				first, want = to-5*ms, errOne
			}
			if i == 1 && no != 2 && ti-8*ms < first {
				first, want = ti-8*ms, errors2.ErrClosed
			}
			if now < first {
				verifsym.Assert(err == nil, "context: a context is not done before it is cancelled")
			} else {
				verifsym.Assert(err == want, "context: a context is done once it or its parent is cancelled, with the first error")
			}
			verifsym.Assert(before[i] == nil || before[i] == err, "context: the error is kept")
			before[i] = err
			if err == ctx.DeadlineExceeded {
				verifsym.Reach("timeout")
			} else if err == errOne && i == 1 {
				verifsym.Reach("outer")
			} else if err == errors2.ErrClosed {
				verifsym.Reach("own")
			}
		}
	}
	time.Sleep(at("look") - 12*ms)
	check()
	time.Sleep(time.Until(start.Add(1100 * ms)))
	check()
	ocf(errTwo)
	icf(errTwo)
	check()
	verifsym.Assert(verifsym.Goroutines() == 0, "context: no goroutine is left")
	verifsym.Reach("end")
}

// a context of a channel which is closed at any multiple of 20 ms up to 1 s, looked at at any such time; and a sleep in it, in a context with an error of its own or in one with a timeout, of any time from -20 ms to 1 s: it ends with nil when the time has passed or with the error of the context as soon as this is done
//
//sym:harness prop=C34 budget=60s reach=slept,woken,done validate=2
func HSleep() {
	tc := at("close") - 5*ms
	d := time.Duration(verifsym.Int64("sleep", -1, 50)) * 20 * ms
	start := time.Now()
	var c ctx.Context
	var want error
	switch verifsym.Choose("kind", 3) {
	case 0:
		ch := make(chan struct{})
		c, want = WrapChannel(ch), errors2.ErrClosed
		time.AfterFunc(tc, func() { close(ch) })
		_, ok := c.Deadline()
		verifsym.Assert(!ok && c.Value(keyT("k")) == nil, "context: a channel has neither values nor a deadline")
	case 1:
		var cf CancelErrFunc
		c, cf = WithCancelError(ctx.Background())
		want = errOne
		time.AfterFunc(tc, func() { cf(errOne) })
	case 2:
		var cf ctx.CancelFunc
		c, cf = ctx.WithTimeout(ctx.Background(), tc)
		defer cf()
		want = ctx.DeadlineExceeded
	}
	if verifsym.Choose("first", 2) == 1 {
		time.Sleep(at("wait") - 12*ms)
		err := look(c, "")
		verifsym.Assert((err != nil) == (time.Since(start) >= tc), "context: a context is done exactly from the time on it ends")
	}
	was := c.Err() != nil
	from := time.Now()
	err := Sleep(c, d)
	took := time.Since(from)
	if err == nil {
		verifsym.Assert(took >= d, "context: a sleep does not end before its time")
		verifsym.Assert(took < d+300*ms || took < 300*ms, "context: a sleep ends in time")
		verifsym.Assert(!was || d <= 0, "context: a sleep in a context which is done fails")
		verifsym.Reach("slept")
	} else {
		verifsym.Assert(errors.Is(err, want) && c.Err() != nil, "context: a sleep ends with the error of the context")
		verifsym.Assert(was || time.Since(start) < tc+300*ms, "context: a sleep ends as soon as the context is done")
		verifsym.Assert(!was || took < 300*ms, "context: a sleep in a context which is done ends at once")
		verifsym.Reach("woken")
	}
	time.Sleep(time.Until(start.Add(1100 * ms)))
	verifsym.Assert(look(c, "") != nil && errors.Is(c.Err(), want), "context: a context is done once it is cancelled")
	verifsym.Assert(verifsym.Goroutines() == 0, "context: no goroutine is left")
	verifsym.Reach("done")
}

// a nil parent
//
//sym:harness prop=C34 budget=10s validate=1
func HNil() {
	verifsym.Assert(verifsym.Try(func() { WithCancelError(nil) }) != "", "context: there is no context without a parent")
}
