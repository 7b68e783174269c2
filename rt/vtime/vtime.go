// Package vtime stands in for time with a virtual clock.
package vtime

import (
	realtime "time"

	"verif/vs"
)

// Clock is the virtual time outside a controlled run; Sleep advances it. Step is added
// on every reading.
var (
	Clock = realtime.Date(2024, 1, 2, 3, 4, 5, 0, realtime.UTC)
	Step  realtime.Duration
)

func Now() Time {
	if t, ok := vs.Now(); ok {
		return t
	}
	Clock = Clock.Add(Step)
	return Clock
}

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }

func Sleep(d Duration) {
	if vs.Sleep(d) {
		return
	}
	if d > 0 {
		Clock = Clock.Add(d)
	}
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

type Timer struct {
	C    <-chan Time
	c    chan Time
	f    func()
	stop func() bool
}

func (t *Timer) start(d Duration) {
	if !vs.Active() {
		if t.f != nil {
			f := t.f
			rt := realtime.AfterFunc(d, f)
			t.stop = rt.Stop
			return
		}
		Clock = Clock.Add(d)
		select {
		case t.c <- Clock:
		default:
		}
		t.stop = func() bool { return false }
		return
	}
	t.stop = vs.Timer(d, func() {
		if t.f != nil {
			vs.Go("timer", t.f)
			return
		}
		n, _ := vs.Now()
		vs.Deliver(t.c, n)
	})
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

func (t *Timer) Stop() bool {
	if t.stop == nil {
		return false
	}
	return t.stop()
}

func (t *Timer) Reset(d Duration) bool {
	was := t.Stop()
	t.start(d)
	return was
}

type Ticker struct {
	C    <-chan Time
	c    chan Time
	d    Duration
	stop func() bool
}

func (t *Ticker) arm() {
	t.stop = vs.Timer(t.d, func() {
		n, _ := vs.Now()
		vs.Deliver(t.c, n)
		t.arm()
	})
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.arm()
	return t
}

func (t *Ticker) Stop() {
	if t.stop != nil {
		t.stop()
	}
}

func (t *Ticker) Reset(d Duration) { t.Stop(); t.d = d; t.arm() }

func Tick(d Duration) <-chan Time { return NewTicker(d).C }
