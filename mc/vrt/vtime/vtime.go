// Package vtime models the parts of package time that depend on the clock.
package vtime

import (
	"time"

	"vrt"
)

//go:norace
func at(ns int64) time.Time { return time.Unix(vrt.Base, ns) }

// Virtual converts a virtual instant to time.Time, FromTime converts back.
//
//go:norace
func Virtual(ns int64) time.Time { return at(ns) }

// FromTime converts a time.Time made from the virtual clock to ns since start.
//
//go:norace
func FromTime(t time.Time) int64 { return t.UnixNano() - vrt.Base*1e9 }

//go:norace
func Now() time.Time { return at(vrt.Now()) }

//go:norace
func Since(t time.Time) time.Duration { return Now().Sub(t) }

//go:norace
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

//go:norace
func Sleep(d time.Duration) {
	if d <= 0 {
		vrt.Yield()
		return
	}
	vrt.SleepUntil(vrt.Now() + int64(d))
}

// Timer models time.Timer.
type Timer struct {
	C *vrt.Chan[time.Time]
	h vrt.TimerHandle
	f func()
}

//go:norace
func (t *Timer) start(d time.Duration) {
	if t.f != nil {
		f := t.f
		t.h = vrt.AddTimer(vrt.Now()+int64(d), func() { vrt.Go(f) })
		return
	}
	c := t.C
	t.h = vrt.AddTimer(vrt.Now()+int64(d), func() { c.TimerSend(at(vrt.PeekNow())) })
}

//go:norace
func NewTimer(d time.Duration) *Timer {
	t := &Timer{C: vrt.MakeChan[time.Time](1)}
	t.start(d)
	return t
}

//go:norace
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

//go:norace
func (t *Timer) Stop() bool {
	vrt.Point("Timer.Stop", nil)
	vrt.Event(nil, 0x57)
	r := t.h.Stop()
	if t.C != nil {
		t.C.Drain()
	}
	return r
}

//go:norace
func (t *Timer) Reset(d time.Duration) bool {
	r := t.Stop()
	t.start(d)
	return r
}

//go:norace
func After(d time.Duration) *vrt.Chan[time.Time] { return NewTimer(d).C }

// Ticker models time.Ticker.
type Ticker struct {
	C *vrt.Chan[time.Time]
	d time.Duration
	h vrt.TimerHandle
	n int64
	x bool
}

//go:norace
func (t *Ticker) arm(when int64) {
	t.n = when
	t.h = vrt.AddTimer(when, func() {
		if t.x {
			return
		}
		t.C.TimerSend(at(vrt.PeekNow()))
		t.arm(when + int64(t.d))
	})
}

//go:norace
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &Ticker{C: vrt.MakeChan[time.Time](1), d: d}
	t.arm(vrt.Now() + int64(d))
	return t
}

//go:norace
func (t *Ticker) Stop() {
	vrt.Point("Ticker.Stop", nil)
	vrt.Event(nil, 0x58)
	t.x = true
	t.h.Stop()
}

//go:norace
func (t *Ticker) Reset(d time.Duration) {
	t.h.Stop()
	t.x = false
	t.d = d
	t.arm(vrt.Now() + int64(d))
}

//go:norace
func Tick(d time.Duration) *vrt.Chan[time.Time] { return NewTicker(d).C }
