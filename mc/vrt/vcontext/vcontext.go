// Package vcontext models package context on virtual time and modelled channels.
package vcontext

import (
	"context"
	"time"

	"vrt"
	"vrt/vtime"
)

type Context interface {
	Deadline() (time.Time, bool)
	Done() *vrt.Chan[struct{}]
	Err() error
	Value(key any) any
}
type CancelFunc func()
type CancelCauseFunc func(error)

var Canceled = context.Canceled
var DeadlineExceeded = context.DeadlineExceeded

type ctx struct {
	parent   Context
	done     *vrt.Chan[struct{}]
	err      error
	cause    error
	dl       time.Time
	hasDl    bool
	key, val any
	kids     []*ctx
	after    func() // run in a goroutine of its own when cancelled
	timer    vrt.TimerHandle
	o        vrt.Obj
}

//go:norace
func (c *ctx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.dl, true
	}
	if c.parent != nil {
		return c.parent.Deadline()
	}
	return time.Time{}, false
}

//go:norace
func (c *ctx) Done() *vrt.Chan[struct{}] {
	if c.done != nil {
		return c.done
	}
	if c.parent != nil {
		return c.parent.Done()
	}
	return nil
}

//go:norace
func (c *ctx) Err() error {
	if c.done == nil {
		if c.parent != nil {
			return c.parent.Err()
		}
		return nil
	}
	vrt.Point("ctx.Err", nil)
	vrt.ReadEvent(&c.o, 1)
	return c.err
}

//go:norace
func (c *ctx) Value(k any) any {
	if c.key != nil && c.key == k {
		return c.val
	}
	if c.parent != nil {
		return c.parent.Value(k)
	}
	return nil
}

var bg, todo = &ctx{}, &ctx{}

//go:norace
func Background() Context { return bg }

//go:norace
func TODO() Context { return todo }

//go:norace
func WithValue(p Context, k, v any) Context {
	return &ctx{parent: p, key: k, val: v}
}

//go:norace
func (c *ctx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	c.err, c.cause = err, cause
	c.done.CloseNow()
	c.timer.Stop()
	if f := c.after; f != nil {
		c.after = nil
		vrt.Go(f)
	}
	for _, k := range c.kids {
		k.cancel(err, cause)
	}
}

//go:norace
func owner(p Context) *ctx {
	for {
		c, ok := p.(*ctx)
		if !ok || c == nil {
			return nil
		}
		if c.done != nil {
			return c
		}
		if c.parent == nil {
			return nil
		}
		p = c.parent
	}
}

//go:norace
func mk(p Context) *ctx {
	c := &ctx{parent: p, done: vrt.MakeChan[struct{}](0)}
	if o := owner(p); o != nil {
		if o.err != nil {
			c.cancel(o.err, o.cause)
		} else {
			o.kids = append(o.kids, c)
		}
	}
	return c
}

//go:norace
func (c *ctx) userCancel(cause error) {
	if vrt.Aborting() {
		return
	}
	vrt.Point("ctx cancel", nil)
	vrt.Event(&c.o, 2)
	if cause == nil {
		cause = Canceled
	}
	c.cancel(Canceled, cause)
}

//go:norace
func WithCancel(p Context) (Context, CancelFunc) {
	c := mk(p)
	return c, func() { c.userCancel(nil) }
}

//go:norace
func WithCancelCause(p Context) (Context, CancelCauseFunc) {
	c := mk(p)
	return c, func(e error) { c.userCancel(e) }
}

//go:norace
func WithDeadline(p Context, d time.Time) (Context, CancelFunc) {
	c := mk(p)
	if pd, ok := p.Deadline(); ok && pd.Before(d) {
		d = pd
	}
	c.dl, c.hasDl = d, true
	c.timer = vrt.AddTimer(vtime.FromTime(d), func() { c.cancel(DeadlineExceeded, DeadlineExceeded) })
	return c, func() { c.userCancel(nil) }
}

//go:norace
func WithTimeout(p Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(p, vtime.Now().Add(d))
}

//go:norace
func Cause(c Context) error {
	if o := owner(c); o != nil {
		return o.cause
	}
	return nil
}

// AfterFunc runs f in its own goroutine after the context is done.
//
//go:norace
func AfterFunc(p Context, f func()) (stop func() bool) {
	c := &ctx{parent: p, done: vrt.MakeChan[struct{}](0), after: f}
	if o := owner(p); o != nil {
		if o.err != nil {
			c.cancel(o.err, o.cause)
		} else {
			o.kids = append(o.kids, c)
		}
	}
	return func() bool {
		vrt.Point("ctx AfterFunc stop", nil)
		vrt.Event(&c.o, 3)
		if c.after == nil {
			return false
		}
		c.after = nil
		return true
	}
}

type detached struct{ Context }

func (detached) Deadline() (time.Time, bool) { return time.Time{}, false }
func (detached) Done() *vrt.Chan[struct{}]   { return nil }
func (detached) Err() error                  { return nil }

// WithoutCancel detaches from the parent's cancellation.
func WithoutCancel(p Context) Context { return detached{p} }

//go:norace
func WithDeadlineCause(p Context, d time.Time, cause error) (Context, CancelFunc) {
	c := mk(p)
	if pd, ok := p.Deadline(); ok && pd.Before(d) {
		d = pd
	}
	c.dl, c.hasDl = d, true
	c.timer = vrt.AddTimer(vtime.FromTime(d), func() { c.cancel(DeadlineExceeded, cause) })
	return c, func() { c.userCancel(nil) }
}

//go:norace
func WithTimeoutCause(p Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(p, vtime.Now().Add(d), cause)
}
