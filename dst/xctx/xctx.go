// Package xctx provides context cancellation and deadlines under the simulator.
package xctx

import (
	"context"
	"time"

	"verif.local/dst/rt"
	"verif.local/dst/xtime"
)

type ctx struct {
	context.Context
	done     chan struct{}
	err      error
	cause    error
	deadline time.Time
	hasDL    bool
	timer    *xtime.Timer
	parent   *ctx
	kids     []*ctx
	fn       func() // AfterFunc
	proc     *rt.Proc
}

func (c *ctx) Done() <-chan struct{} { return c.done }
func (c *ctx) Err() error {
	rt.YieldPoint()
	return c.err
}
func (c *ctx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	return c.Context.Deadline()
}

type keyT struct{}

func (c *ctx) Value(k any) any {
	if _, ok := k.(keyT); ok {
		return c
	}
	return c.Context.Value(k)
}

func (c *ctx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	if c.timer != nil {
		c.timer.Stop()
	}
	c.leave()
	kids := c.kids
	c.kids = nil
	if c.fn != nil {
		rt.GoNamed("", c.proc, c.fn)
	}
	rt.Close(c.done)
	for _, k := range kids {
		k.cancel(err, cause)
	}
}

func (c *ctx) leave() {
	p := c.parent
	if p == nil {
		return
	}
	for i, k := range p.kids {
		if k == c {
			p.kids = append(p.kids[:i:i], p.kids[i+1:]...)
			return
		}
	}
}

func newCtx(parent context.Context) *ctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &ctx{Context: parent, done: make(chan struct{})}
	if p, ok := parent.Value(keyT{}).(*ctx); ok {
		c.parent = p
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.kids = append(p.kids, c)
		}
	}
	return c
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	return c, func() { c.cancel(context.Canceled, nil) }
}
func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(e error) { c.cancel(context.Canceled, e) }
}
func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}
func WithDeadlineCause(parent context.Context, d time.Time, cause error) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	if pd, ok := parent.Deadline(); !ok || d.Before(pd) {
		c.deadline, c.hasDL = d, true
		if c.err == nil {
			if left := xtime.Until(d); left <= 0 {
				c.cancel(context.DeadlineExceeded, cause)
			} else {
				c.timer = xtime.AfterFunc(left, func() { c.cancel(context.DeadlineExceeded, cause) })
			}
		}
	}
	return c, func() { c.cancel(context.Canceled, nil) }
}
func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, xtime.Now().Add(d))
}
func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, xtime.Now().Add(d), cause)
}

// AfterFunc runs f in its own goroutine once parent is done.
func AfterFunc(parent context.Context, f func()) (stop func() bool) {
	started := false
	c := &ctx{Context: parent, done: make(chan struct{})}
	if g := rt.Cur(); g != nil {
		c.proc = g.Proc
	}
	c.fn = func() {
		if !started {
			started = true
			f()
		}
	}
	p, ok := parent.Value(keyT{}).(*ctx)
	if ok {
		c.parent = p
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.kids = append(p.kids, c)
		}
	}
	return func() bool {
		rt.YieldPoint()
		if c.err != nil {
			return false
		}
		c.fn = nil
		c.cancel(context.Canceled, nil)
		return true
	}
}

type withoutCancel struct{ context.Context }

func (withoutCancel) Deadline() (d time.Time, ok bool) { return }
func (withoutCancel) Done() <-chan struct{}            { return nil }
func (withoutCancel) Err() error                       { return nil }
func (c withoutCancel) Value(k any) any {
	if _, ok := k.(keyT); ok {
		return nil
	}
	return c.Context.Value(k)
}

func WithoutCancel(parent context.Context) context.Context { return withoutCancel{parent} }

func Cause(c context.Context) error {
	if x, ok := c.Value(keyT{}).(*ctx); ok {
		return x.cause
	}
	return c.Err()
}
