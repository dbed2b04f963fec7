// Package vcontext stands in for package context in code under the controlled scheduler.
package vcontext

import (
	"context"
	"time"

	"verif.local/vs"
)

type (
	Context         = context.Context
	CancelFunc      = context.CancelFunc
	CancelCauseFunc = context.CancelCauseFunc
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

//go:norace
func Background() Context { return context.Background() }

//go:norace
func TODO() Context { return context.TODO() }

type ctx struct {
	parent   Context
	done     chan struct{}
	err      error
	cause    error
	children []*ctx
	deadline time.Time
	hasDl    bool
	key, val any
	isVal    bool
}

//go:norace
func (c *ctx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.deadline, true
	}
	return c.parent.Deadline()
}

//go:norace
func (c *ctx) Done() <-chan struct{} {
	if c.isVal {
		return c.parent.Done()
	}
	return c.done
}

//go:norace
func (c *ctx) Err() error {
	if c.isVal {
		return c.parent.Err()
	}
	return c.err
}

//go:norace
func (c *ctx) Value(k any) any {
	if c.isVal && c.key == k {
		return c.val
	}
	return c.parent.Value(k)
}

//go:norace
func owner(p Context) *ctx {
	for {
		c, ok := p.(*ctx)
		if !ok {
			return nil
		}
		if !c.isVal {
			return c
		}
		p = c.parent
	}
}

//go:norace
func (c *ctx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	vs.Close(c.done)
	for _, k := range c.children {
		k.cancel(err, cause)
	}
	c.children = nil
}

//go:norace
func newCtx(parent Context) *ctx {
	c := &ctx{parent: parent, done: make(chan struct{})}
	if o := owner(parent); o != nil {
		if o.err != nil {
			c.cancel(o.err, o.cause)
		} else {
			o.children = append(o.children, c)
		}
	}
	return c
}

//go:norace
func WithCancel(parent Context) (Context, CancelFunc) {
	c := newCtx(parent)
	return c, func() {
		if !vs.Out() {
			c.cancel(Canceled, nil)
		}
	}
}

//go:norace
func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(e error) {
		if !vs.Out() {
			c.cancel(Canceled, e)
		}
	}
}

//go:norace
func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	c := newCtx(parent)
	c.hasDl = true
	if vs.S != nil {
		c.deadline = time.Unix(0, vs.S.Now).Add(d)
		s := vs.S
		party := vs.Cur().Party
		s.AddTimer(int64(d), func() {
			s.Spawn(party, "ctx timeout", func() { c.cancel(DeadlineExceeded, nil) })
		})
	}
	return c, func() {
		if !vs.Out() {
			c.cancel(Canceled, nil)
		}
	}
}

//go:norace
func WithDeadline(parent Context, t time.Time) (Context, CancelFunc) {
	now := time.Unix(0, 0)
	if vs.S != nil {
		now = time.Unix(0, vs.S.Now)
	}
	return WithTimeout(parent, t.Sub(now))
}

//go:norace
func WithValue(parent Context, k, v any) Context {
	return &ctx{parent: parent, key: k, val: v, isVal: true}
}

//go:norace
func Cause(c Context) error {
	if o := owner(c); o != nil {
		return o.cause
	}
	return context.Cause(c)
}

//go:norace
func WithoutCancel(parent Context) Context { return &ctx{parent: Background(), done: nil} }
