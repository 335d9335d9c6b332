//go:build go1.21

// Package context replaces the standard library's context inside a simulation: cancellation and deadlines
// use simulated channels and time. The interface types are the real ones.
package context

import (
	"errors"
	rtime "time"

	"github.com/hired/gevulot/zzsim/simrt"
)

type ctx struct {
	parent   Context
	done     chan struct{}
	fired    bool
	err      error
	cause    error
	deadline rtime.Time
	hasDL    bool
	timer    *simrt.Timer
	children []*ctx
	after    []func()
	key, val any
	isVal    bool
}

func (c *ctx) Deadline() (rtime.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	if c.parent != nil {
		return c.parent.Deadline()
	}
	return rtime.Time{}, false
}

func (c *ctx) Done() <-chan struct{} {
	if c.isVal {
		return c.parent.Done()
	}
	return c.done
}

func (c *ctx) Err() error {
	simrt.Yield()
	if c.isVal {
		return c.parent.Err()
	}
	return c.err
}

func (c *ctx) Value(k any) any {
	if c.isVal && c.key == k {
		return c.val
	}
	if c.parent != nil {
		return c.parent.Value(k)
	}
	return nil
}

func nearest(p Context) *ctx {
	for {
		c, ok := p.(*ctx)
		if !ok {
			return nil
		}
		if !c.isVal {
			return c
		}
		p = c.parent
	}
}

func (c *ctx) cancel(err, cause error) {
	if c.fired {
		return
	}
	c.fired = true
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	simrt.CloseNow(c.done)
	if c.timer != nil {
		c.timer.Stop()
	}
	for _, k := range c.children {
		k.cancel(err, cause)
	}
	for _, f := range c.after {
		simrt.GoLater("context.AfterFunc", f)
	}
	c.children, c.after = nil, nil
}

func newCtx(parent Context) *ctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &ctx{parent: parent, done: simrt.MakeChan(make(chan struct{}))}
	if p := nearest(parent); p != nil {
		if p.fired {
			c.cancel(p.err, p.cause)
		} else {
			p.children = append(p.children, c)
		}
	}
	return c
}

// WithCancel returns a cancellable child.
func WithCancel(parent Context) (Context, CancelFunc) {
	c := newCtx(parent)
	return c, func() { simrt.Yield(); c.cancel(Canceled, nil) }
}

// WithCancelCause is WithCancel with a cause.
func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(cause error) { simrt.Yield(); c.cancel(Canceled, cause) }
}

// WithDeadline returns a child with a deadline.
func WithDeadline(parent Context, d rtime.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

// WithDeadlineCause is WithDeadline with a cause.
func WithDeadlineCause(parent Context, d rtime.Time, cause error) (Context, CancelFunc) {
	c := newCtx(parent)
	if pd, ok := parent.Deadline(); !ok || d.Before(pd) {
		c.deadline, c.hasDL = d, true
		dur := d.Sub(simrt.Now())
		if dur <= 0 {
			c.cancel(DeadlineExceeded, cause)
		} else if !c.fired {
			c.timer = simrt.At(dur, func() { c.cancel(DeadlineExceeded, cause) })
		}
	}
	return c, func() { simrt.Yield(); c.cancel(Canceled, nil) }
}

// WithTimeout is WithDeadline(now+d).
func WithTimeout(parent Context, d rtime.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, simrt.Now().Add(d))
}

// WithTimeoutCause is WithTimeout with a cause.
func WithTimeoutCause(parent Context, d rtime.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, simrt.Now().Add(d), cause)
}

// WithValue returns a child carrying a value.
func WithValue(parent Context, key, val any) Context {
	return &ctx{parent: parent, isVal: true, key: key, val: val}
}

// WithoutCancel returns a child that is not cancelled with its parent.
func WithoutCancel(parent Context) Context {
	return &ctx{parent: noCancel{parent}, isVal: true, key: &nokey, val: nil}
}

var nokey int

type noCancel struct{ Context }

func (noCancel) Deadline() (rtime.Time, bool) { return rtime.Time{}, false }
func (noCancel) Done() <-chan struct{}        { return nil }
func (noCancel) Err() error                   { return nil }

// Cause returns why c was cancelled.
func Cause(c Context) error {
	if p := nearest(c); p != nil {
		return p.cause
	}
	return c.Err()
}

// AfterFunc runs f in its own goroutine after c is done.
func AfterFunc(c Context, f func()) (stop func() bool) {
	p := nearest(c)
	if p == nil {
		return func() bool { return true }
	}
	started := false
	stopped := false
	g := func() {
		if !stopped {
			started = true
			f()
		}
	}
	if p.fired {
		simrt.GoNamed("context.AfterFunc", g)
	} else {
		p.after = append(p.after, g)
	}
	return func() bool {
		simrt.Yield()
		if started || stopped || p.fired {
			return false
		}
		stopped = true
		return true
	}
}

var _ = errors.New
