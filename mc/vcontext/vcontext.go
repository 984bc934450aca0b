// Package vcontext replaces context in the instrumented code.
package vcontext

import (
	"context"
	"time"

	"github.com/nlpodyssey/spago/verifmc/vsched"
)

// Context is a context.Context.
type Context interface {
	Deadline() (deadline time.Time, ok bool)
	Done() *vsched.Chan[struct{}]
	Err() error
	Value(key any) any
}

type (
	CancelFunc      func()
	CancelCauseFunc func(cause error)
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

type empty struct{}

func (empty) Deadline() (time.Time, bool)  { return time.Time{}, false }
func (empty) Done() *vsched.Chan[struct{}] { return nil }
func (empty) Err() error                   { return nil }
func (empty) Value(any) any                { return nil }

func Background() Context { return empty{} }
func TODO() Context       { return empty{} }

type cancelCtx struct {
	Context
	mu       vsched.Mutex
	done     *vsched.Chan[struct{}]
	err      error
	cause    error
	children []*cancelCtx
}

type cancelKey struct{}

func (c *cancelCtx) Done() *vsched.Chan[struct{}] { return c.done }

func (c *cancelCtx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}

func (c *cancelCtx) Value(key any) any {
	if _, ok := key.(cancelKey); ok {
		return c
	}
	return c.Context.Value(key)
}

func (c *cancelCtx) cancel(err, cause error) {
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		return
	}
	c.err, c.cause = err, cause
	c.done.Close()
	children := c.children
	c.children = nil
	c.mu.Unlock()
	for _, x := range children {
		x.cancel(err, cause)
	}
}

func newCancel(parent Context) *cancelCtx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cancelCtx{Context: parent, done: vsched.MakeChan0[struct{}]()}
	if p, ok := parent.Value(cancelKey{}).(*cancelCtx); ok {
		p.mu.Lock()
		if p.err != nil {
			err, cause := p.err, p.cause
			p.mu.Unlock()
			c.cancel(err, cause)
		} else {
			p.children = append(p.children, c)
			p.mu.Unlock()
		}
	}
	return c
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := newCancel(parent)
	return c, func() { c.cancel(Canceled, Canceled) }
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := newCancel(parent)
	return c, func(cause error) { c.cancel(Canceled, cause) }
}

// Deadlines are never reached.

func WithTimeout(parent Context, _ time.Duration) (Context, CancelFunc) { return WithCancel(parent) }
func WithDeadline(parent Context, _ time.Time) (Context, CancelFunc)    { return WithCancel(parent) }

func Cause(c Context) error {
	if p, ok := c.Value(cancelKey{}).(*cancelCtx); ok {
		p.mu.Lock()
		defer p.mu.Unlock()
		return p.cause
	}
	return c.Err()
}

type valueCtx struct {
	Context
	key, val any
}

func (c *valueCtx) Value(key any) any {
	if key == c.key {
		return c.val
	}
	return c.Context.Value(key)
}

func WithValue(parent Context, key, val any) Context { return &valueCtx{parent, key, val} }
