package vsched

import (
	"context"
	"time"
)

// ctx models the contexts of package context, on the modelled channels and clock.
type ctx struct {
	parent   context.Context
	done     chan struct{}
	m        Mutex
	err      error
	deadline time.Time
	children []*ctx
	timer    *Timer
}

func (c *ctx) Deadline() (time.Time, bool) {
	if !c.deadline.IsZero() {
		return c.deadline, true
	}
	return c.parent.Deadline()
}

func (c *ctx) Done() <-chan struct{} { return c.done }

func (c *ctx) Err() error {
	c.m.Lock()
	defer c.m.Unlock()
	return c.err
}

func (c *ctx) Value(key interface{}) interface{} {
	if key == interface{}(&ctxKey) {
		return c
	}
	return c.parent.Value(key)
}

var ctxKey int

func (c *ctx) cancel(err error) {
	c.m.Lock()
	if c.err != nil {
		c.m.Unlock()
		return
	}
	c.err = err
	var children = c.children
	c.children = nil
	Close[struct{}](c.done)
	c.m.Unlock()
	for _, d := range children {
		d.cancel(err)
	}
	if c.timer != nil {
		c.timer.Stop()
	}
}

func newCtx(parent context.Context) *ctx {
	var c = &ctx{parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(&ctxKey).(*ctx); ok {
		p.m.Lock()
		var err = p.err
		if err == nil {
			p.children = append(p.children, c)
		}
		p.m.Unlock()
		if err != nil {
			c.cancel(err)
		}
	}
	return c
}

// Background models context.Background.
func Background() context.Context { return context.Background() }

// TODO models context.TODO.
func TODO() context.Context { return context.TODO() }

// WithCancel models context.WithCancel.
func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	if !active() {
		return context.WithCancel(parent)
	}
	var c = newCtx(parent)
	return c, func() { c.cancel(context.Canceled) }
}

// WithDeadline models context.WithDeadline.
func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	if !active() {
		return context.WithDeadline(parent, d)
	}
	var c = newCtx(parent)
	if old, ok := parent.Deadline(); !ok || d.Before(old) {
		c.deadline = d
		if c.Err() == nil {
			if w := Until(d); w <= 0 {
				c.cancel(context.DeadlineExceeded)
			} else {
				c.timer = AfterFunc(w, func() { c.cancel(context.DeadlineExceeded) })
			}
		}
	}
	return c, func() { c.cancel(context.Canceled) }
}

// WithTimeout models context.WithTimeout.
func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, Now().Add(d))
}
