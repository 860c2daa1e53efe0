// Package context is package context over simulated channels and timers.
package context

import (
	real "context"
	"time"

	stime "verif/dst/shim/time"
	"verif/dst/sim"
)

type ctx struct {
	parent   real.Context
	done     chan struct{}
	err      error
	cause    error
	deadline time.Time
	hasDl    bool
	kids     []*ctx
	key, val any
	timer    *stime.Timer
	m        sim.Mutex
}

func (c *ctx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *ctx) Done() <-chan struct{} {
	if c.done == nil {
		return c.parent.Done()
	}
	return c.done
}
func (c *ctx) Err() error {
	if c.done == nil {
		return c.parent.Err()
	}
	c.m.Lock()
	defer c.m.Unlock()
	return c.err
}
func (c *ctx) Value(k any) any {
	if c.key != nil && c.key == k {
		return c.val
	}
	return c.parent.Value(k)
}

func (c *ctx) cancel(err, cause error) {
	c.m.Lock()
	if c.err != nil {
		c.m.Unlock()
		return
	}
	c.err = err
	c.cause = cause
	kids := c.kids
	c.kids = nil
	sim.Close((chan<- struct{})(c.done))
	c.m.Unlock()
	for _, k := range kids {
		k.cancel(err, cause)
	}
	if c.timer != nil {
		c.timer.Stop()
	}
}

func anc(p real.Context) *ctx {
	for {
		x, ok := p.(*ctx)
		if !ok {
			return nil
		}
		if x.done != nil {
			return x
		}
		p = x.parent
	}
}

func mk(parent real.Context) *ctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &ctx{parent: parent, done: make(chan struct{})}
	if a := anc(parent); a != nil {
		a.m.Lock()
		if a.err != nil {
			e, ca := a.err, a.cause
			a.m.Unlock()
			c.cancel(e, ca)
		} else {
			a.kids = append(a.kids, c)
			a.m.Unlock()
		}
	} else if d := parent.Done(); d != nil {
		sim.Go(func() {
			c1, c2 := sim.CaseRecv(d), sim.CaseRecv(c.done)
			if sim.Select(false, c1, c2) == 0 {
				c.cancel(parent.Err(), parent.Err())
			}
		})
	}
	return c
}

func WithCancel(parent real.Context) (real.Context, real.CancelFunc) {
	c := mk(parent)
	return c, func() { c.cancel(real.Canceled, real.Canceled) }
}
func WithCancelCause(parent real.Context) (real.Context, real.CancelCauseFunc) {
	c := mk(parent)
	return c, func(cause error) {
		if cause == nil {
			cause = real.Canceled
		}
		c.cancel(real.Canceled, cause)
	}
}
func WithDeadline(parent real.Context, t time.Time) (real.Context, real.CancelFunc) {
	if d, ok := parent.Deadline(); ok && d.Before(t) {
		return WithCancel(parent)
	}
	c := mk(parent)
	c.deadline, c.hasDl = t, true
	d := stime.Until(t)
	if d <= 0 {
		c.cancel(real.DeadlineExceeded, real.DeadlineExceeded)
	} else {
		c.timer = stime.AfterFunc(d, func() { c.cancel(real.DeadlineExceeded, real.DeadlineExceeded) })
	}
	return c, func() { c.cancel(real.Canceled, real.Canceled) }
}
func WithTimeout(parent real.Context, d time.Duration) (real.Context, real.CancelFunc) {
	return WithDeadline(parent, stime.Now().Add(d))
}
func WithValue(parent real.Context, k, v any) real.Context {
	return &ctx{parent: parent, key: k, val: v}
}
func Cause(c real.Context) error {
	if x := anc(c); x != nil {
		x.m.Lock()
		defer x.m.Unlock()
		return x.cause
	}
	return c.Err()
}
func WithoutCancel(parent real.Context) real.Context { return real.WithoutCancel(parent) }
func AfterFunc(c real.Context, f func()) func() bool {
	stop := make(chan struct{})
	fired := false
	sim.Go(func() {
		c1, c2 := sim.CaseRecv(c.Done()), sim.CaseRecv(stop)
		if sim.Select(false, c1, c2) == 0 {
			fired = true
			f()
		}
	})
	var o sim.Once
	return func() bool {
		ok := false
		o.Do(func() { ok = !fired; sim.Close((chan<- struct{})(stop)) })
		return ok
	}
}
