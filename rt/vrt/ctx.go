package vrt

import (
	"context"
	"fmt"
	"time"
	"unsafe"
)

// vctx is a cancellable context on virtual time.
type vctx struct {
	parent   context.Context
	done     chan struct{}
	err      error
	cause    error
	deadline time.Time
	hasDL    bool
	t        *Timer
	children map[*vctx]struct{}
	kids     []*vctx
	up       *vctx
	after    func()
}

func doneKey(ch <-chan struct{}) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

func (c *vctx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *vctx) Done() <-chan struct{} { return c.done }
func (c *vctx) Err() error {
	if s != nil && !s.killed {
		Point("ctx.Err")
	}
	RaceAcquire(unsafe.Pointer(c))
	return c.err
}
func (c *vctx) Value(k interface{}) interface{} {
	if k == causeKey {
		return c
	}
	return c.parent.Value(k)
}
func (c *vctx) String() string { return fmt.Sprintf("vctx(%v)", c.parent) }

type ctxKey int

var causeKey = new(ctxKey)

// NewCtx makes a cancellable child of parent; d is used when hasDL.
func NewCtx(parent context.Context, hasDL bool, deadline time.Time, dlCause error) (context.Context, func(err, cause error)) {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &vctx{parent: parent, done: make(chan struct{})}
	if hasDL {
		if pd, ok := parent.Deadline(); ok && pd.Before(deadline) {
			hasDL = false
		}
	}
	if s == nil || s.killed {
		c.hasDL, c.deadline = hasDL, deadline
		return c, func(err, cause error) { c.cancel(err, cause) }
	}
	if s.ctxs == nil {
		s.ctxs = map[unsafe.Pointer]*vctx{}
	}
	s.ctxs[doneKey(c.done)] = c
	if pd := parent.Done(); pd != nil {
		if p := s.ctxs[doneKey(pd)]; p != nil {
			if p.err != nil {
				c.cancel(p.err, p.cause)
			} else {
				p.kids = append(p.kids, c)
				c.up = p
			}
		} else if err := parent.Err(); err != nil {
			c.cancel(err, context.Cause(parent))
		} else {
			s.watch = append(s.watch, c)
		}
	}
	if hasDL {
		c.hasDL, c.deadline = true, deadline
		if c.err == nil {
			d := deadline.Sub(s.now)
			if d <= 0 {
				c.cancel(context.DeadlineExceeded, dlCause)
			} else {
				c.t = AddTimer(d, func() { c.cancel(context.DeadlineExceeded, dlCause) })
			}
		}
	}
	return c, func(err, cause error) {
		if s != nil && !s.killed {
			Point("cancel")
		}
		RaceRelease(unsafe.Pointer(c))
		c.cancel(err, cause)
	}
}

func (c *vctx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	close(c.done)
	if c.t != nil {
		c.t.Stop()
	}
	if c.up != nil {
		for i, k := range c.up.kids {
			if k == c {
				c.up.kids = append(c.up.kids[:i], c.up.kids[i+1:]...)
				break
			}
		}
	}
	for _, k := range append([]*vctx(nil), c.kids...) {
		k.cancel(err, cause)
	}
	if c.after != nil {
		f := c.after
		c.after = nil
		SpawnFromTimer("ctx-after", f)
	}
}

// Cause is context.Cause.
func Cause(c context.Context) error {
	if v, ok := c.Value(causeKey).(*vctx); ok && v.done == c.Done() {
		return v.cause
	}
	return context.Cause(c)
}

// CtxAfterFunc is context.AfterFunc.
func CtxAfterFunc(parent context.Context, f func()) func() bool {
	c, cancel := NewCtx(parent, false, time.Time{}, nil)
	v := c.(*vctx)
	if v.err != nil {
		SpawnFromTimer("ctx-after", f)
		return func() bool { return false }
	}
	v.after = f
	return func() bool {
		if v.after == nil {
			return false
		}
		v.after = nil
		cancel(context.Canceled, nil)
		return true
	}
}

func (sc *sched) pollCtx() {
	w := sc.watch[:0]
	for _, c := range sc.watch {
		if c.err != nil {
			continue
		}
		if isClosed(c.parent.Done()) {
			c.cancel(c.parent.Err(), context.Cause(c.parent))
			continue
		}
		w = append(w, c)
	}
	sc.watch = w
}
