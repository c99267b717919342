// Package context replaces the standard package in instrumented code:
// cancellation and deadlines live on virtual time.
package context

import (
	std "context"
	"time"

	"github.com/kitex-contrib/xds/verifrt/vrt"
)

type (
	Context         = std.Context
	CancelFunc      = std.CancelFunc
	CancelCauseFunc = std.CancelCauseFunc
)

var (
	Canceled         = std.Canceled
	DeadlineExceeded = std.DeadlineExceeded
)

func Background() Context                        { return std.Background() }
func TODO() Context                              { return std.TODO() }
func WithValue(parent Context, k, v any) Context { return std.WithValue(parent, k, v) }

type noCancel struct{ c Context }

func (noCancel) Deadline() (t time.Time, ok bool) { return }
func (noCancel) Done() <-chan struct{}            { return nil }
func (noCancel) Err() error                       { return nil }
func (n noCancel) Value(k any) any                { return n.c.Value(k) }

func WithoutCancel(parent Context) Context { return noCancel{parent} }

func WithCancel(parent Context) (Context, CancelFunc) {
	c, f := vrt.NewCtx(parent, false, time.Time{}, nil)
	return c, func() { f(Canceled, nil) }
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c, f := vrt.NewCtx(parent, false, time.Time{}, nil)
	return c, func(cause error) { f(Canceled, cause) }
}

func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	c, f := vrt.NewCtx(parent, true, d, nil)
	return c, func() { f(Canceled, nil) }
}

func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	c, f := vrt.NewCtx(parent, true, d, cause)
	return c, func() { f(Canceled, nil) }
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, vrt.Now().Add(d))
}

func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, vrt.Now().Add(d), cause)
}

func Cause(c Context) error { return vrt.Cause(c) }

func AfterFunc(ctx Context, f func()) func() bool { return vrt.CtxAfterFunc(ctx, f) }
