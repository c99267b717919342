package vrt

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

func keyOf[T any](ch <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

func recvReady[T any](ch <-chan T) bool {
	if ch == nil {
		return false
	}
	if len(ch) > 0 {
		return true
	}
	return isClosed(ch)
}

// isClosed peeks at an empty channel: a non-blocking receive on an empty open
// channel has no effect, on a closed one it reports so.
func isClosed[T any](ch <-chan T) bool {
	select {
	case _, ok := <-ch:
		if ok {
			panic("vrt: unmanaged sender on a managed channel")
		}
		return true
	default:
		return false
	}
}

// offered finds a goroutine offering a value on unbuffered channel k.
func offered(k unsafe.Pointer) (*G, *xfer) {
	if s.offers == 0 {
		return nil, nil
	}
	for _, g := range s.gs {
		if g.done || g == s.cur || g.sent != nil {
			continue
		}
		for _, x := range g.sends {
			if x.ch == k {
				return g, x
			}
		}
	}
	return nil, nil
}

// receiver finds a goroutine waiting to receive from unbuffered channel k.
func receiver(k unsafe.Pointer) *G {
	for _, g := range s.gs {
		if g.done || g == s.cur || g.slot != nil {
			continue
		}
		for _, c := range g.recv {
			if c == k {
				return g
			}
		}
	}
	return nil
}

type readier interface {
	key() unsafe.Pointer
	isRecv() bool
	// direct: the real channel operation can proceed
	direct() bool
	unbuf() bool
	do()
	take(v interface{})
	value() interface{}
}

// RecvC is a receive case.
type RecvC[T any] struct {
	ch <-chan T
	V  T
	Ok bool
}

func (c *RecvC[T]) key() unsafe.Pointer { return keyOf(c.ch) }
func (c *RecvC[T]) isRecv() bool        { return true }
func (c *RecvC[T]) direct() bool        { return recvReady(c.ch) }
func (c *RecvC[T]) unbuf() bool         { return c.ch != nil && cap(c.ch) == 0 }
func (c *RecvC[T]) do() {
	select {
	case c.V, c.Ok = <-c.ch:
	default:
		panic("vrt: receive not ready")
	}
}
func (c *RecvC[T]) take(v interface{}) {
	if v != nil {
		c.V = v.(T)
	}
	c.Ok = true
}
func (c *RecvC[T]) value() interface{} { return nil }

// SendC is a send case.
type SendC[T any] struct {
	ch chan<- T
	v  T
}

func (c *SendC[T]) key() unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c.ch)) }
func (c *SendC[T]) isRecv() bool        { return false }
func (c *SendC[T]) direct() bool        { return c.ch != nil && len(c.ch) < cap(c.ch) }
func (c *SendC[T]) unbuf() bool         { return c.ch != nil && cap(c.ch) == 0 }
func (c *SendC[T]) do() {
	select {
	case c.ch <- c.v:
	default:
		panic("vrt: send not ready")
	}
}
func (c *SendC[T]) take(interface{})   {}
func (c *SendC[T]) value() interface{} { return c.v }

// RecvCase builds a receive case.
func RecvCase[T any](ch <-chan T) *RecvC[T] { return &RecvC[T]{ch: ch} }

// SendCase builds a send case.
func SendCase[T any](ch chan<- T) func(v T) *SendC[T] {
	return func(v T) *SendC[T] { return &SendC[T]{ch: ch, v: v} }
}

func caseReady(c readier) bool {
	if c.direct() {
		return true
	}
	if !c.unbuf() {
		return false
	}
	if c.isRecv() {
		g, _ := offered(c.key())
		return g != nil
	}
	return receiver(c.key()) != nil
}

// Select performs one of the cases; with dflt it returns -1 when none is ready.
func Select(dflt bool, cases ...readier) int {
	if s == nil {
		return realSelect(dflt, cases)
	}
	g := s.cur
	if dflt {
		Point("select-default")
	} else {
		var k []unsafe.Pointer
		var xs []*xfer
		for i, c := range cases {
			if c.isRecv() {
				if c.unbuf() {
					k = append(k, c.key())
				}
			} else if c.unbuf() {
				xs = append(xs, &xfer{ch: c.key(), val: c.value(), idx: i})
				RaceRelease(c.key())
			}
		}
		g.recv, g.sends, g.slot, g.sent = k, xs, nil, nil
		s.offers += len(xs)
		Wait(func() bool {
			if g.slot != nil || g.sent != nil {
				return true
			}
			for _, c := range cases {
				if caseReadyFor(g, c) {
					return true
				}
			}
			return false
		}, "select")
		s.offers -= len(xs)
		slot, sent := g.slot, g.sent
		g.recv, g.sends, g.slot, g.sent = nil, nil, nil, nil
		if sent != nil {
			RaceAcquire(sent.ch)
			return sent.idx
		}
		if slot != nil {
			for i, c := range cases {
				if c.isRecv() && c.key() == slot.ch {
					RaceAcquire(slot.ch)
					c.take(slot.val)
					RaceRelease(slot.ch)
					return i
				}
			}
		}
	}
	var ready []int
	raceOff()
	for i, c := range cases {
		if caseReady(c) {
			ready = append(ready, i)
		}
	}
	raceOn()
	if len(ready) == 0 {
		if dflt {
			return -1
		}
		panic("vrt: select not ready")
	}
	c := 0
	if len(ready) > 1 && s.region && !s.opts.NoSelect {
		c = choose(len(ready), !s.opts.FreeSelect)
	}
	i := ready[c]
	perform(cases[i])
	return i
}

// caseReadyFor evaluates readiness on behalf of a blocked goroutine g (which
// must not match itself).
func caseReadyFor(g *G, c readier) bool {
	save := s.cur
	s.cur = g
	r := caseReady(c)
	s.cur = save
	return r
}

func perform(c readier) {
	if c.direct() {
		c.do()
		return
	}
	k := c.key()
	if c.isRecv() {
		g, x := offered(k)
		RaceAcquire(k)
		c.take(x.val)
		RaceRelease(k)
		g.sent = x
		return
	}
	g := receiver(k)
	RaceRelease(k)
	g.slot = &xfer{ch: k, val: c.value()}
}

func realSelect(dflt bool, cases []readier) int {
	for i, c := range cases {
		if c.direct() {
			c.do()
			return i
		}
	}
	if dflt {
		return -1
	}
	panic("vrt: select would block outside an execution")
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	c := &RecvC[T]{ch: ch}
	Select(false, c)
	return c.V
}

// Recv2 is the two-valued <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	c := &RecvC[T]{ch: ch}
	Select(false, c)
	return c.V, c.Ok
}

// SendF is ch <- v, written SendF(ch)(v) so that v converts to T.
func SendF[T any](ch chan<- T) func(v T) {
	return func(v T) {
		Select(false, &SendC[T]{ch: ch, v: v})
	}
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	if s != nil {
		Point("close")
	}
	close(ch)
}

// BlockForever is select{}.
func BlockForever() {
	Wait(func() bool { return false }, "select{}")
	panic("unreachable")
}

// ChanIter iterates over a channel.
type ChanIter[T any] struct {
	ch <-chan T
	V  T
}

// RangeChan is for v := range ch.
func RangeChan[T any](ch <-chan T) *ChanIter[T] { return &ChanIter[T]{ch: ch} }

// Next advances.
func (it *ChanIter[T]) Next() bool {
	v, ok := Recv2(it.ch)
	it.V = v
	return ok
}

// MapIter iterates over a map in a deterministic (or chosen) order.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
	K    K
	V    V
}

// RangeMap is for k, v := range m.
func RangeMap[M ~map[K]V, K comparable, V any](m M) *MapIter[K, V] {
	it := &MapIter[K, V]{m: m}
	if len(m) == 0 {
		return it
	}
	it.keys = make([]K, 0, len(m))
	for k := range m {
		it.keys = append(it.keys, k)
	}
	if len(it.keys) > 1 {
		ks := it.keys
		switch kk := interface{}(ks).(type) {
		case []string:
			sort.Strings(kk)
		case []int:
			sort.Ints(kk)
		default:
			sort.SliceStable(ks, func(a, b int) bool { return lessAny(ks[a], ks[b]) })
		}
		if MapOrderChoices(len(ks)) > 1 && ChooseDev(2) == 1 {
			for a, b := 0, len(ks)-1; a < b; a, b = a+1, b-1 {
				ks[a], ks[b] = ks[b], ks[a]
			}
		}
	}
	return it
}

func lessAny(a, b interface{}) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.Kind() == vb.Kind() {
		switch va.Kind() {
		case reflect.String:
			return va.String() < vb.String()
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			return va.Int() < vb.Int()
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			return va.Uint() < vb.Uint()
		case reflect.Ptr, reflect.Chan:
			return va.Pointer() < vb.Pointer()
		}
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}

// Next advances, skipping entries deleted meanwhile.
func (it *MapIter[K, V]) Next() bool {
	for it.i < len(it.keys) {
		k := it.keys[it.i]
		it.i++
		if v, ok := it.m[k]; ok {
			it.K, it.V = k, v
			return true
		}
	}
	return false
}
