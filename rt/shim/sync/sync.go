// Package sync replaces the standard package in instrumented code.
package sync

import (
	std "sync"
	"unsafe"

	"github.com/kitex-contrib/xds/verifrt/vrt"
)

type Locker = std.Locker

// Mutex is a lock on the controlled scheduler.
type Mutex struct {
	locked bool
}

func (m *Mutex) Lock() {
	vrt.Wait(func() bool { return !m.locked }, "Lock")
	m.locked = true
	vrt.RaceAcquire(unsafe.Pointer(m))
}

func (m *Mutex) TryLock() bool {
	vrt.Wait(nil, "TryLock")
	if m.locked {
		return false
	}
	m.locked = true
	vrt.RaceAcquire(unsafe.Pointer(m))
	return true
}

func (m *Mutex) Unlock() {
	if !m.locked {
		if vrt.On() {
			vrt.Fatal("fatal error: sync: unlock of unlocked mutex")
		}
		return
	}
	vrt.RaceRelease(unsafe.Pointer(m))
	m.locked = false
	vrt.UnlockPoint()
}

type rwaiter struct{ granted bool }

// RWMutex has Go's semantics: a waiting writer blocks new readers, and a
// writer's unlock admits all readers waiting at that time.
type RWMutex struct {
	w        bool
	readers  int
	pendingW int
	waitR    []*rwaiter
	rd       byte // race identity of read sections
}

func (m *RWMutex) Lock() {
	vrt.Wait(nil, "RW.Lock")
	if m.w || m.readers > 0 {
		m.pendingW++
		vrt.Wait(func() bool { return !m.w && m.readers == 0 }, "RW.Lock")
		m.pendingW--
	}
	m.w = true
	vrt.RaceAcquire(unsafe.Pointer(m))
	vrt.RaceAcquire(unsafe.Pointer(&m.rd))
}

func (m *RWMutex) TryLock() bool {
	vrt.Wait(nil, "TryLock")
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	vrt.RaceAcquire(unsafe.Pointer(m))
	vrt.RaceAcquire(unsafe.Pointer(&m.rd))
	return true
}

func (m *RWMutex) Unlock() {
	if !m.w {
		if vrt.On() {
			vrt.Fatal("fatal error: sync: Unlock of unlocked RWMutex")
		}
		return
	}
	vrt.RaceRelease(unsafe.Pointer(m))
	m.w = false
	for _, r := range m.waitR {
		r.granted = true
		m.readers++
	}
	m.waitR = nil
	vrt.UnlockPoint()
}

func (m *RWMutex) RLock() {
	vrt.Wait(nil, "RLock")
	if m.w || m.pendingW > 0 {
		r := &rwaiter{}
		m.waitR = append(m.waitR, r)
		vrt.Wait(func() bool { return r.granted || (!m.w && m.pendingW == 0) }, "RLock")
		if !r.granted {
			for i, x := range m.waitR {
				if x == r {
					m.waitR = append(m.waitR[:i], m.waitR[i+1:]...)
					break
				}
			}
			m.readers++
		}
	} else {
		m.readers++
	}
	vrt.RaceAcquire(unsafe.Pointer(m))
}

func (m *RWMutex) TryRLock() bool {
	vrt.Wait(nil, "TryRLock")
	if m.w || m.pendingW > 0 {
		return false
	}
	m.readers++
	vrt.RaceAcquire(unsafe.Pointer(m))
	return true
}

func (m *RWMutex) RUnlock() {
	if m.readers <= 0 {
		if vrt.On() {
			vrt.Fatal("fatal error: sync: RUnlock of unlocked RWMutex")
		}
		return
	}
	vrt.RaceRelease(unsafe.Pointer(&m.rd))
	m.readers--
	vrt.UnlockPoint()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is sync.Once.
type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	vrt.Wait(nil, "Once")
	if o.done {
		vrt.RaceAcquire(unsafe.Pointer(o))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true; vrt.RaceRelease(unsafe.Pointer(o)) }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

// WaitGroup is sync.WaitGroup.
type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	vrt.Wait(nil, "wg.Add")
	if d < 0 {
		vrt.RaceRelease(unsafe.Pointer(w))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	vrt.Wait(func() bool { return w.n == 0 }, "wg.Wait")
	vrt.RaceAcquire(unsafe.Pointer(w))
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vrt.Go(func() { defer w.Done(); f() })
}

// Cond is sync.Cond.
type Cond struct {
	L Locker
	q []*rwaiter
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	r := &rwaiter{}
	c.q = append(c.q, r)
	c.L.Unlock()
	vrt.Wait(func() bool { return r.granted }, "cond.Wait")
	vrt.RaceAcquire(unsafe.Pointer(c))
	c.L.Lock()
}
func (c *Cond) Signal() {
	vrt.Wait(nil, "cond.Signal")
	vrt.RaceRelease(unsafe.Pointer(c))
	if len(c.q) > 0 {
		c.q[0].granted = true
		c.q = c.q[1:]
	}
}
func (c *Cond) Broadcast() {
	vrt.Wait(nil, "cond.Broadcast")
	vrt.RaceRelease(unsafe.Pointer(c))
	for _, r := range c.q {
		r.granted = true
	}
	c.q = nil
}

// Map is sync.Map with scheduling points and a deterministic Range.
type Map struct {
	m    std.Map
	keys []any
}

func (m *Map) note(k any) {
	for _, x := range m.keys {
		if x == k {
			return
		}
	}
	m.keys = append(m.keys, k)
}
func (m *Map) Load(k any) (any, bool) { vrt.Point("Map.Load"); return m.m.Load(k) }
func (m *Map) Store(k, v any)         { vrt.Point("Map.Store"); m.note(k); m.m.Store(k, v) }
func (m *Map) Delete(k any)           { vrt.Point("Map.Delete"); m.m.Delete(k) }
func (m *Map) Clear() {
	vrt.Point("Map.Clear")
	for _, k := range m.keys {
		m.m.Delete(k)
	}
	m.keys = nil
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	vrt.Point("Map.LoadOrStore")
	m.note(k)
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	vrt.Point("Map.LoadAndDelete")
	return m.m.LoadAndDelete(k)
}
func (m *Map) Swap(k, v any) (any, bool) { vrt.Point("Map.Swap"); m.note(k); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool {
	vrt.Point("Map.CAS")
	return m.m.CompareAndSwap(k, o, n)
}
func (m *Map) CompareAndDelete(k, o any) bool {
	vrt.Point("Map.CAD")
	return m.m.CompareAndDelete(k, o)
}
func (m *Map) Range(f func(k, v any) bool) {
	for _, k := range append([]any(nil), m.keys...) {
		vrt.Point("Map.Range")
		if v, ok := m.m.Load(k); ok && !f(k, v) {
			return
		}
	}
}

// Pool never retains, which is one of its legal behaviours.
type Pool struct {
	New func() any
}

func (p *Pool) Get() any {
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(any) {}
