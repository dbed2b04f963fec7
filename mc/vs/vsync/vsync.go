// Package vsync stands in for package sync in code under the controlled scheduler.
package vsync

import (
	"sync"
	"unsafe"

	"verif.local/vs"
)

type Locker = sync.Locker

// Mutex is sync.Mutex.
type Mutex struct {
	held bool
	q    vs.Queue
}

//go:norace
func (m *Mutex) Lock() {
	if vs.Out() {
		return
	}
	vs.Point()
	for m.held {
		m.q.Wait("mutex")
	}
	m.held = true
	vs.Acquire(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) TryLock() bool {
	if vs.Out() {
		return true
	}
	vs.Point()
	if m.held {
		return false
	}
	m.held = true
	vs.Acquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if vs.Out() {
		return
	}
	if !m.held {
		vs.Fatal("sync: unlock of unlocked mutex")
	}
	vs.Release(unsafe.Pointer(m))
	m.held = false
	m.q.Wake()
	vs.Point()
}

// RWMutex is sync.RWMutex.
type RWMutex struct {
	w bool
	r int
	q vs.Queue
}

//go:norace
func (m *RWMutex) Lock() {
	if vs.Out() {
		return
	}
	vs.Point()
	for m.w || m.r > 0 {
		m.q.Wait("rwmutex")
	}
	m.w = true
	vs.Acquire(unsafe.Pointer(&m.w))
	vs.Acquire(unsafe.Pointer(&m.r))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	if vs.Out() {
		return true
	}
	vs.Point()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	vs.Acquire(unsafe.Pointer(&m.w))
	vs.Acquire(unsafe.Pointer(&m.r))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if vs.Out() {
		return
	}
	if !m.w {
		vs.Fatal("sync: Unlock of unlocked RWMutex")
	}
	vs.Release(unsafe.Pointer(&m.w))
	m.w = false
	m.q.Wake()
	vs.Point()
}

//go:norace
func (m *RWMutex) RLock() {
	if vs.Out() {
		return
	}
	vs.Point()
	for m.w {
		m.q.Wait("rwmutex read")
	}
	m.r++
	vs.Acquire(unsafe.Pointer(&m.w))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	if vs.Out() {
		return true
	}
	vs.Point()
	if m.w {
		return false
	}
	m.r++
	vs.Acquire(unsafe.Pointer(&m.w))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if vs.Out() {
		return
	}
	if m.r <= 0 {
		vs.Fatal("sync: RUnlock of unlocked RWMutex")
	}
	vs.Release(unsafe.Pointer(&m.r))
	m.r--
	m.q.Wake()
	vs.Point()
}

type rlocker RWMutex

//go:norace
func (r *rlocker) Lock() { (*RWMutex)(r).RLock() }

//go:norace
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

//go:norace
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	n int
	q vs.Queue
}

//go:norace
func (w *WaitGroup) Add(d int) {
	if vs.Out() {
		return
	}
	if d < 0 {
		vs.Release(unsafe.Pointer(w))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		w.q.Wake()
	}
	vs.Point()
}

//go:norace
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	if vs.Out() {
		return
	}
	vs.Point()
	for w.n > 0 {
		w.q.Wait("waitgroup")
	}
	vs.Acquire(unsafe.Pointer(w))
}

//go:norace
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vs.Go(func() { defer w.Done(); f() })
}

// Once is sync.Once.
type Once struct {
	m    Mutex
	done bool
}

//go:norace
func (o *Once) Do(f func()) {
	if vs.Out() {
		if !o.done {
			o.done = true
			f()
		}
		return
	}
	if o.done {
		vs.Acquire(unsafe.Pointer(&o.m))
		vs.Point()
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true; vs.Release(unsafe.Pointer(&o.m)) }()
		f()
	}
}

//go:norace
func OnceFunc(f func()) func() { var o Once; return func() { o.Do(f) } }

//go:norace
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

//go:norace
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Cond is sync.Cond.
type Cond struct {
	L Locker
	q vs.Queue
}

//go:norace
func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	if vs.Out() {
		return
	}
	vs.Point()
	tok := c.q.Enter()
	c.L.Unlock()
	c.q.Await(tok, "cond")
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	if vs.Out() {
		return
	}
	vs.Point()
	c.q.WakeOne()
}

//go:norace
func (c *Cond) Broadcast() {
	if vs.Out() {
		return
	}
	vs.Point()
	c.q.Wake()
}

// Pool is sync.Pool.
type Pool struct {
	New   func() any
	items []any
}

//go:norace
func (p *Pool) Get() any {
	if n := len(p.items); n > 0 && !vs.Out() {
		vs.Acquire(unsafe.Pointer(p))
		v := p.items[n-1]
		p.items = p.items[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) Put(v any) {
	if !vs.Out() {
		vs.Release(unsafe.Pointer(p))
		p.items = append(p.items, v)
	}
}

// Map is sync.Map with a deterministic iteration order.
type Map struct {
	m    map[any]int
	keys []any
	vals []any
	live []bool
}

//go:norace
func (m *Map) pt() {
	if !vs.Out() {
		vs.Point()
		vs.Acquire(unsafe.Pointer(m))
	}
}

//go:norace
func (m *Map) load(k any) (any, bool) {
	i, ok := m.m[k]
	if !ok {
		return nil, false
	}
	return m.vals[i], true
}

//go:norace
func (m *Map) store(k, v any) {
	vs.Release(unsafe.Pointer(m))
	if m.m == nil {
		m.m = map[any]int{}
	}
	if i, ok := m.m[k]; ok {
		m.vals[i] = v
		return
	}
	m.m[k] = len(m.keys)
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
	m.live = append(m.live, true)
}

//go:norace
func (m *Map) del(k any) {
	vs.Release(unsafe.Pointer(m))
	if i, ok := m.m[k]; ok {
		m.live[i] = false
		m.vals[i] = nil
		delete(m.m, k)
	}
}

//go:norace
func (m *Map) Load(k any) (any, bool) { m.pt(); return m.load(k) }

//go:norace
func (m *Map) Store(k, v any) { m.pt(); m.store(k, v) }

//go:norace
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.pt()
	if x, ok := m.load(k); ok {
		return x, true
	}
	m.store(k, v)
	return v, false
}

//go:norace
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.pt()
	x, ok := m.load(k)
	m.del(k)
	return x, ok
}

//go:norace
func (m *Map) Delete(k any) { m.pt(); m.del(k) }

//go:norace
func (m *Map) Swap(k, v any) (any, bool) {
	m.pt()
	x, ok := m.load(k)
	m.store(k, v)
	return x, ok
}

//go:norace
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.pt()
	if x, ok := m.load(k); ok && x == o {
		m.store(k, n)
		return true
	}
	return false
}

//go:norace
func (m *Map) CompareAndDelete(k, o any) bool {
	m.pt()
	if x, ok := m.load(k); ok && x == o {
		m.del(k)
		return true
	}
	return false
}

//go:norace
func (m *Map) Range(f func(k, v any) bool) {
	m.pt()
	for i := 0; i < len(m.keys); i++ {
		if m.live[i] && !f(m.keys[i], m.vals[i]) {
			return
		}
	}
}

//go:norace
func (m *Map) Clear() { m.pt(); *m = Map{} }
