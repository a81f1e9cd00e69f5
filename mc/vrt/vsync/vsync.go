// Package vsync models package sync.
package vsync

import (
	"unsafe"

	"vrt"
)

// Locker as in sync.
type Locker interface {
	Lock()
	Unlock()
}

// Mutex models sync.Mutex.
type Mutex struct {
	o      vrt.Obj
	locked bool
}

//go:norace
func (m *Mutex) sync() {
	if vrt.Stale(&m.o) {
		m.locked = false
	}
}

//go:norace
func (m *Mutex) Lock() {
	if vrt.Aborting() {
		return
	}
	m.sync()
	vrt.Point("Mutex.Lock", func() bool { return !m.locked })
	m.acquired()
}

//go:norace
func (m *Mutex) acquired() {
	vrt.Event(&m.o, 0xa1)
	m.locked = true
	vrt.RaceAcquire(unsafe.Pointer(&m.o))
}

//go:norace
func (m *Mutex) TryLock() bool {
	if vrt.Aborting() {
		return true
	}
	m.sync()
	vrt.Point("Mutex.TryLock", nil)
	vrt.Event(&m.o, 0xa2)
	if m.locked {
		return false
	}
	m.locked = true
	vrt.RaceAcquire(unsafe.Pointer(&m.o))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if vrt.Aborting() {
		return
	}
	m.sync()
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	vrt.Event(&m.o, 0xa3)
	m.locked = false
	vrt.RaceRelease(unsafe.Pointer(&m.o))
}

// RWMutex models sync.RWMutex.
type RWMutex struct {
	o       vrt.Obj
	rel     int32
	writer  bool
	readers int
	waiting int
}

//go:norace
func (m *RWMutex) sync() {
	if vrt.Stale(&m.o) {
		m.writer, m.readers, m.waiting = false, 0, 0
	}
}

//go:norace
func (m *RWMutex) Lock() {
	if vrt.Aborting() {
		return
	}
	m.sync()
	vrt.Point("RWMutex.Lock", nil)
	vrt.Event(&m.o, 0xa4)
	if m.writer || m.readers > 0 {
		m.waiting++
		vrt.Point("RWMutex.Lock (blocked)", func() bool { return !m.writer && m.readers == 0 })
		m.waiting--
		vrt.Event(&m.o, 0xa4)
	}
	m.writer = true
	vrt.RaceAcquire(unsafe.Pointer(&m.o))
	vrt.RaceAcquire(unsafe.Pointer(&m.rel))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	if vrt.Aborting() {
		return true
	}
	m.sync()
	vrt.Point("RWMutex.TryLock", nil)
	vrt.Event(&m.o, 0xa4)
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	vrt.RaceAcquire(unsafe.Pointer(&m.o))
	vrt.RaceAcquire(unsafe.Pointer(&m.rel))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if vrt.Aborting() {
		return
	}
	m.sync()
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	vrt.Event(&m.o, 0xa5)
	m.writer = false
	vrt.RaceRelease(unsafe.Pointer(&m.o))
}

//go:norace
func (m *RWMutex) RLock() {
	if vrt.Aborting() {
		return
	}
	m.sync()
	vrt.Point("RWMutex.RLock", func() bool { return !m.writer && m.waiting == 0 })
	vrt.Event(&m.o, 0xa6)
	m.readers++
	vrt.RaceAcquire(unsafe.Pointer(&m.o))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	if vrt.Aborting() {
		return true
	}
	m.sync()
	vrt.Point("RWMutex.TryRLock", nil)
	vrt.Event(&m.o, 0xa6)
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	vrt.RaceAcquire(unsafe.Pointer(&m.o))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if vrt.Aborting() {
		return
	}
	m.sync()
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	vrt.Event(&m.o, 0xa7)
	m.readers--
	vrt.RaceReleaseMerge(unsafe.Pointer(&m.rel))
}

type rlocker struct{ m *RWMutex }

//go:norace
func (r rlocker) Lock() { r.m.RLock() }

//go:norace
func (r rlocker) Unlock() { r.m.RUnlock() }

// RLocker as in sync.
//
//go:norace
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// Cond models sync.Cond (FIFO, as in the Go runtime).
type Cond struct {
	L Locker
	o vrt.Obj
	q []*condWaiter
}

type condWaiter struct {
	signaled bool
	addr     int32
}

// NewCond as in sync.
//
//go:norace
func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	if vrt.Aborting() {
		return
	}
	if vrt.Stale(&c.o) {
		c.q = nil
	}
	w := &condWaiter{}
	vrt.Event(&c.o, 0xb1)
	c.q = append(c.q, w)
	c.L.Unlock()
	if m, ok := c.L.(*Mutex); ok {
		vrt.Point("Cond.Wait", func() bool { return w.signaled && !m.locked })
		vrt.RaceAcquire(unsafe.Pointer(&w.addr))
		if vrt.Aborting() {
			return
		}
		m.acquired()
		return
	}
	vrt.Point("Cond.Wait", func() bool { return w.signaled })
	vrt.RaceAcquire(unsafe.Pointer(&w.addr))
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	if vrt.Aborting() {
		return
	}
	if vrt.Stale(&c.o) {
		c.q = nil
	}
	vrt.Point("Cond.Signal", nil)
	vrt.Event(&c.o, 0xb2)
	if len(c.q) > 0 {
		w := c.q[0]
		c.q = c.q[1:]
		vrt.RaceRelease(unsafe.Pointer(&w.addr))
		w.signaled = true
	}
}

//go:norace
func (c *Cond) Broadcast() {
	if vrt.Aborting() {
		return
	}
	if vrt.Stale(&c.o) {
		c.q = nil
	}
	vrt.Point("Cond.Broadcast", nil)
	vrt.Event(&c.o, 0xb3)
	for _, w := range c.q {
		vrt.RaceRelease(unsafe.Pointer(&w.addr))
		w.signaled = true
	}
	c.q = nil
}

// WaitGroup models sync.WaitGroup.
type WaitGroup struct {
	o vrt.Obj
	n int
}

//go:norace
func (w *WaitGroup) sync() {
	if vrt.Stale(&w.o) {
		w.n = 0
	}
}

//go:norace
func (w *WaitGroup) Add(d int) {
	if vrt.Aborting() {
		return
	}
	w.sync()
	vrt.Point("WaitGroup.Add", nil)
	vrt.Event(&w.o, 0xb4)
	vrt.RaceReleaseMerge(unsafe.Pointer(&w.o))
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

//go:norace
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	if vrt.Aborting() {
		return
	}
	w.sync()
	vrt.Point("WaitGroup.Wait", func() bool { return w.n == 0 })
	vrt.Event(&w.o, 0xb5)
	vrt.RaceAcquire(unsafe.Pointer(&w.o))
}

//go:norace
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vrt.Go(func() {
		defer w.Done()
		f()
	})
}

// Once models sync.Once.
type Once struct {
	o     vrt.Obj
	state int // 0 idle, 1 running, 2 done
}

//go:norace
func (c *Once) Do(f func()) {
	if vrt.Aborting() {
		return
	}
	if vrt.Stale(&c.o) {
		c.state = 0
	}
	vrt.Point("Once.Do", func() bool { return c.state != 1 })
	vrt.Event(&c.o, 0xb6)
	if c.state == 2 {
		vrt.RaceAcquire(unsafe.Pointer(&c.o))
		return
	}
	c.state = 1
	defer func() {
		c.state = 2
		vrt.RaceRelease(unsafe.Pointer(&c.o))
		vrt.Event(&c.o, 0xb7)
	}()
	f()
}

// OnceFunc and friends as in sync.
//
//go:norace
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

//go:norace
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

//go:norace
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

type poolItem struct {
	v    any
	addr *int32
}

// Pool models sync.Pool with a chosen, deterministic policy: recycle the most
// recently freed object (PoolLIFO) or never recycle.
type Pool struct {
	New   func() any
	o     vrt.Obj
	items []poolItem
}

//go:norace
func (p *Pool) Get() any {
	if vrt.Aborting() {
		if p.New != nil {
			return p.New()
		}
		return nil
	}
	if vrt.Stale(&p.o) {
		p.items = nil
	}
	if vrt.PoolLIFO() {
		vrt.Event(&p.o, 0xe1)
		if n := len(p.items); n > 0 {
			it := p.items[n-1]
			p.items[n-1] = poolItem{}
			p.items = p.items[:n-1]
			vrt.RaceAcquire(unsafe.Pointer(it.addr))
			return it.v
		}
	}
	if p.New == nil {
		return nil
	}
	return p.New()
}

//go:norace
func (p *Pool) Put(v any) {
	if v == nil || vrt.Aborting() {
		return
	}
	if vrt.Stale(&p.o) {
		p.items = nil
	}
	if vrt.PoolLIFO() {
		vrt.Event(&p.o, 0xe2)
		it := poolItem{v: v, addr: new(int32)}
		vrt.RaceReleaseMerge(unsafe.Pointer(it.addr))
		p.items = append(p.items, it)
	}
}

// Map models sync.Map; iteration is in insertion order.
type Map struct {
	o    vrt.Obj
	keys []any
	m    map[any]any
}

//go:norace
func (m *Map) op(name string, write bool) {
	if vrt.Stale(&m.o) {
		m.keys, m.m = nil, nil
	}
	vrt.Point(name, nil)
	if write {
		vrt.Event(&m.o, 0xf1)
		vrt.RaceAcquire(unsafe.Pointer(&m.o))
		vrt.RaceReleaseMerge(unsafe.Pointer(&m.o))
	} else {
		vrt.ReadEvent(&m.o, 0xf2)
		vrt.RaceAcquire(unsafe.Pointer(&m.o))
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
}

//go:norace
func (m *Map) Load(k any) (any, bool) {
	m.op("Map.Load", false)
	v, ok := m.m[k]
	return v, ok
}

//go:norace
func (m *Map) set(k, v any) {
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

//go:norace
func (m *Map) del(k any) {
	if _, ok := m.m[k]; ok {
		delete(m.m, k)
		for i, q := range m.keys {
			if q == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
}

//go:norace
func (m *Map) Store(k, v any) { m.op("Map.Store", true); m.set(k, v) }

//go:norace
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.op("Map.LoadOrStore", true)
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.set(k, v)
	return v, false
}

//go:norace
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.op("Map.LoadAndDelete", true)
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}

//go:norace
func (m *Map) Delete(k any) { m.op("Map.Delete", true); m.del(k) }

//go:norace
func (m *Map) Swap(k, v any) (any, bool) {
	m.op("Map.Swap", true)
	o, ok := m.m[k]
	m.set(k, v)
	return o, ok
}

//go:norace
func (m *Map) CompareAndSwap(k, old, new any) bool {
	m.op("Map.CompareAndSwap", true)
	if o, ok := m.m[k]; ok && o == old {
		m.m[k] = new
		return true
	}
	return false
}

//go:norace
func (m *Map) CompareAndDelete(k, old any) bool {
	m.op("Map.CompareAndDelete", true)
	if o, ok := m.m[k]; ok && o == old {
		m.del(k)
		return true
	}
	return false
}

//go:norace
func (m *Map) Range(f func(k, v any) bool) {
	m.op("Map.Range", false)
	for _, k := range append([]any(nil), m.keys...) {
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}

//go:norace
func (m *Map) Clear() { m.op("Map.Clear", true); m.keys, m.m = nil, map[any]any{} }
