// Package simsync stands in for package sync in the instrumented code. The real
// primitives are still operated (uncontended), so that a race build sees the
// same happens-before edges; blocking is done through the simulator.
package simsync

import (
	"sync"
	"sync/atomic"
	"unsafe"

	"verifsim/simrt"
)

type Locker = sync.Locker

// Map is sync.Map, except that Range has the same order in every run.
type Map struct {
	mu   sync.Mutex // never contended: there is no yield while it is held
	m    map[any]any
	keys []any
}

func (m *Map) Load(key any) (any, bool) {
	simrt.Y(simrt.SiteLock)
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[key]
	return v, ok
}

func (m *Map) store(key, value any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[key]; !ok {
		m.keys = append(m.keys, key)
	}
	m.m[key] = value
}

func (m *Map) remove(key any) {
	if _, ok := m.m[key]; !ok {
		return
	}
	delete(m.m, key)
	for i, k := range m.keys {
		if k == key {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			break
		}
	}
}

func (m *Map) Store(key, value any) { m.Swap(key, value) }

func (m *Map) Swap(key, value any) (any, bool) {
	simrt.Y(simrt.SiteLock)
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[key]
	m.store(key, value)
	return v, ok
}

func (m *Map) LoadOrStore(key, value any) (any, bool) {
	simrt.Y(simrt.SiteLock)
	m.mu.Lock()
	defer m.mu.Unlock()
	if v, ok := m.m[key]; ok {
		return v, true
	}
	m.store(key, value)
	return value, false
}

func (m *Map) LoadAndDelete(key any) (any, bool) {
	simrt.Y(simrt.SiteLock)
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[key]
	m.remove(key)
	return v, ok
}

func (m *Map) Delete(key any) { m.LoadAndDelete(key) }

func (m *Map) CompareAndSwap(key, old, new any) bool {
	simrt.Y(simrt.SiteLock)
	m.mu.Lock()
	defer m.mu.Unlock()
	if v, ok := m.m[key]; !ok || v != old {
		return false
	}
	m.store(key, new)
	return true
}

func (m *Map) CompareAndDelete(key, old any) bool {
	simrt.Y(simrt.SiteLock)
	m.mu.Lock()
	defer m.mu.Unlock()
	if v, ok := m.m[key]; !ok || v != old {
		return false
	}
	m.remove(key)
	return true
}

func (m *Map) Clear() {
	simrt.Y(simrt.SiteLock)
	m.mu.Lock()
	defer m.mu.Unlock()
	m.m, m.keys = nil, nil
}

func (m *Map) Range(f func(key, value any) bool) {
	simrt.Y(simrt.SiteLock)
	m.mu.Lock()
	keys := m.keys[:len(m.keys):len(m.keys)]
	m.mu.Unlock()
	for _, k := range keys {
		m.mu.Lock()
		v, ok := m.m[k]
		m.mu.Unlock()
		if ok && !f(k, v) {
			return
		}
	}
}

// Mutex is a scheduler-aware sync.Mutex.
type Mutex struct {
	mu     sync.Mutex
	locked bool
}

//go:norace
func (m *Mutex) Lock() {
	simrt.Y(simrt.SiteLock)
	for m.locked {
		simrt.Block()
	}
	m.locked = true
	m.mu.Lock()
}

//go:norace
func (m *Mutex) TryLock() bool {
	simrt.Y(simrt.SiteLock)
	if m.locked {
		return false
	}
	m.locked = true
	m.mu.Lock()
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	m.mu.Unlock()
	m.locked = false
	simrt.Wake()
	simrt.Y(simrt.SiteUnlock)
}

// RWMutex is a scheduler-aware sync.RWMutex.
type RWMutex struct {
	mu      sync.RWMutex
	writer  bool
	readers int
}

//go:norace
func (m *RWMutex) Lock() {
	simrt.Y(simrt.SiteLock)
	for m.writer || m.readers > 0 {
		simrt.Block()
	}
	m.writer = true
	m.mu.Lock()
}

//go:norace
func (m *RWMutex) TryLock() bool {
	simrt.Y(simrt.SiteLock)
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	m.mu.Lock()
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	m.mu.Unlock()
	m.writer = false
	simrt.Wake()
	simrt.Y(simrt.SiteUnlock)
}

//go:norace
func (m *RWMutex) RLock() {
	simrt.Y(simrt.SiteLock)
	for m.writer {
		simrt.Block()
	}
	m.readers++
	m.mu.RLock()
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	simrt.Y(simrt.SiteLock)
	if m.writer {
		return false
	}
	m.readers++
	m.mu.RLock()
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	m.mu.RUnlock()
	m.readers--
	simrt.Wake()
	simrt.Y(simrt.SiteUnlock)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is as in package sync.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is a scheduler-aware sync.Once.
type Once struct {
	done atomic.Uint32
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done.Load() == 0 {
		o.slow(f)
	}
}

func (o *Once) slow(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if o.done.Load() == 0 {
		defer o.done.Store(1)
		f()
	}
}

// OnceFunc is as in package sync (panics are not replayed).
func OnceFunc(f func()) func() {
	var once Once
	return func() { once.Do(f) }
}

// OnceValue is as in package sync.
func OnceValue[T any](f func() T) func() T {
	var once Once
	var v T
	return func() T {
		once.Do(func() { v = f() })
		return v
	}
}

// OnceValues is as in package sync.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var once Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) {
		once.Do(func() { v1, v2 = f() })
		return v1, v2
	}
}

// WaitGroup is a scheduler-aware sync.WaitGroup.
type WaitGroup struct {
	wg sync.WaitGroup
	n  int
}

//go:norace
func (w *WaitGroup) Add(d int) {
	simrt.Y(simrt.SiteLock)
	w.wg.Add(d)
	w.n += d
	simrt.Wake()
}

func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	simrt.Y(simrt.SiteLock)
	if simrt.Active() {
		for w.n > 0 {
			simrt.Block()
		}
	}
	w.wg.Wait()
}

// Cond is a scheduler-aware sync.Cond.
type Cond struct {
	L   Locker
	mu  sync.Mutex
	seq int // notifications so far
	w   int // waiters
	tok int // pending signals
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	my := c.seq
	c.w++
	c.L.Unlock()
	for c.seq == my && c.tok == 0 {
		simrt.Block()
	}
	if c.seq == my {
		c.tok--
	}
	c.w--
	c.mu.Lock()
	c.mu.Unlock()
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	c.mu.Lock()
	c.mu.Unlock()
	if c.w > c.tok {
		c.tok++
	}
	simrt.Wake()
	simrt.Y(simrt.SiteUnlock)
}

//go:norace
func (c *Cond) Broadcast() {
	c.mu.Lock()
	c.mu.Unlock()
	c.seq++
	c.tok = 0
	simrt.Wake()
	simrt.Y(simrt.SiteUnlock)
}

type poolItem struct {
	next  *poolItem
	v     interface{}
	sync  *byte
	epoch int
}

// Pool is a simulated sync.Pool: Get may return any pooled item, or create a
// new one although items are pooled; the simulator decides. Items are dropped
// when the simulator says the runtime collected them.
type Pool struct {
	New   func() interface{}
	items *poolItem
	n     int
	epoch int
}

//go:norace
func (p *Pool) Put(v interface{}) {
	simrt.Y(simrt.SitePoolPut)
	if v == nil {
		return
	}
	p.purge()
	it := &poolItem{v: v, next: p.items, sync: new(byte)}
	simrt.RaceRelease(unsafe.Pointer(it.sync))
	p.items = it
	p.n++
}

//go:norace
func (p *Pool) purge() {
	if p.epoch != simrt.PurgeEpoch {
		p.epoch = simrt.PurgeEpoch
		p.items, p.n = nil, 0
	}
}

//go:norace
func (p *Pool) Get() interface{} {
	simrt.Y(simrt.SitePoolGet)
	p.purge()
	if p.n > 0 {
		if d := simrt.PoolDrop(); d == 0 || simrt.Choose(d) != d-1 {
			k := simrt.Choose(p.n)
			prev := &p.items
			for ; k > 0; k-- {
				prev = &(*prev).next
			}
			it := *prev
			*prev = it.next
			p.n--
			simrt.RaceAcquire(unsafe.Pointer(it.sync))
			simrt.CountPool(true)
			return it.v
		}
	}
	simrt.CountPool(false)
	if p.New != nil {
		return p.New()
	}
	return nil
}
