// Package simsync is package sync under the simulator's scheduler. Waiting is
// decided by the scheduler; the real primitive is then taken uncontended, so
// that the race detector sees the ordering it establishes.
package simsync

import (
	"sync"

	"vsim/gs/simrt"
)

type Locker = sync.Locker
type Map struct {
	mu sync.Mutex
	m  map[any]any
	ks []any
}
type Pool struct {
	New func() any
	mu  sync.Mutex
	l   []any
}

type Mutex struct {
	held bool
	mu   sync.Mutex
}

func (m *Mutex) Lock() {
	simrt.Preempt()
	simrt.Block("a mutex", func() bool { return !m.held })
	m.held = true
	m.mu.Lock()
}

func (m *Mutex) TryLock() bool {
	simrt.Preempt()
	if m.held {
		return false
	}
	m.held = true
	m.mu.Lock()
	return true
}

func (m *Mutex) Unlock() {
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	m.mu.Unlock()
	simrt.Preempt()
}

type RWMutex struct {
	readers int
	writer  bool
	waiting int // writers that wait: they keep new readers out
	mu      sync.RWMutex
}

func (m *RWMutex) RLock() {
	simrt.Preempt()
	simrt.Block("a read lock", func() bool { return !m.writer && m.waiting == 0 })
	m.readers++
	m.mu.RLock()
}

func (m *RWMutex) TryRLock() bool {
	simrt.Preempt()
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	m.mu.RLock()
	return true
}

func (m *RWMutex) RUnlock() {
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.mu.RUnlock()
	simrt.Preempt()
}

func (m *RWMutex) Lock() {
	simrt.Preempt()
	m.waiting++
	simrt.Block("a write lock", func() bool { return !m.writer && m.readers == 0 })
	m.waiting--
	m.writer = true
	m.mu.Lock()
}

func (m *RWMutex) TryLock() bool {
	simrt.Preempt()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	m.mu.Lock()
	return true
}

func (m *RWMutex) Unlock() {
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	m.mu.Unlock()
	simrt.Preempt()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type WaitGroup struct {
	n  int
	wg sync.WaitGroup
}

func (w *WaitGroup) Add(d int) {
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	w.wg.Add(d)
	simrt.Preempt()
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	simrt.Preempt()
	simrt.Block("a wait group", func() bool { return w.n == 0 })
	w.wg.Wait()
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	st   int
	once sync.Once
}

func (o *Once) Do(f func()) {
	simrt.Preempt()
	if o.st == 0 {
		o.st = 1
		defer func() { o.st = 2 }()
		o.once.Do(f)
		return
	}
	simrt.Block("a once", func() bool { return o.st == 2 })
	o.once.Do(func() {})
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) {
		o.Do(func() { v1, v2 = f() })
		return v1, v2
	}
}

type Cond struct {
	L   Locker
	gen int
	q   []*bool
	hb  sync.Mutex
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	ok := false
	c.q = append(c.q, &ok)
	c.L.Unlock()
	simrt.Block("a condition", func() bool { return ok })
	c.hb.Lock()
	c.hb.Unlock()
	c.L.Lock()
}
func (c *Cond) Signal() {
	c.hb.Lock()
	c.hb.Unlock()
	if len(c.q) > 0 {
		*c.q[0] = true
		c.q = c.q[1:]
	}
	simrt.Preempt()
}
func (c *Cond) Broadcast() {
	c.hb.Lock()
	c.hb.Unlock()
	for _, p := range c.q {
		*p = true
	}
	c.q = nil
	simrt.Preempt()
}

func (m *Map) lock() { simrt.Preempt(); m.mu.Lock() }
func (m *Map) Load(k any) (any, bool) {
	m.lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) store(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.ks = append(m.ks, k)
	}
	m.m[k] = v
}
func (m *Map) Store(k, v any) {
	m.lock()
	defer m.mu.Unlock()
	m.store(k, v)
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.lock()
	defer m.mu.Unlock()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.store(k, v)
	return v, false
}
func (m *Map) del(k any) {
	delete(m.m, k)
	for i := range m.ks {
		if m.ks[i] == k {
			m.ks = append(m.ks[:i:i], m.ks[i+1:]...)
			break
		}
	}
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	if ok {
		m.del(k)
	}
	return v, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.lock()
	defer m.mu.Unlock()
	o, ok := m.m[k]
	m.store(k, v)
	return o, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.lock()
	defer m.mu.Unlock()
	if v, ok := m.m[k]; !ok || v != o {
		return false
	}
	m.store(k, n)
	return true
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.lock()
	defer m.mu.Unlock()
	if v, ok := m.m[k]; !ok || v != o {
		return false
	}
	m.del(k)
	return true
}
func (m *Map) Clear() {
	m.lock()
	defer m.mu.Unlock()
	m.m, m.ks = nil, nil
}
func (m *Map) Range(f func(k, v any) bool) {
	m.lock()
	ks := append([]any(nil), m.ks...)
	m.mu.Unlock()
	for _, i := range simrt.Perm(len(ks)) {
		v, ok := m.Load(ks[i])
		if ok && !f(ks[i], v) {
			return
		}
	}
}

func (p *Pool) Get() any {
	simrt.Preempt()
	p.mu.Lock()
	if n := len(p.l); n > 0 {
		v := p.l[n-1]
		p.l = p.l[:n-1]
		p.mu.Unlock()
		return v
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(v any) {
	p.mu.Lock()
	p.l = append(p.l, v)
	p.mu.Unlock()
}
