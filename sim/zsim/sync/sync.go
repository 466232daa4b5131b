//go:build go1.22

// Package sync simulates Go's sync package under the deterministic scheduler.
package sync

import (
	"zsim/rt"
)

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// Mutex is a simulated sync.Mutex.
type Mutex struct {
	locked bool
	q      []*rt.Task
	vc     rt.Clock
}

// Lock locks m.
func (m *Mutex) Lock() {
	rt.Point()
	m.lock()
}

func (m *Mutex) lock() {
	for m.locked {
		m.q = append(m.q, rt.Cur())
		rt.Block("mutex")
	}

	m.locked = true
	m.vc.Acquire()
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	rt.Point()

	if m.locked {
		return false
	}

	m.locked = true
	m.vc.Acquire()

	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	if !m.locked {
		fatal("sync: unlock of unlocked mutex")
	}

	m.vc.Release()
	m.locked = false
	m.wake()
	rt.Point()
}

func (m *Mutex) wake() {
	if len(m.q) > 0 {
		t := m.q[0]
		m.q = m.q[1:]
		rt.Ready(t)
	}
}

func fatal(s string) {
	if rt.RaceFn != nil {
		rt.RaceFn("fatal error: " + s)
	}

	panic(s)
}

// RWMutex is a simulated sync.RWMutex: a pending writer blocks new readers.
type RWMutex struct {
	w       Mutex // Held by a pending or active writer.
	readers int
	writer  bool // Pending or active.
	active  bool
	wt      *rt.Task
	rq      []*rt.Task
	vc      rt.Clock
	rvc     rt.Clock
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	rt.Point()

	if m.writer {
		// Unlock hands the read lock to every reader it finds waiting.
		m.rq = append(m.rq, rt.Cur())
		rt.Block("rwmutex read lock")
	} else {
		m.readers++
	}

	m.vc.Acquire()
}

// TryRLock tries to lock for reading.
func (m *RWMutex) TryRLock() bool {
	rt.Point()

	if m.writer {
		return false
	}

	m.readers++
	m.vc.Acquire()

	return true
}

// RUnlock undoes a single RLock.
func (m *RWMutex) RUnlock() {
	if m.readers <= 0 {
		fatal("sync: RUnlock of unlocked RWMutex")
	}

	m.rvc.Release()
	m.readers--

	if m.readers == 0 && m.wt != nil {
		t := m.wt
		m.wt = nil
		rt.Ready(t)
	}

	rt.Point()
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	rt.Point()
	m.w.lock()
	m.writer = true

	for m.readers > 0 {
		m.wt = rt.Cur()
		rt.Block("rwmutex write lock")
	}

	m.active = true
	m.vc.Acquire()
	m.rvc.Acquire()
}

// TryLock tries to lock for writing.
func (m *RWMutex) TryLock() bool {
	rt.Point()

	if m.writer || m.readers > 0 || m.w.locked {
		return false
	}

	m.w.lock()
	m.writer, m.active = true, true
	m.vc.Acquire()
	m.rvc.Acquire()

	return true
}

// Unlock unlocks for writing.
func (m *RWMutex) Unlock() {
	if !m.active {
		fatal("sync: Unlock of unlocked RWMutex")
	}

	m.vc.Release()
	m.writer, m.active = false, false

	q := m.rq
	m.rq = nil

	for _, t := range q {
		m.readers++
		rt.Ready(t)
	}

	m.w.Unlock()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Cond is a simulated sync.Cond.
type Cond struct {
	L Locker
	q []*rt.Task
	s map[*rt.Task]bool
	v rt.Clock
}

// NewCond returns a new Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits.
func (c *Cond) Wait() {
	t := rt.Cur()
	c.q = append(c.q, t)

	if c.s == nil {
		c.s = map[*rt.Task]bool{}
	}

	delete(c.s, t)

	c.L.Unlock()

	if !c.s[t] {
		rt.Block("cond wait")
	}

	delete(c.s, t)
	c.L.Lock()
}

func (c *Cond) wakeOne() bool {
	if len(c.q) == 0 {
		return false
	}

	t := c.q[0]
	c.q = c.q[1:]

	c.s[t] = true

	if t.State == rt.Blocked && t.Why == "cond wait" {
		rt.Ready(t)
	}

	return true
}

// Signal wakes one waiter.
func (c *Cond) Signal() {
	rt.Point()
	c.wakeOne()
}

// Broadcast wakes all waiters.
func (c *Cond) Broadcast() {
	rt.Point()

	for c.wakeOne() {
	}
}

// WaitGroup is a simulated sync.WaitGroup.
type WaitGroup struct {
	n  int
	q  []*rt.Task
	vc rt.Clock
}

// Add adds delta.
func (w *WaitGroup) Add(delta int) {
	rt.Point()
	w.vc.Release()

	w.n += delta
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}

	if w.n == 0 {
		for _, t := range w.q {
			rt.Ready(t)
		}

		w.q = nil
	}
}

// Done decrements.
func (w *WaitGroup) Done() { w.Add(-1) }

// Go runs f in a new goroutine.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() {
		defer w.Done()
		f()
	})
}

// Wait waits for zero.
func (w *WaitGroup) Wait() {
	rt.Point()

	if w.n > 0 {
		w.q = append(w.q, rt.Cur())
		rt.Block("waitgroup")
	}

	w.vc.Acquire()
}

// Once is a simulated sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do calls f once.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()

	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once

	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var (
		o Once
		v T
	)

	return func() T {
		o.Do(func() { v = f() })

		return v
	}
}

// Map is a simulated sync.Map with a deterministic Range.
type Map struct {
	mu   Mutex
	m    map[any]any
	keys []any
}

// Load loads.
func (m *Map) Load(k any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]

	return v, ok
}

// Store stores.
func (m *Map) Store(k, v any) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.put(k, v)
}

func (m *Map) put(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}

	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}

	m.m[k] = v
}

func (m *Map) del(k any) {
	delete(m.m, k)

	for i, x := range m.keys {
		if x == k {
			m.keys = append(append([]any{}, m.keys[:i]...), m.keys[i+1:]...)

			break
		}
	}
}

// LoadOrStore loads or stores.
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()

	if x, ok := m.m[k]; ok {
		return x, true
	}

	m.put(k, v)

	return v, false
}

// LoadAndDelete loads and deletes.
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()

	v, ok := m.m[k]
	if ok {
		m.del(k)
	}

	return v, ok
}

// Swap swaps.
func (m *Map) Swap(k, v any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	x, ok := m.m[k]
	m.put(k, v)

	return x, ok
}

// CompareAndSwap swaps if equal.
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.mu.Lock()
	defer m.mu.Unlock()

	if x, ok := m.m[k]; ok && x == o {
		m.m[k] = n

		return true
	}

	return false
}

// Delete deletes.
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

// Range iterates in insertion order.
func (m *Map) Range(f func(k, v any) bool) {
	m.mu.Lock()
	keys := append([]any{}, m.keys...)
	m.mu.Unlock()

	for _, k := range keys {
		v, ok := m.Load(k)
		if ok && !f(k, v) {
			return
		}
	}
}

// Pool is a simulated sync.Pool that never caches.
type Pool struct{ New func() any }

// Get returns a new value.
func (p *Pool) Get() any {
	if p.New == nil {
		return nil
	}

	return p.New()
}

// Put drops the value.
func (p *Pool) Put(any) {}
