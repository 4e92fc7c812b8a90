// Package vsync replaces sync in the build that replays a recorded schedule.
package vsync

import (
	"sync"

	rt "github.com/coveooss/gotemplate/v3/verifrt"
)

type (
	// Map is sync.Map with a scheduling point before each operation.
	Map struct{ m sync.Map }
	// WaitGroup is sync.WaitGroup.
	WaitGroup = sync.WaitGroup
	// Locker is sync.Locker.
	Locker = sync.Locker
)

// Load of sync.Map.
func (m *Map) Load(k interface{}) (interface{}, bool) { rt.SchedPoint(); return m.m.Load(k) }

// Store of sync.Map.
func (m *Map) Store(k, v interface{}) { rt.SchedPoint(); m.m.Store(k, v) }

// LoadOrStore of sync.Map.
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	rt.SchedPoint()
	return m.m.LoadOrStore(k, v)
}

// Delete of sync.Map.
func (m *Map) Delete(k interface{}) { rt.SchedPoint(); m.m.Delete(k) }

// Range of sync.Map.
func (m *Map) Range(f func(k, v interface{}) bool) { rt.SchedPoint(); m.m.Range(f) }

// LoadAndDelete of sync.Map.
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	rt.SchedPoint()
	return m.m.LoadAndDelete(k)
}

// Swap of sync.Map.
func (m *Map) Swap(k, v interface{}) (interface{}, bool) { rt.SchedPoint(); return m.m.Swap(k, v) }

// Clear of sync.Map.
func (m *Map) Clear() { rt.SchedPoint(); m.m.Clear() }

// CompareAndSwap of sync.Map.
func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	rt.SchedPoint()
	return m.m.CompareAndSwap(k, o, n)
}

// CompareAndDelete of sync.Map.
func (m *Map) CompareAndDelete(k, o interface{}) bool {
	rt.SchedPoint()
	return m.m.CompareAndDelete(k, o)
}

// Pool is a sync.Pool that gives back the last value put.
type Pool struct {
	New func() interface{}
	mu  sync.Mutex
	l   []interface{}
}

// Put of sync.Pool.
func (p *Pool) Put(v interface{}) {
	if v == nil {
		return
	}
	rt.SchedPoint()
	p.mu.Lock()
	p.l = append(p.l, v)
	p.mu.Unlock()
}

// Get of sync.Pool.
func (p *Pool) Get() (v interface{}) {
	rt.SchedPoint()
	p.mu.Lock()
	if n := len(p.l); n > 0 {
		v, p.l = p.l[n-1], p.l[:n-1]
	}
	p.mu.Unlock()
	if v == nil && p.New != nil {
		v = p.New()
	}
	return
}

// RWMutex is a lock.
type RWMutex struct {
	real    sync.RWMutex
	owned   bool
	readers int
}

// Lock of sync.RWMutex.
func (m *RWMutex) Lock() {
	if !rt.Scheduling() {
		m.real.Lock()
		return
	}
	rt.SchedPoint()
	rt.WaitFor(func() bool { return !m.owned && m.readers == 0 })
	m.owned = true
	m.real.Lock()
}

// Unlock of sync.RWMutex.
func (m *RWMutex) Unlock() {
	if !rt.Scheduling() {
		m.real.Unlock()
		return
	}
	if !m.owned {
		panic("sync: unlock of unlocked mutex")
	}
	m.owned = false
	m.real.Unlock()
}

// RLock of sync.RWMutex.
func (m *RWMutex) RLock() {
	if !rt.Scheduling() {
		m.real.RLock()
		return
	}
	rt.SchedPoint()
	rt.WaitFor(func() bool { return !m.owned })
	m.readers++
	m.real.RLock()
}

// RUnlock of sync.RWMutex.
func (m *RWMutex) RUnlock() {
	if !rt.Scheduling() {
		m.real.RUnlock()
		return
	}
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.real.RUnlock()
}

// TryLock of sync.RWMutex.
func (m *RWMutex) TryLock() bool {
	if !rt.Scheduling() {
		return m.real.TryLock()
	}
	rt.SchedPoint()
	if m.owned || m.readers > 0 {
		return false
	}
	m.owned = true
	m.real.Lock()
	return true
}

// Mutex is a lock.
type Mutex struct{ m RWMutex }

// Lock of sync.Mutex.
func (m *Mutex) Lock() { m.m.Lock() }

// Unlock of sync.Mutex.
func (m *Mutex) Unlock() { m.m.Unlock() }

// TryLock of sync.Mutex.
func (m *Mutex) TryLock() bool { return m.m.TryLock() }

// Once is sync.Once.
type Once struct {
	real    sync.Once
	running bool
	done    bool
}

// Do of sync.Once.
func (o *Once) Do(f func()) {
	if !rt.Scheduling() {
		o.real.Do(func() { defer func() { o.done = true }(); f() })
		return
	}
	rt.SchedPoint()
	if !o.done && !o.running {
		o.running = true
		defer func() { o.done = true; o.running = false }()
		o.real.Do(f)
		return
	}
	rt.WaitFor(func() bool { return o.done })
	o.real.Do(func() {})
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() { return sync.OnceFunc(f) }

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T { return sync.OnceValue(f) }

// OnceValues is sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) { return sync.OnceValues(f) }

// TryRLock of sync.RWMutex.
func (m *RWMutex) TryRLock() bool {
	if !rt.Scheduling() {
		return m.real.TryRLock()
	}
	rt.SchedPoint()
	if m.owned {
		return false
	}
	m.readers++
	m.real.RLock()
	return true
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker of sync.RWMutex.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }
