// Package simsync replaces package sync in the instrumented sources: the same
// semantics, but blocking suspends the simulated task.
package simsync

import (
	"sync"
	"sync/atomic"

	rt "github.com/grepsuzette/joeson/verifrt"
)

type Locker = sync.Locker

type Mutex struct {
	locked bool
	hb     sync.Mutex // for the happens-before edge only: never contended
}

func (m *Mutex) Lock() {
	rt.Y(0)
	if m.locked {
		rt.Block("mutex", func() bool { return !m.locked })
	}
	m.locked = true
	m.hb.Lock()
}

func (m *Mutex) TryLock() bool {
	rt.Y(0)
	if m.locked {
		return false
	}
	m.locked = true
	m.hb.Lock()
	return true
}

func (m *Mutex) Unlock() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.hb.Unlock()
	m.locked = false
	rt.Y(0)
}

type RWMutex struct {
	w  bool
	r  int
	hb sync.RWMutex
}

func (m *RWMutex) Lock() {
	rt.Y(0)
	if m.w || m.r > 0 {
		rt.Block("rwmutex", func() bool { return !m.w && m.r == 0 })
	}
	m.w = true
	m.hb.Lock()
}

func (m *RWMutex) TryLock() bool {
	rt.Y(0)
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	m.hb.Lock()
	return true
}

func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.hb.Unlock()
	m.w = false
	rt.Y(0)
}

func (m *RWMutex) RLock() {
	rt.Y(0)
	if m.w {
		rt.Block("rwmutex (read)", func() bool { return !m.w })
	}
	m.r++
	m.hb.RLock()
}

func (m *RWMutex) TryRLock() bool {
	rt.Y(0)
	if m.w {
		return false
	}
	m.r++
	m.hb.RLock()
	return true
}

func (m *RWMutex) RUnlock() {
	if m.r == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.hb.RUnlock()
	m.r--
	rt.Y(0)
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()            { r.m.RLock() }
func (r rlocker) Unlock()          { r.m.RUnlock() }
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type Once struct {
	m    Mutex
	done atomic.Bool
}

func (o *Once) Do(f func()) {
	rt.Y(0)
	if o.done.Load() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

type WaitGroup struct {
	n  int
	wg sync.WaitGroup
}

func (w *WaitGroup) Add(d int) { w.n += d; w.wg.Add(d) }
func (w *WaitGroup) Done()     { w.Add(-1) }
func (w *WaitGroup) Wait() {
	rt.Y(0)
	if w.n > 0 {
		rt.Block("waitgroup", func() bool { return w.n == 0 })
	}
	w.wg.Wait()
}
func (w *WaitGroup) Go(f func()) { w.Add(1); rt.Go(func() { defer w.Done(); f() }) }

// Pool hands out the most recently returned object: legal, and the choice
// which makes a stale object visible the soonest.
type Pool struct {
	New func() any
	a   []any
	hb  sync.Mutex
}

func (p *Pool) Get() any {
	rt.Y(0)
	if n := len(p.a); n > 0 {
		x := p.a[n-1]
		p.a = p.a[:n-1]
		p.hb.Lock()
		p.hb.Unlock()
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.hb.Lock()
	p.hb.Unlock()
	p.a = append(p.a, x)
	rt.Y(0)
}

type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { rt.Y(0); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { rt.Y(0); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { rt.Y(0); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { rt.Y(0); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { rt.Y(0); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { rt.Y(0); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { rt.Y(0); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { rt.Y(0); return m.m.CompareAndDelete(k, o) }
func (m *Map) Clear()                           { rt.Y(0); m.m.Clear() }

// Range visits the entries in an order which is a function of the run's seed.
func (m *Map) Range(f func(k, v any) bool) {
	rt.Y(0)
	var keys []any
	m.m.Range(func(k, v any) bool { keys = append(keys, k); return true })
	rt.OrderKeys(keys)
	for _, k := range keys {
		if v, ok := m.m.Load(k); ok && !f(k, v) {
			return
		}
	}
}


type Cond struct {
	L       Locker
	waiters []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	woken := false
	c.waiters = append(c.waiters, &woken)
	c.L.Unlock()
	rt.Block("cond", func() bool { return woken })
	c.L.Lock()
}
func (c *Cond) Signal() {
	if len(c.waiters) > 0 {
		*c.waiters[0] = true
		c.waiters = c.waiters[1:]
	}
	rt.Y(0)
}
func (c *Cond) Broadcast() {
	for _, w := range c.waiters {
		*w = true
	}
	c.waiters = nil
	rt.Y(0)
}
