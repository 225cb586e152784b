//go:build go1.21

// Package vsync stands in for package sync in an instrumented build.
package vsync

import (
	"sync"

	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/vrt"
)

type (
	Locker = sync.Locker
	Map    = sync.Map
	Pool   = sync.Pool
)

// Mutex is a mutex whose acquisition is a scheduling point.
type Mutex struct {
	mu   sync.Mutex
	held bool
}

//go:norace
func (m *Mutex) free() bool { return !m.held }

//go:norace
func (m *Mutex) set(b bool) { m.held = b }

func (m *Mutex) Lock() {
	if vrt.Active() {
		vrt.Block("lock", m.free)
	}
	m.mu.Lock()
	m.set(true)
}

func (m *Mutex) Unlock() {
	m.set(false)
	m.mu.Unlock()
	if vrt.Active() {
		vrt.Yield("unlocked")
	}
}

func (m *Mutex) TryLock() bool {
	if vrt.Active() {
		vrt.Yield("trylock")
	}
	if m.mu.TryLock() {
		m.set(true)
		return true
	}
	return false
}

// RWMutex likewise.
type RWMutex struct {
	mu      sync.RWMutex
	writer  bool
	readers int
}

//go:norace
func (m *RWMutex) freeW() bool { return !m.writer && m.readers == 0 }

//go:norace
func (m *RWMutex) freeR() bool { return !m.writer }

//go:norace
func (m *RWMutex) setW(b bool) { m.writer = b }

//go:norace
func (m *RWMutex) addR(n int) { m.readers += n }

func (m *RWMutex) Lock() {
	if vrt.Active() {
		vrt.Block("lock", m.freeW)
	}
	m.mu.Lock()
	m.setW(true)
}
func (m *RWMutex) Unlock() {
	m.setW(false)
	m.mu.Unlock()
	if vrt.Active() {
		vrt.Yield("unlocked")
	}
}
func (m *RWMutex) RLock() {
	if vrt.Active() {
		vrt.Block("rlock", m.freeR)
	}
	m.mu.RLock()
	m.addR(1)
}
func (m *RWMutex) RUnlock() {
	m.addR(-1)
	m.mu.RUnlock()
	if vrt.Active() {
		vrt.Yield("runlocked")
	}
}
func (m *RWMutex) TryLock() bool {
	if vrt.Active() {
		vrt.Yield("trylock")
	}
	if m.mu.TryLock() {
		m.setW(true)
		return true
	}
	return false
}
func (m *RWMutex) TryRLock() bool {
	if vrt.Active() {
		vrt.Yield("trylock")
	}
	if m.mu.TryRLock() {
		m.addR(1)
		return true
	}
	return false
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// Once runs a function once; others wait for it.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc returns a function running f once.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue likewise with a value.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// WaitGroup waits for a collection.
type WaitGroup struct {
	wg sync.WaitGroup
	n  int
}

//go:norace
func (w *WaitGroup) zero() bool { return w.n == 0 }

//go:norace
func (w *WaitGroup) add(n int) { w.n += n }

func (w *WaitGroup) Add(n int) {
	w.add(n)
	w.wg.Add(n)
}
func (w *WaitGroup) Done() {
	w.add(-1)
	w.wg.Done()
	if vrt.Active() {
		vrt.Yield("done")
	}
}
func (w *WaitGroup) Wait() {
	if vrt.Active() {
		vrt.Block("wait", w.zero)
	}
	w.wg.Wait()
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vrt.Go(func() {
		defer w.Done()
		f()
	})
}

// Cond is a condition variable.
type Cond struct {
	L       Locker
	real    *sync.Cond
	waiters []*bool
	mu      sync.Mutex
}

// NewCond makes a condition variable.
func NewCond(l Locker) *Cond { return &Cond{L: l, real: sync.NewCond(l)} }

//go:norace
func (c *Cond) enqueue() *bool {
	b := new(bool)
	c.waiters = append(c.waiters, b)
	return b
}

//go:norace
func woken(b *bool) bool { return *b }

//go:norace
func (c *Cond) wake(all bool) {
	for len(c.waiters) > 0 {
		*c.waiters[0] = true
		c.waiters = c.waiters[1:]
		if !all {
			return
		}
	}
}

func (c *Cond) Wait() {
	if !vrt.Active() {
		c.real.Wait()
		return
	}
	b := c.enqueue()
	c.L.Unlock()
	vrt.Block("cond wait", func() bool { return woken(b) })
	c.mu.Lock()
	c.mu.Unlock()
	c.L.Lock()
}
func (c *Cond) Signal() {
	if !vrt.Active() {
		c.real.Signal()
		return
	}
	c.mu.Lock()
	c.mu.Unlock()
	c.wake(false)
	vrt.Yield("signal")
}
func (c *Cond) Broadcast() {
	if !vrt.Active() {
		c.real.Broadcast()
		return
	}
	c.mu.Lock()
	c.mu.Unlock()
	c.wake(true)
	vrt.Yield("broadcast")
}
