// Package sync stands in for the standard sync package inside instrumented
// code. Within a simulated run blocking is decided by the simulated scheduler.
package sync

import (
	rsync "sync"

	"verif.local/sim/seam"
)

type Locker = rsync.Locker

type Mutex struct {
	locked bool
	real   rsync.Mutex
}

func (m *Mutex) Lock() {
	if !seam.Active() {
		m.real.Lock()
		return
	}
	seam.Yield(0)
	seam.WaitUntil(func() bool { return !m.locked })
	m.locked = true
}
func (m *Mutex) TryLock() bool {
	if !seam.Active() {
		return m.real.TryLock()
	}
	seam.Yield(0)
	if m.locked {
		return false
	}
	m.locked = true
	return true
}
func (m *Mutex) Unlock() {
	if !seam.Active() {
		if m.locked { // unwinding an aborted simulated run
			m.locked = false
			return
		}
		m.real.Unlock()
		return
	}
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	seam.Yield(0)
}

type RWMutex struct {
	writer  bool
	readers int
	real    rsync.RWMutex
}

func (m *RWMutex) Lock() {
	if !seam.Active() {
		m.real.Lock()
		return
	}
	seam.Yield(0)
	seam.WaitUntil(func() bool { return !m.writer && m.readers == 0 })
	m.writer = true
}
func (m *RWMutex) Unlock() {
	if !seam.Active() {
		if m.writer {
			m.writer = false
			return
		}
		m.real.Unlock()
		return
	}
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	seam.Yield(0)
}
func (m *RWMutex) RLock() {
	if !seam.Active() {
		m.real.RLock()
		return
	}
	seam.Yield(0)
	seam.WaitUntil(func() bool { return !m.writer })
	m.readers++
}
func (m *RWMutex) RUnlock() {
	if !seam.Active() {
		if m.readers > 0 {
			m.readers--
			return
		}
		m.real.RUnlock()
		return
	}
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	seam.Yield(0)
}
func (m *RWMutex) TryLock() bool {
	if !seam.Active() {
		return m.real.TryLock()
	}
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}
func (m *RWMutex) TryRLock() bool {
	if !seam.Active() {
		return m.real.TryRLock()
	}
	if m.writer {
		return false
	}
	m.readers++
	return true
}
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

// Pool keeps a LIFO list: objects are always reused, the strictest legal behaviour.
type Pool struct {
	New   func() any
	items []any
	m     rsync.Mutex
}

func (p *Pool) Get() any {
	seam.Yield(0)
	p.m.Lock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.m.Unlock()
		return x
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.m.Lock()
	p.items = append(p.items, x)
	p.m.Unlock()
	seam.Yield(0)
}

type WaitGroup struct {
	n    int
	real rsync.WaitGroup
}

func (w *WaitGroup) Add(d int) {
	if !seam.Active() {
		w.real.Add(d)
		return
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() {
	if !seam.Active() {
		w.real.Done()
		return
	}
	w.Add(-1)
}
func (w *WaitGroup) Wait() {
	if !seam.Active() {
		w.real.Wait()
		return
	}
	seam.WaitUntil(func() bool { return w.n == 0 })
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	seam.Go(func() { defer w.Done(); f() })
}

type Map = rsync.Map

// Cond hands out tickets; a waiter continues when its ticket was called.
type Cond struct {
	L            Locker
	next, called uint64
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	ticket := c.next
	c.next++
	c.L.Unlock()
	seam.WaitUntil(func() bool { return ticket < c.called })
	c.L.Lock()
}
func (c *Cond) Signal() {
	if c.called < c.next {
		c.called++
	}
}
func (c *Cond) Broadcast() { c.called = c.next }
