// Package vsync stands in for package sync in instrumented builds. Its locks
// block on channels, which a synctest bubble counts as blocked, and keep the
// semantics of the originals, including that a waiting writer holds up new
// readers.
package vsync

import (
	"sync"
	"sync/atomic"
)

type (
	WaitGroup = sync.WaitGroup
	Map       = sync.Map
	Pool      = sync.Pool
	Locker    = sync.Locker
)

// Mutex is a lock.
type Mutex struct {
	p atomic.Pointer[chan struct{}]
}

func (m *Mutex) ch() chan struct{} {
	if c := m.p.Load(); c != nil {
		return *c
	}
	c := make(chan struct{}, 1)
	m.p.CompareAndSwap(nil, &c)
	return *m.p.Load()
}

func (m *Mutex) Lock() { m.ch() <- struct{}{} }

func (m *Mutex) TryLock() bool {
	select {
	case m.ch() <- struct{}{}:
		return true
	default:
		return false
	}
}

func (m *Mutex) Unlock() {
	select {
	case <-m.ch():
	default:
		panic("vsync: unlock of unlocked mutex")
	}
}

type waiter struct {
	write bool
	c     chan struct{}
}

// RWMutex is a reader/writer lock.
type RWMutex struct {
	mu      sync.Mutex // held for moments only
	readers int
	writer  bool
	queue   []waiter
}

func (m *RWMutex) writersWait() bool {
	for _, w := range m.queue {
		if w.write {
			return true
		}
	}
	return false
}

func (m *RWMutex) RLock() {
	m.mu.Lock()
	if !m.writer && !m.writersWait() {
		m.readers++
		m.mu.Unlock()
		return
	}
	w := waiter{false, make(chan struct{})}
	m.queue = append(m.queue, w)
	m.mu.Unlock()
	<-w.c
}

func (m *RWMutex) TryRLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.writer || m.writersWait() {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) Lock() {
	m.mu.Lock()
	if !m.writer && m.readers == 0 {
		m.writer = true
		m.mu.Unlock()
		return
	}
	w := waiter{true, make(chan struct{})}
	m.queue = append(m.queue, w)
	m.mu.Unlock()
	<-w.c
}

func (m *RWMutex) TryLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) grantWriter() {
	for i, w := range m.queue {
		if w.write {
			m.queue = append(append([]waiter{}, m.queue[:i]...), m.queue[i+1:]...)
			m.writer = true
			close(w.c)
			return
		}
	}
}

func (m *RWMutex) RUnlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.readers <= 0 {
		panic("vsync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	if m.readers == 0 {
		m.grantWriter()
	}
}

func (m *RWMutex) Unlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if !m.writer {
		panic("vsync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	// readers that came meanwhile go first
	var rest []waiter
	for _, w := range m.queue {
		if w.write {
			rest = append(rest, w)
		} else {
			m.readers++
			close(w.c)
		}
	}
	m.queue = rest
	if m.readers == 0 {
		m.grantWriter()
	}
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once runs a function once.
type Once struct {
	m    Mutex
	done atomic.Bool
}

func (o *Once) Do(f func()) {
	if o.done.Load() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}

// Cond is a condition variable.
type Cond struct {
	L     Locker
	mu    sync.Mutex
	queue []chan struct{}
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	w := make(chan struct{})
	c.mu.Lock()
	c.queue = append(c.queue, w)
	c.mu.Unlock()
	c.L.Unlock()
	<-w
	c.L.Lock()
}

func (c *Cond) Signal() {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.queue) > 0 {
		close(c.queue[0])
		c.queue = c.queue[1:]
	}
}

func (c *Cond) Broadcast() {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, w := range c.queue {
		close(w)
	}
	c.queue = nil
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}
