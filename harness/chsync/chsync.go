// Package chsync replaces sync in testing/synctest bubbles: blocked
// goroutines wait on channels, which synctest regards as durable.
// Channels belong to the waiting goroutine, so that a lock may be used in
// one bubble after another.
package chsync

import (
	"math/rand"
	"sync"
	"sync/atomic"
)

type (
	Locker    = sync.Locker
	Pool      = sync.Pool
	Map       = sync.Map
	WaitGroup = sync.WaitGroup
)

type Once struct {
	m    Mutex
	done atomic.Bool
}

func (o *Once) Do(f func()) {
	if o.done.Load() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

// RWMutex: released locks wake a random waiter, which competes with newcomers.
type RWMutex struct {
	m sync.Mutex
	w bool // held by a writer
	r int  // readers
	q []chan struct{}
}

func (m *RWMutex) try(write bool) bool {
	if m.w || (write && m.r > 0) {
		return false
	}
	if write {
		m.w = true
	} else {
		m.r++
	}
	return true
}

func (m *RWMutex) lock(write bool) {
	m.m.Lock()
	for !m.try(write) {
		ch := make(chan struct{})
		m.q = append(m.q, ch)
		m.m.Unlock()
		<-ch
		m.m.Lock()
	}
	m.m.Unlock()
}

func (m *RWMutex) unlock(write bool) {
	m.m.Lock()
	defer m.m.Unlock()
	if write {
		if !m.w {
			panic("sync: unlock of unlocked mutex")
		}
		m.w = false
	} else {
		if m.r <= 0 {
			panic("sync: RUnlock of unlocked RWMutex")
		}
		m.r--
	}
	// wake all, in random order: each tries again
	rand.Shuffle(len(m.q), func(i, j int) { m.q[i], m.q[j] = m.q[j], m.q[i] })
	for _, ch := range m.q {
		close(ch)
	}
	m.q = nil
}

func (m *RWMutex) Lock()    { m.lock(true) }
func (m *RWMutex) Unlock()  { m.unlock(true) }
func (m *RWMutex) RLock()   { m.lock(false) }
func (m *RWMutex) RUnlock() { m.unlock(false) }
func (m *RWMutex) TryLock() bool {
	m.m.Lock()
	defer m.m.Unlock()
	return m.try(true)
}
func (m *RWMutex) TryRLock() bool {
	m.m.Lock()
	defer m.m.Unlock()
	return m.try(false)
}

type rlocker RWMutex

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }
func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }

type Mutex struct{ rw RWMutex }

func (m *Mutex) Lock()         { m.rw.Lock() }
func (m *Mutex) Unlock()       { m.rw.Unlock() }
func (m *Mutex) TryLock() bool { return m.rw.TryLock() }

type Cond struct {
	L Locker
	m sync.Mutex
	q []chan struct{}
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	ch := make(chan struct{})
	c.m.Lock()
	c.q = append(c.q, ch)
	c.m.Unlock()
	c.L.Unlock()
	<-ch
	c.L.Lock()
}
func (c *Cond) Signal() {
	c.m.Lock()
	defer c.m.Unlock()
	if len(c.q) > 0 {
		close(c.q[0])
		c.q = c.q[1:]
	}
}
func (c *Cond) Broadcast() {
	c.m.Lock()
	defer c.m.Unlock()
	for _, ch := range c.q {
		close(ch)
	}
	c.q = nil
}
