// Package vsync replaces sync under the controlled scheduler.
package vsync

import (
	"sync"

	"github.com/lightstep/otel-launcher-go/zzverif/vsched"
)

type Locker = sync.Locker

// Threads that are being aborted run their deferred unlocks without
// scheduling; the states of the locks do not matter any more then.

type Mutex struct{ held bool }

func (m *Mutex) Lock() {
	vsched.Point()
	vsched.Block(func() bool { return !m.held })
	m.held = true
}

func (m *Mutex) TryLock() bool {
	vsched.Point()
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) Unlock() {
	if !m.held {
		if vsched.Aborting() {
			return
		}
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	vsched.AfterRelease()
}

type RWMutex struct {
	w       bool
	r       int
	pending int // waiting writers block new readers
}

func (m *RWMutex) Lock() {
	vsched.Point()
	if m.w || m.r > 0 {
		m.pending++
		vsched.Block(func() bool { return !m.w && m.r == 0 })
		m.pending--
	}
	m.w = true
}

func (m *RWMutex) TryLock() bool {
	vsched.Point()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) Unlock() {
	if !m.w {
		if vsched.Aborting() {
			return
		}
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	vsched.AfterRelease()
}

func (m *RWMutex) RLock() {
	vsched.Point()
	vsched.Block(func() bool { return !m.w && m.pending == 0 })
	m.r++
}

func (m *RWMutex) TryRLock() bool {
	vsched.Point()
	if m.w || m.pending > 0 {
		return false
	}
	m.r++
	return true
}

func (m *RWMutex) RUnlock() {
	if m.r == 0 {
		if vsched.Aborting() {
			return
		}
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	vsched.AfterRelease()
}

type rlocker RWMutex

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }
func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	vsched.Point()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	vsched.Point()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	vsched.Point()
	vsched.Block(func() bool { return w.n == 0 })
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go(func() { defer w.Done(); f() })
}

type Cond struct {
	L   Locker
	seq int
	q   []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	ready := new(bool)
	c.q = append(c.q, ready)
	c.L.Unlock()
	vsched.Block(func() bool { return *ready })
	c.L.Lock()
}
func (c *Cond) Signal() {
	vsched.Point()
	if len(c.q) > 0 {
		*c.q[0] = true
		c.q = c.q[1:]
	}
}
func (c *Cond) Broadcast() {
	vsched.Point()
	for _, r := range c.q {
		*r = true
	}
	c.q = nil
}

type Pool struct {
	New   func() any
	items []any
}

func (p *Pool) Get() any {
	vsched.Point()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	vsched.Point()
	if x != nil {
		p.items = append(p.items, x)
	}
}

type Map struct {
	m    map[any]any
	keys []any
}

func (m *Map) Load(k any) (any, bool) {
	vsched.Point()
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) set(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) Store(k, v any) { vsched.Point(); m.set(k, v) }
func (m *Map) Swap(k, v any) (any, bool) {
	vsched.Point()
	o, ok := m.m[k]
	m.set(k, v)
	return o, ok
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	vsched.Point()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.set(k, v)
	return v, false
}
func (m *Map) del(k any) {
	delete(m.m, k)
	for i := range m.keys {
		if m.keys[i] == k {
			m.keys = append(append([]any{}, m.keys[:i]...), m.keys[i+1:]...)
			break
		}
	}
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	vsched.Point()
	o, ok := m.m[k]
	if ok {
		m.del(k)
	}
	return o, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) CompareAndSwap(k, o, n any) bool {
	vsched.Point()
	if v, ok := m.m[k]; ok && v == o {
		m.set(k, n)
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	vsched.Point()
	if v, ok := m.m[k]; ok && v == o {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	vsched.Point()
	for _, k := range append([]any{}, m.keys...) {
		v, ok := m.m[k]
		if ok && !f(k, v) {
			return
		}
		vsched.Point()
	}
}
func (m *Map) Clear() { vsched.Point(); m.m, m.keys = nil, nil }
