// Package vmetrics stands in for runtime/metrics, with scripted metrics.
package vmetrics

import (
	"sync"
	"time"
)

type ValueKind int

const (
	KindBad ValueKind = iota
	KindUint64
	KindFloat64
	KindFloat64Histogram
)

type Float64Histogram struct {
	Counts  []uint64
	Buckets []float64
}

type Description struct {
	Name        string
	Description string
	Kind        ValueKind
	Cumulative  bool
}

type Value struct {
	kind ValueKind
	u    uint64
	f    float64
	h    *Float64Histogram
}

func (v Value) Kind() ValueKind { return v.kind }
func (v Value) Uint64() uint64 {
	if v.kind != KindUint64 {
		panic("called Uint64 on non-uint64 metric value")
	}
	return v.u
}
func (v Value) Float64() float64 {
	if v.kind != KindFloat64 {
		panic("called Float64 on non-float64 metric value")
	}
	return v.f
}
func (v Value) Float64Histogram() *Float64Histogram {
	if v.kind != KindFloat64Histogram {
		panic("called Float64Histogram on non-Float64Histogram metric value")
	}
	return v.h
}

type Sample struct {
	Name  string
	Value Value
}

var (
	mu   sync.Mutex
	all  []Description
	vals map[string]Value
)

// Script sets what All returns and clears the values.
func Script(ds []Description) {
	mu.Lock()
	defer mu.Unlock()
	all, vals = ds, map[string]Value{}
}

// Put sets the value of a metric.
func Put(name string, k ValueKind, x float64) {
	mu.Lock()
	defer mu.Unlock()
	vals[name] = Value{kind: k, u: uint64(x), f: x, h: &Float64Histogram{}}
}

func All() []Description {
	mu.Lock()
	defer mu.Unlock()
	return append([]Description{}, all...)
}

// twice holds two sets of values for two readings that overlap if they can.
type twice struct {
	n    int
	vals [2]map[string]Value
	in   [2]chan struct{}
	out  [2]chan struct{}
}

var two *twice

// Twice gives the next two calls of Read different values, and lets them
// overlap; the values are those Put before each call of Twice.
func Twice(a, b func()) {
	t := &twice{}
	for k, f := range []func(){a, b} {
		f()
		mu.Lock()
		t.vals[k] = map[string]Value{}
		for n, v := range vals {
			t.vals[k][n] = v
		}
		mu.Unlock()
		t.in[k], t.out[k] = make(chan struct{}), make(chan struct{})
	}
	mu.Lock()
	two = t
	mu.Unlock()
}

// Once ends Twice.
func Once() {
	mu.Lock()
	two = nil
	mu.Unlock()
}

func wait(c chan struct{}) {
	select {
	case <-c:
	case <-time.After(3 * time.Millisecond):
	}
}

func Read(m []Sample) {
	mu.Lock()
	if t := two; t != nil && t.n < 2 {
		k := t.n
		t.n++
		mu.Unlock()
		for i := range m {
			if i == len(m)/2 {
				close(t.in[k])
				wait(t.in[1-k])
			}
			m[i].Value = t.vals[k][m[i].Name]
		}
		close(t.out[k])
		wait(t.out[1-k])
		return
	}
	defer mu.Unlock()
	for i := range m {
		m[i].Value = vals[m[i].Name]
	}
}
