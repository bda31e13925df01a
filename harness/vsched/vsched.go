// Package vsched is a deterministic cooperative scheduler.  During Run,
// exactly one thread executes at a time and control is handed over only
// at scheduling points.  Outside Run every operation is a no-op.
package vsched

import (
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sync/atomic"
	"time"
)

type thread struct {
	id      int
	wake    chan struct{}
	blocked func() bool // non-nil: runnable only when it returns true
	yielded bool        // called Gosched: others first
	done    bool
	prio    int
}

type Sched struct {
	rng      *rand.Rand
	threads  []*thread
	cur      *thread
	steps    int
	fineP    float64 // probability of a switch at a fine point
	coarseP  float64 // probability of a switch at a coarse point
	pct      bool
	changeAt map[int]bool
	Problem  string // deadlock, livelock, panic
	Detail   string
	finished chan struct{}
	aborting bool
	limit    int
	low      int
}

var s *Sched // non-nil during Run
var active atomic.Bool
var progress atomic.Int64

type abort struct{}

// Watchdog ends the process with status 3 when a run stops making progress
// (a thread blocked on something the scheduler does not control).
func Watchdog(d time.Duration) {
	go func() {
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(d / 10)
			p := progress.Load()
			if p != last || !active.Load() {
				last, since = p, time.Now()
				continue
			}
			if time.Since(since) > d {
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				fmt.Fprintf(os.Stderr, "STALL: uncontrolled blocking\n%s\n", buf[:n])
				os.Exit(3)
			}
		}
	}()
}

type Options struct {
	Seed    int64
	FineP   float64
	CoarseP float64
	PCT     int // > 0: number of priority change points
	Horizon int // steps over which they are spread
	Limit   int
}

// Run executes main as the first thread until all threads end.
func Run(o Options, main func()) *Sched {
	sc := &Sched{rng: rand.New(rand.NewSource(o.Seed)), fineP: o.FineP, coarseP: o.CoarseP, finished: make(chan struct{}), limit: o.Limit}
	if sc.limit == 0 {
		sc.limit = 30000
	}
	if o.PCT > 0 {
		sc.pct = true
		sc.changeAt = map[int]bool{}
		h := o.Horizon
		if h <= 0 {
			h = 500
		}
		for i := 0; i < o.PCT; i++ {
			sc.changeAt[sc.rng.Intn(h)] = true
		}
	}
	s = sc
	active.Store(true)
	t := sc.spawn(main)
	sc.cur = t
	t.wake <- struct{}{}
	<-sc.finished
	active.Store(false)
	s = nil
	return sc
}

func (sc *Sched) spawn(f func()) *thread {
	t := &thread{id: len(sc.threads), wake: make(chan struct{}, 1), prio: sc.rng.Intn(1 << 20)}
	sc.threads = append(sc.threads, t)
	go func() {
		<-t.wake
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(abort); !ok && sc.Problem == "" {
					sc.Problem = "panic"
					sc.Detail = fmt.Sprint(r) + "\n" + string(debug.Stack())
				}
			}
			t.done = true
			sc.next(t)
		}()
		if sc.aborting {
			return
		}
		f()
	}()
	return t
}

// Go starts f as a new thread.
func Go(f func()) {
	if s == nil {
		go f()
		return
	}
	s.spawn(f)
	Point()
}

// next hands control to some runnable thread, given that cur ended.
func (sc *Sched) next(me *thread) {
	if sc.Problem != "" {
		sc.aborting = true
	}
	t := sc.pick(me, true)
	if t == nil {
		alive := false
		for _, x := range sc.threads {
			if !x.done {
				alive = true
				t = x
			}
		}
		if !alive {
			close(sc.finished)
			return
		}
		if sc.Problem == "" {
			sc.Problem = "deadlock"
		}
		sc.aborting = true
	}
	sc.cur = t
	t.wake <- struct{}{}
}

func (sc *Sched) runnable(t *thread) bool {
	if t.done {
		return false
	}
	if sc.aborting || t.blocked == nil {
		return true
	}
	return t.blocked()
}

// pick selects the next thread to run; nil if none is runnable.
func (sc *Sched) pick(me *thread, must bool) *thread {
	var c []*thread
	for _, t := range sc.threads {
		if (t != me || !must) && sc.runnable(t) {
			c = append(c, t)
		}
	}
	if len(c) == 0 {
		return nil
	}
	// threads that called Gosched run only if nobody else can
	var d []*thread
	for _, t := range c {
		if !t.yielded {
			d = append(d, t)
		}
	}
	if len(d) == 0 {
		d = c
	}
	for _, t := range d {
		t.yielded = false
	}
	if sc.steps > sc.limit { // fair
		best := d[0]
		for _, t := range d {
			if t.prio < best.prio {
				best = t
			}
		}
		sc.low++
		best.prio = 1<<30 + sc.low
		return best
	}
	if sc.pct {
		best := d[0]
		for _, t := range d {
			if t.prio > best.prio {
				best = t
			}
		}
		return best
	}
	return d[sc.rng.Intn(len(d))]
}

func (sc *Sched) switchTo(t *thread) {
	me := sc.cur
	if t != me {
		sc.cur = t
		t.wake <- struct{}{}
		<-me.wake
	}
	if sc.aborting {
		panic(abort{})
	}
}

func (sc *Sched) step() {
	sc.steps++
	progress.Add(1)
	if sc.steps > sc.limit*8 && sc.Problem == "" {
		sc.Problem = "livelock"
		sc.aborting = true
	}
	if sc.aborting {
		panic(abort{})
	}
	if sc.pct && sc.changeAt[sc.steps] {
		sc.low--
		sc.cur.prio = sc.low
	}
}

func (sc *Sched) point(p float64) {
	if sc.aborting {
		panic(abort{})
	}
	sc.step()
	if !sc.pct && sc.steps <= sc.limit && sc.rng.Float64() >= p {
		return
	}
	if t := sc.pick(sc.cur, false); t != nil {
		sc.switchTo(t)
	}
}

// aborted threads unwinding through deferred operations must not schedule.
func dead() bool { return s == nil || s.aborting }

// Point is a coarse scheduling point (before a synchronization operation).
func Point() {
	if dead() {
		return
	}
	s.point(s.coarseP)
}

// P is a fine scheduling point (before a statement).
func P() {
	if dead() || s.fineP == 0 {
		return
	}
	s.point(s.fineP)
}

// Y is a fine scheduling point between reading and using a value.
func Y[T any](v T) T {
	P()
	return v
}

// Gosched lets other threads run first.
func Gosched() {
	if dead() {
		runtime.Gosched()
		return
	}
	s.step()
	s.cur.yielded = true
	if t := s.pick(s.cur, true); t != nil {
		s.switchTo(t)
	} else {
		s.cur.yielded = false
	}
}

// Block suspends the thread until cond holds.
func Block(cond func() bool) {
	if s == nil {
		if !cond() {
			panic("vsched: blocking outside of a run")
		}
		return
	}
	if s.aborting {
		return
	}
	for !cond() {
		me := s.cur
		s.step()
		me.blocked = cond
		t := s.pick(me, true)
		if t == nil {
			me.blocked = nil
			s.Problem = "deadlock"
			s.Detail = string(debug.Stack())
			s.aborting = true
			panic(abort{})
		}
		s.switchTo(t)
		me.blocked = nil
	}
}

// Active reports whether a run is under way.
func Active() bool { return s != nil }

// ID is the current thread.
func ID() int {
	if s == nil {
		return -1
	}
	return s.cur.id
}

// Steps is the number of scheduling points passed.
func (sc *Sched) Steps() int { return sc.steps }

// Aborting reports whether the run is being torn down.
func Aborting() bool { return s != nil && s.aborting }

// AfterRelease is a coarse point after releasing a lock; it must be usable
// in deferred calls of aborted threads.
func AfterRelease() {
	if dead() {
		return
	}
	s.point(s.coarseP / 2)
}
