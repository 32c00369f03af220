package zzvrt

import (
	"runtime"
	"sync"
	"time"
)

// A cooperative scheduler: it runs the threads of a program one at a time and
// switches where the plan says. Handing over is done by plain memory accesses
// that the race detector doesn't see, so that the only happens-before edges
// are those of the program itself: whatever the detector reports on a schedule
// is a data race even though the threads never ran at the same time.

// Switch says that thread T hands over to thread To at its N-th point.
type Switch struct{ T, N, To int }

// Outcome is what Run observed.
type Outcome struct {
	Status string // ok, deadlock, released (blocked in something else, finished freely), stuck
	Taken  int    // switches of the plan that happened
	Points []int  // per thread
	Trace  [][]int32
	Panics []any
}

// LockSite is the site of the points at lock operations.
const LockSite = -1

const maxThreads, maxTrace = 4, 1 << 16

type waiting int8

const (
	ready waiting = iota
	onMutex
	onWrite
	onRead
	onGroup
)

type thread struct {
	points int
	done   bool
	what   waiting
	m      *Mutex
	rw     *RWMutex
	wg     *WaitGroup
	panicv any
	trace  []int32
}

type scheduler struct {
	threads [maxThreads]thread
	n       int
	cur     int
	plan    []Switch
	taken   int
	steps   int
	record  bool
	free    bool // let everything go
	status  string
	wg      sync.WaitGroup
}

var sched *scheduler

// Run runs the functions as threads, one at a time: the first one first, each
// until it ends, blocks, or the plan switches.
//
//go:norace
func Run(fns []func(), plan []Switch, record bool) Outcome {
	s := &scheduler{n: len(fns), plan: plan, record: record, cur: -1}
	for i := range fns {
		if record {
			s.threads[i].trace = make([]int32, 0, maxTrace)
		}
		s.wg.Add(1)
		go s.main(i, fns[i])
	}
	sched = s
	s.cur = 0
	last, since := -1, time.Now()
	for s.status == "" {
		runtime.Gosched()
		if s.steps != last {
			last, since = s.steps, time.Now()
		} else if d := time.Since(since); !s.free && d > 3*time.Second {
			s.free, since = true, time.Now() // it waits for something that isn't under control
		} else if s.free && d > 20*time.Second {
			s.status = "stuck"
		}
	}
	if s.status == "ok" {
		s.wg.Wait()
		if s.free {
			s.status = "released"
		}
	}
	sched = nil
	o := Outcome{Status: s.status, Taken: s.taken}
	for i := 0; i < s.n; i++ {
		t := &s.threads[i]
		o.Points = append(o.Points, t.points)
		o.Panics = append(o.Panics, t.panicv)
		o.Trace = append(o.Trace, t.trace)
	}
	return o
}

//go:norace
func (s *scheduler) main(i int, fn func()) {
	for s.cur != i && !s.free {
		runtime.Gosched()
	}
	s.threads[i].run(fn)
	s.threads[i].done = true
	s.steps++
	s.next(i)
	s.wg.Done()
}

//go:norace
func (t *thread) run(fn func()) {
	defer t.rescue()
	fn()
}

//go:norace
func (t *thread) rescue() { t.panicv = recover() }

//go:norace
func (t *thread) runnable() bool {
	if t.done {
		return false
	}
	switch t.what {
	case onMutex:
		return !t.m.held
	case onWrite:
		return !t.rw.writer && t.rw.readers == 0
	case onRead:
		return !t.rw.writer
	case onGroup:
		return t.wg.n <= 0
	}
	return true
}

// next hands over to a runnable thread, since i has ended or is blocked.
//
//go:norace
func (s *scheduler) next(i int) {
	if s.free {
		for k := 0; k < s.n; k++ {
			if !s.threads[k].done {
				return
			}
		}
		s.status = "ok"
		return
	}
	ended := true
	for k := 0; k < s.n; k++ {
		if s.threads[k].runnable() {
			s.hand(i, k)
			return
		}
		ended = ended && s.threads[k].done
	}
	if ended {
		s.status = "ok"
		return
	}
	s.status = "deadlock"
	for {
		time.Sleep(time.Hour)
	}
}

//go:norace
func (s *scheduler) hand(from, to int) {
	if from == to {
		return
	}
	s.cur = to
	for !s.threads[from].done && s.cur != from && !s.free {
		runtime.Gosched()
	}
}

//go:norace
func (s *scheduler) point(site int) {
	if s.free {
		return
	}
	i := s.cur
	t := &s.threads[i]
	if s.record && len(t.trace) < maxTrace {
		t.trace = t.trace[:len(t.trace)+1]
		t.trace[len(t.trace)-1] = int32(site)
	}
	n := t.points
	t.points++
	s.steps++
	if s.taken < len(s.plan) {
		if p := s.plan[s.taken]; p.T == i && p.N == n {
			s.taken++
			if s.threads[p.To].runnable() {
				s.hand(i, p.To)
			}
		}
	}
}

// block waits until the thread is runnable.
//
//go:norace
func (s *scheduler) block(t *thread, i int) {
	for !t.runnable() && !s.free {
		s.next(i)
	}
	t.what = ready
}

// Point and Enter are the places where the scheduler may switch.
//
//go:norace
func Point(site int) {
	if s := sched; s != nil {
		s.point(site)
	}
}

//go:norace
func Enter(site int) {
	if s := sched; s != nil {
		s.point(site)
	}
}

// ---- what package sync offers; the real thing is always locked as well

type Mutex struct {
	mu   sync.Mutex
	held bool
}

//go:norace
func (m *Mutex) Lock() {
	if s := sched; s != nil && !s.free {
		s.point(LockSite)
		i := s.cur
		t := &s.threads[i]
		t.what, t.m = onMutex, m
		s.block(t, i)
	}
	m.mu.Lock()
	m.held = true
}

//go:norace
func (m *Mutex) TryLock() bool {
	Point(LockSite)
	ok := m.mu.TryLock()
	if ok {
		m.held = true
	}
	return ok
}

//go:norace
func (m *Mutex) Unlock() {
	m.held = false
	m.mu.Unlock()
	Point(LockSite)
}

type RWMutex struct {
	mu      sync.RWMutex
	writer  bool
	readers int
}

//go:norace
func (m *RWMutex) Lock() {
	if s := sched; s != nil && !s.free {
		s.point(LockSite)
		i := s.cur
		t := &s.threads[i]
		t.what, t.rw = onWrite, m
		s.block(t, i)
	}
	m.mu.Lock()
	m.writer = true
}

//go:norace
func (m *RWMutex) TryLock() bool {
	Point(LockSite)
	ok := m.mu.TryLock()
	if ok {
		m.writer = true
	}
	return ok
}

//go:norace
func (m *RWMutex) Unlock() {
	m.writer = false
	m.mu.Unlock()
	Point(LockSite)
}

//go:norace
func (m *RWMutex) RLock() {
	if s := sched; s != nil && !s.free {
		s.point(LockSite)
		i := s.cur
		t := &s.threads[i]
		t.what, t.rw = onRead, m
		s.block(t, i)
	}
	m.mu.RLock()
	m.readers++
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	Point(LockSite)
	ok := m.mu.TryRLock()
	if ok {
		m.readers++
	}
	return ok
}

//go:norace
func (m *RWMutex) RUnlock() {
	m.readers--
	m.mu.RUnlock()
	Point(LockSite)
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()                 { r.m.RLock() }
func (r rlocker) Unlock()               { r.m.RUnlock() }
func (m *RWMutex) RLocker() sync.Locker { return rlocker{m} }

type Once struct {
	m    Mutex
	real sync.Once
	done bool
}

//go:norace
func (o *Once) Do(f func()) {
	Point(LockSite)
	if !o.done {
		o.first(f)
	}
	o.real.Do(f) // for its happens-before edge, f has been called
}

//go:norace
func (o *Once) first(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer o.finish()
		o.real.Do(f)
	}
}

//go:norace
func (o *Once) finish() { o.done = true }

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var w U
	return func() (T, U) { o.Do(func() { v, w = f() }); return v, w }
}

type WaitGroup struct {
	wg sync.WaitGroup
	n  int
}

//go:norace
func (w *WaitGroup) Add(n int) {
	Point(LockSite)
	w.n += n
	w.wg.Add(n)
}

//go:norace
func (w *WaitGroup) Done() {
	w.n--
	w.wg.Done()
	Point(LockSite)
}

//go:norace
func (w *WaitGroup) Wait() {
	if s := sched; s != nil && !s.free {
		i := s.cur
		t := &s.threads[i]
		t.what, t.wg = onGroup, w
		s.block(t, i)
	}
	w.wg.Wait()
}
