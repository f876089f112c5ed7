// Package simsync replaces "sync" in instrumented library code.  It keeps the
// happens-before edges of the real primitives (it is built on TryLock/Unlock of
// the real ones) but lets the simulator decide who proceeds.
package simsync

import (
	"sync"
	"unsafe"

	"verifsim/simrt"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Map is the real sync.Map (it never blocks on simulated tasks).
type Map = sync.Map

// Mutex replaces sync.Mutex.
type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock() {
	simrt.Point()
	for i := 0; !m.mu.TryLock(); i++ {
		if !simrt.Block(unsafe.Pointer(m)) {
			simrt.SerialWait(i)
		}
	}
	simrt.LockCount(1)
}

func (m *Mutex) TryLock() bool {
	simrt.Point()
	ok := m.mu.TryLock()
	if ok {
		simrt.LockCount(1)
	}
	return ok
}

func (m *Mutex) Unlock() {
	m.mu.Unlock()
	simrt.LockCount(-1)
	simrt.Wake(unsafe.Pointer(m))
	point()
}

// point is a scheduling point that does not unwind (used while releasing).
func point() { simrt.Point() }

// RWMutex replaces sync.RWMutex; a pending writer blocks new readers, as in the
// real one, so recursive read locking can deadlock here too.
type RWMutex struct {
	mu      sync.RWMutex
	pending pend
}

type pend struct{ n int32 }

//go:norace
func (p *pend) add(d int32) { p.n += d }

//go:norace
func (p *pend) get() int32 { return p.n }

func (m *RWMutex) RLock() {
	simrt.Point()
	for i := 0; m.pending.get() > 0 || !m.mu.TryRLock(); i++ {
		if !simrt.Block(unsafe.Pointer(m)) {
			simrt.SerialWait(i)
		}
	}
	simrt.LockCount(1)
}

func (m *RWMutex) TryRLock() bool {
	simrt.Point()
	ok := m.pending.get() == 0 && m.mu.TryRLock()
	if ok {
		simrt.LockCount(1)
	}
	return ok
}

func (m *RWMutex) RUnlock() {
	m.mu.RUnlock()
	simrt.LockCount(-1)
	simrt.Wake(unsafe.Pointer(m))
	point()
}

func (m *RWMutex) Lock() {
	simrt.Point()
	if !m.mu.TryLock() {
		m.pending.add(1)
		func() {
			defer m.pending.add(-1)
			for i := 0; !m.mu.TryLock(); i++ {
				if !simrt.Block(unsafe.Pointer(m)) {
					simrt.SerialWait(i)
				}
			}
		}()
	}
	simrt.LockCount(1)
}

func (m *RWMutex) TryLock() bool {
	simrt.Point()
	ok := m.mu.TryLock()
	if ok {
		simrt.LockCount(1)
	}
	return ok
}

func (m *RWMutex) Unlock() {
	m.mu.Unlock()
	simrt.LockCount(-1)
	simrt.Wake(unsafe.Pointer(m))
	point()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done flag
}

// flag is an atomically readable bool with release/acquire edges.
type flag struct {
	m sync.RWMutex
	v bool
}

func (f *flag) get() bool { f.m.RLock(); defer f.m.RUnlock(); return f.v }
func (f *flag) set()      { f.m.Lock(); f.v = true; f.m.Unlock() }

func (o *Once) Do(f func()) {
	simrt.Point()
	if o.done.get() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.get() {
		defer o.done.set()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var once Once
	var valid bool
	var p any
	g := func() {
		defer func() {
			p = recover()
			if !valid {
				panic(p)
			}
		}()
		f()
		f = nil
		valid = true
	}
	return func() {
		once.Do(g)
		if !valid {
			panic(p)
		}
	}
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var r T
	g := OnceFunc(func() { r = f() })
	return func() T { g(); return r }
}

// OnceValues is sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var r1 T1
	var r2 T2
	g := OnceFunc(func() { r1, r2 = f() })
	return func() (T1, T2) { g(); return r1, r2 }
}

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	mu sync.Mutex
	n  int
}

func (w *WaitGroup) Add(d int) {
	w.mu.Lock()
	w.n += d
	n := w.n
	w.mu.Unlock()
	if n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if n == 0 {
		simrt.Wake(unsafe.Pointer(w))
	}
	if d < 0 {
		point()
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.GoCall(func() { defer w.Done(); f() })
}

func (w *WaitGroup) Wait() {
	simrt.Point()
	for i := 0; ; i++ {
		w.mu.Lock()
		n := w.n
		w.mu.Unlock()
		if n == 0 {
			return
		}
		if !simrt.Block(unsafe.Pointer(w)) {
			simrt.SerialWait(i)
		}
	}
}

// Cond replaces sync.Cond.  Signal wakes everybody: spurious wake-ups are not
// part of the real contract, so waiters keep a ticket.
type Cond struct {
	L     Locker
	state *condState
}

type condState struct {
	mu       sync.Mutex
	next     uint64
	notified uint64
}

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l, state: &condState{}} }

func (c *Cond) st() *condState {
	if c.state == nil {
		c.state = &condState{}
	}
	return c.state
}

func (c *Cond) Wait() {
	s := c.st()
	s.mu.Lock()
	t := s.next
	s.next++
	s.mu.Unlock()
	c.L.Unlock()
	for i := 0; ; i++ {
		s.mu.Lock()
		ok := t < s.notified
		s.mu.Unlock()
		if ok {
			break
		}
		if !simrt.Block(unsafe.Pointer(c)) {
			simrt.SerialWait(i)
		}
	}
	c.L.Lock()
}

func (c *Cond) Signal() {
	s := c.st()
	s.mu.Lock()
	if s.notified < s.next {
		s.notified++
	}
	s.mu.Unlock()
	simrt.Wake(unsafe.Pointer(c))
	point()
}

func (c *Cond) Broadcast() {
	s := c.st()
	s.mu.Lock()
	s.notified = s.next
	s.mu.Unlock()
	simrt.Wake(unsafe.Pointer(c))
	point()
}

// Pool replaces sync.Pool: LIFO reuse, so stale state in reused objects shows.
type Pool struct {
	mu    sync.Mutex
	items []any
	New   func() any
}

func (p *Pool) Get() any {
	simrt.Point()
	p.mu.Lock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.mu.Lock()
	p.items = append(p.items, x)
	p.mu.Unlock()
	point()
}
