// Package vsync stands in for package sync in the instrumented code: blocking
// goes through the simulator's scheduler, while the real primitive underneath
// is still operated so that the race detector sees the real edges.
package vsync

import (
	"sync"
	"unsafe"

	"verif.local/rt"
)

type (
	// Locker is sync.Locker.
	Locker = sync.Locker
	// Map is sync.Map.
	Map = sync.Map
)

// Mutex is sync.Mutex under the simulator.
type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock() {
	if !rt.InTask() {
		m.mu.Lock()
		return
	}
	rt.Yield()
	for !m.mu.TryLock() {
		rt.Block(uintptr(unsafe.Pointer(m)))
	}
}

func (m *Mutex) TryLock() bool { rt.Yield(); return m.mu.TryLock() }

func (m *Mutex) Unlock() {
	m.mu.Unlock()
	if rt.InTask() {
		rt.Wake(uintptr(unsafe.Pointer(m)))
		rt.Yield()
	}
}

// RWMutex is sync.RWMutex under the simulator; a waiting writer holds off new
// readers as the real one does.
type RWMutex struct {
	mu sync.RWMutex
	w  int32
}

//go:norace
func (m *RWMutex) addW(d int32) { m.w += d }

//go:norace
func (m *RWMutex) waiting() bool { return m.w > 0 }

func (m *RWMutex) key() uintptr { return uintptr(unsafe.Pointer(m)) }

func (m *RWMutex) Lock() {
	if !rt.InTask() {
		m.mu.Lock()
		return
	}
	rt.Yield()
	m.addW(1)
	for !m.mu.TryLock() {
		rt.Block(m.key())
	}
	m.addW(-1)
}

func (m *RWMutex) TryLock() bool { rt.Yield(); return m.mu.TryLock() }

func (m *RWMutex) Unlock() {
	m.mu.Unlock()
	if rt.InTask() {
		rt.Wake(m.key())
		rt.Yield()
	}
}

func (m *RWMutex) RLock() {
	if !rt.InTask() {
		m.mu.RLock()
		return
	}
	rt.Yield()
	for m.waiting() || !m.mu.TryRLock() {
		rt.Block(m.key())
	}
}

func (m *RWMutex) TryRLock() bool { rt.Yield(); return !m.waiting() && m.mu.TryRLock() }

func (m *RWMutex) RUnlock() {
	m.mu.RUnlock()
	if rt.InTask() {
		rt.Wake(m.key())
		rt.Yield()
	}
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// RLocker is sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// WaitGroup is sync.WaitGroup under the simulator.
type WaitGroup struct {
	wg sync.WaitGroup
	n  int
}

//go:norace
func (w *WaitGroup) bump(d int) int { w.n += d; return w.n }

func (w *WaitGroup) Add(d int) {
	w.wg.Add(d)
	if w.bump(d) == 0 && rt.InTask() {
		rt.Wake(uintptr(unsafe.Pointer(w)))
	}
	rt.Yield()
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if rt.InTask() {
		rt.Yield()
		for w.bump(0) > 0 {
			rt.Block(uintptr(unsafe.Pointer(w)))
		}
	}
	w.wg.Wait()
}

// Go is sync.WaitGroup.Go.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() {
		defer w.Done()
		f()
	})
}

// Once is sync.Once under the simulator.
type Once struct {
	o sync.Once
	s int // 0 new, 1 running, 2 done
}

//go:norace
func (o *Once) get() int { return o.s }

//go:norace
func (o *Once) set(s int) { o.s = s }

func (o *Once) Do(f func()) {
	if !rt.InTask() {
		o.o.Do(func() { defer o.set(2); f() })
		return
	}
	rt.Yield()
	for o.get() == 1 {
		rt.Block(uintptr(unsafe.Pointer(o)))
	}
	if o.get() == 2 {
		o.o.Do(func() {})
		return
	}
	o.set(1)
	defer func() {
		o.set(2)
		rt.Wake(uintptr(unsafe.Pointer(o)))
	}()
	o.o.Do(f)
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Cond is sync.Cond under the simulator.
type Cond struct {
	L Locker
	q []int
}

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) push() { c.q = append(c.q, rt.Cur()) }

//go:norace
func (c *Cond) pop() int {
	if len(c.q) == 0 {
		return -1
	}
	t := c.q[0]
	c.q = c.q[1:]
	return t
}

//go:norace
func (c *Cond) queued(t int) bool {
	for _, x := range c.q {
		if x == t {
			return true
		}
	}
	return false
}

func (c *Cond) Wait() {
	c.push()
	me := rt.Cur()
	c.L.Unlock()
	for c.queued(me) {
		rt.Block(uintptr(unsafe.Pointer(c)))
	}
	c.L.Lock()
}

func (c *Cond) Signal() {
	if t := c.pop(); t >= 0 {
		rt.WakeTask(t)
	}
}

func (c *Cond) Broadcast() {
	for c.pop() >= 0 {
	}
	rt.Wake(uintptr(unsafe.Pointer(c)))
}

// Pool is sync.Pool under the simulator: whether a Get finds a pooled object
// is decided by the seed.
type Pool struct {
	New func() any

	mu    sync.Mutex
	items []any
}

func (p *Pool) Get() any {
	rt.Yield()
	p.mu.Lock()
	n := len(p.items)
	if n > 0 && (!rt.InTask() || rt.Rand()%8 != 0) {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.mu.Lock()
	p.items = append(p.items, x)
	p.mu.Unlock()
	rt.Yield()
}
