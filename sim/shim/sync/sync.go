//go:build go1.21

// Package sync replaces the standard library's sync inside a simulation.
package sync

import (
	"fmt"
	rsync "sync"

	"github.com/hired/gevulot/zzsim/simrt"
)

// Locker is sync.Locker.
type Locker = rsync.Locker

func fatal(s string) { panic("fatal error: " + s) }

// Mutex is a mutual exclusion lock (normal mode: released waiters compete with newcomers).
type Mutex struct {
	epoch  uint64
	locked bool
	w      simrt.WaitList
}

func (m *Mutex) fresh() {
	if e := simrt.CurEpoch(); m.epoch != e {
		m.epoch, m.locked = e, false
	}
}

// Lock locks m.
func (m *Mutex) Lock() {
	simrt.Yield()
	m.fresh()
	if !simrt.Active() {
		m.locked = true
		return
	}
	first := true
	for m.locked {
		if first {
			m.w.Wait("Mutex.Lock")
		} else {
			m.w.WaitFront("Mutex.Lock")
		}
		first = false
	}
	m.locked = true
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	simrt.Yield()
	m.fresh()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	simrt.Yield()
	m.fresh()
	if !m.locked {
		if !simrt.Active() {
			return
		}
		fatal("sync: unlock of unlocked mutex")
	}
	m.locked = false
	m.w.WakeOne()
}

type rtoken struct {
	t  *simrt.Task
	ok bool
}

// RWMutex is a reader/writer lock; a waiting writer blocks new readers, as in the standard library.
type RWMutex struct {
	epoch   uint64
	w       Mutex
	pending bool // a writer holds the lock or waits for readers to leave
	held    bool
	readers int
	rq      []*rtoken
	wq      simrt.WaitList
}

func (m *RWMutex) fresh() {
	if e := simrt.CurEpoch(); m.epoch != e {
		m.epoch, m.pending, m.held, m.readers, m.rq = e, false, false, 0, nil
	}
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	simrt.Yield()
	m.fresh()
	if !m.pending || !simrt.Active() {
		m.readers++
		return
	}
	tk := &rtoken{t: simrt.Cur()}
	m.rq = append(m.rq, tk)
	for !tk.ok {
		simrt.Park("RWMutex.RLock")
	}
}

// TryRLock tries to lock for reading.
func (m *RWMutex) TryRLock() bool {
	simrt.Yield()
	m.fresh()
	if m.pending {
		return false
	}
	m.readers++
	return true
}

// RUnlock undoes a RLock.
func (m *RWMutex) RUnlock() {
	simrt.Yield()
	m.fresh()
	if m.readers == 0 {
		if !simrt.Active() {
			return
		}
		fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	if m.pending && m.readers == 0 {
		m.wq.WakeAll()
	}
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	m.w.Lock()
	m.fresh()
	m.pending = true
	if simrt.Active() {
		for m.readers > 0 {
			m.wq.Wait("RWMutex.Lock")
		}
	}
	m.held = true
}

// TryLock tries to lock for writing.
func (m *RWMutex) TryLock() bool {
	if !m.w.TryLock() {
		return false
	}
	m.fresh()
	if m.readers > 0 {
		m.w.Unlock()
		return false
	}
	m.pending, m.held = true, true
	return true
}

// Unlock unlocks for writing.
func (m *RWMutex) Unlock() {
	simrt.Yield()
	m.fresh()
	if !m.held {
		if !simrt.Active() {
			return
		}
		fatal("sync: Unlock of unlocked RWMutex")
	}
	m.held, m.pending = false, false
	for _, tk := range m.rq {
		tk.ok = true
		m.readers++
		simrt.Wake(tk.t)
	}
	m.rq = nil
	m.w.Unlock()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup waits for a collection of goroutines to finish.
type WaitGroup struct {
	epoch uint64
	n     int
	gen   int
	w     simrt.WaitList
}

func (g *WaitGroup) fresh() {
	if e := simrt.CurEpoch(); g.epoch != e {
		g.epoch, g.n = e, 0
	}
}

// Add adds delta.
func (g *WaitGroup) Add(delta int) {
	simrt.Yield()
	g.fresh()
	g.n += delta
	if g.n < 0 {
		if !simrt.Active() {
			g.n = 0
			return
		}
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 {
		g.w.WakeAll()
	}
}

// Done decrements the counter.
func (g *WaitGroup) Done() { g.Add(-1) }

// Wait blocks until the counter is zero.
func (g *WaitGroup) Wait() {
	simrt.Yield()
	g.fresh()
	if !simrt.Active() || g.n == 0 {
		return
	}
	g.w.Wait("WaitGroup.Wait")
	if g.n != 0 {
		panic("sync: WaitGroup is reused before previous Wait has returned")
	}
}

// Go runs f in a new goroutine tracked by the group.
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	simrt.GoNamed("WaitGroup.Go", func() {
		defer g.Done()
		f()
	})
}

// Once performs exactly one action.
type Once struct {
	epoch uint64
	done  bool
	m     Mutex
	doing bool
}

// Do calls f if and only if Do is being called for the first time.
func (o *Once) Do(f func()) {
	simrt.Yield()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc returns a function that invokes f only once.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue returns a function that computes its value once.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues returns a function that computes its values once.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v T1
	var w T2
	return func() (T1, T2) { o.Do(func() { v, w = f() }); return v, w }
}

// Cond is a condition variable.
type Cond struct {
	L Locker
	w simrt.WaitList
}

// NewCond returns a new Cond with Locker l.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait atomically unlocks c.L and suspends the goroutine.
func (c *Cond) Wait() {
	// Register before unlocking: a Signal between the two must not be lost.
	t := &ctoken{t: simrt.Cur()}
	c.add(t)
	c.L.Unlock()
	for !t.ok && simrt.Active() {
		simrt.Park("Cond.Wait")
	}
	c.L.Lock()
}

type ctoken struct {
	t  *simrt.Task
	ok bool
}

var condQ = map[*Cond][]*ctoken{}
var condEpoch uint64

func (c *Cond) add(t *ctoken) {
	if e := simrt.CurEpoch(); condEpoch != e {
		condEpoch = e
		condQ = map[*Cond][]*ctoken{}
	}
	condQ[c] = append(condQ[c], t)
}

// Signal wakes one goroutine.
func (c *Cond) Signal() {
	simrt.Yield()
	if q := condQ[c]; len(q) > 0 {
		q[0].ok = true
		simrt.Wake(q[0].t)
		condQ[c] = q[1:]
	}
}

// Broadcast wakes all goroutines.
func (c *Cond) Broadcast() {
	simrt.Yield()
	for _, t := range condQ[c] {
		t.ok = true
		simrt.Wake(t.t)
	}
	delete(condQ, c)
}

// Map is a concurrent map with a deterministic iteration order.
type Map struct {
	m    map[any]any
	keys []any
}

// Load returns the value stored for a key.
func (m *Map) Load(k any) (any, bool) { simrt.Yield(); v, ok := m.m[k]; return v, ok }

// Store sets the value for a key.
func (m *Map) Store(k, v any) { m.Swap(k, v) }

// Swap stores and returns the previous value.
func (m *Map) Swap(k, v any) (any, bool) {
	simrt.Yield()
	if m.m == nil {
		m.m = map[any]any{}
	}
	old, ok := m.m[k]
	if !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
	return old, ok
}

// LoadOrStore returns the existing value or stores the given one.
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	simrt.Yield()
	if old, ok := m.m[k]; ok {
		return old, true
	}
	m.Swap(k, v)
	return v, false
}

// LoadAndDelete deletes a key and returns its value.
func (m *Map) LoadAndDelete(k any) (any, bool) {
	simrt.Yield()
	v, ok := m.m[k]
	if ok {
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(m.keys[:i], m.keys[i+1:]...)
				break
			}
		}
	}
	return v, ok
}

// Delete deletes a key.
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

// CompareAndSwap swaps if the current value is old.
func (m *Map) CompareAndSwap(k, old, v any) bool {
	simrt.Yield()
	if c, ok := m.m[k]; ok && c == old {
		m.m[k] = v
		return true
	}
	return false
}

// CompareAndDelete deletes if the current value is old.
func (m *Map) CompareAndDelete(k, old any) bool {
	simrt.Yield()
	if c, ok := m.m[k]; ok && c == old {
		m.LoadAndDelete(k)
		return true
	}
	return false
}

// Range calls f for every key.
func (m *Map) Range(f func(k, v any) bool) {
	simrt.Yield()
	for _, k := range append([]any(nil), m.keys...) {
		if v, ok := m.m[k]; ok {
			if !f(k, v) {
				return
			}
		}
	}
}

// Clear deletes everything.
func (m *Map) Clear() { simrt.Yield(); m.m, m.keys = nil, nil }

// Pool is a set of temporary objects.
type Pool struct {
	New   func() any
	items []any
	epoch uint64
}

var (
	pools     []*Pool // those used in this run
	poolEpoch uint64
)

// ClearPools empties all pools, as the garbage collector does.
func ClearPools() {
	if poolEpoch == simrt.CurEpoch() {
		for _, p := range pools {
			p.items = nil
		}
	}
}

func (p *Pool) fresh() {
	if e := simrt.CurEpoch(); p.epoch != e {
		p.epoch, p.items = e, nil
		if poolEpoch != e {
			poolEpoch, pools = e, nil
		}
		pools = append(pools, p)
	}
}

// Get takes an item: whether a pooled one is returned is decided by the seed.
func (p *Pool) Get() any {
	simrt.Yield()
	p.fresh()
	if n := len(p.items); n > 0 && simrt.TaskDraw("pool", 4) != 1 {
		x := p.items[n-1]
		p.items[n-1] = nil
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put adds x to the pool.
func (p *Pool) Put(x any) {
	simrt.Yield()
	p.fresh()
	if x != nil {
		p.items = append(p.items, x)
	}
}

var _ = fmt.Sprint
