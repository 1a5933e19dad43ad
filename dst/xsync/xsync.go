// Package xsync is sync under the simulator.
package xsync

import (
	"slices"
	"sync"

	"verif.local/dst/rt"
)

type Locker = sync.Locker

const starving = rt.Millisecond

// epoch notices that an object survived from an earlier run (package-level
// variables do); such objects start afresh, as in a new process.
type epoch struct{ w *rt.World }

func (e *epoch) stale() bool {
	if rt.W == nil || e.w == rt.W {
		return false
	}
	old := e.w != nil
	e.w = rt.W
	return old
}

type waiter struct {
	q     rt.WaitQ
	since rt.Duration
	given bool
}

// Mutex hands over in FIFO order once a waiter has waited for more than a
// millisecond (Go's starvation mode); otherwise whoever runs first gets it.
type Mutex struct {
	ep   epoch
	held bool
	ws   []*waiter
}

func (m *Mutex) fresh() {
	if m.ep.stale() {
		m.held, m.ws = false, nil
	}
}

func (m *Mutex) Lock() {
	m.fresh()
	if rt.Cur() == nil {
		if m.held {
			panic("xsync: lock held outside simulation")
		}
		m.held = true
		return
	}
	if rt.Dying() {
		return
	}
	rt.YieldPoint()
	if !m.held {
		m.held = true
		return
	}
	w := &waiter{since: rt.W.Now()}
	m.ws = append(m.ws, w)
	for {
		w.q.Wait("mutex", -1)
		if w.given {
			return
		}
		if !m.held {
			m.held = true
			m.drop(w)
			return
		}
	}
}

func (m *Mutex) drop(w *waiter) {
	for i, x := range m.ws {
		if x == w {
			m.ws = append(m.ws[:i], m.ws[i+1:]...)
			return
		}
	}
}

func (m *Mutex) TryLock() bool {
	m.fresh()
	rt.YieldPoint()
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) Unlock() {
	if rt.Cur() == nil {
		m.held = false
		return
	}
	if rt.Dying() {
		return
	}
	if !m.held {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	if len(m.ws) > 0 {
		w := m.ws[0]
		if rt.W.Now()-w.since > starving {
			m.ws = m.ws[1:]
			w.given = true
			w.q.NotifyAll()
			rt.YieldPoint()
			return
		}
		m.held = false
		for _, x := range m.ws {
			x.q.NotifyAll()
		}
		rt.YieldPoint()
		return
	}
	m.held = false
	rt.YieldPoint()
}

type RWMutex struct {
	ep      epoch
	w       bool
	r       int
	pending int
	q       rt.WaitQ
}

func (m *RWMutex) fresh() {
	if m.ep.stale() {
		m.w, m.r, m.pending = false, 0, 0
		m.q = rt.WaitQ{}
	}
}

func (m *RWMutex) Lock() {
	m.fresh()
	if rt.Cur() == nil {
		m.w = true
		return
	}
	if rt.Dying() {
		return
	}
	rt.YieldPoint()
	m.pending++
	for m.w || m.r > 0 {
		m.q.Wait("rwmutex", -1)
	}
	m.pending--
	m.w = true
}

func (m *RWMutex) TryLock() bool {
	m.fresh()
	rt.YieldPoint()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) Unlock() {
	if rt.Cur() != nil && rt.Dying() {
		return
	}
	if !m.w {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	m.q.NotifyAll()
	rt.YieldPoint()
}

func (m *RWMutex) RLock() {
	m.fresh()
	if rt.Cur() == nil {
		m.r++
		return
	}
	if rt.Dying() {
		return
	}
	rt.YieldPoint()
	for m.w || m.pending > 0 {
		m.q.Wait("rwmutex(r)", -1)
	}
	m.r++
}

func (m *RWMutex) TryRLock() bool {
	m.fresh()
	rt.YieldPoint()
	if m.w || m.pending > 0 {
		return false
	}
	m.r++
	return true
}

func (m *RWMutex) RUnlock() {
	if rt.Cur() != nil && rt.Dying() {
		return
	}
	if m.r <= 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	m.q.NotifyAll()
	rt.YieldPoint()
}

type rlocker struct{ m *RWMutex }

func (l rlocker) Lock()   { l.m.RLock() }
func (l rlocker) Unlock() { l.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type WaitGroup struct {
	ep epoch
	n  int
	q  rt.WaitQ
}

func (g *WaitGroup) fresh() {
	if g.ep.stale() {
		g.n, g.q = 0, rt.WaitQ{}
	}
}

func (g *WaitGroup) Add(d int) {
	g.fresh()
	if rt.Cur() != nil && rt.Dying() {
		return
	}
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 {
		g.q.NotifyAll()
	}
	rt.YieldPoint()
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() {
	if rt.Cur() == nil || rt.Dying() {
		return
	}
	g.fresh()
	rt.YieldPoint()
	for g.n > 0 {
		g.q.Wait("waitgroup", -1)
	}
}
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	rt.Go(func() {
		defer g.Done()
		f()
	})
}

type Once struct {
	ep   epoch
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	rt.YieldPoint()
	if o.ep.stale() {
		o.done = false
	}
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

type Cond struct {
	L  Locker
	ep epoch
	ws []*waiter
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) fresh() {
	if c.ep.stale() {
		c.ws = nil
	}
}

func (c *Cond) Wait() {
	c.fresh()
	// A signal that comes after the unlock must find the waiter.
	w := &waiter{}
	c.ws = append(c.ws, w)
	c.L.Unlock()
	for !w.given {
		w.q.Wait("cond", -1)
	}
	c.L.Lock()
}

func (c *Cond) wake(n int) {
	c.fresh()
	for ; n > 0 && len(c.ws) > 0; n-- {
		w := c.ws[0]
		c.ws = c.ws[1:]
		w.given = true
		w.q.NotifyAll()
	}
	rt.YieldPoint()
}

func (c *Cond) Signal()    { c.wake(1) }
func (c *Cond) Broadcast() { c.wake(len(c.ws)) }

// Pool returns any pooled object, or a new one, as the contract permits.
type Pool struct {
	New   func() any
	ep    epoch
	items []any
}

func (p *Pool) Get() any {
	rt.YieldPoint()
	if p.ep.stale() {
		p.items = nil
	}
	n := len(p.items)
	if n > 0 {
		k := 0
		if rt.W != nil {
			k = rt.W.Net.N(n + 1)
		}
		if k < n {
			i := n - 1 - k
			x := p.items[i]
			p.items = slices.Delete(p.items, i, i+1)
			return x
		}
	}
	if p.New == nil {
		return nil
	}
	return p.New()
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	if rt.Cur() != nil && rt.Dying() {
		return
	}
	if p.ep.stale() {
		p.items = nil
	}
	if len(p.items) == 12 {
		// garbage collection empties pools
		p.items = append(p.items[:0], p.items[6:]...)
		clear(p.items[6:12])
	}
	p.items = append(p.items, x)
	rt.YieldPoint()
}

// Map keeps insertion order so that Range is deterministic.
type Map struct {
	ep   epoch
	m    map[any]any
	keys []any
}

func (m *Map) enter() {
	if m.ep.stale() {
		m.m, m.keys = nil, nil
	}
	rt.YieldPoint()
}

func (m *Map) Load(k any) (any, bool) { m.enter(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any) {
	m.enter()
	m.set(k, v)
}
func (m *Map) set(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.enter()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.set(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.enter()
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}
func (m *Map) del(k any) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			return
		}
	}
}
func (m *Map) Delete(k any) { m.enter(); m.del(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.enter()
	x, ok := m.m[k]
	m.set(k, v)
	return x, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.enter()
	if x, ok := m.m[k]; ok && x == o {
		m.set(k, n)
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.enter()
	if x, ok := m.m[k]; ok && x == o {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Clear() { m.m = nil; m.keys = nil }
func (m *Map) Range(f func(k, v any) bool) {
	m.enter()
	for _, k := range append([]any(nil), m.keys...) {
		v, ok := m.m[k]
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
	}
}
