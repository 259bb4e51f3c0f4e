// Package sync replaces the standard package of that name in instrumented code: blocking operations
// become polling ones under the simulator, so that the scheduler always knows who is blocked. The real
// primitives are still used underneath, so that the race detector sees the synchronisation they provide.
package sync

import (
	"gosusim/simrt"
	real "sync"
)

type Locker = real.Locker

type Mutex struct{ mu real.Mutex }

func (m *Mutex) Lock() {
	if !simrt.Active() {
		m.mu.Lock()
		return
	}
	simrt.Yield()
	for !m.mu.TryLock() {
		simrt.Poll()
	}
}
func (m *Mutex) TryLock() bool { return m.mu.TryLock() }
func (m *Mutex) Unlock()       { m.mu.Unlock(); simrt.Unpoll() }

type RWMutex struct{ mu real.RWMutex }

func (m *RWMutex) Lock() {
	if !simrt.Active() {
		m.mu.Lock()
		return
	}
	simrt.Yield()
	for !m.mu.TryLock() {
		simrt.Poll()
	}
}
func (m *RWMutex) RLock() {
	if !simrt.Active() {
		m.mu.RLock()
		return
	}
	simrt.Yield()
	for !m.mu.TryRLock() {
		simrt.Poll()
	}
}
func (m *RWMutex) TryLock() bool   { return m.mu.TryLock() }
func (m *RWMutex) TryRLock() bool  { return m.mu.TryRLock() }
func (m *RWMutex) Unlock()         { m.mu.Unlock(); simrt.Unpoll() }
func (m *RWMutex) RUnlock()        { m.mu.RUnlock(); simrt.Unpoll() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

type WaitGroup struct {
	mu real.Mutex
	n  int
}

func (w *WaitGroup) Add(d int) {
	w.mu.Lock()
	w.n += d
	if w.n < 0 {
		w.mu.Unlock()
		panic("sync: negative WaitGroup counter")
	}
	w.mu.Unlock()
	simrt.Unpoll()
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	for {
		w.mu.Lock()
		z := w.n == 0
		w.mu.Unlock()
		if z {
			return
		}
		simrt.Poll()
	}
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Spawn(func() { defer w.Done(); f() })
}

// Pool hands out previously put items in an order, and with losses, that the seed decides.
type Pool struct {
	New   func() interface{}
	mu    real.Mutex
	items []interface{}
}

func (p *Pool) Get() interface{} {
	simrt.Yield()
	p.mu.Lock()
	if n := len(p.items); n > 0 {
		r := simrt.Rand()
		if r%8 != 0 {
			i := n - 1
			if r%8 == 1 {
				i = int(r>>8) % n
			}
			x := p.items[i]
			p.items = append(p.items[:i:i], p.items[i+1:]...)
			p.mu.Unlock()
			return x
		}
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	simrt.Yield()
	p.mu.Lock()
	p.items = append(p.items, x)
	p.mu.Unlock()
}

// Map is the standard map with a scheduling point at every operation and a fixed Range order.
type Map struct {
	mu   real.Mutex
	keys []interface{}
	m    map[interface{}]interface{}
}

func (m *Map) del(k interface{}) {
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			break
		}
	}
}
func (m *Map) set(k, v interface{}) {
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) Load(k interface{}) (interface{}, bool) {
	simrt.Yield()
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) Store(k, v interface{}) {
	simrt.Yield()
	m.mu.Lock()
	defer m.mu.Unlock()
	m.set(k, v)
}
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	simrt.Yield()
	m.mu.Lock()
	defer m.mu.Unlock()
	o, ok := m.m[k]
	m.set(k, v)
	return o, ok
}
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	simrt.Yield()
	m.mu.Lock()
	defer m.mu.Unlock()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.set(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	simrt.Yield()
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}
func (m *Map) Delete(k interface{}) { m.LoadAndDelete(k) }
func (m *Map) CompareAndSwap(k, a, b interface{}) bool {
	simrt.Yield()
	m.mu.Lock()
	defer m.mu.Unlock()
	if v, ok := m.m[k]; !ok || v != a {
		return false
	}
	m.set(k, b)
	return true
}
func (m *Map) CompareAndDelete(k, a interface{}) bool {
	simrt.Yield()
	m.mu.Lock()
	defer m.mu.Unlock()
	if v, ok := m.m[k]; !ok || v != a {
		return false
	}
	m.del(k)
	return true
}
func (m *Map) Clear() {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.m, m.keys = nil, nil
}
func (m *Map) Range(f func(k, v interface{}) bool) {
	m.mu.Lock()
	keys := append([]interface{}(nil), m.keys...)
	m.mu.Unlock()
	for _, k := range keys {
		if v, ok := m.Load(k); ok && !f(k, v) {
			return
		}
	}
}

type Cond struct {
	L   Locker
	mu  real.Mutex
	gen int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	c.mu.Lock()
	g := c.gen
	c.mu.Unlock()
	c.L.Unlock()
	for {
		c.mu.Lock()
		z := c.gen != g
		c.mu.Unlock()
		if z {
			break
		}
		simrt.Poll()
	}
	c.L.Lock()
}
func (c *Cond) Signal()    { c.Broadcast() }
func (c *Cond) Broadcast() { c.mu.Lock(); c.gen++; c.mu.Unlock(); simrt.Unpoll() }
