// Package sync is the simulated replacement of the standard sync package:
// waiting goes through the simulator's scheduler. The happens-before edges
// are those of the real primitives underneath.
package sync

import (
	real "sync"

	"verifsim/simrt"
)

type Locker = real.Locker

type Mutex struct{ m real.Mutex }

func (m *Mutex) Lock() {
	simrt.Yield()
	for !m.m.TryLock() {
		simrt.Block("a mutex")
	}
}

func (m *Mutex) TryLock() bool {
	simrt.Yield()
	return m.m.TryLock()
}

func (m *Mutex) Unlock() {
	m.m.Unlock()
	simrt.Wake()
	simrt.Yield()
}

type RWMutex struct{ m real.RWMutex }

func (m *RWMutex) Lock() {
	simrt.Yield()
	for !m.m.TryLock() {
		simrt.Block("a write lock")
	}
}

func (m *RWMutex) TryLock() bool {
	simrt.Yield()
	return m.m.TryLock()
}

func (m *RWMutex) Unlock() {
	m.m.Unlock()
	simrt.Wake()
	simrt.Yield()
}

func (m *RWMutex) RLock() {
	simrt.Yield()
	for !m.m.TryRLock() {
		simrt.Block("a read lock")
	}
}

func (m *RWMutex) TryRLock() bool {
	simrt.Yield()
	return m.m.TryRLock()
}

func (m *RWMutex) RUnlock() {
	m.m.RUnlock()
	simrt.Wake()
	simrt.Yield()
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

type WaitGroup struct {
	m real.Mutex
	n int
}

func (w *WaitGroup) Add(d int) {
	w.m.Lock()
	w.n += d
	n := w.n
	w.m.Unlock()
	if n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	simrt.Wake()
	simrt.Yield()
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	for {
		w.m.Lock()
		n := w.n
		w.m.Unlock()
		if n == 0 {
			return
		}
		simrt.Block("a wait group")
	}
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() {
		defer w.Done()
		f()
	})
}

type Cond struct {
	L    Locker
	m    real.Mutex
	seq  int
	want int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	c.m.Lock()
	c.want++
	ticket := c.want
	c.m.Unlock()
	c.L.Unlock()
	for {
		c.m.Lock()
		ok := c.seq >= ticket
		c.m.Unlock()
		if ok {
			break
		}
		simrt.Block("a condition")
	}
	c.L.Lock()
}

func (c *Cond) Signal() {
	c.m.Lock()
	if c.seq < c.want {
		c.seq++
	}
	c.m.Unlock()
	simrt.Wake()
}

func (c *Cond) Broadcast() {
	c.m.Lock()
	c.seq = c.want
	c.m.Unlock()
	simrt.Wake()
}

// Pool hands the most recently returned object out again at once, which is
// the least forgiving behaviour the real pool may show.
type Pool struct {
	New   func() interface{}
	m     real.Mutex
	items []interface{}
	epoch int
}

func (p *Pool) renew() {
	if p.epoch != simrt.Epoch {
		p.items, p.epoch = nil, simrt.Epoch
	}
}

func (p *Pool) Get() interface{} {
	simrt.Yield()
	p.m.Lock()
	p.renew()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.m.Unlock()
		return x
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	p.m.Lock()
	p.renew()
	p.items = append(p.items, x)
	p.m.Unlock()
	simrt.Yield()
}

// Map wraps the real map with scheduling points.
type Map struct{ m real.Map }

func (m *Map) Load(k interface{}) (interface{}, bool) {
	simrt.Yield()
	return m.m.Load(k)
}
func (m *Map) Store(k, v interface{}) {
	simrt.Yield()
	m.m.Store(k, v)
}
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	simrt.Yield()
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	simrt.Yield()
	return m.m.LoadAndDelete(k)
}
func (m *Map) Delete(k interface{}) {
	simrt.Yield()
	m.m.Delete(k)
}
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	simrt.Yield()
	return m.m.Swap(k, v)
}
func (m *Map) CompareAndSwap(k, a, b interface{}) bool {
	simrt.Yield()
	return m.m.CompareAndSwap(k, a, b)
}
func (m *Map) CompareAndDelete(k, a interface{}) bool {
	simrt.Yield()
	return m.m.CompareAndDelete(k, a)
}
func (m *Map) Range(f func(k, v interface{}) bool) {
	simrt.Yield()
	m.m.Range(f)
}
func (m *Map) Clear() { m.m.Clear() }
