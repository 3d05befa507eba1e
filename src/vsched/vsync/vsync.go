// Package vsync replaces package sync in instrumented code.
package vsync

import (
	"sync"
	"vsched"
)

type Locker = sync.Locker
type Mutex struct{ vsched.Mutex }
type RWMutex struct{ vsched.RWMutex }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type WaitGroup struct {
	n  int
	q  vsched.WaitQueue
	vc vsched.SyncVC
}

func (w *WaitGroup) Add(d int) {
	vsched.PointHere()
	vsched.Touch(&w.vc)
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if d < 0 {
		vsched.Release(&w.vc)
	}
	if w.n == 0 {
		w.q.WakeAll()
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	vsched.PointHere()
	vsched.Touch(&w.vc)
	for w.n > 0 {
		w.q.Wait("WaitGroup.Wait")
	}
	vsched.Acquire(&w.vc)
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go(func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	m    vsched.Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var r T
	return func() T {
		o.Do(func() { r = f() })
		return r
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var r1 T1
	var r2 T2
	return func() (T1, T2) {
		o.Do(func() { r1, r2 = f() })
		return r1, r2
	}
}

type Cond struct {
	L  Locker
	q  vsched.WaitQueue
	vc vsched.SyncVC
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	vsched.Touch(&c.vc)
	c.L.Unlock()
	c.q.Wait("Cond.Wait")
	vsched.Acquire(&c.vc)
	c.L.Lock()
}
func (c *Cond) Signal() {
	vsched.PointHere()
	vsched.Touch(&c.vc)
	vsched.Release(&c.vc)
	c.q.WakeOne()
}
func (c *Cond) Broadcast() {
	vsched.PointHere()
	vsched.Touch(&c.vc)
	vsched.Release(&c.vc)
	c.q.WakeAll()
}

// Pool hands out the most recently returned object first, so that misuse shows.
type Pool struct {
	New   func() any
	items []any
	vc    vsched.SyncVC
}

func (p *Pool) Get() any {
	vsched.PointHere()
	vsched.Touch(&p.vc)
	vsched.Acquire(&p.vc)
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	vsched.PointHere()
	vsched.Touch(&p.vc)
	vsched.Release(&p.vc)
	p.items = append(p.items, x)
}

type Map struct {
	m    map[any]any
	keys []any
	vc   vsched.SyncVC
}

func (m *Map) op() {
	vsched.PointHere()
	vsched.Touch(&m.vc)
	vsched.Acquire(&m.vc)
	vsched.Release(&m.vc)
	if m.m == nil {
		m.m = map[any]any{}
	}
}
func (m *Map) set(k, v any) {
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) del(k any) {
	delete(m.m, k)
	for i := range m.keys {
		if m.keys[i] == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			break
		}
	}
}
func (m *Map) Load(k any) (any, bool) { m.op(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any)         { m.op(); m.set(k, v) }
func (m *Map) Clear()                 { m.op(); m.m = nil; m.keys = nil }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.op()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.set(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.op()
	v, ok := m.m[k]
	if ok {
		m.del(k)
	}
	return v, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.op()
	x, ok := m.m[k]
	m.set(k, v)
	return x, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.op()
	if x, ok := m.m[k]; ok && x == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.op()
	if x, ok := m.m[k]; ok && x == o {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	m.op()
	keys := append([]any(nil), m.keys...)
	if vsched.MapDescending {
		for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
			keys[i], keys[j] = keys[j], keys[i]
		}
	}
	for _, k := range keys {
		v, ok := m.m[k]
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
		m.op()
	}
}
