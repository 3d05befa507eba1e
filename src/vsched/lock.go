package vsched

import (
	"cmp"
	"fmt"
	"iter"
	"reflect"
	"sort"
)

// Mutex is the controlled mutual exclusion primitive.
type Mutex struct {
	held bool
	q    []*Thread
	vc   SyncVC
}

func (m *Mutex) Lock() {
	point()
	for m.held {
		m.q = append(m.q, s.cur)
		block("Mutex.Lock")
	}
	m.held = true
	Acquire(&m.vc)
}

func (m *Mutex) TryLock() bool {
	point()
	Touch(&m.vc)
	if m.held {
		return false
	}
	m.held = true
	Acquire(&m.vc)
	return true
}

func (m *Mutex) Unlock() {
	if !m.held {
		panic("vsync: unlock of unlocked mutex")
	}
	m.held = false
	ReleaseSet(&m.vc)
	for _, t := range m.q {
		ready(t)
	}
	m.q = nil
}

// RWMutex follows the standard one: a waiting writer blocks new readers, and readers waiting
// while a writer is active get the lock before the next writer.
type RWMutex struct {
	w       bool
	readers int
	wq      []*Thread
	rq      []*Thread
	wvc     SyncVC
	rvc     SyncVC
}

func (m *RWMutex) Lock() {
	point()
	for m.w || m.readers > 0 {
		m.wq = append(m.wq, s.cur)
		block("RWMutex.Lock")
	}
	m.w = true
	Acquire(&m.wvc)
	Acquire(&m.rvc)
}

func (m *RWMutex) TryLock() bool {
	point()
	Touch(&m.wvc)
	Touch(&m.rvc)
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	Acquire(&m.wvc)
	Acquire(&m.rvc)
	return true
}

func (m *RWMutex) writerWaiting() bool {
	for _, t := range m.wq {
		if t.state != tDone {
			return true
		}
	}
	return false
}

func (m *RWMutex) Unlock() {
	if !m.w {
		panic("vsync: Unlock of unlocked RWMutex")
	}
	m.w = false
	ReleaseSet(&m.wvc)
	if len(m.rq) > 0 { // hand over to all waiting readers
		for _, t := range m.rq {
			m.readers++
			t.granted = true
			ready(t)
		}
		m.rq = nil
		return
	}
	m.wakeWriters()
}

func (m *RWMutex) wakeWriters() {
	q := m.wq
	m.wq = nil
	for _, t := range q {
		ready(t)
	}
}

func (m *RWMutex) RLock() {
	point()
	if m.w || m.writerWaiting() {
		s.cur.granted = false
		m.rq = append(m.rq, s.cur)
		block("RWMutex.RLock")
		if !s.cur.granted {
			panic("vsync: internal: reader not granted")
		}
	} else {
		m.readers++
	}
	Acquire(&m.wvc)
}

func (m *RWMutex) TryRLock() bool {
	point()
	Touch(&m.wvc)
	Touch(&m.rvc)
	if m.w || m.writerWaiting() {
		return false
	}
	m.readers++
	Acquire(&m.wvc)
	return true
}

func (m *RWMutex) RUnlock() {
	if m.readers <= 0 {
		panic("vsync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	Release(&m.rvc)
	if m.readers == 0 {
		m.wakeWriters()
	}
}

// WaitQueue is a building block for the remaining primitives.
type WaitQueue struct{ q []*Thread }

func (w *WaitQueue) Wait(on string) {
	w.q = append(w.q, s.cur)
	block(on)
}

func (w *WaitQueue) WakeAll() {
	q := w.q
	w.q = nil
	for _, t := range q {
		ready(t)
	}
}

func (w *WaitQueue) WakeOne() {
	if len(w.q) > 0 {
		t := w.q[0]
		w.q = w.q[1:]
		ready(t)
	}
}

// NoteKey gives a map key (if a pointer) a deterministic identity.
func NoteKey(k any) {
	if s.exploring {
		t := s.cur
		t.hb()
		if t.obj == nil {
			t.obj = map[any]int{}
		}
		if _, ok := t.obj[k]; !ok {
			t.obj[k] = len(t.obj)
		}
	}
	if _, ok := s.obj[k]; !ok {
		s.obj[k] = len(s.obj)
	}
}

// K notes a pointer-like map key.
func K[T any](k T) T {
	NoteKey(k)
	return k
}

// MapIter iterates over m in a deterministic order chosen by the harness.
func MapIter[M ~map[K]V, K comparable, V any](m M, site string) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		MR[M, K, V](m, site)
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		sort.SliceStable(keys, func(i, j int) bool {
			c := compare(keys[i], keys[j])
			if MapDescending {
				return c > 0
			}
			return c < 0
		})
		for _, k := range keys {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// MapAll, MapKeys and MapValues stand for the functions of package maps.
func MapAll[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return MapIter[M, K, V](m, "maps.All")
}

func MapKeys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range MapIter[M, K, V](m, "maps.Keys") {
			if !yield(k) {
				return
			}
		}
	}
}

func MapValues[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range MapIter[M, K, V](m, "maps.Values") {
			if !yield(v) {
				return
			}
		}
	}
}

func compare(a, b any) int {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if !va.IsValid() || !vb.IsValid() || va.Kind() != vb.Kind() {
		return cmp.Compare(fmt.Sprint(a), fmt.Sprint(b))
	}
	switch va.Kind() {
	case reflect.String:
		return cmp.Compare(va.String(), vb.String())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return cmp.Compare(va.Int(), vb.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return cmp.Compare(va.Uint(), vb.Uint())
	case reflect.Float32, reflect.Float64:
		return cmp.Compare(va.Float(), vb.Float())
	case reflect.Pointer, reflect.Chan, reflect.UnsafePointer:
		ia, oka := s.cur.obj[a]
		ib, okb := s.cur.obj[b]
		if oka && okb && s.exploring {
			return cmp.Compare(ia, ib)
		}
		s.opaque = true // the order depends on more than the causal history
		ia, oka = s.obj[a]
		ib, okb = s.obj[b]
		if oka && okb {
			return cmp.Compare(ia, ib)
		}
		return cmp.Compare(va.Pointer(), vb.Pointer())
	}
	return cmp.Compare(fmt.Sprint(a), fmt.Sprint(b))
}
