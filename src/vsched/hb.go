package vsched

import (
	"fmt"
	"reflect"
	"unsafe"
)

// VC is a vector clock over execution-local thread indices.
type VC []uint32

func (v VC) get(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v *VC) grow(n int) {
	for len(*v) < n {
		*v = append(*v, 0)
	}
}

func (v *VC) join(o VC) {
	v.grow(len(o))
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}

func (v VC) clone() VC { return append(VC(nil), v...) }

// SyncVC is the clock of a synchronisation object. It is forgotten between executions
// (everything before an execution happens before all of it).
type SyncVC struct {
	epoch int
	vc    VC
	h     uint64
}

// Touch orders the running thread with all other threads touching o, without synchronising them.
func Touch(o *SyncVC) {
	if !s.exploring {
		return
	}
	o.fresh()
	s.cur.hb()
	o.h = mix(s.cur.h, o.h)
	s.cur.h = o.h
}

func (o *SyncVC) fresh() {
	if o.epoch != s.epoch {
		o.epoch = s.epoch
		o.vc = o.vc[:0]
		o.h = 0
	}
}

func hbReset() {
	s.epoch++
	s.clk = 0
	s.opaque = false
	s.nthr = 0
	s.thr = s.thr[:0]
	clear(s.acc)
	clear(s.obj)
	for k, v := range atomicVC {
		if v.epoch != s.epoch {
			delete(atomicVC, k)
		}
	}
}

func (t *Thread) hb() *VC {
	if t.epoch != s.epoch {
		t.epoch = s.epoch
		t.lidx = s.nthr
		s.nthr++
		s.thr = append(s.thr, t)
		t.vc = t.vc[:0]
		t.vc.grow(t.lidx + 1)
		t.vc[t.lidx] = 1
		t.h = t.ident
		t.pts = 0
		clear(t.obj)
	}
	return &t.vc
}

func hbFork(parent, child *Thread) {
	p := parent.hb()
	c := child.hb()
	c.join(*p)
	parent.vc[parent.lidx]++
}

// Acquire makes the running thread happen after the last Release of o.
func Acquire(o *SyncVC) {
	if !s.exploring {
		return
	}
	o.fresh()
	s.cur.hb().join(o.vc)
	s.cur.h = mix(s.cur.h, o.h)
}

// Release publishes the running thread's clock in o (joined with what is there).
func Release(o *SyncVC) {
	if !s.exploring {
		return
	}
	o.fresh()
	v := s.cur.hb()
	o.vc.join(*v)
	s.cur.vc[s.cur.lidx]++
	o.h += mix(s.cur.h, 11)
	s.cur.h = mix(s.cur.h, 13)
}

// ReleaseSet publishes the running thread's clock in o, replacing what was there.
func ReleaseSet(o *SyncVC) {
	if !s.exploring {
		return
	}
	o.fresh()
	o.vc = o.vc[:0]
	o.h = 0
	Release(o)
}

func hbPair(a, b *Thread) { // a and b synchronise both ways
	if !s.exploring {
		return
	}
	a.hb()
	b.hb()
	a.vc.join(b.vc)
	b.vc.join(a.vc)
	a.vc[a.lidx]++
	b.vc[b.lidx]++
}

// pairEvent records that a value passed from a to b on channel c.
func (c *chState) pairEvent(from, to *Thread) {
	if !s.exploring {
		return
	}
	hbPair(from, to)
	c.fresh()
	e := mix(mix(from.h, to.h), c.h)
	c.h = e
	from.h = mix(e, 1)
	to.h = mix(e, 2)
}

func (c *chState) fresh() {
	if c.epoch != s.epoch {
		c.epoch = s.epoch
		c.h = 0
	}
}

// touch orders t with all other uses of c.
func (c *chState) touch(t *Thread) {
	if !s.exploring || c == nil {
		return
	}
	c.fresh()
	t.hb()
	c.h = mix(t.h, c.h)
	t.h = c.h
}

var atomicVC = map[uintptr]*SyncVC{}

// AtomicAt synchronises on an address (used for sync/atomic functions).
func AtomicAt(p unsafe.Pointer) {
	point()
	if !s.exploring {
		return
	}
	o := atomicVC[uintptr(p)]
	if o == nil {
		o = &SyncVC{}
		atomicVC[uintptr(p)] = o
	}
	Touch(o)
	Acquire(o)
	Release(o)
}

type rd struct {
	tid  int
	clk  uint32
	site string
}

type access struct {
	keep  unsafe.Pointer
	wTid  int
	wClk  uint32
	wSite string
	reads []rd
}

func note(p unsafe.Pointer, write bool, site string) {
	if !s.exploring || !RaceDetect || p == nil || s.cur == s.main {
		return
	}
	t := s.cur
	v := *t.hb()
	a := s.acc[uintptr(p)]
	if a == nil {
		a = &access{keep: p, wTid: -1}
		s.acc[uintptr(p)] = a
	}
	if a.wTid >= 0 && a.wTid != t.lidx && a.wClk > v.get(a.wTid) {
		race(site, write, a.wSite, true, a.wTid)
	}
	if write {
		for _, r := range a.reads {
			if r.tid != t.lidx && r.clk > v.get(r.tid) {
				race(site, write, r.site, false, r.tid)
			}
		}
		a.wTid, a.wClk, a.wSite = t.lidx, v[t.lidx], site
		a.reads = a.reads[:0]
		return
	}
	for i := range a.reads {
		if a.reads[i].tid == t.lidx {
			a.reads[i].clk = v[t.lidx]
			a.reads[i].site = site
			return
		}
	}
	a.reads = append(a.reads, rd{t.lidx, v[t.lidx], site})
}

func race(site string, write bool, osite string, owrite bool, otid int) {
	rw := func(w bool) string {
		if w {
			return "write"
		}
		return "read"
	}
	fail("race", fmt.Sprintf("data race: %s at %s by %s is not ordered with %s at %s by %s",
		rw(write), site, s.cur.name, rw(owrite), osite, s.thr[otid].name))
}

// R records a read of *p.
func R[T any](p *T, site string) *T {
	if s.exploring && unsafe.Sizeof(*p) > 0 {
		note(unsafe.Pointer(p), false, site)
	}
	return p
}

// W records a write of *p.
func W[T any](p *T, site string) *T {
	if s.exploring && unsafe.Sizeof(*p) > 0 {
		note(unsafe.Pointer(p), true, site)
	}
	return p
}

func mapPtr[M ~map[K]V, K comparable, V any](m M) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

// MR records a read of map m.
func MR[M ~map[K]V, K comparable, V any](m M, site string) M {
	if s.exploring {
		note(mapPtr[M, K, V](m), false, site)
	}
	return m
}

// MW records a write of map m.
func MW[M ~map[K]V, K comparable, V any](m M, site string) M {
	if s.exploring {
		note(mapPtr[M, K, V](m), true, site)
	}
	return m
}

const maxElems = 64

// RS records reads of the elements of x.
func RS[S ~[]E, E any](x S, site string) S {
	if s.exploring {
		for i := range x {
			if i >= maxElems {
				break
			}
			R(&x[i], site)
		}
	}
	return x
}

// WS records writes of the elements of x.
func WS[S ~[]E, E any](x S, site string) S {
	if s.exploring {
		for i := range x {
			if i >= maxElems {
				break
			}
			W(&x[i], site)
		}
	}
	return x
}

// App records the write append(x, ...) does into spare capacity of x.
func App[S ~[]E, E any](x S, site string) S {
	if s.exploring && cap(x) > len(x) {
		y := x[:len(x)+1]
		W(&y[len(x)], site)
	}
	return x
}

// RV records the read of an addressable reflect.Value.
func RV(v reflect.Value, site string) reflect.Value {
	if s.exploring && v.IsValid() && v.CanAddr() && v.Type().Size() > 0 {
		note(v.Addr().UnsafePointer(), false, site)
	}
	return v
}

// WV records the write of an addressable reflect.Value.
func WV(v reflect.Value, site string) reflect.Value {
	if s.exploring && v.IsValid() && v.CanAddr() && v.Type().Size() > 0 {
		note(v.Addr().UnsafePointer(), true, site)
	}
	return v
}

// ReflectCopy is reflect.Copy with access recording.
func ReflectCopy(dst, src reflect.Value, site string) int {
	if s.exploring && src.Kind() == reflect.Slice && dst.Kind() == reflect.Slice {
		for i := 0; i < src.Len() && i < dst.Len() && i < maxElems; i++ {
			RV(src.Index(i), site)
			WV(dst.Index(i), site)
		}
	}
	return reflect.Copy(dst, src)
}
