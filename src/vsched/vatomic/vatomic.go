// Package vatomic replaces package sync/atomic in instrumented code.
package vatomic

import (
	"sync/atomic"
	"unsafe"
	"vsched"
)

type Int32 struct {
	v int32
	_ [0]func()
}

func (x *Int32) Load() int32   { vsched.AtomicAt(unsafe.Pointer(&x.v)); return x.v }
func (x *Int32) Store(n int32) { vsched.AtomicAt(unsafe.Pointer(&x.v)); x.v = n }
func (x *Int32) Swap(n int32) int32 {
	vsched.AtomicAt(unsafe.Pointer(&x.v))
	o := x.v
	x.v = n
	return o
}
func (x *Int32) Add(d int32) int32 { vsched.AtomicAt(unsafe.Pointer(&x.v)); x.v += d; return x.v }
func (x *Int32) And(m int32) int32 {
	vsched.AtomicAt(unsafe.Pointer(&x.v))
	o := x.v
	x.v &= m
	return o
}
func (x *Int32) Or(m int32) int32 {
	vsched.AtomicAt(unsafe.Pointer(&x.v))
	o := x.v
	x.v |= m
	return o
}
func (x *Int32) CompareAndSwap(o, n int32) bool {
	vsched.AtomicAt(unsafe.Pointer(&x.v))
	if x.v == o {
		x.v = n
		return true
	}
	return false
}
func LoadInt32(p *int32) int32     { vsched.AtomicAt(unsafe.Pointer(p)); return *p }
func StoreInt32(p *int32, n int32) { vsched.AtomicAt(unsafe.Pointer(p)); *p = n }
func SwapInt32(p *int32, n int32) int32 {
	vsched.AtomicAt(unsafe.Pointer(p))
	o := *p
	*p = n
	return o
}
func AddInt32(p *int32, d int32) int32 { vsched.AtomicAt(unsafe.Pointer(p)); *p += d; return *p }
func AndInt32(p *int32, m int32) int32 {
	vsched.AtomicAt(unsafe.Pointer(p))
	o := *p
	*p &= m
	return o
}
func OrInt32(p *int32, m int32) int32 { vsched.AtomicAt(unsafe.Pointer(p)); o := *p; *p |= m; return o }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	vsched.AtomicAt(unsafe.Pointer(p))
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Int64 struct {
	v int64
	_ [0]func()
}

func (x *Int64) Load() int64   { vsched.AtomicAt(unsafe.Pointer(&x.v)); return x.v }
func (x *Int64) Store(n int64) { vsched.AtomicAt(unsafe.Pointer(&x.v)); x.v = n }
func (x *Int64) Swap(n int64) int64 {
	vsched.AtomicAt(unsafe.Pointer(&x.v))
	o := x.v
	x.v = n
	return o
}
func (x *Int64) Add(d int64) int64 { vsched.AtomicAt(unsafe.Pointer(&x.v)); x.v += d; return x.v }
func (x *Int64) And(m int64) int64 {
	vsched.AtomicAt(unsafe.Pointer(&x.v))
	o := x.v
	x.v &= m
	return o
}
func (x *Int64) Or(m int64) int64 {
	vsched.AtomicAt(unsafe.Pointer(&x.v))
	o := x.v
	x.v |= m
	return o
}
func (x *Int64) CompareAndSwap(o, n int64) bool {
	vsched.AtomicAt(unsafe.Pointer(&x.v))
	if x.v == o {
		x.v = n
		return true
	}
	return false
}
func LoadInt64(p *int64) int64     { vsched.AtomicAt(unsafe.Pointer(p)); return *p }
func StoreInt64(p *int64, n int64) { vsched.AtomicAt(unsafe.Pointer(p)); *p = n }
func SwapInt64(p *int64, n int64) int64 {
	vsched.AtomicAt(unsafe.Pointer(p))
	o := *p
	*p = n
	return o
}
func AddInt64(p *int64, d int64) int64 { vsched.AtomicAt(unsafe.Pointer(p)); *p += d; return *p }
func AndInt64(p *int64, m int64) int64 {
	vsched.AtomicAt(unsafe.Pointer(p))
	o := *p
	*p &= m
	return o
}
func OrInt64(p *int64, m int64) int64 { vsched.AtomicAt(unsafe.Pointer(p)); o := *p; *p |= m; return o }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	vsched.AtomicAt(unsafe.Pointer(p))
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Uint32 struct {
	v uint32
	_ [0]func()
}

func (x *Uint32) Load() uint32   { vsched.AtomicAt(unsafe.Pointer(&x.v)); return x.v }
func (x *Uint32) Store(n uint32) { vsched.AtomicAt(unsafe.Pointer(&x.v)); x.v = n }
func (x *Uint32) Swap(n uint32) uint32 {
	vsched.AtomicAt(unsafe.Pointer(&x.v))
	o := x.v
	x.v = n
	return o
}
func (x *Uint32) Add(d uint32) uint32 { vsched.AtomicAt(unsafe.Pointer(&x.v)); x.v += d; return x.v }
func (x *Uint32) And(m uint32) uint32 {
	vsched.AtomicAt(unsafe.Pointer(&x.v))
	o := x.v
	x.v &= m
	return o
}
func (x *Uint32) Or(m uint32) uint32 {
	vsched.AtomicAt(unsafe.Pointer(&x.v))
	o := x.v
	x.v |= m
	return o
}
func (x *Uint32) CompareAndSwap(o, n uint32) bool {
	vsched.AtomicAt(unsafe.Pointer(&x.v))
	if x.v == o {
		x.v = n
		return true
	}
	return false
}
func LoadUint32(p *uint32) uint32     { vsched.AtomicAt(unsafe.Pointer(p)); return *p }
func StoreUint32(p *uint32, n uint32) { vsched.AtomicAt(unsafe.Pointer(p)); *p = n }
func SwapUint32(p *uint32, n uint32) uint32 {
	vsched.AtomicAt(unsafe.Pointer(p))
	o := *p
	*p = n
	return o
}
func AddUint32(p *uint32, d uint32) uint32 { vsched.AtomicAt(unsafe.Pointer(p)); *p += d; return *p }
func AndUint32(p *uint32, m uint32) uint32 {
	vsched.AtomicAt(unsafe.Pointer(p))
	o := *p
	*p &= m
	return o
}
func OrUint32(p *uint32, m uint32) uint32 {
	vsched.AtomicAt(unsafe.Pointer(p))
	o := *p
	*p |= m
	return o
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	vsched.AtomicAt(unsafe.Pointer(p))
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Uint64 struct {
	v uint64
	_ [0]func()
}

func (x *Uint64) Load() uint64   { vsched.AtomicAt(unsafe.Pointer(&x.v)); return x.v }
func (x *Uint64) Store(n uint64) { vsched.AtomicAt(unsafe.Pointer(&x.v)); x.v = n }
func (x *Uint64) Swap(n uint64) uint64 {
	vsched.AtomicAt(unsafe.Pointer(&x.v))
	o := x.v
	x.v = n
	return o
}
func (x *Uint64) Add(d uint64) uint64 { vsched.AtomicAt(unsafe.Pointer(&x.v)); x.v += d; return x.v }
func (x *Uint64) And(m uint64) uint64 {
	vsched.AtomicAt(unsafe.Pointer(&x.v))
	o := x.v
	x.v &= m
	return o
}
func (x *Uint64) Or(m uint64) uint64 {
	vsched.AtomicAt(unsafe.Pointer(&x.v))
	o := x.v
	x.v |= m
	return o
}
func (x *Uint64) CompareAndSwap(o, n uint64) bool {
	vsched.AtomicAt(unsafe.Pointer(&x.v))
	if x.v == o {
		x.v = n
		return true
	}
	return false
}
func LoadUint64(p *uint64) uint64     { vsched.AtomicAt(unsafe.Pointer(p)); return *p }
func StoreUint64(p *uint64, n uint64) { vsched.AtomicAt(unsafe.Pointer(p)); *p = n }
func SwapUint64(p *uint64, n uint64) uint64 {
	vsched.AtomicAt(unsafe.Pointer(p))
	o := *p
	*p = n
	return o
}
func AddUint64(p *uint64, d uint64) uint64 { vsched.AtomicAt(unsafe.Pointer(p)); *p += d; return *p }
func AndUint64(p *uint64, m uint64) uint64 {
	vsched.AtomicAt(unsafe.Pointer(p))
	o := *p
	*p &= m
	return o
}
func OrUint64(p *uint64, m uint64) uint64 {
	vsched.AtomicAt(unsafe.Pointer(p))
	o := *p
	*p |= m
	return o
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	vsched.AtomicAt(unsafe.Pointer(p))
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Uintptr struct {
	v uintptr
	_ [0]func()
}

func (x *Uintptr) Load() uintptr   { vsched.AtomicAt(unsafe.Pointer(&x.v)); return x.v }
func (x *Uintptr) Store(n uintptr) { vsched.AtomicAt(unsafe.Pointer(&x.v)); x.v = n }
func (x *Uintptr) Swap(n uintptr) uintptr {
	vsched.AtomicAt(unsafe.Pointer(&x.v))
	o := x.v
	x.v = n
	return o
}
func (x *Uintptr) Add(d uintptr) uintptr { vsched.AtomicAt(unsafe.Pointer(&x.v)); x.v += d; return x.v }
func (x *Uintptr) And(m uintptr) uintptr {
	vsched.AtomicAt(unsafe.Pointer(&x.v))
	o := x.v
	x.v &= m
	return o
}
func (x *Uintptr) Or(m uintptr) uintptr {
	vsched.AtomicAt(unsafe.Pointer(&x.v))
	o := x.v
	x.v |= m
	return o
}
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool {
	vsched.AtomicAt(unsafe.Pointer(&x.v))
	if x.v == o {
		x.v = n
		return true
	}
	return false
}
func LoadUintptr(p *uintptr) uintptr     { vsched.AtomicAt(unsafe.Pointer(p)); return *p }
func StoreUintptr(p *uintptr, n uintptr) { vsched.AtomicAt(unsafe.Pointer(p)); *p = n }
func SwapUintptr(p *uintptr, n uintptr) uintptr {
	vsched.AtomicAt(unsafe.Pointer(p))
	o := *p
	*p = n
	return o
}
func AddUintptr(p *uintptr, d uintptr) uintptr {
	vsched.AtomicAt(unsafe.Pointer(p))
	*p += d
	return *p
}
func AndUintptr(p *uintptr, m uintptr) uintptr {
	vsched.AtomicAt(unsafe.Pointer(p))
	o := *p
	*p &= m
	return o
}
func OrUintptr(p *uintptr, m uintptr) uintptr {
	vsched.AtomicAt(unsafe.Pointer(p))
	o := *p
	*p |= m
	return o
}
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	vsched.AtomicAt(unsafe.Pointer(p))
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Bool struct {
	v bool
	_ [0]func()
}

func (x *Bool) Load() bool       { vsched.AtomicAt(unsafe.Pointer(&x.v)); return x.v }
func (x *Bool) Store(n bool)     { vsched.AtomicAt(unsafe.Pointer(&x.v)); x.v = n }
func (x *Bool) Swap(n bool) bool { vsched.AtomicAt(unsafe.Pointer(&x.v)); o := x.v; x.v = n; return o }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	vsched.AtomicAt(unsafe.Pointer(&x.v))
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

type Pointer[T any] struct {
	v *T
	_ [0]func()
}

func (x *Pointer[T]) Load() *T   { vsched.AtomicAt(unsafe.Pointer(&x.v)); return x.v }
func (x *Pointer[T]) Store(n *T) { vsched.AtomicAt(unsafe.Pointer(&x.v)); x.v = n }
func (x *Pointer[T]) Swap(n *T) *T {
	vsched.AtomicAt(unsafe.Pointer(&x.v))
	o := x.v
	x.v = n
	return o
}
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	vsched.AtomicAt(unsafe.Pointer(&x.v))
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

type Value struct {
	v atomic.Value
	_ [0]func()
}

func (x *Value) Load() any      { vsched.AtomicAt(unsafe.Pointer(x)); return x.v.Load() }
func (x *Value) Store(n any)    { vsched.AtomicAt(unsafe.Pointer(x)); x.v.Store(n) }
func (x *Value) Swap(n any) any { vsched.AtomicAt(unsafe.Pointer(x)); return x.v.Swap(n) }
func (x *Value) CompareAndSwap(o, n any) bool {
	vsched.AtomicAt(unsafe.Pointer(x))
	return x.v.CompareAndSwap(o, n)
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { vsched.AtomicAt(unsafe.Pointer(p)); return *p }
func StorePointer(p *unsafe.Pointer, n unsafe.Pointer) { vsched.AtomicAt(unsafe.Pointer(p)); *p = n }
func SwapPointer(p *unsafe.Pointer, n unsafe.Pointer) unsafe.Pointer {
	vsched.AtomicAt(unsafe.Pointer(p))
	o := *p
	*p = n
	return o
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	vsched.AtomicAt(unsafe.Pointer(p))
	if *p == o {
		*p = n
		return true
	}
	return false
}
