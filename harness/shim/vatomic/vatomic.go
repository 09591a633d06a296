// Package vatomic stands in for sync/atomic when a schedule is replayed.
package vatomic

import (
	"unsafe"

	"vharness/shim"
)

type Value struct{ v any }

func (v *Value) Load() any { shim.Yield(); return v.v }
func (v *Value) Store(x any) {
	if x == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	shim.Yield()
	v.v = x
}

type Pointer[T any] struct{ p *T }

func (x *Pointer[T]) Load() *T         { shim.Yield(); return x.p }
func (x *Pointer[T]) Store(v *T)       { shim.Yield(); x.p = v }
func (x *Pointer[T]) Swap(v *T) (o *T) { shim.Yield(); o, x.p = x.p, v; return }
func (x *Pointer[T]) CompareAndSwap(a, b *T) bool {
	shim.Yield()
	if x.p == a {
		x.p = b
		return true
	}
	return false
}

type Bool struct{ v bool }

func (x *Bool) Load() bool           { shim.Yield(); return x.v }
func (x *Bool) Store(v bool)         { shim.Yield(); x.v = v }
func (x *Bool) Swap(v bool) (o bool) { shim.Yield(); o, x.v = x.v, v; return }
func (x *Bool) CompareAndSwap(a, b bool) bool {
	shim.Yield()
	if x.v == a {
		x.v = b
		return true
	}
	return false
}

type Int32 struct{ v int32 }

func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Add(d int32) int32              { return AddInt32(&x.v, d) }
func (x *Int32) Swap(v int32) int32             { return SwapInt32(&x.v, v) }
func (x *Int32) CompareAndSwap(a, b int32) bool { return CompareAndSwapInt32(&x.v, a, b) }

func AddInt32(p *int32, d int32) int32 { shim.Yield(); *p += d; return *p }

func LoadInt32(p *int32) int32              { shim.Yield(); return *p }
func StoreInt32(p *int32, v int32)          { shim.Yield(); *p = v }
func SwapInt32(p *int32, v int32) (o int32) { shim.Yield(); o, *p = *p, v; return }
func CompareAndSwapInt32(p *int32, a, b int32) bool {
	shim.Yield()
	if *p == a {
		*p = b
		return true
	}
	return false
}

type Int64 struct{ v int64 }

func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                  { StoreInt64(&x.v, v) }
func (x *Int64) Add(d int64) int64              { return AddInt64(&x.v, d) }
func (x *Int64) Swap(v int64) int64             { return SwapInt64(&x.v, v) }
func (x *Int64) CompareAndSwap(a, b int64) bool { return CompareAndSwapInt64(&x.v, a, b) }

func AddInt64(p *int64, d int64) int64 { shim.Yield(); *p += d; return *p }

func LoadInt64(p *int64) int64              { shim.Yield(); return *p }
func StoreInt64(p *int64, v int64)          { shim.Yield(); *p = v }
func SwapInt64(p *int64, v int64) (o int64) { shim.Yield(); o, *p = *p, v; return }
func CompareAndSwapInt64(p *int64, a, b int64) bool {
	shim.Yield()
	if *p == a {
		*p = b
		return true
	}
	return false
}

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Add(d uint32) uint32             { return AddUint32(&x.v, d) }
func (x *Uint32) Swap(v uint32) uint32            { return SwapUint32(&x.v, v) }
func (x *Uint32) CompareAndSwap(a, b uint32) bool { return CompareAndSwapUint32(&x.v, a, b) }

func AddUint32(p *uint32, d uint32) uint32 { shim.Yield(); *p += d; return *p }

func LoadUint32(p *uint32) uint32               { shim.Yield(); return *p }
func StoreUint32(p *uint32, v uint32)           { shim.Yield(); *p = v }
func SwapUint32(p *uint32, v uint32) (o uint32) { shim.Yield(); o, *p = *p, v; return }
func CompareAndSwapUint32(p *uint32, a, b uint32) bool {
	shim.Yield()
	if *p == a {
		*p = b
		return true
	}
	return false
}

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(&x.v, v) }
func (x *Uint64) Add(d uint64) uint64             { return AddUint64(&x.v, d) }
func (x *Uint64) Swap(v uint64) uint64            { return SwapUint64(&x.v, v) }
func (x *Uint64) CompareAndSwap(a, b uint64) bool { return CompareAndSwapUint64(&x.v, a, b) }

func AddUint64(p *uint64, d uint64) uint64 { shim.Yield(); *p += d; return *p }

func LoadUint64(p *uint64) uint64               { shim.Yield(); return *p }
func StoreUint64(p *uint64, v uint64)           { shim.Yield(); *p = v }
func SwapUint64(p *uint64, v uint64) (o uint64) { shim.Yield(); o, *p = *p, v; return }
func CompareAndSwapUint64(p *uint64, a, b uint64) bool {
	shim.Yield()
	if *p == a {
		*p = b
		return true
	}
	return false
}

type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                    { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { StoreUintptr(&x.v, v) }
func (x *Uintptr) Add(d uintptr) uintptr            { return AddUintptr(&x.v, d) }
func (x *Uintptr) Swap(v uintptr) uintptr           { return SwapUintptr(&x.v, v) }
func (x *Uintptr) CompareAndSwap(a, b uintptr) bool { return CompareAndSwapUintptr(&x.v, a, b) }

func AddUintptr(p *uintptr, d uintptr) uintptr { shim.Yield(); *p += d; return *p }

func LoadUintptr(p *uintptr) uintptr                { shim.Yield(); return *p }
func StoreUintptr(p *uintptr, v uintptr)            { shim.Yield(); *p = v }
func SwapUintptr(p *uintptr, v uintptr) (o uintptr) { shim.Yield(); o, *p = *p, v; return }
func CompareAndSwapUintptr(p *uintptr, a, b uintptr) bool {
	shim.Yield()
	if *p == a {
		*p = b
		return true
	}
	return false
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { shim.Yield(); return *p }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { shim.Yield(); *p = v }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) (o unsafe.Pointer) {
	shim.Yield()
	o, *p = *p, v
	return
}
func CompareAndSwapPointer(p *unsafe.Pointer, a, b unsafe.Pointer) bool {
	shim.Yield()
	if *p == a {
		*p = b
		return true
	}
	return false
}
