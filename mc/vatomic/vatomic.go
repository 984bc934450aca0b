// Package vatomic replaces sync/atomic in the instrumented code.
package vatomic

import (
	"unsafe"

	"github.com/nlpodyssey/spago/verifmc/vsched"
)

//go:norace
func LoadInt32(p *int32) int32 {
	vsched.AtomicPoint(unsafe.Pointer(p), false)
	v := *p
	vsched.AtomicEnd(unsafe.Pointer(p))
	return v
}

//go:norace
func StoreInt32(p *int32, v int32) {
	vsched.AtomicPoint(unsafe.Pointer(p), true)
	*p = v
	vsched.AtomicEnd(unsafe.Pointer(p))
}

//go:norace
func AddInt32(p *int32, d int32) int32 {
	vsched.AtomicPoint(unsafe.Pointer(p), true)
	*p += d
	v := *p
	vsched.AtomicEnd(unsafe.Pointer(p))
	return v
}

//go:norace
func SwapInt32(p *int32, n int32) int32 {
	vsched.AtomicPoint(unsafe.Pointer(p), true)
	v := *p
	*p = n
	vsched.AtomicEnd(unsafe.Pointer(p))
	return v
}

//go:norace
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	vsched.AtomicPoint(unsafe.Pointer(p), true)
	ok := *p == o
	if ok {
		*p = n
	}
	vsched.AtomicEnd(unsafe.Pointer(p))
	return ok
}

// Int32 is an atomic.Int32.
type Int32 struct {
	_ [0]func()
	v int32
}

func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Add(d int32) int32              { return AddInt32(&x.v, d) }
func (x *Int32) Swap(n int32) int32             { return SwapInt32(&x.v, n) }
func (x *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&x.v, o, n) }

//go:norace
func LoadInt64(p *int64) int64 {
	vsched.AtomicPoint(unsafe.Pointer(p), false)
	v := *p
	vsched.AtomicEnd(unsafe.Pointer(p))
	return v
}

//go:norace
func StoreInt64(p *int64, v int64) {
	vsched.AtomicPoint(unsafe.Pointer(p), true)
	*p = v
	vsched.AtomicEnd(unsafe.Pointer(p))
}

//go:norace
func AddInt64(p *int64, d int64) int64 {
	vsched.AtomicPoint(unsafe.Pointer(p), true)
	*p += d
	v := *p
	vsched.AtomicEnd(unsafe.Pointer(p))
	return v
}

//go:norace
func SwapInt64(p *int64, n int64) int64 {
	vsched.AtomicPoint(unsafe.Pointer(p), true)
	v := *p
	*p = n
	vsched.AtomicEnd(unsafe.Pointer(p))
	return v
}

//go:norace
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	vsched.AtomicPoint(unsafe.Pointer(p), true)
	ok := *p == o
	if ok {
		*p = n
	}
	vsched.AtomicEnd(unsafe.Pointer(p))
	return ok
}

// Int64 is an atomic.Int64.
type Int64 struct {
	_ [0]func()
	v int64
}

func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                  { StoreInt64(&x.v, v) }
func (x *Int64) Add(d int64) int64              { return AddInt64(&x.v, d) }
func (x *Int64) Swap(n int64) int64             { return SwapInt64(&x.v, n) }
func (x *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&x.v, o, n) }

//go:norace
func LoadUint32(p *uint32) uint32 {
	vsched.AtomicPoint(unsafe.Pointer(p), false)
	v := *p
	vsched.AtomicEnd(unsafe.Pointer(p))
	return v
}

//go:norace
func StoreUint32(p *uint32, v uint32) {
	vsched.AtomicPoint(unsafe.Pointer(p), true)
	*p = v
	vsched.AtomicEnd(unsafe.Pointer(p))
}

//go:norace
func AddUint32(p *uint32, d uint32) uint32 {
	vsched.AtomicPoint(unsafe.Pointer(p), true)
	*p += d
	v := *p
	vsched.AtomicEnd(unsafe.Pointer(p))
	return v
}

//go:norace
func SwapUint32(p *uint32, n uint32) uint32 {
	vsched.AtomicPoint(unsafe.Pointer(p), true)
	v := *p
	*p = n
	vsched.AtomicEnd(unsafe.Pointer(p))
	return v
}

//go:norace
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	vsched.AtomicPoint(unsafe.Pointer(p), true)
	ok := *p == o
	if ok {
		*p = n
	}
	vsched.AtomicEnd(unsafe.Pointer(p))
	return ok
}

// Uint32 is an atomic.Uint32.
type Uint32 struct {
	_ [0]func()
	v uint32
}

func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Add(d uint32) uint32             { return AddUint32(&x.v, d) }
func (x *Uint32) Swap(n uint32) uint32            { return SwapUint32(&x.v, n) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&x.v, o, n) }

//go:norace
func LoadUint64(p *uint64) uint64 {
	vsched.AtomicPoint(unsafe.Pointer(p), false)
	v := *p
	vsched.AtomicEnd(unsafe.Pointer(p))
	return v
}

//go:norace
func StoreUint64(p *uint64, v uint64) {
	vsched.AtomicPoint(unsafe.Pointer(p), true)
	*p = v
	vsched.AtomicEnd(unsafe.Pointer(p))
}

//go:norace
func AddUint64(p *uint64, d uint64) uint64 {
	vsched.AtomicPoint(unsafe.Pointer(p), true)
	*p += d
	v := *p
	vsched.AtomicEnd(unsafe.Pointer(p))
	return v
}

//go:norace
func SwapUint64(p *uint64, n uint64) uint64 {
	vsched.AtomicPoint(unsafe.Pointer(p), true)
	v := *p
	*p = n
	vsched.AtomicEnd(unsafe.Pointer(p))
	return v
}

//go:norace
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	vsched.AtomicPoint(unsafe.Pointer(p), true)
	ok := *p == o
	if ok {
		*p = n
	}
	vsched.AtomicEnd(unsafe.Pointer(p))
	return ok
}

// Uint64 is an atomic.Uint64.
type Uint64 struct {
	_ [0]func()
	v uint64
}

func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(&x.v, v) }
func (x *Uint64) Add(d uint64) uint64             { return AddUint64(&x.v, d) }
func (x *Uint64) Swap(n uint64) uint64            { return SwapUint64(&x.v, n) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&x.v, o, n) }

//go:norace
func LoadUintptr(p *uintptr) uintptr {
	vsched.AtomicPoint(unsafe.Pointer(p), false)
	v := *p
	vsched.AtomicEnd(unsafe.Pointer(p))
	return v
}

//go:norace
func StoreUintptr(p *uintptr, v uintptr) {
	vsched.AtomicPoint(unsafe.Pointer(p), true)
	*p = v
	vsched.AtomicEnd(unsafe.Pointer(p))
}

//go:norace
func AddUintptr(p *uintptr, d uintptr) uintptr {
	vsched.AtomicPoint(unsafe.Pointer(p), true)
	*p += d
	v := *p
	vsched.AtomicEnd(unsafe.Pointer(p))
	return v
}

//go:norace
func SwapUintptr(p *uintptr, n uintptr) uintptr {
	vsched.AtomicPoint(unsafe.Pointer(p), true)
	v := *p
	*p = n
	vsched.AtomicEnd(unsafe.Pointer(p))
	return v
}

//go:norace
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	vsched.AtomicPoint(unsafe.Pointer(p), true)
	ok := *p == o
	if ok {
		*p = n
	}
	vsched.AtomicEnd(unsafe.Pointer(p))
	return ok
}

// Uintptr is an atomic.Uintptr.
type Uintptr struct {
	_ [0]func()
	v uintptr
}

func (x *Uintptr) Load() uintptr                    { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { StoreUintptr(&x.v, v) }
func (x *Uintptr) Add(d uintptr) uintptr            { return AddUintptr(&x.v, d) }
func (x *Uintptr) Swap(n uintptr) uintptr           { return SwapUintptr(&x.v, n) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { return CompareAndSwapUintptr(&x.v, o, n) }

// Bool is an atomic.Bool.
type Bool struct{ v Uint32 }

func b32(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}

func (x *Bool) Load() bool                    { return x.v.Load() != 0 }
func (x *Bool) Store(v bool)                  { x.v.Store(b32(v)) }
func (x *Bool) Swap(n bool) bool              { return x.v.Swap(b32(n)) != 0 }
func (x *Bool) CompareAndSwap(o, n bool) bool { return x.v.CompareAndSwap(b32(o), b32(n)) }

// Pointer is an atomic.Pointer.
type Pointer[T any] struct {
	_ [0]*T
	v *T
}

//go:norace
func (x *Pointer[T]) Load() *T {
	vsched.AtomicPoint(unsafe.Pointer(&x.v), false)
	v := x.v
	vsched.AtomicEnd(unsafe.Pointer(&x.v))
	return v
}

//go:norace
func (x *Pointer[T]) Store(v *T) {
	vsched.AtomicPoint(unsafe.Pointer(&x.v), true)
	x.v = v
	vsched.AtomicEnd(unsafe.Pointer(&x.v))
}

//go:norace
func (x *Pointer[T]) Swap(n *T) *T {
	vsched.AtomicPoint(unsafe.Pointer(&x.v), true)
	v := x.v
	x.v = n
	vsched.AtomicEnd(unsafe.Pointer(&x.v))
	return v
}

//go:norace
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	vsched.AtomicPoint(unsafe.Pointer(&x.v), true)
	ok := x.v == o
	if ok {
		x.v = n
	}
	vsched.AtomicEnd(unsafe.Pointer(&x.v))
	return ok
}

// Value is an atomic.Value.
type Value struct{ v any }

//go:norace
func (x *Value) Load() any {
	vsched.AtomicPoint(unsafe.Pointer(x), false)
	v := x.v
	vsched.AtomicEnd(unsafe.Pointer(x))
	return v
}

//go:norace
func (x *Value) Store(v any) {
	vsched.AtomicPoint(unsafe.Pointer(x), true)
	x.v = v
	vsched.AtomicEnd(unsafe.Pointer(x))
}

//go:norace
func (x *Value) Swap(n any) any {
	vsched.AtomicPoint(unsafe.Pointer(x), true)
	v := x.v
	x.v = n
	vsched.AtomicEnd(unsafe.Pointer(x))
	return v
}

//go:norace
func (x *Value) CompareAndSwap(o, n any) bool {
	vsched.AtomicPoint(unsafe.Pointer(x), true)
	ok := x.v == o
	if ok {
		x.v = n
	}
	vsched.AtomicEnd(unsafe.Pointer(x))
	return ok
}
