// Package mcatomic stands in for package sync/atomic in instrumented code.
package mcatomic

import (
	"unsafe"

	"verif/mc"
)

func op(p unsafe.Pointer) {
	if x := mc.X; x != nil {
		x.SyncPoint("atomic", nil)
		x.AcqRel(x.Atomic(p), 0x201)
	}
}

func post() {
	if x := mc.X; x != nil {
		x.RelPoint()
	}
}

func load[T any](p *T) T { op(unsafe.Pointer(p)); return *p }
func store[T any](p *T, v T) {
	op(unsafe.Pointer(p))
	*p = v
	post()
}
func swap[T any](p *T, v T) T {
	op(unsafe.Pointer(p))
	o := *p
	*p = v
	post()
	return o
}
func cas[T comparable](p *T, o, n T) bool {
	op(unsafe.Pointer(p))
	if *p == o {
		*p = n
		post()
		return true
	}
	return false
}

type num interface {
	~int32 | ~int64 | ~uint32 | ~uint64 | ~uintptr
}

func add[T num](p *T, d T) T {
	op(unsafe.Pointer(p))
	*p += d
	v := *p
	post()
	return v
}
func and[T num](p *T, m T) T { op(unsafe.Pointer(p)); o := *p; *p &= m; post(); return o }
func or[T num](p *T, m T) T  { op(unsafe.Pointer(p)); o := *p; *p |= m; post(); return o }

func LoadInt32(p *int32) int32       { return load(p) }
func LoadInt64(p *int64) int64       { return load(p) }
func LoadUint32(p *uint32) uint32    { return load(p) }
func LoadUint64(p *uint64) uint64    { return load(p) }
func LoadUintptr(p *uintptr) uintptr { return load(p) }
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	return load(p)
}
func StoreInt32(p *int32, v int32)       { store(p, v) }
func StoreInt64(p *int64, v int64)       { store(p, v) }
func StoreUint32(p *uint32, v uint32)    { store(p, v) }
func StoreUint64(p *uint64, v uint64)    { store(p, v) }
func StoreUintptr(p *uintptr, v uintptr) { store(p, v) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	store(p, v)
}
func AddInt32(p *int32, d int32) int32         { return add(p, d) }
func AddInt64(p *int64, d int64) int64         { return add(p, d) }
func AddUint32(p *uint32, d uint32) uint32     { return add(p, d) }
func AddUint64(p *uint64, d uint64) uint64     { return add(p, d) }
func AddUintptr(p *uintptr, d uintptr) uintptr { return add(p, d) }
func AndInt32(p *int32, d int32) int32         { return and(p, d) }
func AndUint32(p *uint32, d uint32) uint32     { return and(p, d) }
func AndInt64(p *int64, d int64) int64         { return and(p, d) }
func AndUint64(p *uint64, d uint64) uint64     { return and(p, d) }
func OrInt32(p *int32, d int32) int32          { return or(p, d) }
func OrUint32(p *uint32, d uint32) uint32      { return or(p, d) }
func OrInt64(p *int64, d int64) int64          { return or(p, d) }
func OrUint64(p *uint64, d uint64) uint64      { return or(p, d) }
func SwapInt32(p *int32, v int32) int32        { return swap(p, v) }
func SwapInt64(p *int64, v int64) int64        { return swap(p, v) }
func SwapUint32(p *uint32, v uint32) uint32    { return swap(p, v) }
func SwapUint64(p *uint64, v uint64) uint64    { return swap(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	return cas(p, o, n)
}
func CompareAndSwapInt64(p *int64, o, n int64) bool    { return cas(p, o, n) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool { return cas(p, o, n) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool { return cas(p, o, n) }
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	return cas(p, o, n)
}

type numeric[T num] struct{ v T }

func (a *numeric[T]) Load() T                    { return load(&a.v) }
func (a *numeric[T]) Store(v T)                  { store(&a.v, v) }
func (a *numeric[T]) Swap(v T) T                 { return swap(&a.v, v) }
func (a *numeric[T]) CompareAndSwap(o, n T) bool { return cas(&a.v, o, n) }
func (a *numeric[T]) Add(d T) T                  { return add(&a.v, d) }
func (a *numeric[T]) And(m T) T                  { return and(&a.v, m) }
func (a *numeric[T]) Or(m T) T                   { return or(&a.v, m) }

type Int32 struct{ numeric[int32] }
type Int64 struct{ numeric[int64] }
type Uint32 struct{ numeric[uint32] }
type Uint64 struct{ numeric[uint64] }
type Uintptr struct{ numeric[uintptr] }

type Bool struct{ v bool }

func (a *Bool) Load() bool                    { return load(&a.v) }
func (a *Bool) Store(v bool)                  { store(&a.v, v) }
func (a *Bool) Swap(v bool) bool              { return swap(&a.v, v) }
func (a *Bool) CompareAndSwap(o, n bool) bool { return cas(&a.v, o, n) }

type Pointer[T any] struct{ v *T }

func (a *Pointer[T]) Load() *T                    { return load(&a.v) }
func (a *Pointer[T]) Store(v *T)                  { store(&a.v, v) }
func (a *Pointer[T]) Swap(v *T) *T                { return swap(&a.v, v) }
func (a *Pointer[T]) CompareAndSwap(o, n *T) bool { return cas(&a.v, o, n) }

type Value struct{ v any }

func (a *Value) Load() any { return load(&a.v) }
func (a *Value) Store(v any) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	store(&a.v, v)
}
func (a *Value) Swap(v any) any               { return swap(&a.v, v) }
func (a *Value) CompareAndSwap(o, n any) bool { return cas(&a.v, o, n) }
