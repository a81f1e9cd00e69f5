// Package vatomic models package sync/atomic: every operation is a scheduling point.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"vrt"
)

//go:norace
func rd(o *vrt.Obj) {
	if vrt.Aborting() {
		return
	}
	vrt.Point("atomic load", nil)
	vrt.ReadEvent(o, 0x91)
	vrt.RaceAcquire(unsafe.Pointer(o))
}

//go:norace
func wr(o *vrt.Obj) {
	if vrt.Aborting() {
		return
	}
	vrt.Point("atomic rmw", nil)
	vrt.Event(o, 0x92)
	vrt.RaceAcquire(unsafe.Pointer(o))
	vrt.RaceReleaseMerge(unsafe.Pointer(o))
}

// Pointer models atomic.Pointer.
type Pointer[T any] struct {
	o vrt.Obj
	v *T
}

//go:norace
func (p *Pointer[T]) Load() *T { rd(&p.o); return p.v }

//go:norace
func (p *Pointer[T]) Store(v *T) { wr(&p.o); p.v = v }

//go:norace
func (p *Pointer[T]) Swap(v *T) *T { wr(&p.o); o := p.v; p.v = v; return o }

//go:norace
func (p *Pointer[T]) CompareAndSwap(old, new *T) bool {
	wr(&p.o)
	if p.v == old {
		p.v = new
		return true
	}
	return false
}

// Bool models atomic.Bool.
type Bool struct {
	o vrt.Obj
	v bool
}

//go:norace
func (p *Bool) Load() bool { rd(&p.o); return p.v }

//go:norace
func (p *Bool) Store(v bool) { wr(&p.o); p.v = v }

//go:norace
func (p *Bool) Swap(v bool) bool { wr(&p.o); o := p.v; p.v = v; return o }

//go:norace
func (p *Bool) CompareAndSwap(old, new bool) bool {
	wr(&p.o)
	if p.v == old {
		p.v = new
		return true
	}
	return false
}

// Value models atomic.Value.
type Value struct {
	o vrt.Obj
	v any
}

//go:norace
func (p *Value) Load() any { rd(&p.o); return p.v }

//go:norace
func (p *Value) Store(v any) {
	wr(&p.o)
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	p.v = v
}

//go:norace
func (p *Value) Swap(v any) any { wr(&p.o); o := p.v; p.v = v; return o }

//go:norace
func (p *Value) CompareAndSwap(old, new any) bool {
	wr(&p.o)
	if p.v == old {
		p.v = new
		return true
	}
	return false
}

// Int32 models atomic.Int32.
type Int32 struct {
	o vrt.Obj
	v int32
}

//go:norace
func (p *Int32) Load() int32 { rd(&p.o); return p.v }

//go:norace
func (p *Int32) Store(v int32) { wr(&p.o); p.v = v }

//go:norace
func (p *Int32) Swap(v int32) int32 { wr(&p.o); o := p.v; p.v = v; return o }

//go:norace
func (p *Int32) Add(d int32) int32 { wr(&p.o); p.v += d; return p.v }

//go:norace
func (p *Int32) And(m int32) int32 { wr(&p.o); o := p.v; p.v &= m; return o }

//go:norace
func (p *Int32) Or(m int32) int32 { wr(&p.o); o := p.v; p.v |= m; return o }

//go:norace
func (p *Int32) CompareAndSwap(old, new int32) bool {
	wr(&p.o)
	if p.v == old {
		p.v = new
		return true
	}
	return false
}

//go:norace
func LoadInt32(a *int32) int32 { rd(vrt.RawObj(unsafe.Pointer(a))); return atomic.LoadInt32(a) }

//go:norace
func StoreInt32(a *int32, v int32) { wr(vrt.RawObj(unsafe.Pointer(a))); atomic.StoreInt32(a, v) }

//go:norace
func SwapInt32(a *int32, v int32) int32 {
	wr(vrt.RawObj(unsafe.Pointer(a)))
	return atomic.SwapInt32(a, v)
}

//go:norace
func AddInt32(a *int32, d int32) int32 {
	wr(vrt.RawObj(unsafe.Pointer(a)))
	return atomic.AddInt32(a, d)
}

//go:norace
func AndInt32(a *int32, d int32) int32 {
	wr(vrt.RawObj(unsafe.Pointer(a)))
	return atomic.AndInt32(a, d)
}

//go:norace
func OrInt32(a *int32, d int32) int32 { wr(vrt.RawObj(unsafe.Pointer(a))); return atomic.OrInt32(a, d) }

//go:norace
func CompareAndSwapInt32(a *int32, old, new int32) bool {
	wr(vrt.RawObj(unsafe.Pointer(a)))
	return atomic.CompareAndSwapInt32(a, old, new)
}

// Int64 models atomic.Int64.
type Int64 struct {
	o vrt.Obj
	v int64
}

//go:norace
func (p *Int64) Load() int64 { rd(&p.o); return p.v }

//go:norace
func (p *Int64) Store(v int64) { wr(&p.o); p.v = v }

//go:norace
func (p *Int64) Swap(v int64) int64 { wr(&p.o); o := p.v; p.v = v; return o }

//go:norace
func (p *Int64) Add(d int64) int64 { wr(&p.o); p.v += d; return p.v }

//go:norace
func (p *Int64) And(m int64) int64 { wr(&p.o); o := p.v; p.v &= m; return o }

//go:norace
func (p *Int64) Or(m int64) int64 { wr(&p.o); o := p.v; p.v |= m; return o }

//go:norace
func (p *Int64) CompareAndSwap(old, new int64) bool {
	wr(&p.o)
	if p.v == old {
		p.v = new
		return true
	}
	return false
}

//go:norace
func LoadInt64(a *int64) int64 { rd(vrt.RawObj(unsafe.Pointer(a))); return atomic.LoadInt64(a) }

//go:norace
func StoreInt64(a *int64, v int64) { wr(vrt.RawObj(unsafe.Pointer(a))); atomic.StoreInt64(a, v) }

//go:norace
func SwapInt64(a *int64, v int64) int64 {
	wr(vrt.RawObj(unsafe.Pointer(a)))
	return atomic.SwapInt64(a, v)
}

//go:norace
func AddInt64(a *int64, d int64) int64 {
	wr(vrt.RawObj(unsafe.Pointer(a)))
	return atomic.AddInt64(a, d)
}

//go:norace
func AndInt64(a *int64, d int64) int64 {
	wr(vrt.RawObj(unsafe.Pointer(a)))
	return atomic.AndInt64(a, d)
}

//go:norace
func OrInt64(a *int64, d int64) int64 { wr(vrt.RawObj(unsafe.Pointer(a))); return atomic.OrInt64(a, d) }

//go:norace
func CompareAndSwapInt64(a *int64, old, new int64) bool {
	wr(vrt.RawObj(unsafe.Pointer(a)))
	return atomic.CompareAndSwapInt64(a, old, new)
}

// Uint32 models atomic.Uint32.
type Uint32 struct {
	o vrt.Obj
	v uint32
}

//go:norace
func (p *Uint32) Load() uint32 { rd(&p.o); return p.v }

//go:norace
func (p *Uint32) Store(v uint32) { wr(&p.o); p.v = v }

//go:norace
func (p *Uint32) Swap(v uint32) uint32 { wr(&p.o); o := p.v; p.v = v; return o }

//go:norace
func (p *Uint32) Add(d uint32) uint32 { wr(&p.o); p.v += d; return p.v }

//go:norace
func (p *Uint32) And(m uint32) uint32 { wr(&p.o); o := p.v; p.v &= m; return o }

//go:norace
func (p *Uint32) Or(m uint32) uint32 { wr(&p.o); o := p.v; p.v |= m; return o }

//go:norace
func (p *Uint32) CompareAndSwap(old, new uint32) bool {
	wr(&p.o)
	if p.v == old {
		p.v = new
		return true
	}
	return false
}

//go:norace
func LoadUint32(a *uint32) uint32 { rd(vrt.RawObj(unsafe.Pointer(a))); return atomic.LoadUint32(a) }

//go:norace
func StoreUint32(a *uint32, v uint32) { wr(vrt.RawObj(unsafe.Pointer(a))); atomic.StoreUint32(a, v) }

//go:norace
func SwapUint32(a *uint32, v uint32) uint32 {
	wr(vrt.RawObj(unsafe.Pointer(a)))
	return atomic.SwapUint32(a, v)
}

//go:norace
func AddUint32(a *uint32, d uint32) uint32 {
	wr(vrt.RawObj(unsafe.Pointer(a)))
	return atomic.AddUint32(a, d)
}

//go:norace
func AndUint32(a *uint32, d uint32) uint32 {
	wr(vrt.RawObj(unsafe.Pointer(a)))
	return atomic.AndUint32(a, d)
}

//go:norace
func OrUint32(a *uint32, d uint32) uint32 {
	wr(vrt.RawObj(unsafe.Pointer(a)))
	return atomic.OrUint32(a, d)
}

//go:norace
func CompareAndSwapUint32(a *uint32, old, new uint32) bool {
	wr(vrt.RawObj(unsafe.Pointer(a)))
	return atomic.CompareAndSwapUint32(a, old, new)
}

// Uint64 models atomic.Uint64.
type Uint64 struct {
	o vrt.Obj
	v uint64
}

//go:norace
func (p *Uint64) Load() uint64 { rd(&p.o); return p.v }

//go:norace
func (p *Uint64) Store(v uint64) { wr(&p.o); p.v = v }

//go:norace
func (p *Uint64) Swap(v uint64) uint64 { wr(&p.o); o := p.v; p.v = v; return o }

//go:norace
func (p *Uint64) Add(d uint64) uint64 { wr(&p.o); p.v += d; return p.v }

//go:norace
func (p *Uint64) And(m uint64) uint64 { wr(&p.o); o := p.v; p.v &= m; return o }

//go:norace
func (p *Uint64) Or(m uint64) uint64 { wr(&p.o); o := p.v; p.v |= m; return o }

//go:norace
func (p *Uint64) CompareAndSwap(old, new uint64) bool {
	wr(&p.o)
	if p.v == old {
		p.v = new
		return true
	}
	return false
}

//go:norace
func LoadUint64(a *uint64) uint64 { rd(vrt.RawObj(unsafe.Pointer(a))); return atomic.LoadUint64(a) }

//go:norace
func StoreUint64(a *uint64, v uint64) { wr(vrt.RawObj(unsafe.Pointer(a))); atomic.StoreUint64(a, v) }

//go:norace
func SwapUint64(a *uint64, v uint64) uint64 {
	wr(vrt.RawObj(unsafe.Pointer(a)))
	return atomic.SwapUint64(a, v)
}

//go:norace
func AddUint64(a *uint64, d uint64) uint64 {
	wr(vrt.RawObj(unsafe.Pointer(a)))
	return atomic.AddUint64(a, d)
}

//go:norace
func AndUint64(a *uint64, d uint64) uint64 {
	wr(vrt.RawObj(unsafe.Pointer(a)))
	return atomic.AndUint64(a, d)
}

//go:norace
func OrUint64(a *uint64, d uint64) uint64 {
	wr(vrt.RawObj(unsafe.Pointer(a)))
	return atomic.OrUint64(a, d)
}

//go:norace
func CompareAndSwapUint64(a *uint64, old, new uint64) bool {
	wr(vrt.RawObj(unsafe.Pointer(a)))
	return atomic.CompareAndSwapUint64(a, old, new)
}

// Uintptr models atomic.Uintptr.
type Uintptr struct {
	o vrt.Obj
	v uintptr
}

//go:norace
func (p *Uintptr) Load() uintptr { rd(&p.o); return p.v }

//go:norace
func (p *Uintptr) Store(v uintptr) { wr(&p.o); p.v = v }

//go:norace
func (p *Uintptr) Swap(v uintptr) uintptr { wr(&p.o); o := p.v; p.v = v; return o }

//go:norace
func (p *Uintptr) Add(d uintptr) uintptr { wr(&p.o); p.v += d; return p.v }

//go:norace
func (p *Uintptr) And(m uintptr) uintptr { wr(&p.o); o := p.v; p.v &= m; return o }

//go:norace
func (p *Uintptr) Or(m uintptr) uintptr { wr(&p.o); o := p.v; p.v |= m; return o }

//go:norace
func (p *Uintptr) CompareAndSwap(old, new uintptr) bool {
	wr(&p.o)
	if p.v == old {
		p.v = new
		return true
	}
	return false
}

//go:norace
func LoadUintptr(a *uintptr) uintptr { rd(vrt.RawObj(unsafe.Pointer(a))); return atomic.LoadUintptr(a) }

//go:norace
func StoreUintptr(a *uintptr, v uintptr) {
	wr(vrt.RawObj(unsafe.Pointer(a)))
	atomic.StoreUintptr(a, v)
}

//go:norace
func SwapUintptr(a *uintptr, v uintptr) uintptr {
	wr(vrt.RawObj(unsafe.Pointer(a)))
	return atomic.SwapUintptr(a, v)
}

//go:norace
func AddUintptr(a *uintptr, d uintptr) uintptr {
	wr(vrt.RawObj(unsafe.Pointer(a)))
	return atomic.AddUintptr(a, d)
}

//go:norace
func AndUintptr(a *uintptr, d uintptr) uintptr {
	wr(vrt.RawObj(unsafe.Pointer(a)))
	return atomic.AndUintptr(a, d)
}

//go:norace
func OrUintptr(a *uintptr, d uintptr) uintptr {
	wr(vrt.RawObj(unsafe.Pointer(a)))
	return atomic.OrUintptr(a, d)
}

//go:norace
func CompareAndSwapUintptr(a *uintptr, old, new uintptr) bool {
	wr(vrt.RawObj(unsafe.Pointer(a)))
	return atomic.CompareAndSwapUintptr(a, old, new)
}

//go:norace
func LoadPointer(a *unsafe.Pointer) unsafe.Pointer {
	rd(vrt.RawObj(unsafe.Pointer(a)))
	return atomic.LoadPointer(a)
}

//go:norace
func StorePointer(a *unsafe.Pointer, v unsafe.Pointer) {
	wr(vrt.RawObj(unsafe.Pointer(a)))
	atomic.StorePointer(a, v)
}

//go:norace
func SwapPointer(a *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	wr(vrt.RawObj(unsafe.Pointer(a)))
	return atomic.SwapPointer(a, v)
}

//go:norace
func CompareAndSwapPointer(a *unsafe.Pointer, old, new unsafe.Pointer) bool {
	wr(vrt.RawObj(unsafe.Pointer(a)))
	return atomic.CompareAndSwapPointer(a, old, new)
}
