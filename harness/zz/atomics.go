package zz

import (
	"sync/atomic"
	"unsafe"
)

// Stand-ins for the functions of sync/atomic: a scheduling point, then the real one.

func AddInt32(p *int32, d int32) int32  { Point(); return atomic.AddInt32(p, d) }
func LoadInt32(p *int32) int32          { Point(); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { Point(); atomic.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { Point(); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, v int32) bool {
	Point()
	return atomic.CompareAndSwapInt32(p, o, v)
}

func AddInt64(p *int64, d int64) int64  { Point(); return atomic.AddInt64(p, d) }
func LoadInt64(p *int64) int64          { Point(); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { Point(); atomic.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { Point(); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, v int64) bool {
	Point()
	return atomic.CompareAndSwapInt64(p, o, v)
}

func AddUint32(p *uint32, d uint32) uint32  { Point(); return atomic.AddUint32(p, d) }
func LoadUint32(p *uint32) uint32           { Point(); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { Point(); atomic.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { Point(); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, v uint32) bool {
	Point()
	return atomic.CompareAndSwapUint32(p, o, v)
}

func AddUint64(p *uint64, d uint64) uint64  { Point(); return atomic.AddUint64(p, d) }
func LoadUint64(p *uint64) uint64           { Point(); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { Point(); atomic.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { Point(); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, v uint64) bool {
	Point()
	return atomic.CompareAndSwapUint64(p, o, v)
}

func AddUintptr(p *uintptr, d uintptr) uintptr  { Point(); return atomic.AddUintptr(p, d) }
func LoadUintptr(p *uintptr) uintptr            { Point(); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { Point(); atomic.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { Point(); return atomic.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, o, v uintptr) bool {
	Point()
	return atomic.CompareAndSwapUintptr(p, o, v)
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { Point(); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { Point(); atomic.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	Point()
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, v unsafe.Pointer) bool {
	Point()
	return atomic.CompareAndSwapPointer(p, o, v)
}
