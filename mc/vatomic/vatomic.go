//go:build go1.21

// Package vatomic stands in for package sync/atomic in an instrumented build: every operation is a
// scheduling point followed by the real operation.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/taurusgroup/frost-ed25519/pkg/verifmc/vrt"
)

func pt() {
	if vrt.Active() {
		vrt.Yield("atomic")
	}
}

func AddInt32(p *int32, d int32) int32              { pt(); return atomic.AddInt32(p, d) }
func AddInt64(p *int64, d int64) int64              { pt(); return atomic.AddInt64(p, d) }
func AddUint32(p *uint32, d uint32) uint32          { pt(); return atomic.AddUint32(p, d) }
func AddUint64(p *uint64, d uint64) uint64          { pt(); return atomic.AddUint64(p, d) }
func LoadInt32(p *int32) int32                      { pt(); return atomic.LoadInt32(p) }
func LoadInt64(p *int64) int64                      { pt(); return atomic.LoadInt64(p) }
func LoadUint32(p *uint32) uint32                   { pt(); return atomic.LoadUint32(p) }
func LoadUint64(p *uint64) uint64                   { pt(); return atomic.LoadUint64(p) }
func StoreInt32(p *int32, v int32)                  { pt(); atomic.StoreInt32(p, v) }
func StoreInt64(p *int64, v int64)                  { pt(); atomic.StoreInt64(p, v) }
func StoreUint32(p *uint32, v uint32)               { pt(); atomic.StoreUint32(p, v) }
func StoreUint64(p *uint64, v uint64)               { pt(); atomic.StoreUint64(p, v) }
func SwapInt32(p *int32, v int32) int32             { pt(); return atomic.SwapInt32(p, v) }
func SwapInt64(p *int64, v int64) int64             { pt(); return atomic.SwapInt64(p, v) }
func SwapUint32(p *uint32, v uint32) uint32         { pt(); return atomic.SwapUint32(p, v) }
func SwapUint64(p *uint64, v uint64) uint64         { pt(); return atomic.SwapUint64(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool { pt(); return atomic.CompareAndSwapInt32(p, o, n) }
func CompareAndSwapInt64(p *int64, o, n int64) bool { pt(); return atomic.CompareAndSwapInt64(p, o, n) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	pt()
	return atomic.CompareAndSwapUint32(p, o, n)
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	pt()
	return atomic.CompareAndSwapUint64(p, o, n)
}
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { pt(); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { pt(); atomic.StorePointer(p, v) }

// Bool and friends.
type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { pt(); return x.v.Load() }
func (x *Bool) Store(b bool)                  { pt(); x.v.Store(b) }
func (x *Bool) Swap(b bool) bool              { pt(); return x.v.Swap(b) }
func (x *Bool) CompareAndSwap(o, n bool) bool { pt(); return x.v.CompareAndSwap(o, n) }

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { pt(); return x.v.Load() }
func (x *Int32) Store(b int32)                  { pt(); x.v.Store(b) }
func (x *Int32) Add(d int32) int32              { pt(); return x.v.Add(d) }
func (x *Int32) Swap(b int32) int32             { pt(); return x.v.Swap(b) }
func (x *Int32) CompareAndSwap(o, n int32) bool { pt(); return x.v.CompareAndSwap(o, n) }

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { pt(); return x.v.Load() }
func (x *Int64) Store(b int64)                  { pt(); x.v.Store(b) }
func (x *Int64) Add(d int64) int64              { pt(); return x.v.Add(d) }
func (x *Int64) Swap(b int64) int64             { pt(); return x.v.Swap(b) }
func (x *Int64) CompareAndSwap(o, n int64) bool { pt(); return x.v.CompareAndSwap(o, n) }

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { pt(); return x.v.Load() }
func (x *Uint32) Store(b uint32)                  { pt(); x.v.Store(b) }
func (x *Uint32) Add(d uint32) uint32             { pt(); return x.v.Add(d) }
func (x *Uint32) Swap(b uint32) uint32            { pt(); return x.v.Swap(b) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { pt(); return x.v.CompareAndSwap(o, n) }

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { pt(); return x.v.Load() }
func (x *Uint64) Store(b uint64)                  { pt(); x.v.Store(b) }
func (x *Uint64) Add(d uint64) uint64             { pt(); return x.v.Add(d) }
func (x *Uint64) Swap(b uint64) uint64            { pt(); return x.v.Swap(b) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { pt(); return x.v.CompareAndSwap(o, n) }

// Pointer is a typed atomic pointer.
type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { pt(); return x.v.Load() }
func (x *Pointer[T]) Store(b *T)                  { pt(); x.v.Store(b) }
func (x *Pointer[T]) Swap(b *T) *T                { pt(); return x.v.Swap(b) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { pt(); return x.v.CompareAndSwap(o, n) }

// Value holds any value.
type Value struct{ v atomic.Value }

func (x *Value) Load() interface{}                    { pt(); return x.v.Load() }
func (x *Value) Store(b interface{})                  { pt(); x.v.Store(b) }
func (x *Value) Swap(b interface{}) interface{}       { pt(); return x.v.Swap(b) }
func (x *Value) CompareAndSwap(o, n interface{}) bool { pt(); return x.v.CompareAndSwap(o, n) }
