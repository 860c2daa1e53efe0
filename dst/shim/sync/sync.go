// Package sync is the simulated scheduler's synchronisation under the names of
// package sync.
package sync

import (
	real "sync"

	"verif/dst/sim"
)

type Locker = real.Locker
type Mutex = sim.Mutex
type RWMutexCore = sim.RWMutex
type WaitGroup = sim.WaitGroup
type Once = sim.Once
type Cond = sim.Cond

// RWMutex adds RLocker.
type RWMutex struct{ sim.RWMutex }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

func NewCond(l Locker) *Cond { return sim.NewCond(l) }

// Map is sync.Map.
type Map struct{ s sim.PMap }

func (m *Map) Load(k any) (any, bool)           { return m.s.Load(k) }
func (m *Map) Store(k, v any)                   { m.s.Swap(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { return m.s.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { return m.s.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { m.s.LoadAndDelete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { return m.s.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { return m.s.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { return m.s.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v any) bool)      { m.s.Range(f) }
func (m *Map) Clear()                           { m.s.Clear() }

// Pool is sync.Pool.
type Pool struct {
	New func() any
	s   sim.PoolState
}

func (p *Pool) Put(x any) { p.s.Put(x) }
func (p *Pool) Get() any {
	if x := p.s.Get(); x != nil {
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}
