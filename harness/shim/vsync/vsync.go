// Package vsync stands in for sync when a schedule is replayed: one thread
// runs at a time, and the scheduler may switch before every operation.
package vsync

import (
	"sync"

	"vharness/shim"
)

type (
	Locker    = sync.Locker
	Map       = sync.Map
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
)

type Mutex struct{ locked bool }

func (m *Mutex) Lock() {
	shim.Yield()
	shim.Wait(func() bool { return !m.locked })
	m.locked = true
}

func (m *Mutex) Unlock() {
	shim.Yield()
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
}

type RWMutex struct {
	locked  bool
	readers int
}

func (m *RWMutex) Lock() {
	shim.Yield()
	shim.Wait(func() bool { return !m.locked && m.readers == 0 })
	m.locked = true
}

func (m *RWMutex) Unlock() {
	shim.Yield()
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
}

func (m *RWMutex) RLock() {
	shim.Yield()
	shim.Wait(func() bool { return !m.locked })
	m.readers++
}

func (m *RWMutex) RUnlock() {
	shim.Yield()
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
}

type Pool struct {
	items []any
	New   func() any
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	shim.Yield()
	p.items = append(p.items, x)
}

func (p *Pool) Get() any {
	shim.Yield()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New == nil {
		return nil
	}
	return p.New()
}

type Once struct{ done, busy bool }

func (o *Once) Do(f func()) {
	shim.Yield()
	shim.Wait(func() bool { return !o.busy })
	if !o.done {
		o.busy = true
		f()
		o.busy = false
		o.done = true
	}
}
