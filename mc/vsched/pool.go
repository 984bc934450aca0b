package vsched

import (
	"unsafe"
)

type objWaiter struct {
	o    *object
	kind uint8
}

//go:norace
func (w *objWaiter) alts(*thread) int { return 1 }

//go:norace
func (w *objWaiter) desc(t *thread, d *opDesc) { d.add(w.o.ident(), w.kind) }

// The items are in linked lists, which are accessed without the functions of
// the runtime which tell the race detector (those of maps, and append).

// Pool is a virtual sync.Pool: it keeps what it is given, the last one first,
// and is emptied before each execution.
type Pool struct {
	object
	New  func() any
	last *pooled
}

type pooled struct {
	x    any
	sync byte
	next *pooled
}

//go:norace
func (p *Pool) enter() {
	if p.epoch != cur.epoch {
		p.last = nil
		p.ident()
	}
	if cur.active {
		point(&objWaiter{&p.object, kStore})
	}
}

// Get takes an item.
//
//go:norace
func (p *Pool) Get() any {
	p.enter()
	if it := p.last; it != nil {
		p.last = it.next
		raceAcquire(unsafe.Pointer(&it.sync))
		return it.x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put adds an item.
//
//go:norace
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.enter()
	it := &pooled{x: x, next: p.last}
	raceRelease(unsafe.Pointer(&it.sync))
	p.last = it
}

// Map is a virtual sync.Map. Range visits the keys in the order in which they
// have been stored.
type Map struct {
	object
	first *mapped
}

type mapped struct {
	k, v any
	sync byte
	next *mapped
}

//go:norace
func (m *Map) enter(kind uint8) {
	if cur.active {
		point(&objWaiter{&m.object, kind})
	}
}

//go:norace
func (m *Map) find(k any) **mapped {
	p := &m.first
	for *p != nil && (*p).k != k {
		p = &(*p).next
	}
	return p
}

//go:norace
func (m *Map) get(k any) (any, bool) {
	if e := *m.find(k); e != nil {
		raceAcquire(unsafe.Pointer(&e.sync))
		return e.v, true
	}
	return nil, false
}

//go:norace
func (m *Map) set(k, v any) {
	p := m.find(k)
	if *p == nil {
		*p = &mapped{k: k}
	}
	raceRelease(unsafe.Pointer(&(*p).sync))
	(*p).v = v
}

//go:norace
func (m *Map) del(k any) {
	if p := m.find(k); *p != nil {
		*p = (*p).next
	}
}

// Load is as for sync.Map.
//
//go:norace
func (m *Map) Load(k any) (any, bool) {
	m.enter(kLoad)
	return m.get(k)
}

// Store is as for sync.Map.
//
//go:norace
func (m *Map) Store(k, v any) {
	m.enter(kStore)
	m.set(k, v)
}

// LoadOrStore is as for sync.Map.
//
//go:norace
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.enter(kStore)
	if o, ok := m.get(k); ok {
		return o, true
	}
	m.set(k, v)
	return v, false
}

// LoadAndDelete is as for sync.Map.
//
//go:norace
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.enter(kStore)
	v, ok := m.get(k)
	m.del(k)
	return v, ok
}

// Delete is as for sync.Map.
//
//go:norace
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

// Swap is as for sync.Map.
//
//go:norace
func (m *Map) Swap(k, v any) (any, bool) {
	m.enter(kStore)
	o, ok := m.get(k)
	m.set(k, v)
	return o, ok
}

// CompareAndSwap is as for sync.Map.
//
//go:norace
func (m *Map) CompareAndSwap(k, old, v any) bool {
	m.enter(kStore)
	if o, ok := m.get(k); !ok || o != old {
		return false
	}
	m.set(k, v)
	return true
}

// CompareAndDelete is as for sync.Map.
//
//go:norace
func (m *Map) CompareAndDelete(k, old any) bool {
	m.enter(kStore)
	if o, ok := m.get(k); !ok || o != old {
		return false
	}
	m.del(k)
	return true
}

// Clear is as for sync.Map.
//
//go:norace
func (m *Map) Clear() {
	m.enter(kStore)
	m.first = nil
}

// Range is as for sync.Map.
func (m *Map) Range(f func(k, v any) bool) {
	m.enter(kLoad)
	for e := m.entry(nil); e != nil; e = m.entry(e) {
		m.enter(kLoad)
		if v, ok := m.get(e.k); ok && !f(e.k, v) {
			return
		}
	}
}

//go:norace
func (m *Map) entry(after *mapped) *mapped {
	if after == nil {
		return m.first
	}
	return after.next
}
