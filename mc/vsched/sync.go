package vsched

import "unsafe"

// Mutex is a virtual sync.Mutex.
type Mutex struct {
	object
	locked bool
}

type mutexWaiter struct {
	m    *Mutex
	kind uint8
}

//go:norace
func (w *mutexWaiter) alts(*thread) int {
	if w.kind == kLock && w.m.locked {
		return 0
	}
	return 1
}

//go:norace
func (w *mutexWaiter) desc(t *thread, d *opDesc) { d.add(w.m.ident(), w.kind) }

// Lock locks the mutex.
//
//go:norace
func (m *Mutex) Lock() {
	if cur.active {
		point(&mutexWaiter{m, kLock})
	} else if m.locked {
		panic("VERIF-INTERNAL: the mutex is locked outside of an execution")
	}
	m.locked = true
	raceAcquire(unsafe.Pointer(m))
}

// TryLock tries to lock the mutex.
//
//go:norace
func (m *Mutex) TryLock() bool {
	if cur.active {
		point(&mutexWaiter{m, kStore})
	}
	if m.locked {
		return false
	}
	m.locked = true
	raceAcquire(unsafe.Pointer(m))
	return true
}

// Unlock unlocks the mutex.
//
//go:norace
func (m *Mutex) Unlock() {
	if cur.active {
		point(&mutexWaiter{m, kUnlock})
	}
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	raceRelease(unsafe.Pointer(m))
	m.locked = false
}

// RWMutex is a virtual sync.RWMutex.
type RWMutex struct {
	object
	writer  bool
	readers int
	r, w    byte // addresses for the race detector
}

type rwWaiter struct {
	m    *RWMutex
	kind uint8
}

//go:norace
func (w *rwWaiter) alts(t *thread) int {
	switch w.kind {
	case kLock:
		if w.m.writer || w.m.readers > 0 {
			return 0
		}
	case kRLock:
		if w.m.writer {
			return 0
		}
		// A recursive read lock blocks if there is a waiting writer.
		if t.holds(w.m) {
			for _, o := range cur.threads {
				if ow, ok := o.pend.(*rwWaiter); ok && o != t && !o.finished && ow.m == w.m && ow.kind == kLock {
					return 0
				}
			}
		}
	}
	return 1
}

//go:norace
func (t *thread) holds(m *RWMutex) bool {
	for _, p := range t.rheld {
		if p == unsafe.Pointer(m) {
			return true
		}
	}
	return false
}

//go:norace
func (w *rwWaiter) desc(t *thread, d *opDesc) { d.add(w.m.ident(), w.kind) }

// Lock locks the mutex for writing.
//
//go:norace
func (m *RWMutex) Lock() {
	if cur.active {
		point(&rwWaiter{m, kLock})
	} else if m.writer || m.readers > 0 {
		panic("VERIF-INTERNAL: the mutex is locked outside of an execution")
	}
	m.writer = true
	raceAcquire(unsafe.Pointer(&m.r))
	raceAcquire(unsafe.Pointer(&m.w))
}

// TryLock tries to lock the mutex for writing.
//
//go:norace
func (m *RWMutex) TryLock() bool {
	if cur.active {
		point(&rwWaiter{m, kStore})
	}
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	raceAcquire(unsafe.Pointer(&m.r))
	raceAcquire(unsafe.Pointer(&m.w))
	return true
}

// Unlock unlocks the mutex for writing.
//
//go:norace
func (m *RWMutex) Unlock() {
	if cur.active {
		point(&rwWaiter{m, kUnlock})
	}
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	raceRelease(unsafe.Pointer(&m.w))
	m.writer = false
}

// RLock locks the mutex for reading.
//
//go:norace
func (m *RWMutex) RLock() {
	if cur.active {
		point(&rwWaiter{m, kRLock})
		t := cur.cur
		for i := range t.rheld {
			if t.rheld[i] == nil {
				t.rheld[i] = unsafe.Pointer(m)
				break
			}
		}
	}
	m.readers++
	raceAcquire(unsafe.Pointer(&m.w))
}

// TryRLock tries to lock the mutex for reading.
//
//go:norace
func (m *RWMutex) TryRLock() bool {
	if cur.active {
		point(&rwWaiter{m, kStore})
	}
	if m.writer {
		return false
	}
	m.readers++
	raceAcquire(unsafe.Pointer(&m.w))
	return true
}

// RUnlock undoes a single RLock call.
//
//go:norace
func (m *RWMutex) RUnlock() {
	if cur.active {
		point(&rwWaiter{m, kRUnlock})
		t := cur.cur
		for i := range t.rheld {
			if t.rheld[i] == unsafe.Pointer(m) {
				t.rheld[i] = nil
				break
			}
		}
	}
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	raceRelease(unsafe.Pointer(&m.r))
	m.readers--
}

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Locker is a sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// WaitGroup is a virtual sync.WaitGroup.
type WaitGroup struct {
	object
	n int
}

type wgWaiter struct {
	g    *WaitGroup
	kind uint8
}

//go:norace
func (w *wgWaiter) alts(*thread) int {
	if w.kind == kWait && w.g.n > 0 {
		return 0
	}
	return 1
}

//go:norace
func (w *wgWaiter) desc(t *thread, d *opDesc) { d.add(w.g.ident(), w.kind) }

// Add adds delta to the counter.
//
//go:norace
func (g *WaitGroup) Add(delta int) {
	if cur.active {
		k := kAdd
		if delta < 0 {
			k = kDone
		}
		point(&wgWaiter{g, k})
	}
	if delta < 0 {
		raceRelease(unsafe.Pointer(g))
	}
	g.n += delta
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

// Done decrements the counter.
//
//go:norace
func (g *WaitGroup) Done() { g.Add(-1) }

// Wait waits for the counter to be zero.
//
//go:norace
func (g *WaitGroup) Wait() {
	if cur.active {
		point(&wgWaiter{g, kWait})
	} else if g.n > 0 {
		panic("VERIF-INTERNAL: waiting outside of an execution")
	}
	raceAcquire(unsafe.Pointer(g))
}

// Go calls f in a new thread.
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	Go(func() {
		defer g.Done()
		f()
	})
}

// Once is a virtual sync.Once.
type Once struct {
	object
	state uint8 // 0: not yet, 1: running, 2: done
}

type onceWaiter struct {
	o   *Once
	end bool
}

//go:norace
func (w *onceWaiter) alts(*thread) int {
	if !w.end && w.o.state == 1 {
		return 0
	}
	return 1
}

//go:norace
func (w *onceWaiter) desc(t *thread, d *opDesc) {
	k := kOnce
	if w.end {
		k = kOnceEnd
	} else if w.o.state == 2 {
		k = kOnceDone
	}
	d.add(w.o.ident(), k)
}

// Do calls f if it is the first call.
//
//go:norace
func (o *Once) Do(f func()) {
	if cur.active {
		point(&onceWaiter{o, false})
	}
	if o.state == 2 {
		raceAcquire(unsafe.Pointer(o))
		return
	}
	if o.state == 1 {
		panic("VERIF-INTERNAL: recursive Once outside of an execution")
	}
	o.state = 1
	defer o.end()
	f()
}

//go:norace
func (o *Once) end() {
	if cur.active && !cur.panicked {
		point(&onceWaiter{o, true})
	}
	raceRelease(unsafe.Pointer(o))
	o.state = 2
}

// Cond is a virtual sync.Cond.
type Cond struct {
	L  Locker
	mu Mutex
	q  []*Chan[struct{}]
}

// NewCond returns a new Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits for a signal.
func (c *Cond) Wait() {
	ch := MakeChan[struct{}](1)
	c.mu.Lock()
	c.q = append(c.q, ch)
	c.mu.Unlock()
	c.L.Unlock()
	ch.Recv()
	c.L.Lock()
}

// Signal wakes one waiter.
func (c *Cond) Signal() {
	c.mu.Lock()
	if len(c.q) > 0 {
		c.q[0].Close()
		c.q = c.q[1:]
	}
	c.mu.Unlock()
}

// Broadcast wakes all the waiters.
func (c *Cond) Broadcast() {
	c.mu.Lock()
	for _, ch := range c.q {
		ch.Close()
	}
	c.q = nil
	c.mu.Unlock()
}
