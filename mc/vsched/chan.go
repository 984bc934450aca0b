package vsched

import "unsafe"

// core is the part of a channel which does not depend on its type.
type core struct {
	object
	cap    int
	n      int
	head   int
	closed bool
	zero   bool   // elements without size: a semaphore, or a signal
	slots  []byte // addresses for the race detector
	sync   byte
}

// Chan is a virtual channel.
type Chan[T any] struct {
	core
	buf []T
}

// persistent are the semaphores which exist before the executions.
var persistent = make([]*core, 0, 1024)

// semSeen are the semaphores which have been made during the execution.
var semSeen = make([]*core, 0, 4096)

// MakeChan makes a channel.
//
//go:norace
func MakeChan[T any, I int | int8 | int16 | int32 | int64 | uint | uint8 | uint16 | uint32 | uint64 | uintptr](size I) *Chan[T] {
	n := int(size)
	if n < 0 {
		panic("makechan: size out of range")
	}
	var z T
	c := &Chan[T]{core: core{cap: n, zero: unsafe.Sizeof(z) == 0, slots: make([]byte, n+1)}, buf: make([]T, n)}
	if c.zero && n > 0 {
		// (append would grow the slices in the sight of the race detector)
		if l := len(semSeen); cur.active && l < cap(semSeen) {
			semSeen = semSeen[:l+1]
			semSeen[l] = &c.core
		} else if l := len(persistent); !cur.active && l < cap(persistent) {
			persistent = persistent[:l+1]
			persistent[l] = &c.core
		}
	}
	return c
}

// MakeChan0 makes an unbuffered channel.
func MakeChan0[T any]() *Chan[T] { return MakeChan[T](0) }

// CaseOp is a case of a select, or a single channel operation.
type CaseOp interface {
	ch() *core
	isSend() bool
	// fire executes the operation on the channel (the buffer, or a closed one).
	fire()
	// receive stores a value which comes from a sender.
	take(from CaseOp)
}

// SendOp is a send operation.
type SendOp[T any] struct {
	c *Chan[T]
	v T
}

// RecvOp is a receive operation, and its result.
type RecvOp[T any] struct {
	c  *Chan[T]
	V  T
	OK bool
}

//go:norace
func (o *SendOp[T]) ch() *core {
	if o.c == nil {
		return nil
	}
	return &o.c.core
}

//go:norace
func (o *SendOp[T]) isSend() bool { return true }

//go:norace
func (o *SendOp[T]) take(CaseOp) { panic("VERIF-INTERNAL: take") }

//go:norace
func (o *SendOp[T]) fire() {
	c := o.c
	if c.closed {
		panic("send on closed channel")
	}
	i := (c.head + c.n) % c.cap
	raceAcquire(unsafe.Pointer(&c.slots[i]))
	raceRelease(unsafe.Pointer(&c.slots[i]))
	c.buf[i] = o.v
	c.n++
}

//go:norace
func (o *RecvOp[T]) ch() *core {
	if o.c == nil {
		return nil
	}
	return &o.c.core
}

//go:norace
func (o *RecvOp[T]) isSend() bool { return false }

//go:norace
func (o *RecvOp[T]) take(from CaseOp) {
	o.V = from.(*SendOp[T]).v
	o.OK = true
}

//go:norace
func (o *RecvOp[T]) fire() {
	c := o.c
	var z T
	if c.n > 0 {
		i := c.head
		raceAcquire(unsafe.Pointer(&c.slots[i]))
		raceRelease(unsafe.Pointer(&c.slots[i]))
		o.V, o.OK = c.buf[i], true
		c.buf[i] = z
		c.head = (c.head + 1) % c.cap
		c.n--
		return
	}
	raceAcquire(unsafe.Pointer(&c.sync))
	o.V, o.OK = z, false
}

// SendCase prepares a send.
//
//go:norace
func (c *Chan[T]) SendCase(v T) *SendOp[T] { return &SendOp[T]{c, v} }

// RecvCase prepares a receive.
//
//go:norace
func (c *Chan[T]) RecvCase() *RecvOp[T] { return &RecvOp[T]{c: c} }

// selWaiter is a pending set of channel operations.
type selWaiter struct {
	cases []CaseOp
	def   bool
}

// way is one of the ways in which a set of channel operations can proceed.
type way struct {
	idx     int // -1: default
	partner *thread
	pidx    int
}

// nth returns the k-th way, or the number of ways if k is negative.
//
//go:norace
func (w *selWaiter) nth(t *thread, k int) (way, int) {
	n := 0
	sure := false
	for i, c := range w.cases {
		ch := c.ch()
		if ch == nil {
			continue
		}
		if c.isSend() {
			if ch.closed || ch.n < ch.cap {
				if n == k {
					return way{i, nil, 0}, n
				}
				n++
				sure = true
				continue
			}
		} else if ch.n > 0 || ch.closed {
			if n == k {
				return way{i, nil, 0}, n
			}
			n++
			sure = true
			continue
		}
		if ch.cap > 0 {
			continue
		}
		// A rendezvous: it is a step of the sender, or of a select with a default.
		if !c.isSend() && !w.def {
			continue
		}
		for _, o := range cur.threads {
			ow, ok := o.pend.(*selWaiter)
			if !ok || o == t || o.finished || o.completed {
				continue
			}
			if ow.def {
				continue
			}
			for j, oc := range ow.cases {
				if oc.ch() == ch && oc.isSend() != c.isSend() {
					if n == k {
						return way{i, o, j}, n
					}
					n++
				}
			}
		}
	}
	if w.def && !sure {
		if n == k {
			return way{-1, nil, 0}, n
		}
		n++
	}
	return way{}, n
}

//go:norace
func (w *selWaiter) alts(t *thread) int {
	_, n := w.nth(t, -1)
	return n
}

//go:norace
func (w *selWaiter) desc(t *thread, d *opDesc) {
	single := len(w.cases) == 1 && !w.def
	for _, c := range w.cases {
		ch := c.ch()
		if ch == nil {
			continue
		}
		k := kRecv
		switch {
		case ch.zero && ch.cap > 0 && single && !ch.closed && c.isSend():
			k = kSemSend
		case ch.zero && ch.cap > 0 && single && !ch.closed:
			k = kSemRecv
		case c.isSend():
			k = kSend
		case ch.closed && ch.n == 0:
			k = kRecvClosed
		}
		if k == kRecv && ch.zero && ch.cap == 0 && single && ch.n == 0 {
			// a signal: until now nobody has sent anything
			k = kRecvClosed
			for _, o := range cur.threads {
				if ow, ok := o.pend.(*selWaiter); ok && !o.finished {
					for _, oc := range ow.cases {
						if oc.ch() == ch && oc.isSend() {
							k = kRecv
						}
					}
				}
			}
		}
		if !single && (k == kRecvClosed || k == kSemSend || k == kSemRecv) {
			k = kRecv
		}
		d.add(ch.ident(), k)
	}
}

// Select executes one of the operations, and returns its index, or -1 if none
// of them is ready and there is a default.
//
//go:norace
func Select(def bool, cases ...CaseOp) int { return selectOp(&selWaiter{cases, def}) }

//go:norace
func selectOp(w *selWaiter) int {
	if !cur.active {
		wy, n := w.nth(nil, 0)
		if n == 0 && wy.partner == nil && !w.ready() {
			panic("VERIF-INTERNAL: blocked on a channel outside of an execution")
		}
		if wy.idx >= 0 {
			w.cases[wy.idx].fire()
		}
		return wy.idx
	}
	for _, c := range w.cases {
		if ch := c.ch(); ch != nil && ch.cap == 0 {
			raceRelease(unsafe.Pointer(&ch.slots[0]))
		}
	}
	t := cur.cur
	alt := point(w)
	if t.completed {
		t.completed = false
		raceAcquire(unsafe.Pointer(&w.cases[t.caseIdx].ch().sync))
		return t.caseIdx
	}
	wy, _ := w.nth(t, alt)
	if wy.idx < 0 {
		return -1
	}
	c := w.cases[wy.idx]
	if wy.partner == nil {
		c.fire()
		return wy.idx
	}
	o := wy.partner
	oc := o.pend.(*selWaiter).cases[wy.pidx]
	if c.isSend() {
		oc.take(c)
	} else {
		c.take(oc)
	}
	ch := c.ch()
	raceAcquire(unsafe.Pointer(&ch.slots[0]))
	raceRelease(unsafe.Pointer(&ch.sync))
	o.completed = true
	o.caseIdx = wy.pidx
	o.partner = t
	// the transition involves both threads
	cur.steps[len(cur.steps)-1].partner = int16(o.id)
	return wy.idx
}

//go:norace
func (w *selWaiter) ready() bool {
	for _, c := range w.cases {
		ch := c.ch()
		if ch == nil {
			continue
		}
		if c.isSend() && (ch.closed || ch.n < ch.cap) || !c.isSend() && (ch.n > 0 || ch.closed) {
			return true
		}
	}
	return w.def
}

// Send sends a value.
//
//go:norace
func (c *Chan[T]) Send(v T) {
	selectOp(&selWaiter{[]CaseOp{&SendOp[T]{c, v}}, false})
}

// Recv receives a value.
//
//go:norace
func (c *Chan[T]) Recv() T {
	v, _ := c.Recv2()
	return v
}

// Recv2 receives a value, and tells whether it comes from a send.
//
//go:norace
func (c *Chan[T]) Recv2() (T, bool) {
	r := &RecvOp[T]{c: c}
	selectOp(&selWaiter{[]CaseOp{r}, false})
	return r.V, r.OK
}

type closeWaiter struct{ c *core }

//go:norace
func (w *closeWaiter) alts(*thread) int { return 1 }

//go:norace
func (w *closeWaiter) desc(t *thread, d *opDesc) { d.add(w.c.ident(), kClose) }

// Close closes the channel.
//
//go:norace
func (c *Chan[T]) Close() {
	if c == nil {
		panic("close of nil channel")
	}
	if cur.active {
		point(&closeWaiter{&c.core})
	}
	if c.closed {
		panic("close of closed channel")
	}
	raceRelease(unsafe.Pointer(&c.sync))
	c.closed = true
}

type pollWaiter struct{ c *core }

//go:norace
func (w *pollWaiter) alts(*thread) int { return 1 }

//go:norace
func (w *pollWaiter) desc(t *thread, d *opDesc) { d.add(w.c.ident(), kPoll) }

// Len returns the number of elements of the channel.
//
//go:norace
func (c *Chan[T]) Len() int {
	if c == nil {
		return 0
	}
	if cur.active {
		point(&pollWaiter{&c.core})
	}
	return c.n
}

// Cap returns the capacity of the channel.
//
//go:norace
func (c *Chan[T]) Cap() int {
	if c == nil {
		return 0
	}
	return c.cap
}
