// Package vsched is a controlled scheduler. The code under test is rewritten
// so that each of its synchronisation operations (goroutine creation, channel,
// mutex, wait group, once, atomic and context operations) is a call to this
// package. Within an execution, only one goroutine runs at a time, and at each
// operation the scheduler decides which one is next. An explorer (explore.go)
// enumerates the decisions.
//
// Outside of an execution the operations act immediately.
//
// The functions of this package are invisible to the race detector, apart from
// the happens-before edges which the real operations would create, so that the
// detector sees the synchronisation of the program and not the one of the
// scheduler.
package vsched

import (
	"cmp"
	"math/bits"
	"os"
	"runtime"
	"runtime/debug"
	"slices"
	"strconv"
	"sync"
	"time"
	"unsafe"
)

const maxAcc = 4

// set is a set of threads.
type set [setWords]uint64

//go:norace
func (s *set) has(i int) bool { return s[i>>6]&(1<<uint(i&63)) != 0 }

//go:norace
func (s *set) add(i int) { s[i>>6] |= 1 << uint(i&63) }

//go:norace
func (s *set) del(i int) { s[i>>6] &^= 1 << uint(i&63) }

//go:norace
func (s set) or(o set) set {
	for i := range s {
		s[i] |= o[i]
	}
	return s
}

//go:norace
func (s set) and(o set) set {
	for i := range s {
		s[i] &= o[i]
	}
	return s
}

//go:norace
func (s set) minus(o set) set {
	for i := range s {
		s[i] &^= o[i]
	}
	return s
}

//go:norace
func (s set) empty() bool { return s == set{} }

// first returns the lowest member, or -1.
//
//go:norace
func (s set) first() int {
	for i, w := range s {
		if w != 0 {
			return i<<6 + bits.TrailingZeros64(w)
		}
	}
	return -1
}

func (s set) count() (n int) {
	for _, w := range s {
		n += bits.OnesCount64(w)
	}
	return n
}

// keepLast removes all but the greatest member.
func (s *set) keepLast() {
	for i := len(s) - 1; i >= 0; i-- {
		if w := s[i]; w != 0 {
			*s = set{}
			s[i] = 1 << uint(63-bits.LeadingZeros64(w))
			return
		}
	}
}

// The kinds of access to an object.
const (
	kNone uint8 = iota
	kLock
	kUnlock
	kRLock
	kRUnlock
	kAdd  // a positive Add of a wait group
	kDone // a negative Add
	kWait
	kOnce     // the first Do
	kOnceEnd  // the end of the first Do
	kOnceDone // a Do which finds it already done
	kSend
	kRecv
	kRecvClosed
	kClose
	kPoll // reads the state of a channel
	kSemSend
	kSemRecv
	kLoad
	kStore // any atomic operation which can write
)

var kindNames = [...]string{"-", "Lock", "Unlock", "RLock", "RUnlock", "Add", "Done", "Wait", "Once", "OnceEnd", "OnceDone", "Send", "Recv", "RecvClosed", "Close", "Poll", "SemSend", "SemRecv", "Load", "Store"}

type acc struct {
	obj  int32
	kind uint8
}

// opDesc describes an operation for the explorer.
type opDesc struct {
	n   uint8
	acc [maxAcc]acc
}

// object is embedded in every virtual synchronisation object.
type object struct {
	epoch uint64
	id    int32
}

//go:norace
func (o *object) ident() int32 {
	s := cur
	if o.epoch != s.epoch {
		o.epoch = s.epoch
		o.id = s.nobj
		s.nobj++
	}
	return o.id
}

// waiter is a pending operation.
type waiter interface {
	// alts returns how many ways there are for the operation to be executed now.
	alts(t *thread) int
	// desc describes the operation.
	desc(t *thread, d *opDesc)
}

type thread struct {
	id       int
	family   int // the child of the main thread it descends from
	wake     chan struct{}
	pend     waiter // nil: a local step, always enabled
	alt      int    // the way which has been chosen
	finished bool
	f        func()
	// a rendezvous completed by the partner
	completed bool
	caseIdx   int
	recvOK    bool
	partner   *thread
	rheld     [8]unsafe.Pointer // the read locks which are held
}

// step is a record of an executed transition.
type step struct {
	thread  int16
	partner int16 // another thread which takes part, or -1
	alt     int16
	nalts   int16
	enabled set
	sleep   set
	nth     int16
	op      opDesc
	pend    int32 // offset of the pending operations of the threads, in exec.pends
	free    bool  // the state is redundant (every enabled thread is asleep)
}

// exec is an execution.
type exec struct {
	active  bool
	epoch   uint64
	nobj    int32
	threads []*thread
	cur     *thread

	steps []step
	pends []opDesc

	// the decisions of the explorer
	prefix   []choice
	diverged bool

	// the outcome
	deadlock  bool
	tooLong   bool
	panicked  bool
	panicMsg  string
	panicking int
	endSync   byte
	over      chan struct{}
	sleepNow  set
	freeRun   bool
	semDep    bool // operations over semaphores are dependent

	addrs  [maxAddrs]uintptr
	addrID [maxAddrs]int32
	naddrs int
}

type choice struct {
	thread int16
	alt    int16
	done   set // the threads which have already been explored from this state
}

var cur = &exec{steps: make([]step, 0, maxSteps+8), pends: make([]opDesc, 0, maxPends), threads: make([]*thread, 0, maxThreads)}

// NumCPU is the virtual number of CPUs.
var NumCPU = numCPU()

func numCPU() int {
	if s := os.Getenv("VERIF_NUMCPU"); s != "" {
		if n, err := strconv.Atoi(s); err == nil && n > 0 {
			return n
		}
	}
	return runtime.NumCPU()
}

// Active reports whether there is an execution under the control of the
// scheduler.
//
//go:norace
func Active() bool { return cur.active }

// point is reached by a thread before each of its operations: the operation
// is executed by the caller when point returns, and it is then the only
// running thread. It returns the way which has been chosen.
//
//go:norace
func point(w waiter) int {
	s := cur
	t := s.cur
	t.pend = w
	t.completed = false
	s.schedule(t)
	t.pend = nil
	return t.alt
}

// schedule lets the next thread run, and returns when t is chosen again.
//
//go:norace
func (s *exec) schedule(t *thread) {
	raceDisable()
	next := s.pick()
	if next == nil {
		s.stop()
		if t.finished {
			raceEnable()
			return
		}
		// The execution cannot go on: this goroutine is abandoned.
		select {}
	}
	if next != t {
		s.cur = next
		next.wake <- struct{}{}
		if t.finished {
			raceEnable()
			return
		}
		<-t.wake
	}
	s.cur = t
	raceEnable()
}

//go:norace
func (s *exec) stop() {
	s.active = false
	s.over <- struct{}{}
}

//go:norace
func (t *thread) describe(d *opDesc) {
	d.n = 0
	if t.pend != nil && !t.completed {
		t.pend.desc(t, d)
	}
}

//go:norace
func (d *opDesc) add(obj int32, kind uint8) {
	if d.n < maxAcc {
		d.acc[d.n] = acc{obj, kind}
		d.n++
	} else {
		panic("VERIF-INTERNAL: too many accesses")
	}
}

// pick chooses the next thread.
//
//go:norace
func (s *exec) pick() *thread {
	var enabled set
	var nalts [maxThreads]int16
	unfinished := false
	for i, t := range s.threads {
		if t.finished {
			continue
		}
		unfinished = true
		n := 1
		if t.pend != nil && !t.completed {
			n = t.pend.alts(t)
		}
		nalts[i] = int16(n)
		if n > 0 {
			enabled.add(i)
		}
	}
	if !unfinished {
		return nil
	}
	if enabled.empty() {
		s.deadlock = true
		return nil
	}
	k := len(s.steps)
	if k >= maxSteps || len(s.pends)+maxThreads >= cap(s.pends) {
		s.tooLong = true
		return nil
	}
	s.steps = s.steps[:k+1]
	st := &s.steps[k]
	*st = step{enabled: enabled, nth: int16(len(s.threads)), pend: int32(len(s.pends)), partner: -1, sleep: s.sleepNow, free: s.freeRun}
	at := len(s.pends)
	s.pends = s.pends[:at+len(s.threads)]
	for i, t := range s.threads {
		d := &s.pends[at+i]
		d.n = 0
		if !t.finished {
			t.describe(d)
		}
	}

	var done set
	choose, alt := -1, 0
	if k < len(s.prefix) {
		c := s.prefix[k]
		choose, alt, done = int(c.thread), int(c.alt), c.done
		if !enabled.has(choose) || alt >= int(nalts[choose]) {
			s.diverged = true
			choose = -1
		}
	}
	if choose < 0 {
		alt, done = 0, set{}
		ok := enabled.minus(s.sleepNow)
		if ok.empty() {
			ok = enabled
			s.freeRun = true
			st.free = true
		}
		choose = -1
		// local steps first, then the current thread, then the first one
		for i := range s.threads {
			if ok.has(i) && s.pends[at+i].n == 0 {
				choose = i
				break
			}
		}
		if choose < 0 && s.cur != nil && ok.has(s.cur.id) {
			choose = s.cur.id
		}
		if choose < 0 {
			choose = ok.first()
		}
	}
	t := s.threads[choose]
	t.alt = alt
	st.thread = int16(choose)
	st.alt = int16(alt)
	st.nalts = nalts[choose]
	st.op = s.pends[at+choose]
	// the sleep set of the next state
	var next set
	asleep := s.sleepNow.or(done)
	asleep.del(choose)
	if !asleep.empty() {
		for i := range s.threads {
			if asleep.has(i) && !s.dependent(&s.pends[at+i], &st.op) {
				next.add(i)
			}
		}
	}
	s.sleepNow = next
	return t
}

// dependent reports whether two operations of different threads do not commute.
//
//go:norace
func (s *exec) dependent(a, b *opDesc) bool {
	for i := uint8(0); i < a.n; i++ {
		for j := uint8(0); j < b.n; j++ {
			if a.acc[i].obj == b.acc[j].obj && s.conflict(a.acc[i].kind, b.acc[j].kind) {
				return true
			}
		}
	}
	return false
}

//go:norace
func (s *exec) conflict(a, b uint8) bool {
	if a > b {
		a, b = b, a
	}
	switch {
	case a == kRLock && b == kRLock, a == kRUnlock && b == kRUnlock, a == kRLock && b == kRUnlock:
		return false
	case a == kDone && b == kDone, a == kAdd && b == kAdd, a == kWait && b == kWait:
		return false
	case a == kOnceDone && b == kOnceDone:
		return false
	case a == kRecvClosed && b == kRecvClosed, a == kRecvClosed && b == kPoll, a == kPoll && b == kPoll:
		return false
	case a == kLoad && b == kLoad:
		return false
	case (a == kSemSend || a == kSemRecv) && (b == kSemSend || b == kSemRecv):
		return s.semDep
	}
	return true
}

// coenabled reports whether two conflicting operations of different threads
// can be both enabled in some state.
func coenabled(a, b uint8) bool {
	if a > b {
		a, b = b, a
	}
	switch {
	case a == kLock && b == kUnlock, a == kUnlock && b == kUnlock, a == kUnlock && b == kRLock, a == kUnlock && b == kRUnlock, a == kLock && b == kRUnlock:
		return false
	case a == kDone && b == kWait:
		return false
	case a == kOnce && b == kOnceEnd, a == kOnceEnd && b == kOnceDone:
		return false
	case a == kRecvClosed && b == kClose:
		return false
	}
	return true
}

// Go starts a thread.
//
//go:norace
func Go(f func()) {
	s := cur
	if !s.active {
		go f()
		return
	}
	if len(s.threads) >= maxThreads {
		panic("VERIF-INTERNAL: too many threads")
	}
	t := &thread{id: len(s.threads), wake: make(chan struct{}, 1), f: f}
	t.family = t.id
	if s.cur.id != 0 {
		t.family = s.cur.family
	}
	s.threads = append(s.threads, t)
	go threadMain(s, t)
	// The new thread is at its local first step: whether it starts now or
	// later makes no difference until its first operation.
}

//go:norace
func threadMain(s *exec, t *thread) {
	raceDisable()
	<-t.wake
	raceEnable()
	s.runBody(t)
	raceRelease(unsafe.Pointer(&s.endSync))
	t.finished = true
	if s.panicked {
		raceDisable()
		s.stop()
		raceEnable()
		return
	}
	s.schedule(t)
}

//go:norace
func (s *exec) runBody(t *thread) {
	defer s.recoverBody(t)
	t.f()
}

//go:norace
func (s *exec) recoverBody(t *thread) {
	if r := recover(); r != nil {
		s.panicked = true
		s.panicking = t.id
		s.panicMsg = sprint(r) + "\n" + string(debug.Stack())
	}
}

// Parallel runs the functions in threads of their own, and waits for them.
func Parallel(fs ...func()) {
	if !Active() {
		var wg sync.WaitGroup
		for _, f := range fs {
			f := f
			wg.Add(1)
			go func() {
				defer wg.Done()
				f()
			}()
		}
		wg.Wait()
		return
	}
	var wg WaitGroup
	for _, f := range fs {
		f := f
		wg.Add(1)
		Go(func() {
			defer wg.Done()
			f()
		})
	}
	wg.Wait()
}

type addrWaiter struct {
	id   int32
	kind uint8
}

//go:norace
func (w *addrWaiter) alts(*thread) int { return 1 }

//go:norace
func (w *addrWaiter) desc(t *thread, d *opDesc) { d.add(w.id, w.kind) }

// addrIdent identifies a plain memory word which is accessed atomically.
//
//go:norace
func (s *exec) addrIdent(p uintptr) int32 {
	h := (p >> 2) % uintptr(len(s.addrs))
	for s.addrs[h] != 0 {
		if s.addrs[h] == p {
			return s.addrID[h]
		}
		h = (h + 1) % uintptr(len(s.addrs))
	}
	if s.naddrs >= len(s.addrs)-8 {
		panic("VERIF-INTERNAL: too many atomic addresses")
	}
	s.naddrs++
	s.addrs[h] = p
	s.addrID[h] = s.nobj
	s.nobj++
	return s.addrID[h]
}

// AtomicPoint is reached before each atomic operation; AtomicEnd after it.
//
//go:norace
func AtomicPoint(p unsafe.Pointer, write bool) {
	if cur.active {
		k := kLoad
		if write {
			k = kStore
		}
		point(&addrWaiter{cur.addrIdent(uintptr(p)), k})
	}
	raceAcquire(p)
	if write {
		raceWrite(p)
	} else {
		raceRead(p)
	}
}

// AtomicEnd is reached after each atomic operation.
//
//go:norace
func AtomicEnd(p unsafe.Pointer) { raceRelease(p) }

func sprint(r any) string {
	switch v := r.(type) {
	case string:
		return v
	case error:
		return v.Error()
	}
	return "panic"
}

// RuntimeNumCPU replaces runtime.NumCPU.
func RuntimeNumCPU() int { return NumCPU }

// RuntimeGOMAXPROCS replaces runtime.GOMAXPROCS.
func RuntimeGOMAXPROCS(int) int { return NumCPU }

// Gosched replaces runtime.Gosched, and Sleep time.Sleep: any thread can run
// at the next operation anyway.
func Gosched() {}

// Sleep replaces time.Sleep.
func Sleep(time.Duration) {}

// SortedKeys makes the order of the iterations over maps deterministic.
func SortedKeys[M ~map[K]V, K cmp.Ordered, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	slices.Sort(keys)
	return keys
}
