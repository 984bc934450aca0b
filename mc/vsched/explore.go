package vsched

import (
	"fmt"
	"strings"
	"time"
	"unsafe"
)

// Options of an exploration.
type Options struct {
	MaxExecs int64
	Deadline time.Time
	// Bound is the maximum number of preemptions, or 0 for no bound. With a
	// bound all the schedules within it are enumerated, without reduction.
	Bound int
	// Delays is the maximum number of times that another goroutine goes on
	// than the one which is at work (or, when it is blocked, than the first
	// one), or 0 for no bound. The other one is the first or the last of those
	// which can. All the schedules within the bound are enumerated.
	Delays int
	// Families is set if only the orders of the operations of different
	// families are to be explored: a family is a goroutine of the body with all
	// those which descend from it.
	Families bool
	// Naive disables the reduction.
	Naive bool
	// Crumb is called with the schedule before each execution, if not nil.
	Crumb func(execs int64)
	// Replay is a schedule to be executed, once.
	Replay []int
}

// Outcome of an exploration.
type Outcome struct {
	Execs       int64
	Redundant   int64
	Transitions int64
	States      int64
	MaxThreads  int
	MaxSteps    int
	Exhaustive  bool
	Diverged    int64
	Err         error
	Schedule    []int
	Trace       string
	SemDep      bool
}

type node struct {
	enabled   set
	backtrack set
	done      set
	sleep     set
	chosen    int16
	alt       int16
	nalts     int16
	free      bool
	preempts  int // before this step
	cost      int // of the current choice
	last      int16
	local     bool
	family    set // the threads which are not to be preferred to the chosen one
}

type clock [maxThreads]int32

type explorer struct {
	o       Options
	stack   []node
	out     Outcome
	clocks  []clock
	tc      [maxThreads]clock
	seen    map[int32][]int32
	v       []int
	semDep  bool
	restart bool
}

// Explore runs the body under the schedules. The body is the main thread of
// each execution; an error, a panic, a deadlock, a goroutine which does not
// end or an endless execution stop the exploration.
func Explore(o Options, body func() error) Outcome {
	x := &explorer{o: o}
	if o.MaxExecs == 0 {
		x.o.MaxExecs = 1 << 60
	}
	total := Outcome{}
	for {
		x.stack = x.stack[:0]
		x.out = Outcome{Exhaustive: true}
		x.restart = false
		x.loop(body)
		total.Execs += x.out.Execs
		total.Transitions += x.out.Transitions
		if x.restart && x.out.Err == nil {
			x.semDep = true
			continue
		}
		break
	}
	x.out.Execs, x.out.Transitions = total.Execs, total.Transitions
	x.out.SemDep = x.semDep
	return x.out
}

func (x *explorer) loop(body func() error) {
	for {
		if x.out.Execs >= x.o.MaxExecs || !x.o.Deadline.IsZero() && time.Now().After(x.o.Deadline) {
			x.out.Exhaustive = false
			return
		}
		if x.o.Crumb != nil {
			x.o.Crumb(x.out.Execs)
		}
		err := x.run(body)
		x.out.Execs++
		if err != nil {
			x.out.Err = err
			x.out.Schedule = schedule()
			x.out.Trace = trace()
			x.out.Exhaustive = false
			return
		}
		if x.o.Replay != nil {
			return
		}
		if !x.semDep && !x.bounded() && !x.o.Naive && !x.semaphoresCommute() {
			x.restart = true
			return
		}
		if x.out.Diverged > 100 || !x.next() {
			return
		}
	}
}

// run executes the body once, following the stack, and extends the stack.
func (x *explorer) run(body func() error) error {
	s := cur
	s.epoch++
	s.nobj = 1
	s.threads = s.threads[:0]
	s.steps = s.steps[:0]
	s.pends = s.pends[:0]
	semSeen = semSeen[:0]
	s.deadlock, s.tooLong, s.panicked, s.diverged, s.freeRun = false, false, false, false, false
	s.panicMsg = ""
	s.over = make(chan struct{}, 1)
	s.semDep = x.semDep || x.bounded() || x.o.Naive
	s.addrs = [maxAddrs]uintptr{}
	s.naddrs = 0
	s.sleepNow = set{}
	s.prefix = s.prefix[:0]
	s.cur = nil
	for _, n := range x.stack {
		c := choice{n.chosen, n.alt, n.done}
		if x.bounded() {
			c.done = set{} // an equivalent execution could be beyond the bound
		}
		s.prefix = append(s.prefix, c)
	}
	for _, t := range x.o.Replay {
		s.prefix = append(s.prefix, choice{thread: int16(t & 0xffff), alt: int16(t >> 16)})
	}
	before := make([]int, len(persistent))
	for i, c := range persistent {
		before[i] = c.n
	}

	var bodyErr error
	t := &thread{id: 0, wake: make(chan struct{}, 1), f: func() { bodyErr = body() }}
	s.threads = append(s.threads, t)
	s.active = true
	go threadMain(s, t)
	start(s)
	<-s.over
	s.active = false
	raceAcquire(unsafe.Pointer(&s.endSync))

	x.out.Transitions += int64(len(s.steps))
	if n := len(s.threads); n > x.out.MaxThreads {
		x.out.MaxThreads = n
	}
	if n := len(s.steps); n > x.out.MaxSteps {
		x.out.MaxSteps = n
	}
	if s.diverged {
		x.out.Diverged++
		x.out.Exhaustive = false
	}
	switch {
	case s.panicked:
		return fmt.Errorf("panic in goroutine %d: %s", s.panicking, s.panicMsg)
	case s.deadlock:
		var b strings.Builder
		for _, t := range s.threads {
			if !t.finished {
				var d opDesc
				t.describe(&d)
				fmt.Fprintf(&b, " goroutine %d waits at %s;", t.id, d.String())
			}
		}
		if t.finished {
			return first2(bodyErr, fmt.Errorf("goroutines are blocked forever:%s", b.String()))
		}
		return fmt.Errorf("deadlock:%s", b.String())
	case s.tooLong:
		return fmt.Errorf("the execution does not end within %d steps", maxSteps)
	case bodyErr != nil:
		return bodyErr
	}
	for i, c := range persistent {
		if c.n != before[i] {
			return fmt.Errorf("a semaphore of capacity %d had %d taken slots before the execution, and has %d after it", c.cap, before[i], c.n)
		}
	}

	// The replayed steps: the alternatives of a thread which had not been
	// executed yet, and the check that the execution is the same.
	for k := range x.stack {
		n := &x.stack[k]
		if k >= len(s.steps) || s.steps[k].thread != n.chosen || s.steps[k].enabled != n.enabled {
			if !s.diverged {
				x.out.Diverged++
				x.out.Exhaustive = false
			}
			x.stack = x.stack[:k]
			break
		}
		n.nalts = s.steps[k].nalts
	}
	// Extend the stack with what has been executed.
	for k := len(x.stack); k < len(s.steps); k++ {
		st := &s.steps[k]
		n := node{enabled: st.enabled, chosen: st.thread, alt: st.alt, nalts: st.nalts, sleep: st.sleep, free: st.free, last: -1, local: st.op.n == 0}
		n.backtrack.add(int(st.thread))
		if k > 0 {
			p := &x.stack[k-1]
			n.last = p.chosen
			n.preempts = p.preempts + p.cost
		}
		if x.o.Naive && !n.local {
			n.backtrack = n.enabled
		}
		if !st.free {
			x.out.States++
		}
		x.stack = append(x.stack, n)
	}
	if s.freeRun {
		x.out.Redundant++
	}
	if !x.bounded() && !x.o.Naive {
		x.races()
	}
	if x.o.Bound > 0 && x.o.Families {
		x.shared()
	}
	return nil
}

// bounded reports whether the schedules within a bound are enumerated.
func (x *explorer) bounded() bool { return x.o.Bound > 0 || x.o.Delays > 0 }

//go:norace
func start(s *exec) {
	raceDisable()
	t := s.pick()
	s.cur = t
	t.wake <- struct{}{}
	raceEnable()
}

func first2(a, b error) error {
	if a != nil {
		return a
	}
	return b
}

// shared marks the steps of the last execution where there is no need of a
// preemption, because no other family uses their objects.
func (x *explorer) shared() {
	s := cur
	users := map[int32]int{} // the only family, or -1
	for j := range s.steps {
		st := &s.steps[j]
		f := s.threads[st.thread].family
		for a := uint8(0); a < st.op.n; a++ {
			o := st.op.acc[a].obj
			if g, ok := users[o]; f != 0 && (!ok || g == f) {
				users[o] = f
			} else if f != 0 {
				users[o] = -1
			}
		}
	}
	for j := range x.stack {
		n, st := &x.stack[j], &s.steps[j]
		some := false
		for a := uint8(0); a < st.op.n; a++ {
			some = some || users[st.op.acc[a].obj] == -1
		}
		n.local = !some
		n.family = set{}
		for i, t := range s.threads {
			if t.family == s.threads[st.thread].family {
				n.family.add(i)
			}
		}
	}
}

// next prepares the next execution; it reports whether there is one.
func (x *explorer) next() bool {
	for len(x.stack) > 0 {
		n := &x.stack[len(x.stack)-1]
		if n.free {
			x.stack = x.stack[:len(x.stack)-1]
			continue
		}
		if n.alt+1 < n.nalts {
			n.alt++
			return true
		}
		n.done.add(int(n.chosen))
		var todo set
		if x.o.Delays > 0 {
			if !n.local && n.preempts < x.o.Delays && n.done.count() < 3 {
				todo = n.enabled.minus(n.done)
				if n.done.count() == 2 {
					todo.keepLast()
				}
			}
		} else if x.o.Bound > 0 {
			if !n.local {
				todo = n.enabled.minus(n.done).minus(n.family)
				if n.last >= 0 && n.enabled.has(int(n.last)) && n.preempts+1 > x.o.Bound {
					todo = set{}
				}
			}
		} else if x.o.Naive {
			todo = n.backtrack.minus(n.done)
		} else {
			todo = n.backtrack.minus(n.done).minus(n.sleep)
		}
		if i := todo.first(); i >= 0 {
			n.chosen = int16(i)
			n.alt = 0
			n.nalts = 1 // known after the execution
			n.cost = 0
			if n.last >= 0 && n.last != n.chosen && n.enabled.has(int(n.last)) || x.o.Delays > 0 {
				n.cost = 1
			}
			return true
		}
		x.stack = x.stack[:len(x.stack)-1]
	}
	return false
}

// races finds the pairs of operations which could be executed in the other
// order, and adds the backtracking points (source sets).
func (x *explorer) races() {
	s := cur
	n := len(s.steps)
	if cap(x.clocks) < n {
		x.clocks = make([]clock, n, 2*n)
	}
	x.clocks = x.clocks[:n]
	x.tc = [maxThreads]clock{}
	x.seen = map[int32][]int32{} // the steps on each object
	nth := 1
	for j := 0; j < n; j++ {
		st := &s.steps[j]
		// threads which have been created by the previous step
		for ; nth < int(st.nth); nth++ {
			if j > 0 {
				x.tc[nth] = x.tc[s.steps[j-1].thread]
			}
		}
		// Operations which are blocked since they became pending, or because of
		// the previous step.
		for q := 0; q < int(st.nth); q++ {
			op := &s.pends[int(st.pend)+q]
			if op.n == 0 || st.enabled.has(q) {
				continue
			}
			if j > 0 {
				pr := &s.steps[j-1]
				if q < int(pr.nth) && !pr.enabled.has(q) && q != int(pr.partner) {
					continue // it was blocked before
				}
			}
			x.scan(op, j, q, -1, nil)
		}
		// The partner of a rendezvous could do something else.
		if st.partner >= 0 && st.enabled.has(int(st.partner)) && !x.stack[j].free && !x.kin(int(st.partner), int(st.thread)) {
			x.stack[j].backtrack.add(int(st.partner))
		}
		p := int(st.thread)
		c := x.tc[p]
		if st.partner >= 0 {
			join(&c, &x.tc[st.partner])
		}
		for a := uint8(0); a < st.op.n; a++ {
			o := st.op.acc[a]
			list := x.seen[o.obj]
			for k := len(list) - 1; k >= 0; k-- {
				i := list[k]
				si := &s.steps[i]
				if c[si.thread] <= i && s.conflicts(&si.op, o) {
					join(&c, &x.clocks[i])
				}
			}
		}
		c[p] = int32(j + 1)
		if st.partner >= 0 {
			c[st.partner] = int32(j + 1) // the step belongs to the partner too
		}
		x.clocks[j] = c
		x.scan(&st.op, j, p, int(st.partner), &c)
		for a := uint8(0); a < st.op.n; a++ {
			o := st.op.acc[a].obj
			x.seen[o] = append(x.seen[o], int32(j))
		}
		x.tc[p] = c
		if st.partner >= 0 {
			x.tc[st.partner] = c
		}
	}
}

// scan finds the steps before j which race with an operation of the thread p.
// The clock of the operation is nil if it has not been executed.
func (x *explorer) scan(op *opDesc, j, p, partner int, full *clock) {
	s := cur
	c := x.tc[p]
	if partner >= 0 {
		join(&c, &x.tc[partner])
	}
	for a := uint8(0); a < op.n; a++ {
		o := op.acc[a]
		list := x.seen[o.obj]
		for k := len(list) - 1; k >= 0; k-- {
			i := list[k]
			si := &s.steps[i]
			if c[si.thread] > i || x.kin(int(si.thread), p) || !s.raced(&si.op, o) {
				continue
			}
			x.backtrack(int(i), j, p, op, full)
			join(&c, &x.clocks[i])
		}
	}
}

// backtrack explores the reversal of the race between the step i and the
// operation of the thread p at j.
func (x *explorer) backtrack(i, j, p int, op *opDesc, full *clock) {
	n := &x.stack[i]
	if n.free {
		return
	}
	s := cur
	si := &s.steps[i]
	var initials, seen set
	x.v = x.v[:0]
	for k := i + 1; k < j; k++ {
		if x.clocks[k][si.thread] > int32(i) {
			continue // after i
		}
		t := s.steps[k].thread
		first := true
		for _, m := range x.v {
			if x.clocks[k][s.steps[m].thread] > int32(m) {
				first = false
				break
			}
		}
		if first && !seen.has(int(t)) {
			initials.add(int(t))
		}
		seen.add(int(t))
		x.v = append(x.v, k)
	}
	if !seen.has(p) {
		first := true
		for _, m := range x.v {
			sm := &s.steps[m]
			if full != nil && full[sm.thread] > int32(m) || full == nil && (x.tc[p][sm.thread] > int32(m) || s.dependent(&sm.op, op)) {
				first = false
				break
			}
		}
		if first {
			initials.add(p)
		}
	}
	if !initials.and(n.backtrack.or(n.sleep)).empty() {
		return
	}
	initials = initials.and(n.enabled)
	switch {
	case initials.empty():
		n.backtrack = n.backtrack.or(n.enabled)
	case initials.has(p):
		n.backtrack.add(p)
	default:
		n.backtrack.add(initials.first())
	}
}

// kin reports whether the order of the operations of two threads is not to be
// explored.
func (x *explorer) kin(p, q int) bool {
	return x.o.Families && cur.threads[p].family == cur.threads[q].family
}

// conflicts reports whether an access conflicts with an operation.
func (s *exec) conflicts(op *opDesc, o acc) bool {
	for b := uint8(0); b < op.n; b++ {
		if op.acc[b].obj == o.obj && s.conflict(op.acc[b].kind, o.kind) {
			return true
		}
	}
	return false
}

// raced reports whether an access conflicts with an operation, and both can be
// enabled in the same state.
func (s *exec) raced(op *opDesc, o acc) bool {
	for b := uint8(0); b < op.n; b++ {
		if op.acc[b].obj == o.obj && s.conflict(op.acc[b].kind, o.kind) && coenabled(op.acc[b].kind, o.kind) {
			return true
		}
	}
	return false
}

func join(a, b *clock) {
	for i := range a {
		if b[i] > a[i] {
			a[i] = b[i]
		}
	}
}

// semaphoresCommute tells whether no schedule which respects the
// happens-before relation of the execution can make the operations over its
// semaphores block.
func (x *explorer) semaphoresCommute() bool {
	s := cur
	sends := map[int32][]int{}
	total := map[int32]int{}
	for j := range s.steps {
		st := &s.steps[j]
		for a := uint8(0); a < st.op.n; a++ {
			o := st.op.acc[a]
			switch o.kind {
			case kSemSend:
				sends[o.obj] = append(sends[o.obj], j)
				total[o.obj]++
			case kSemRecv:
				l := sends[o.obj]
				ok := false
				for k := len(l) - 1; k >= 0; k-- {
					i := l[k]
					if x.clocks[j][s.steps[i].thread] > int32(i) {
						sends[o.obj] = append(l[:k:k], l[k+1:]...)
						ok = true
						break
					}
				}
				if !ok {
					return false
				}
			}
		}
	}
	if len(total) == 0 {
		return true
	}
	caps := semCaps()
	for id, n := range total {
		if c, ok := caps[id]; !ok || n > c {
			return false
		}
	}
	return true
}

// semaphore capacities by object, in this execution
func semCaps() map[int32]int {
	out := map[int32]int{}
	for _, l := range [][]*core{semSeen, persistent} {
		for _, c := range l {
			if c.epoch == cur.epoch {
				out[c.id] = c.cap
			}
		}
	}
	return out
}

func (d *opDesc) String() string {
	if d.n == 0 {
		return "start"
	}
	var p []string
	for i := uint8(0); i < d.n; i++ {
		p = append(p, fmt.Sprintf("%s(%d)", kindNames[d.acc[i].kind], d.acc[i].obj))
	}
	return strings.Join(p, "+")
}

// schedule returns the schedule of the last execution.
func schedule() []int {
	var out []int
	for _, st := range cur.steps {
		out = append(out, int(st.thread)|int(st.alt)<<16)
	}
	return out
}

func trace() string {
	var b strings.Builder
	for i, st := range cur.steps {
		fmt.Fprintf(&b, "%d:g%d.%s ", i, st.thread, st.op.String())
	}
	return b.String()
}

// Schedule describes the execution which is going on, for fatal errors.
func Schedule() string { return fmt.Sprint(schedule()) }
