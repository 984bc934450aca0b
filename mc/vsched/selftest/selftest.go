// Package selftest checks the explorer of vsched on small programs: the
// reduced exploration must reach exactly the outcomes which the exploration
// of all interleavings reaches, and must find the known defects.
package selftest

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/nlpodyssey/spago/verifmc/vatomic"
	"github.com/nlpodyssey/spago/verifmc/vcontext"
	"github.com/nlpodyssey/spago/verifmc/vsched"
)

// Result of the self test.
type Result struct {
	Programs int
	Execs    int64 // reduced
	Naive    int64
	Err      error
}

type env struct {
	m   vsched.Mutex
	rw  vsched.RWMutex
	ch  *vsched.Chan[int]
	un  *vsched.Chan[int]
	sem *vsched.Chan[struct{}]
	on  vsched.Once
	x   int64
	y   int64
	log [4][]byte
	ord []byte // protected by m
}

type op struct {
	name string
	f    func(e *env, th int)
}

var ops = []op{
	{"lock", func(e *env, th int) { e.m.Lock(); e.ord = append(e.ord, byte('a'+th)); e.m.Unlock() }},
	{"rlock", func(e *env, th int) { e.rw.RLock(); e.log[th] = append(e.log[th], byte('0'+e.y)); e.rw.RUnlock() }},
	{"wlock", func(e *env, th int) { e.rw.Lock(); e.y++; e.rw.Unlock() }},
	{"send", func(e *env, th int) { e.ch.Send(th) }},
	{"recv", func(e *env, th int) { e.log[th] = append(e.log[th], byte('A'+e.ch.Recv())) }},
	{"usend", func(e *env, th int) { e.un.Send(th) }},
	{"urecv", func(e *env, th int) { e.log[th] = append(e.log[th], byte('A'+e.un.Recv())) }},
	{"sem", func(e *env, th int) {
		e.sem.Send(struct{}{})
		e.log[th] = append(e.log[th], byte('a'+th))
		e.sem.Recv()
	}},
	{"add", func(e *env, th int) { vatomic.AddInt64(&e.x, int64(th+1)) }},
	{"load", func(e *env, th int) { e.log[th] = append(e.log[th], byte('0'+vatomic.LoadInt64(&e.x))) }},
	{"try", func(e *env, th int) {
		r := e.ch.RecvCase()
		if vsched.Select(true, r) == 0 {
			e.log[th] = append(e.log[th], byte('A'+r.V))
		} else {
			e.log[th] = append(e.log[th], '-')
		}
	}},
	{"sel", func(e *env, th int) {
		r, q := e.ch.RecvCase(), e.un.RecvCase()
		switch vsched.Select(false, r, q) {
		case 0:
			e.log[th] = append(e.log[th], byte('A'+r.V))
		case 1:
			e.log[th] = append(e.log[th], byte('K'+q.V))
		}
	}},
	{"once", func(e *env, th int) { e.on.Do(func() { e.log[th] = append(e.log[th], byte('p'+th)) }) }},
}

// explore runs a program under a mode, and returns its outcomes.
func explore(prog [][]int, o vsched.Options) (string, vsched.Outcome) {
	set := map[string]bool{}
	out := vsched.Explore(o, func() error {
		e := &env{ch: vsched.MakeChan[int](1), un: vsched.MakeChan0[int](), sem: vsched.MakeChan[struct{}](1)}
		var fs []func()
		for th, p := range prog {
			th, p := th, p
			fs = append(fs, func() {
				for _, k := range p {
					ops[k].f(e, th)
				}
			})
		}
		vsched.Parallel(fs...)
		set[fmt.Sprintf("%s/%s/%d/%d/%d", e.log, e.ord, e.x, e.y, e.ch.Len())] = true
		return nil
	})
	var keys []string
	for k := range set {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	if out.Err != nil {
		return "error", out
	}
	return strings.Join(keys, " "), out
}

func compare(r *Result, prog [][]int) bool {
	a, ao := explore(prog, vsched.Options{})
	b, bo := explore(prog, vsched.Options{Naive: true})
	r.Programs++
	r.Execs += ao.Execs
	r.Naive += bo.Execs
	if a != b || !ao.Exhaustive && ao.Err == nil || ao.Diverged > 0 || bo.Diverged > 0 {
		var names []string
		for _, p := range prog {
			for _, k := range p {
				names = append(names, ops[k].name)
			}
			names = append(names, ";")
		}
		r.Err = fmt.Errorf("program %v: the reduced exploration reaches {%s} (%v), all the interleavings reach {%s} (%v)", names, a, ao.Err, b, bo.Err)
		return false
	}
	return true
}

// Run runs the self test.
func Run(thorough bool) Result {
	r := Result{}
	n := len(ops)
	// all the pairs of threads of one and two operations, and triples of threads of one
	for i := 0; i < n; i++ {
		for j := i; j < n; j++ {
			if !compare(&r, [][]int{{i}, {j}}) {
				return r
			}
			for k := j; k < n; k++ {
				if !compare(&r, [][]int{{i}, {j}, {k}}) {
					return r
				}
			}
			for k := 0; k < n; k++ {
				if !compare(&r, [][]int{{i, j}, {k}}) {
					return r
				}
				if !thorough {
					continue
				}
				for l := k; l < n; l++ {
					if !compare(&r, [][]int{{i, j}, {k, l}}) {
						return r
					}
				}
			}
		}
	}
	for _, p := range [][][]int{
		{{0, 0}, {0}, {0}}, {{3, 4}, {3, 4}}, {{8, 9}, {9, 8}}, {{1, 2}, {1}, {2}}, {{5}, {6}, {11, 3}}, {{7, 7}, {7}, {7}}, {{12, 8}, {12, 9}, {8}},
	} {
		if !compare(&r, p) {
			return r
		}
	}
	r.Err = known()
	return r
}

type program struct {
	name string
	bad  bool
	f    func() error
}

// known are programs with a known verdict.
func known() error {
	ps := []program{
		{"lost update", true, func() error {
			var m vsched.Mutex
			n := 0
			add := func() {
				m.Lock()
				v := n
				m.Unlock()
				m.Lock()
				n = v + 1
				m.Unlock()
			}
			vsched.Parallel(add, add)
			if n != 2 {
				return errors.New("lost")
			}
			return nil
		}},
		{"update", false, func() error {
			var m vsched.Mutex
			n := 0
			add := func() { m.Lock(); n++; m.Unlock() }
			vsched.Parallel(add, add, add)
			if n != 3 {
				return errors.New("lost")
			}
			return nil
		}},
		{"lock order", true, func() error {
			var a, b vsched.Mutex
			vsched.Parallel(func() { a.Lock(); b.Lock(); b.Unlock(); a.Unlock() }, func() { b.Lock(); a.Lock(); a.Unlock(); b.Unlock() })
			return nil
		}},
		{"leak", true, func() error {
			c := vsched.MakeChan0[int]()
			vsched.Go(func() { c.Send(1) })
			return nil
		}},
		{"done before add", true, func() error {
			var wg vsched.WaitGroup
			n := vatomic.Int64{}
			for i := 0; i < 2; i++ {
				vsched.Go(func() { wg.Add(1); n.Add(1); wg.Done() })
			}
			wg.Wait()
			if n.Load() != 2 {
				return errors.New("the wait ended before the threads")
			}
			return nil
		}},
		{"nested semaphore", true, func() error {
			sem := vsched.MakeChan[struct{}](2)
			f := func() {
				sem.Send(struct{}{})
				sem.Send(struct{}{})
				sem.Recv()
				sem.Recv()
			}
			vsched.Parallel(f, f)
			return nil
		}},
		{"recursive read lock", true, func() error {
			var m vsched.RWMutex
			vsched.Parallel(func() { m.RLock(); m.RLock(); m.RUnlock(); m.RUnlock() }, func() { m.Lock(); m.Unlock() })
			return nil
		}},
		{"double close", true, func() error {
			c := vsched.MakeChan0[int]()
			var m vsched.Mutex
			closed := false
			f := func() {
				m.Lock()
				k := closed
				m.Unlock()
				if !k {
					c.Close()
					m.Lock()
					closed = true
					m.Unlock()
				}
			}
			vsched.Parallel(f, f)
			return nil
		}},
		{"pipeline", false, func() error {
			c := vsched.MakeChan[int](1)
			d := vsched.MakeChan0[int]()
			vsched.Go(func() {
				for i := 0; i < 3; i++ {
					c.Send(i)
				}
				c.Close()
			})
			vsched.Go(func() {
				for {
					v, ok := c.Recv2()
					if !ok {
						break
					}
					d.Send(v * v)
				}
				d.Close()
			})
			s := 0
			for {
				v, ok := d.Recv2()
				if !ok {
					break
				}
				s += v
			}
			if s != 5 {
				return errors.New("sum")
			}
			return nil
		}},
		{"context", false, func() error {
			ctx, cancel := vcontext.WithCancel(vcontext.Background())
			done := vsched.MakeChan0[struct{}]()
			vsched.Go(func() { ctx.Done().Recv2(); done.Close() })
			cancel()
			done.Recv2()
			return nil
		}},
		{"leak without cancel", true, func() error {
			ctx, cancel := vcontext.WithCancel(vcontext.Background())
			_ = cancel
			vsched.Go(func() { ctx.Done().Recv2() })
			return nil
		}},
		{"check then act", true, func() error {
			var n vatomic.Int64
			f := func() {
				if n.Load() < 1 {
					n.Add(1)
				}
			}
			vsched.Parallel(f, f)
			if n.Load() != 1 {
				return errors.New("twice")
			}
			return nil
		}},
	}
	for _, p := range ps {
		for _, o := range []vsched.Options{{}, {Naive: true}, {Bound: 2}, {Delays: 3}} {
			if o.Naive {
				o.MaxExecs = 100000
			}
			out := vsched.Explore(o, p.f)
			if (out.Err != nil) != p.bad {
				return fmt.Errorf("program %q with %+v: %v after %d executions", p.name, o, out.Err, out.Execs)
			}
			if out.Err == nil && !out.Exhaustive && !o.Naive {
				return fmt.Errorf("program %q: not exhausted", p.name)
			}
			if p.bad {
				// the schedule must fail again
				again := vsched.Explore(vsched.Options{Replay: out.Schedule}, p.f)
				if again.Err == nil {
					return fmt.Errorf("program %q: the replay of %v does not fail", p.name, out.Schedule)
				}
			}
		}
	}
	return nil
}
