// Package conc holds the explorations of the schedules of the real code. The
// packages under test, and this one, are rewritten by cmd/instr, so that their
// goroutines, channels and locks belong to the controlled scheduler.
package conc

import (
	"fmt"
	"log"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/verifmc/lib"
	"github.com/nlpodyssey/spago/verifmc/vsched"
	"github.com/nlpodyssey/spago/verifmc/vsched/selftest"
)

// Registry maps the properties to their explorations.
var Registry = map[string]func(*lib.T){}

// Scratch is a directory which belongs to this process only.
var Scratch string

// Config is the name of the configuration which is being explored.
var Config string

// instrumented tells whether the operations are under control.
var instrumented bool

var (
	partial    []string
	maxThreads int
	maxSteps   int
	scenarios  int64
	redundant  int64
	bounded    int64
	cutShort   []string
	delayed    int64
	small      bool // at most a few executions before the number of preemptions is bounded
	delays     int  // only the schedules with so many delays are explored, if it is not 0
	families   bool // only the orders of operations of different goroutines of the scenarios are explored
)

type logWriter struct{}

// Write is called by log.Fatalf before the process ends.
func (logWriter) Write(b []byte) (int, error) {
	fmt.Fprintf(os.Stderr, "the code logs: %s\nschedule: %s\n", b, vsched.Schedule())
	return len(b), nil
}

// Setup prepares the process.
func Setup(t *lib.T) {
	log.SetOutput(logWriter{})
	out := vsched.Explore(vsched.Options{MaxExecs: 1}, func() error {
		var wg sync.WaitGroup
		wg.Add(1)
		go func() { wg.Done() }()
		wg.Wait()
		return nil
	})
	instrumented = out.MaxThreads == 2
	if !instrumented {
		t.Res.Notes["not-exhaustive"] = "the code could not be instrumented: the scenarios run freely"
	}
	if t.Shard == 0 && Config != "race" && instrumented && t.Only == "" {
		r := selftest.Run(t.Thorough())
		if r.Err != nil {
			fmt.Fprintf(os.Stderr, "VERIF-INTERNAL: self test of the explorer: %v\n", r.Err)
			os.Exit(3)
		}
		t.Res.Notes["explorer-selftest"] = fmt.Sprintf("%d programs: the %d executions of the reduced exploration reach the same outcomes as all of the %d interleavings", r.Programs, r.Execs, r.Naive)
	}
}

// Finish completes the notes.
func Finish(t *lib.T) {
	k := fmt.Sprintf("%s-shard%d", Config, t.Shard)
	t.Res.Notes["schedules-"+k] = fmt.Sprintf("%d scenarios, up to %d goroutines and %d operations; %d executions were cut as equivalent to explored ones", scenarios, maxThreads, maxSteps, redundant)
	if len(partial) > 0 {
		sort.Strings(partial)
		t.Res.Notes["not-exhaustive"] = "see the notes on partial scenarios"
		t.Res.Notes["partial-"+k] = fmt.Sprintf("beyond the limit of executions, so explored up to 1 preemption instead (%d schedules): %s", bounded, strings.Join(partial, ", "))
	}
	if delayed > 0 {
		t.Res.Notes["not-exhaustive"] = "see the notes on partial scenarios"
		t.Res.Notes["delays-"+k] = fmt.Sprintf("the scenarios with many goroutines are explored up to %d delay(s): %d schedules", lib.Pick(t, 1, 2), delayed)
	}
	if len(cutShort) > 0 {
		sort.Strings(cutShort)
		t.Res.Notes["cut-"+k] = fmt.Sprintf("not all the schedules up to the bound were explored within the time: %s", strings.Join(cutShort, ", "))
	}
}

// scenario explores all the schedules of the body. The body must create all of
// what it uses.
func scenario(t *lib.T, group, key string, body func() error) {
	if !t.Mine() {
		return
	}
	t.Run(group, key, true, func() error { return explore(t, group+"/"+key, body) })
}

func explore(t *lib.T, key string, body func() error) error {
	scenarios++
	guarded := func() error { return lib.Guard(body) }
	if !instrumented {
		n := lib.Pick(t, 60, 500)
		for i := 0; i < n; i++ {
			if i%16 == 0 {
				t.Crumb(key)
			}
			if err := guarded(); err != nil {
				return err
			}
			t.Res.Traces++
		}
		return nil
	}
	n := int64(0)
	o := vsched.Options{
		Families: families,
		MaxExecs: lib.Pick[int64](t, 6000, 400_000),
		Deadline: time.Now().Add(lib.Pick(t, 8*time.Second, 60*time.Second)),
		Crumb: func(int64) {
			if n++; n%256 == 0 {
				t.Crumb(key)
			}
		},
	}
	if delays > 0 {
		o.Delays = delays
		out := vsched.Explore(o, guarded)
		record(t, out)
		delayed += out.Execs
		if !out.Exhaustive && out.Err == nil {
			cutShort = append(cutShort, fmt.Sprintf("%s (%d)", key, out.Execs))
		}
		return failure(out)
	}
	if small {
		o.MaxExecs = lib.Pick[int64](t, 300, 4000)
		o.Deadline = time.Now().Add(lib.Pick(t, time.Second/2, 15*time.Second))
	}
	out := vsched.Explore(o, guarded)
	record(t, out)
	if out.Err == nil && !out.Exhaustive {
		partial = append(partial, fmt.Sprintf("%s (%d)", key, out.Execs))
		if !small {
			o.Deadline = time.Now().Add(lib.Pick(t, 8*time.Second, 60*time.Second))
		} else {
			o.Deadline = time.Now().Add(lib.Pick(t, 2*time.Second, 15*time.Second))
			o.MaxExecs *= 10
		}
		o.Bound = 1
		out = vsched.Explore(o, guarded)
		record(t, out)
		bounded += out.Execs
		if !out.Exhaustive && out.Err == nil {
			cutShort = append(cutShort, fmt.Sprintf("%s (%d)", key, out.Execs))
		}
	}
	return failure(out)
}

func failure(out vsched.Outcome) error {
	if out.Err != nil {
		return fmt.Errorf("%v\nschedule: %v\noperations: %s", out.Err, out.Schedule, out.Trace)
	}
	return nil
}

// wide explores only the schedules of the body with a bounded number of
// delays: there are too many goroutines for all of them.
func wide(t *lib.T, group, key string, body func() error) {
	delays = lib.Pick(t, 1, 2)
	defer func() { delays = 0 }()
	scenario(t, group, key, body)
}

func record(t *lib.T, out vsched.Outcome) {
	t.Res.States += out.States
	t.Res.Transitions += out.Transitions
	t.Res.Traces += out.Execs
	redundant += out.Redundant
	if out.MaxThreads > maxThreads {
		maxThreads = out.MaxThreads
	}
	if out.MaxSteps > maxSteps {
		maxSteps = out.MaxSteps
	}
}

// all waits for the functions, which run in goroutines.
func all(fs ...func()) {
	var wg sync.WaitGroup
	wg.Add(len(fs))
	for i := range fs {
		f := fs[i]
		go func() {
			defer wg.Done()
			f()
		}()
	}
	wg.Wait()
}

func vec(vs ...float64) mat.Matrix { return mat.NewDense[float64](mat.WithBacking(vs)) }

func gvec(vs ...float64) mat.Matrix {
	return mat.NewDense[float64](mat.WithBacking(vs), mat.WithGrad(true))
}

func data(x mat.Tensor) []float64 {
	if x == nil {
		return nil
	}
	return append([]float64(nil), x.Value().Data().F64()...)
}

func grad(x mat.Tensor) []float64 {
	if !x.HasGrad() {
		return nil
	}
	return append([]float64(nil), x.Grad().Data().F64()...)
}

func expect(what string, got, want []float64) error {
	if err := lib.CloseSlices(got, want, 1e-12, 1e-12); err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	return nil
}

func first(errs ...error) error {
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}

// limit is the maximum number of concurrent asynchronous evaluations.
func limit() int { return 2 * runtime.NumCPU() }
