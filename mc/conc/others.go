package conc

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/rand"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/birnn"
	"github.com/nlpodyssey/spago/nn/embedding"
	"github.com/nlpodyssey/spago/nn/recurrent/srn"
	"github.com/nlpodyssey/spago/optimizers"
	"github.com/nlpodyssey/spago/optimizers/gradclipper"
	"github.com/nlpodyssey/spago/optimizers/sgd"
	"github.com/nlpodyssey/spago/verifmc/checks"
	"github.com/nlpodyssey/spago/verifmc/lib"
)

func init() {
	Registry["O02"] = o02
	Registry["N01"] = n01
	Registry["N02"] = n02
	Registry["N05"] = n05
	Registry["R01"] = r01
}

// strategy counts what is optimized.
type strategy struct {
	calls   [256]atomic.Int64
	index   map[*nn.Param]int
	fail    func(i int) bool
	running atomic.Int64
	most    atomic.Int64
}

var errStrategy = errors.New("strategy")

func (s *strategy) OptimizeParams(p *nn.Param) error {
	n := s.running.Add(1)
	for {
		m := s.most.Load()
		if n <= m || s.most.CompareAndSwap(m, n) {
			break
		}
	}
	defer s.running.Add(-1)
	i := s.index[p]
	s.calls[i].Add(1)
	if s.fail(i) {
		return errStrategy
	}
	p.SubInPlace(p.Grad().(mat.Matrix))
	p.ZeroGrad()
	return nil
}

// stream sends the parameters; the goroutine ends when the context is done.
func stream(ps []*nn.Param) nn.ParamChannelFunc { return nn.StreamParams(ps) }

func o02(t *lib.T) {
	t.Rule("every schedule (up to commutation) of Optimize over 0-3 parameters: every subset of them with gradients, every subset of failing ones, parameters given more than once, streams of parameters and models; steps of every strategy which updates parameters of the same and of other dimensions, compared with the updates one after the other; every parameter with gradients is updated exactly once before Optimize returns, an error of the strategy is always reported, nothing is left running, and the updates in progress at once never exceed the limit")
	runOf := func(n int, withGrad, fail func(i int) bool, dup bool) func() error {
		return func() error {
			var ps []*nn.Param
			s := &strategy{index: map[*nn.Param]int{}, fail: fail}
			for i := 0; i < n; i++ {
				p := nn.NewParam(vec(float64(10*i), 1))
				if withGrad(i) {
					p.AccGrad(vec(1, float64(i)))
				}
				s.index[p] = i
				ps = append(ps, p)
			}
			list := ps
			if dup {
				list = append(append([]*nn.Param(nil), ps...), ps[0])
			}
			err := optimizers.New(stream(list), s).Optimize()
			// everything has been done when Optimize returns
			if r := s.running.Load(); r != 0 {
				return fmt.Errorf("%d updates are still running", r)
			}
			if m := s.most.Load(); m > int64(limit()) {
				return fmt.Errorf("%d updates at once, the limit is %d", m, limit())
			}
			failing := false
			for i := range ps {
				failing = failing || withGrad(i) && fail(i)
			}
			if (err != nil) != failing {
				return fmt.Errorf("Optimize returned %v", err)
			}
			if err != nil && !errors.Is(err, errStrategy) {
				return fmt.Errorf("Optimize returned another error: %v", err)
			}
			for i, p := range ps {
				c := s.calls[i].Load()
				has := withGrad(i)
				switch {
				case !has && c != 0:
					return fmt.Errorf("parameter %d has no gradients, and has been optimized", i)
				case c > 1:
					return fmt.Errorf("parameter %d has been optimized %d times", i, c)
				case !failing && has && c != 1:
					return fmt.Errorf("parameter %d has not been optimized", i)
				}
				want := []float64{float64(10 * i), 1}
				if c == 1 && !fail(i) {
					want[0]--
					want[1] -= float64(i)
				}
				if e := expect(fmt.Sprintf("parameter %d", i), data(p), want); e != nil {
					return e
				}
			}
			return nil
		}
	}
	bits := func(n int) func(i int) bool { return func(i int) bool { return n>>uint(i)&1 == 1 } }
	run := func(n int, withGrad, fail int, dup bool) func() error {
		return runOf(n, bits(withGrad), bits(fail), dup)
	}
	if Config == "big" {
		for _, n := range lib.Pick(t, []int{5, 18, 40, 130}, []int{5, 9, 18, 40, 70, 130, 250}) {
			n := n
			sets := []struct {
				name string
				f    func(i int) bool
			}{
				{"none", func(i int) bool { return false }},
				{"first", func(i int) bool { return i == 0 }},
				{"last", func(i int) bool { return i == n-1 }},
				{"odd", func(i int) bool { return i%2 == 1 }},
				{"later", func(i int) bool { return i > n/2 }},
				{"all", func(i int) bool { return true }},
			}
			for _, grad := range sets {
				for _, fail := range sets {
					if fail.name == "none" || grad.name == "all" || grad.name == fail.name {
						wide(t, "many", fmt.Sprintf("%d/grad=%s/fail=%s", n, grad.name, fail.name), runOf(n, grad.f, fail.f, n == 18))
					}
				}
			}
		}
		return
	}
	for n := 0; n <= 3; n++ {
		for grad := 0; grad < 1<<uint(n); grad++ {
			for fail := 0; fail < 1<<uint(n); fail++ {
				if fail&^grad != 0 {
					continue
				}
				if n == 3 && !t.Thorough() && grad != 7 && grad != 5 {
					continue
				}
				scenario(t, "optimize", fmt.Sprintf("%d/grad=%b/fail=%b", n, grad, fail), run(n, grad, fail, false))
			}
		}
	}
	for n := 1; n <= 2; n++ {
		scenario(t, "shared", fmt.Sprintf("%d", n), run(n, 1<<uint(n)-1, 0, true))
		scenario(t, "shared", fmt.Sprintf("%d/fail", n), run(n, 1<<uint(n)-1, 1, true))
	}
	// the strategies, compared with the updates one after the other
	for n := 1; n <= 2; n++ {
		for _, o := range checks.Optimizations(n) {
			n, o := n, o
			scenario(t, "strategies", o.Name, func() error {
				ps, s, begin := o.Make()
				qs, one, beginOne := o.Make()
				for step := 0; step < lib.Pick(t, 3-n, 4-n); step++ {
					begin(step)
					if err := optimizers.New(stream(ps), s).Optimize(); err != nil {
						return err
					}
					beginOne(step)
					for i, q := range qs {
						if err := one.OptimizeParams(q); err != nil {
							return err
						}
						q.ZeroGrad()
						if ps[i].HasGrad() {
							return fmt.Errorf("step %d: the gradients of parameter %d have not been zeroed", step, i)
						}
						if err := expect(fmt.Sprintf("step %d: parameter %d", step, i), data(ps[i]), data(q)); err != nil {
							return err
						}
					}
				}
				return nil
			})
		}
	}
	// a whole training step, with a real strategy and clipping
	scenario(t, "step", "sgd", func() error {
		w, b := nn.NewParam(vec(2, 4)), nn.NewParam(vec(1, 1))
		for i := 0; i < 2; i++ {
			y := ag.Add(ag.Prod(w, vec(1, 2)), b)
			y.AccGrad(vec(4, 4))
			if err := ag.Backward(y); err != nil {
				return err
			}
			ps := stream([]*nn.Param{w, b})
			(&gradclipper.ValueClipper{Value: 6}).ClipGrads(ps)
			if err := optimizers.New(ps, sgd.New[float64](sgd.Config{LR: 0.5})).Optimize(); err != nil {
				return err
			}
			if w.HasGrad() || b.HasGrad() {
				return errors.New("the gradients have not been zeroed")
			}
		}
		return first(expect("w", data(w), []float64{-2, -2}), expect("b", data(b), []float64{-3, -3}))
	})
}

// model is a tree of models.
type model struct {
	nn.Module
	A, B *nn.Param
	Sub  *model
}

func n01(t *lib.T) {
	t.Rule("every schedule of the streams of parameters (of a model, and of a list), for every number of parameters which are received before the consumer cancels the context: the received ones are the first of the traversal, the channel is closed after the last one, and nothing is left running")
	build := func(depth int) (*model, []*nn.Param) {
		var all []*nn.Param
		var rec func(d int) *model
		rec = func(d int) *model {
			if d == 0 {
				return nil
			}
			m := &model{A: nn.NewParam(vec(1)), B: nn.NewParam(vec(2))}
			m.Sub = rec(d - 1)
			return m
		}
		m := rec(depth)
		nn.ForEachParam(m, func(p *nn.Param) { all = append(all, p) })
		return m, all
	}
	for depth := 1; depth <= lib.Pick(t, 2, 3); depth++ {
		for k := -1; k <= 2*depth; k++ {
			for _, list := range []bool{false, true} {
				depth, k, list := depth, k, list
				scenario(t, "stream", fmt.Sprintf("depth=%d/take=%d/list=%v", depth, k, list), func() error {
					m, want := build(depth)
					if len(want) != 2*depth {
						return fmt.Errorf("%d parameters", len(want))
					}
					f := nn.Parameters(m)
					if list {
						f = nn.StreamParams(want)
					}
					ctx, cancel := context.WithCancel(context.Background())
					defer cancel()
					ch := f(ctx)
					n := 0
					if k < 0 { // to the end
						for p := range ch {
							if n >= len(want) || p != want[n] {
								return fmt.Errorf("parameter %d is not the one of the traversal", n)
							}
							n++
						}
						if n != len(want) {
							return fmt.Errorf("%d parameters, expected %d", n, len(want))
						}
						return nil
					}
					for n < k {
						p, ok := <-ch
						if !ok || p != want[n] {
							return fmt.Errorf("parameter %d is not the one of the traversal", n)
						}
						n++
					}
					cancel()
					// what is still sent is in order, and the channel is closed
					for p := range ch {
						for n < len(want) && want[n] != p {
							n++
						}
						if n == len(want) {
							return errors.New("a parameter is sent twice, or out of order")
						}
						n++
					}
					return nil
				})
			}
		}
	}
}

func n02(t *lib.T) {
	t.Rule("every schedule (up to commutation) of the forward (and backward) of bidirectional recurrent networks over 1-2 steps, compared with the two directions run one after the other")
	mk := func() *srn.Model {
		m := srn.New[float64](1, 1)
		mat.SetData[float64](m.W.Value(), []float64{0.5})
		mat.SetData[float64](m.WRec.Value(), []float64{-0.25})
		mat.SetData[float64](m.B.Value(), []float64{0.125})
		return m
	}
	mk2 := func() *srn.Model {
		m := mk()
		mat.SetData[float64](m.W.Value(), []float64{-1.5})
		return m
	}
	for _, mode := range []birnn.MergeType{birnn.Concat, birnn.Sum, birnn.Prod, birnn.Avg} {
		for n := 1; n <= 2; n++ {
			for _, back := range []bool{false, true} {
				if back && (n > 1 || mode != birnn.Sum) && !t.Thorough() {
					continue
				}
				mode, n, back := mode, n, back
				scenario(t, "birnn", fmt.Sprintf("merge=%d/%d steps/backward=%v", mode, n, back), func() error {
					xs := make([]mat.Tensor, n)
					rev := make([]mat.Tensor, n)
					for i := range xs {
						xs[i] = gvec(float64(i) + 0.5)
						rev[n-1-i] = xs[i]
					}
					m := birnn.New(mk(), mk2(), mode)
					ys := m.Forward(xs...)
					pos, neg := mk().Forward(xs...), mk2().Forward(rev...)
					for i, y := range ys {
						p, q := data(pos[i])[0], data(neg[n-1-i])[0]
						want := [][]float64{{p, q}, {p + q}, {p * q}, {(p + q) / 2}}[mode]
						if err := expect(fmt.Sprintf("output %d", i), data(y), want); err != nil {
							return err
						}
					}
					if !back {
						return nil
					}
					if err := ag.Backward(ag.ReduceSum(ys[0])); err != nil {
						return err
					}
					if !xs[0].HasGrad() {
						return errors.New("no gradients of the input")
					}
					return nil
				})
			}
		}
	}
}

func n05(t *lib.T) {
	t.Rule("every schedule (up to commutation) of 2-3 goroutines which look up embeddings and accumulate gradients (directly, and through graphs), count, traverse and zero them; the outcome is the one of a sequential order")
	ops := []string{"acc0", "acc1", "count", "zero", "zero0", "params"}
	apply := func(o int, m *embedding.Model) string {
		e := func(i int) *embedding.Embedding {
			x, err := m.Embedding(i)
			if err != nil {
				panic(err)
			}
			return x
		}
		switch o {
		case 0:
			e(0).AccGrad(vec(1))
		case 1:
			e(1).AccGrad(vec(10))
		case 2:
			m.CountEmbedWithGrad()
		case 3:
			m.ZeroGrad()
		case 4:
			e(0).ZeroGrad()
		case 5:
			m.TraverseParams(func(p *nn.Param) { p.HasGrad() })
		}
		return ""
	}
	type state [2]float64
	model := func(o int, s state) state {
		switch o {
		case 0:
			s[0]++
		case 1:
			s[1] += 10
		case 3:
			s = state{}
		case 4:
			s[0] = 0
		}
		return s
	}
	prog := func(p [][]int) {
		legal := map[string]bool{}
		pos := make([]int, len(p))
		var rec func(s state)
		rec = func(s state) {
			done := true
			for k := range p {
				if pos[k] == len(p[k]) {
					continue
				}
				done = false
				pos[k]++
				rec(model(p[k][pos[k]-1], s))
				pos[k]--
			}
			if done {
				legal[fmt.Sprint(s)] = true
			}
		}
		rec(state{})
		var names []string
		for _, q := range p {
			var n []string
			for _, o := range q {
				n = append(n, ops[o])
			}
			names = append(names, strings.Join(n, ","))
		}
		scenario(t, "operations", strings.Join(names, "|"), func() error {
			m := embedding.New[float64](2, 1)
			var fs []func()
			for k := range p {
				k := k
				fs = append(fs, func() {
					for _, o := range p[k] {
						apply(o, m)
					}
				})
			}
			all(fs...)
			var s state
			n := 0
			for i := range s {
				if m.Weights[i].HasGrad() {
					s[i] = grad(m.Weights[i])[0]
					n++
				}
			}
			if !legal[fmt.Sprint(s)] {
				return fmt.Errorf("the gradients are %v, which no sequential order gives", s)
			}
			// what has gradients is visible to the optimizers
			if c := m.CountEmbedWithGrad(); c != n {
				return fmt.Errorf("%d embeddings are counted, %d have gradients", c, n)
			}
			var seen []*nn.Param
			nn.ForEachParam(m, func(p *nn.Param) { seen = append(seen, p) })
			if len(seen) != n {
				return fmt.Errorf("%d parameters are traversed, %d have gradients", len(seen), n)
			}
			return nil
		})
	}
	n := len(ops)
	for a := 0; a < n; a++ {
		for b := a; b < n; b++ {
			prog([][]int{{a}, {b}})
			for c := 0; c < n; c++ {
				if c >= b && (t.Thorough() || a < 2) {
					prog([][]int{{a}, {b}, {c}})
				}
				prog([][]int{{a, b}, {c}})
				prog([][]int{{b, a}, {c}})
			}
		}
	}
	for k := 2; k <= lib.Pick(t, 2, 3); k++ {
		for _, same := range []bool{false, true} {
			k, same := k, same
			scenario(t, "graphs", fmt.Sprintf("%d/same=%v", k, same), func() error {
				m := embedding.New[float64](3, 1)
				errs := make([]error, k)
				var fs []func()
				for i := 0; i < k; i++ {
					i := i
					id := i
					if same {
						id = 1
					}
					fs = append(fs, func() {
						es := m.MustEncode([]int{id, id})
						errs[i] = ag.Backward(ag.Add(es[0], es[1]))
					})
				}
				all(fs...)
				if err := first(errs...); err != nil {
					return err
				}
				for id, w := range m.Weights {
					want := 0.0
					if same && id == 1 {
						want = float64(2 * k)
					} else if !same && id < k {
						want = 2
					}
					var got float64
					if w.HasGrad() {
						got = grad(w)[0]
					}
					if got != want {
						return fmt.Errorf("gradient of embedding %d: %v, expected %v", id, got, want)
					}
				}
				want := k
				if same {
					want = 1
				}
				if c := m.CountEmbedWithGrad(); c != want {
					return fmt.Errorf("%d embeddings with gradients, expected %d", c, want)
				}
				return nil
			})
		}
	}
}

func r01(t *lib.T) {
	t.Rule("every schedule of 2-3 goroutines which draw 1-3 numbers from one generator, with each kind of draw; together they get exactly the sequence which one goroutine gets from the same seed, each of them in order")
	draws := []struct {
		name string
		f    func(r *rand.LockedRand) string
	}{
		{"Uint64", func(r *rand.LockedRand) string { return fmt.Sprint(r.Uint64()) }},
		{"Uint32", func(r *rand.LockedRand) string { return fmt.Sprint(r.Uint32()) }},
		{"Int63", func(r *rand.LockedRand) string { return fmt.Sprint(r.Int63()) }},
		{"Int31", func(r *rand.LockedRand) string { return fmt.Sprint(r.Int31()) }},
		{"Int", func(r *rand.LockedRand) string { return fmt.Sprint(r.Int()) }},
		{"Uint64n", func(r *rand.LockedRand) string { return fmt.Sprint(r.Uint64n(1 << 40)) }},
		{"Int63n", func(r *rand.LockedRand) string { return fmt.Sprint(r.Int63n(1 << 40)) }},
		{"Int31n", func(r *rand.LockedRand) string { return fmt.Sprint(r.Int31n(1 << 30)) }},
		{"Intn", func(r *rand.LockedRand) string { return fmt.Sprint(r.Intn(1 << 40)) }},
		{"Float64", func(r *rand.LockedRand) string { return fmt.Sprint(r.Float64()) }},
		{"Float32", func(r *rand.LockedRand) string { return fmt.Sprint(r.Float32()) }},
		{"NormFloat64", func(r *rand.LockedRand) string { return fmt.Sprint(r.NormFloat64()) }},
		{"TwoInt63", func(r *rand.LockedRand) string { a, b := r.TwoInt63(); return fmt.Sprint(a, b) }},
		{"Perm", func(r *rand.LockedRand) string { return fmt.Sprint(r.Perm(12)) }},
		{"Read", func(r *rand.LockedRand) string { b := make([]byte, 3); r.Read(b); return fmt.Sprint(b) }},
		{"Shuffle", func(r *rand.LockedRand) string {
			x := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
			r.Shuffle(len(x), func(i, j int) { x[i], x[j] = x[j], x[i] })
			return fmt.Sprint(x)
		}},
	}
	for _, d := range draws {
		d := d
		for _, ns := range [][]int{{1, 1}, {2, 1}, {2, 2}, {1, 1, 1}, {3, 2}, {2, 2, 1}} {
			ns := ns
			if len(ns) > 2 && ns[0] > 1 && !t.Thorough() {
				continue
			}
			scenario(t, "draws", fmt.Sprintf("%s/%v", d.name, ns), func() error {
				total := 0
				r := rand.NewLockedRand(42)
				out := make([][]string, len(ns))
				var fs []func()
				for k, n := range ns {
					k, n := k, n
					total += n
					fs = append(fs, func() {
						for i := 0; i < n; i++ {
							out[k] = append(out[k], d.f(r))
						}
					})
				}
				all(fs...)
				seq := rand.NewLockedRand(42)
				at := map[string]int{}
				var want []string
				for i := 0; i < total; i++ {
					v := d.f(seq)
					at[v] = i
					want = append(want, v)
				}
				var got []string
				for k := range out {
					last := -1
					for _, v := range out[k] {
						i, ok := at[v]
						if !ok {
							return fmt.Errorf("%s is not in the sequence %v", v, want)
						}
						if len(at) == total && i <= last {
							return fmt.Errorf("the draws %v are out of order in %v", out[k], want)
						}
						last = i
						got = append(got, v)
					}
				}
				sort.Strings(got)
				sort.Strings(want)
				if strings.Join(got, " ") != strings.Join(want, " ") {
					return fmt.Errorf("the draws are %v, expected %v", got, want)
				}
				return nil
			})
		}
	}
}
