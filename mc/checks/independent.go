package checks

import (
	"bytes"
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/losses"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/rand"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/crf"
	"github.com/nlpodyssey/spago/nn/embedding"
	"github.com/nlpodyssey/spago/verifmc/lib"
)

// Print is what an evaluation yields: what has to be the same bit by bit, and
// the sums whose terms have no order.
type Print struct {
	Exact []string
	Sums  [][]float64
}

func (p *Print) bits(what string, vs ...float64) {
	var b strings.Builder
	b.WriteString(what)
	for _, v := range vs {
		fmt.Fprintf(&b, " %016x", math.Float64bits(v))
	}
	p.Exact = append(p.Exact, b.String())
}

func (p *Print) tensor(what string, x mat.Tensor) {
	r := refOf(x)
	p.bits(fmt.Sprintf("%s %d×%d", what, r.r, r.c), r.v...)
}

func (p *Print) grads(xs ...mat.Tensor) {
	for _, x := range xs {
		if !x.HasGrad() {
			p.Sums = append(p.Sums, nil)
			continue
		}
		p.Sums = append(p.Sums, refOf(x.Grad()).v)
	}
}

// Same compares two prints.
func (p Print) Same(q Print) error {
	if len(p.Exact) != len(q.Exact) || len(p.Sums) != len(q.Sums) {
		return errf("%d values and %d gradients, %d and %d alone", len(p.Exact), len(p.Sums), len(q.Exact), len(q.Sums))
	}
	for i := range p.Exact {
		if p.Exact[i] != q.Exact[i] {
			return errf("%s; alone: %s", p.Exact[i], q.Exact[i])
		}
	}
	for i := range p.Sums {
		if (p.Sums[i] == nil) != (q.Sums[i] == nil) {
			return errf("gradients %d: %v; alone: %v", i, p.Sums[i], q.Sums[i])
		}
		if err := lib.CloseSlices(p.Sums[i], q.Sums[i], 1e-4, 1e-5); err != nil {
			return tag(fmt.Sprintf("gradients %d", i), err)
		}
	}
	return nil
}

// Use is a use of the library by goroutines which have nothing in common, or
// only things which are read, or whose gradients are accumulated.
type Use struct {
	Group, Name string
	// Make prepares the uses by so many goroutines, and returns them; after
	// tells the state of what is shared, in the end.
	Make func(n int) (uses []func() (Print, error), after func() Print)
}

func alone(group, name string, mk func(variant int) func() (Print, error)) Use {
	return Use{group, name, func(n int) ([]func() (Print, error), func() Print) {
		var out []func() (Print, error)
		for i := 0; i < n; i++ {
			out = append(out, mk(i))
		}
		return out, func() Print { return Print{} }
	}}
}

// runFn evaluates a function forth and back.
func (f direct) evaluate(d DT, xs []mat.Tensor, operator bool, v int) (Print, error) {
	var p Print
	fn := f.mk(xs)
	gy := func(y mat.Tensor) mat.Matrix {
		r, c := dims(y)
		return d.mk(r, c, d.rounds(coefs(r*c+v, false)[v:]))
	}
	if operator {
		op := ag.NewOperator(fn).Run(true)
		p.tensor(f.name, op)
		if !op.RequiresGrad() {
			return p, nil
		}
		op.AccGrad(gy(op))
		return p, ag.Backward(op)
	}
	y, err := fn.Forward()
	if err != nil {
		return p, err
	}
	p.tensor(f.name, y)
	return p, fn.Backward(gy(y))
}

func (f direct) operands(d DT, v int, grads bool) []mat.Tensor {
	var xs []mat.Tensor
	for i, s := range f.in {
		x := d.mk(s[0], s[1], d.rounds(genPos(s[0]*s[1], i+v)))
		x.SetRequiresGrad(grads)
		xs = append(xs, x)
	}
	return xs
}

// Independents lists the uses of the library.
func Independents(thorough bool) []Use {
	var out []Use
	dt := func(i int) DT { return dts[i%2] }

	for i, f := range sortedDirects(sh{2, 3}, sh{3, 1}, sh{1, 3}, sh{1, 1}, sh{40, 1}, sh{17, 20}) {
		f, d := f, dt(i)
		for _, operator := range []bool{false, true} {
			operator := operator
			name := fmt.Sprintf("%s/%v/%d/operator=%v", f.name, f.in, d, operator)
			out = append(out, alone("functions", name, func(v int) func() (Print, error) {
				xs := f.operands(d, v, true)
				return func() (Print, error) {
					p, err := f.evaluate(d, xs, operator, v)
					p.grads(xs...)
					return p, err
				}
			}))
			out = append(out, Use{"shared-operands", name, func(n int) ([]func() (Print, error), func() Print) {
				xs := f.operands(d, 0, operator)
				var us []func() (Print, error)
				for v := 0; v < n; v++ {
					v := v
					us = append(us, func() (Print, error) { return f.evaluate(d, xs, operator, v) })
				}
				return us, func() (p Print) {
					p.grads(xs...)
					for _, x := range xs {
						p.tensor("operand", x)
					}
					return p
				}
			}})
		}
	}
	// all the functions, one after the other: what one of them leaves behind
	// could be taken by another one
	out = append(out, alone("all", "functions", func(v int) func() (Print, error) {
		return func() (Print, error) {
			var all Print
			fs := sortedDirects(sh{2, 3}, sh{3, 1})
			for i := range fs {
				if v%2 == 1 {
					i = len(fs) - 1 - i
				}
				xs := fs[i].operands(64, v, true)
				p, err := fs[i].evaluate(64, xs, false, v)
				if err != nil {
					return all, err
				}
				p.grads(xs...)
				all.Exact, all.Sums = append(all.Exact, p.Exact...), append(all.Sums, p.Sums...)
			}
			return all, nil
		}
	}))

	// operations on matrices
	for i, o := range histOps() {
		o, d := o, dt(i)
		for _, s := range []sh{{2, 2}, {3, 1}, {1, 3}, {40, 1}, {20, 20}} {
			args := func(v int) ([]mat.Matrix, []ref) {
				var ms []mat.Matrix
				var rs []ref
				for k := 0; k < o.arity; k++ {
					r := ref{s[0], s[1], d.rounds(genPos(s[0]*s[1], k+v))}
					rs, ms = append(rs, r), append(ms, d.like(r))
				}
				return ms, rs
			}
			if _, rs := args(0); !o.enabled(rs) {
				continue
			}
			name := fmt.Sprintf("%s/%v/%d", o.name, s, d)
			do := func(ms []mat.Matrix) (p Print, err error) {
				p.tensor(o.name, o.do(ms))
				for _, m := range ms {
					p.tensor("operand", m)
				}
				return p, nil
			}
			out = append(out, alone("matrices", name, func(v int) func() (Print, error) {
				ms, _ := args(v)
				return func() (Print, error) { return do(ms) }
			}))
			if o.mutates {
				continue
			}
			out = append(out, Use{"shared-matrices", name, func(n int) ([]func() (Print, error), func() Print) {
				ms, _ := args(0)
				var us []func() (Print, error)
				for v := 0; v < n; v++ {
					us = append(us, func() (Print, error) { return do(ms) })
				}
				return us, func() Print { return Print{} }
			}})
		}
	}

	// models
	var zs []zoo
	for _, l := range [][]zoo{zooRecurrent(quick), zooBranches(quick), zooBirnn(quick), zooSLSTM(quick), zooAttention(quick), zooConvolution(quick), zooNormalization(quick), zooCRF(quick), zooOthers(quick)} {
		zs = append(zs, l...)
	}
	for _, l := range [][]zoo{zooConvolution(large), zooNormalization(large), zooOthers(large), zooRecurrent(large), zooCRF(large)} {
		for _, z := range l {
			if len(z.in) <= 2 && !strings.HasPrefix(z.name, "conv") {
				z.name, z.large = "large-"+z.name, true
				zs = append(zs, z)
			}
		}
	}
	seen := map[string]int{}
	spread := spreadOf(zs)
	for i, z := range zs {
		// a few configurations of each kind: the first ones, and one in the middle and one in the end
		kind, _, _ := strings.Cut(z.name, "/")
		if strings.HasPrefix(z.name, "slstm") && !strings.Contains(z.name, "len1/steps1") && !strings.Contains(z.name, "len2/steps1") {
			continue // too many operations
		}
		if seen[kind]++; !thorough && seen[kind] > 4 && !spread[i] {
			continue
		}
		if z.singular != nil {
			z.gen = nil
		}
		z, d := z, dt(i)
		model := func(v int) (nn.Model, []*nn.Param) {
			m, params := z.mk(d)
			ps, _ := z.values(d, params, v)
			for i, p := range params {
				d.set(p, ps[i].v)
			}
			return m, params
		}
		run := func(m nn.Model, params []*nn.Param, v int, backward bool) (p Print, err error) {
			_, xs := z.values(d, params, v)
			ins := make([]mat.Tensor, len(xs))
			for i, x := range xs {
				m := d.like(x)
				m.SetRequiresGrad(backward)
				ins[i] = m
			}
			var roots []mat.Tensor
			for i, y := range z.forward(m, ins) {
				p.tensor(fmt.Sprintf("output %d", i), y)
				if backward && y.RequiresGrad() {
					r, c := dims(y)
					y.AccGrad(d.mk(r, c, d.rounds(coefs(r*c+i, false)[i:])))
					roots = append(roots, y)
				}
			}
			if backward && !z.noGrad {
				err = ag.Backward(roots...)
				p.grads(ins...)
			}
			return p, err
		}
		name := fmt.Sprintf("%s/%d", z.name, d)
		out = append(out, alone("models", name, func(v int) func() (Print, error) {
			m, params := model(v)
			return func() (Print, error) {
				p, err := run(m, params, v, true)
				p.grads(paramTensors(params)...)
				return p, err
			}
		}))
		for _, way := range []string{"frozen", "inference", "training"} {
			way := way
			if !spread[i] && (seen[kind] > 2 && way != "training" || seen[kind] > 12) {
				continue
			}
			if way == "training" && (z.noGrad || z.large || !thorough && seen[kind] > 1) {
				continue // the orders of the accumulations are many
			}
			out = append(out, Use{way, name, func(n int) ([]func() (Print, error), func() Print) {
				m, params := model(0)
				for _, p := range params {
					p.SetRequiresGrad(way != "frozen")
				}
				var us []func() (Print, error)
				for v := 0; v < n; v++ {
					v := v
					us = append(us, func() (Print, error) { return run(m, params, v, way != "inference") })
				}
				return us, func() (p Print) {
					p.grads(paramTensors(params)...)
					for _, x := range params {
						p.tensor("parameter", x)
					}
					return p
				}
			}})
		}
		if m, _ := z.mk(d); m == nil {
			continue // functions
		}
		out = append(out, Use{"dumps", name, func(n int) ([]func() (Print, error), func() Print) {
			m, _ := model(0)
			var us []func() (Print, error)
			for v := 0; v < n; v++ {
				us = append(us, func() (p Print, err error) {
					var buf bytes.Buffer
					if err := nn.Dump(&saved{Name: "x", Model: m}, &buf); err != nil {
						return p, err
					}
					p.Exact = append(p.Exact, fmt.Sprint(buf.Len()))
					l, err := nn.Load[*saved](&buf)
					if err != nil {
						return p, err
					}
					return p, sameParams(l.Model, m)
				})
			}
			return us, func() Print { return Print{} }
		}})
		out = append(out, Use{"traversals", name, func(n int) ([]func() (Print, error), func() Print) {
			m, params := model(0)
			for _, p := range params {
				p.AccGrad(d.mk(p.Value().Shape()[0], p.Value().Shape()[1], make([]float64, p.Value().Size())))
			}
			var us []func() (Print, error)
			for v := 0; v < n; v++ {
				us = append(us, func() (p Print, err error) {
					nn.ForEachParam(m, func(x *nn.Param) { p.tensor("parameter", x) })
					sort.Strings(p.Exact)
					nn.ForEachParamStrict(m, func(x *nn.Param) { p.Sums = append(p.Sums, []float64{float64(x.Value().Size())}) })
					k := len(p.Exact)
					nn.Apply(m, func(x nn.Model) { k++ })
					p.Exact = append(p.Exact, fmt.Sprint(k))
					p.Sums = nil
					return p, nil
				})
			}
			return us, func() Print { return Print{} }
		}})
	}

	// optimizers
	for i, o := range optVariants() {
		o, d := o, dt(i)
		out = append(out, alone("optimizers", fmt.Sprintf("%s/%d", o.name, d), func(v int) func() (Print, error) {
			s, tick := o.mk(d)
			p := nn.NewParam(d.mk(2, 2, d.rounds(genMixed(4, v))))
			return func() (pr Print, err error) {
				for step := 0; step < 3; step++ {
					p.AccGrad(d.mk(2, 2, d.rounds(genMixed2(4, step+v))))
					tick()
					if err := s.OptimizeParams(p); err != nil {
						return pr, err
					}
					pr.tensor(fmt.Sprintf("step %d", step), p)
					p.ZeroGrad()
				}
				return pr, nil
			}
		}))
	}

	// one strategy, which updates several parameters at the same time
	for _, o := range Optimizations(2) {
		o := o
		out = append(out, Use{"updates", o.Name, func(n int) ([]func() (Print, error), func() Print) {
			ps, s, begin := o.Make()
			begin(0)
			var us []func() (Print, error)
			for v := 0; v < n; v++ {
				v := v
				us = append(us, func() (p Print, err error) {
					err = s.OptimizeParams(ps[v])
					p.tensor("parameter", ps[v])
					return p, err
				})
			}
			return us, func() (p Print) {
				for _, x := range ps {
					p.tensor("parameter", x)
				}
				return p
			}
		}})
	}

	// losses
	type T = mat.Tensor
	for name, f := range map[string]func(x, y T) T{
		"MSE": func(x, y T) T { return losses.MSE(x, y, true) }, "MAE": func(x, y T) T { return losses.MAE(x, y, true) }, "NLL": func(x, y T) T { return losses.NLL(x, y) },
		"CrossEntropy": func(x, y T) T { return losses.CrossEntropy(x, 1) }, "Perplexity": func(x, y T) T { return losses.Perplexity(x, 1) },
		"FocalLoss": func(x, y T) T { return losses.FocalLoss(x, 1, 2) }, "Weighted": func(x, y T) T { return losses.WeightedCrossEntropy(y.Value().(mat.Matrix))(x, 1) },
		"WeightedFocal":       func(x, y T) T { return losses.WeightedFocalLoss(y.Value().(mat.Matrix))(x, 1, 2) },
		"ZeroOneQuantization": func(x, y T) T { return losses.ZeroOneQuantization(x) }, "Norm2Quantization": func(x, y T) T { return losses.Norm2Quantization(x) },
		"OneHotQuantization": func(x, y T) T { return losses.OneHotQuantization(x, 0.1) },
		"CrossEntropySeq":    func(x, y T) T { return losses.CrossEntropySeq([]T{x, x}, []int{1, 0}, true) },
		"MSESeq":             func(x, y T) T { return losses.MSESeq([]T{x, x}, []T{y, y}, true) }, "MAESeq": func(x, y T) T { return losses.MAESeq([]T{x, x}, []T{y, y}, true) },
		"SPG": func(x, y T) T { return losses.SPG([]T{ag.ReduceSum(x)}, []T{ag.ReduceSum(y)}) },
	} {
		f := f
		out = append(out, alone("losses", name, func(v int) func() (Print, error) {
			x, y := DT(64).g(3, 1, genPos(3, v)), DT(64).mk(3, 1, genPos(3, v+5))
			return func() (p Print, err error) {
				l := f(x, y)
				p.tensor(name, l)
				err = ag.Backward(l)
				p.grads(x)
				return p, err
			}
		}))
	}

	// text, binary forms, random numbers, tables
	for _, d := range dts {
		d := d
		for name, f := range map[string]func(m mat.Matrix, v int) (Print, error){
			"text": func(m mat.Matrix, v int) (p Print, err error) {
				for _, verb := range []string{"%v", "%f", "%8.3g", "%e", "%F", "%x"} {
					p.Exact = append(p.Exact, fmt.Sprintf(verb, m))
				}
				return p, nil
			},
			"binary": func(m mat.Matrix, v int) (p Print, err error) {
				b, err := m.(interface{ MarshalBinary() ([]byte, error) }).MarshalBinary()
				if err != nil {
					return p, err
				}
				p.Exact = append(p.Exact, fmt.Sprintf("%x", b))
				o := d.mk(1, 1, []float64{0})
				if err := o.(interface{ UnmarshalBinary([]byte) error }).UnmarshalBinary(b); err != nil {
					return p, err
				}
				p.tensor("unmarshalled", o)
				return p, nil
			},
			"comparisons": func(m mat.Matrix, v int) (p Print, err error) {
				p.Exact = append(p.Exact, fmt.Sprint(mat.Equal(m, m.Clone()), mat.InDelta(m, m.AddScalar(0.5), 1), m.Flatten().ArgMax(), mat.SameDims(m, m)))
				return p, nil
			},
		} {
			f := f
			mk := func(v int) mat.Matrix { return d.mk(3, 2, d.rounds(genMixed(6, v))) }
			out = append(out, alone("others", fmt.Sprintf("%s/%d", name, d), func(v int) func() (Print, error) {
				m := mk(v)
				return func() (Print, error) { return f(m, v) }
			}), Use{"others", fmt.Sprintf("%s/%d/shared", name, d), func(n int) ([]func() (Print, error), func() Print) {
				m := mk(0)
				var us []func() (Print, error)
				for v := 0; v < n; v++ {
					us = append(us, func() (Print, error) { return f(m, 0) })
				}
				return us, func() Print { return Print{} }
			}})
		}
		for _, in := range initializersOf() {
			in := in
			out = append(out, alone("initializers", fmt.Sprintf("%s/%d", in.name, d), func(v int) func() (Print, error) {
				m, r := d.mk(2, 3, make([]float64, 6)), rand.NewLockedRand(uint64(v+1))
				return func() (p Print, err error) {
					p.tensor(in.name, in.f(m, r))
					return p, nil
				}
			}))
		}
	}
	for _, c := range [][2]int{{2, 3}, {5, 4}, {9, 12}} {
		labels, length := c[0], c[1]
		out = append(out, alone("others", fmt.Sprintf("decoding/%d/%d", labels, length), func(v int) func() (Print, error) {
			m := crf.New[float64](labels)
			DT(64).set(m.TransitionScores, genMixed((labels+1)*(labels+1), v))
			var xs []mat.Tensor
			for i := 0; i < length; i++ {
				xs = append(xs, DT(64).mk(labels, 1, genMixed2(labels, i+v)))
			}
			return func() (p Print, err error) {
				p.Exact = append(p.Exact, fmt.Sprint(m.Decode(xs)))
				return p, nil
			}
		}))
	}
	out = append(out, alone("others", "random", func(v int) func() (Print, error) {
		r := rand.NewLockedRand(uint64(v + 1))
		return func() (p Print, err error) {
			b := make([]byte, 5)
			_, _ = r.Read(b)
			x := r.Perm(4)
			r.Shuffle(4, func(i, j int) { x[i], x[j] = x[j], x[i] })
			p.Exact = append(p.Exact, fmt.Sprint(r.Uint64(), r.Int31n(7), r.Float64(), r.Float32(), r.NormFloat64(), b, x))
			return p, nil
		}
	}))
	out = append(out, alone("others", "embeddings", func(v int) func() (Print, error) {
		m := embedding.New[float64](3, 2)
		for i, w := range m.Weights {
			DT(64).set(w, genMixed(2, i+v))
		}
		return func() (p Print, err error) {
			es, err := m.Encode([]int{v % 3, 2, v % 3})
			if err != nil {
				return p, err
			}
			for i, e := range es {
				p.tensor("row", e)
				e.AccGrad(DT(64).mk(2, 1, []float64{float64(i + v), 1}))
			}
			p.Exact = append(p.Exact, fmt.Sprint(m.CountEmbedWithGrad()))
			for _, w := range m.Weights {
				p.grads(w)
			}
			m.ZeroGrad()
			return p, nil
		}
	}))
	sort.SliceStable(out, func(i, j int) bool {
		if out[i].Group != out[j].Group {
			return out[i].Group < out[j].Group
		}
		return out[i].Name < out[j].Name
	})
	return out
}

// spreadOf chooses a configuration in the middle and one in the end of each
// kind, among the ones with few operations.
func spreadOf(zs []zoo) map[int]bool {
	groups := map[string][]int{}
	for i, z := range zs {
		kind, _, _ := strings.Cut(z.name, "/")
		groups[kind] = append(groups[kind], i)
	}
	chosen := map[int]bool{}
	for _, g := range groups {
		for _, k := range []int{len(g) - 1, len(g) / 2} {
			for ; k > 4; k-- {
				if i := g[k]; !zs[i].large && operations(zs[i]) <= 50 {
					chosen[i] = true
					break
				}
			}
		}
	}
	return chosen
}

// operations counts the operators of the graph of a configuration; the ones
// which start goroutines are counted as very large.
func operations(z zoo) (n int) {
	if strings.HasPrefix(z.name, "bi") {
		return math.MaxInt
	}
	ag.SetForceSyncExecution(true)
	defer ag.SetForceSyncExecution(false)
	d := DT(64)
	m, params := z.mk(d)
	_, xs := z.values(d, params, 0)
	ins := make([]mat.Tensor, len(xs))
	for i, x := range xs {
		m := d.like(x)
		m.SetRequiresGrad(true)
		ins[i] = m
	}
	seen := map[*ag.Operator]bool{}
	var visit func(x mat.Tensor)
	visit = func(x mat.Tensor) {
		o, ok := x.(*ag.Operator)
		if !ok || seen[o] {
			return
		}
		seen[o] = true
		for _, y := range o.Operands() {
			visit(y)
		}
	}
	for _, y := range z.forward(m, ins) {
		visit(y)
	}
	return len(seen)
}
