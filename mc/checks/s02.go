package checks

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"reflect"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/dropout"
	"github.com/nlpodyssey/spago/nn/embedding"
	"github.com/nlpodyssey/spago/nn/linear"
	"github.com/nlpodyssey/spago/nn/normalization/batchnorm"
	"github.com/nlpodyssey/spago/optimizers"
	"github.com/nlpodyssey/spago/verifmc/lib"
)

// saved is a model within another one.
type saved struct {
	nn.Module
	Name  string
	Model nn.Model
	List  []nn.Model
	Map   map[string]nn.Model
	Tail  *nn.Param
}

func init() {
	Registry["S02"] = s02
	gob.Register(&saved{})
	gob.Register(&stack{})
}

// roundTrip dumps and loads something.
func roundTrip[A any](a A) (A, error) {
	var buf bytes.Buffer
	var zero A
	if err := nn.Dump(a, &buf); err != nil {
		return zero, tag("Dump", err)
	}
	out, err := nn.Load[A](&buf)
	if err != nil {
		return zero, tag("Load", err)
	}
	return out, nil
}

// The ways to save a model.
var saveWays = []struct {
	name string
	f    func(m nn.Model) (nn.Model, error)
}{
	{"field", func(m nn.Model) (nn.Model, error) {
		s, err := roundTrip(&saved{Name: "x", Model: m, Tail: nn.NewParam(mat.Scalar(3.5))})
		if err != nil {
			return nil, err
		}
		if s.Name != "x" || s.Tail.Item().F64() != 3.5 || s.List != nil || s.Map != nil {
			return nil, errf("the other fields have changed: %+v", s)
		}
		return s.Model, nil
	}},
	{"list", func(m nn.Model) (nn.Model, error) {
		s, err := roundTrip(&saved{List: []nn.Model{linear.New[float64](1, 2), m, linear.New[float32](2, 1)}})
		if err != nil {
			return nil, err
		}
		if len(s.List) != 3 {
			return nil, errf("%d models of 3", len(s.List))
		}
		return s.List[1], nil
	}},
	{"map", func(m nn.Model) (nn.Model, error) {
		s, err := roundTrip(&saved{Map: map[string]nn.Model{"a": linear.New[float64](1, 2), "b": m}})
		if err != nil {
			return nil, err
		}
		if len(s.Map) != 2 {
			return nil, errf("%d models of 2", len(s.Map))
		}
		return s.Map["b"], nil
	}},
	{"direct", func(m nn.Model) (nn.Model, error) {
		var buf bytes.Buffer
		if err := nn.Dump(m, &buf); err != nil {
			return nil, tag("Dump", err)
		}
		v := reflect.New(reflect.TypeOf(m).Elem())
		if err := gob.NewDecoder(&buf).DecodeValue(v); err != nil {
			return nil, tag("decoding", err)
		}
		return v.Interface().(nn.Model), nil
	}},
}

func paramsOf(m nn.Model) (out []*nn.Param) {
	nn.ForEachParam(m, func(p *nn.Param) { out = append(out, p) })
	return out
}

// sameParams compares the parameters of two models, bit by bit.
func sameParams(a, b nn.Model) error {
	ps, qs := paramsOf(a), paramsOf(b)
	if len(ps) != len(qs) {
		return errf("%d parameters, expected %d", len(qs), len(ps))
	}
	for i := range ps {
		if ps[i] == qs[i] {
			return errf("parameter %d is shared", i)
		}
		if err := sameMatrix(qs[i], ps[i]); err != nil {
			return tag(fmt.Sprintf("parameter %d", i), err)
		}
	}
	return nil
}

// sameTensors compares tensors, bit by bit.
func sameTensors(got, want []mat.Tensor) error {
	if len(got) != len(want) {
		return errf("%d outputs, expected %d", len(got), len(want))
	}
	for i := range got {
		gr, gc := dims(got[i])
		wr, wc := dims(want[i])
		if gr != wr || gc != wc || !eqBits(bitsOf(got[i]), bitsOf(want[i])) {
			return errf("output %d is %d×%d %v, expected %d×%d %v", i, gr, gc, fmtVals(vals(got[i])), wr, wc, fmtVals(vals(want[i])))
		}
	}
	return nil
}

func s02(t *lib.T) {
	t.Rule("every model of the library x configurations x {float32,float64} x every subset of the stated family of parameters which require gradients x saved as a field, in a list, in a map, and directly: parameters are loaded bit by bit with their flags, nothing is shared or changed, outputs are bitwise equal, gradients agree, also of the model which is saved and loaded again; training of every kind of model and optimizer interrupted by saving and loading at every step of histories up to the bound continues bitwise; running statistics, embedding tables, shared tables, states of parameters, nil and empty fields")
	th := t.Thorough()
	seen := map[reflect.Type]int{}
	for _, zs := range [][]zoo{zooRecurrent(levelOf(t)), zooBirnn(levelOf(t)), zooAttention(levelOf(t)), zooConvolution(levelOf(t)), zooNormalization(levelOf(t)), zooCRF(levelOf(t)), zooOthers(levelOf(t)), zooSLSTM(levelOf(t))} {
		for _, z := range zs {
			m, ps := z.mk(64)
			if m == nil {
				continue
			}
			z := z
			for _, d := range dts {
				for si, set := range subsets(len(ps), len(ps)) {
					for _, w := range saveWays {
						if w.name != "field" && si > 1 {
							continue
						}
						t.Casef("models", true, func() error { return z.saveLoad(d, set, w.f) }, "%s/%d/subset%d/%s", z.name, d, si, w.name)
					}
				}
			}
			typ := reflect.TypeOf(m)
			seen[typ]++
			if len(ps) > 0 && (seen[typ] == 1 || th && seen[typ] == 4) {
				s02Training(t, z)
			}
		}
	}
	for _, zs := range [][]zoo{zooRecurrent(large), zooBirnn(large), zooAttention(large), zooConvolution(large), zooNormalization(large), zooCRF(large), zooOthers(large), zooSLSTM(large)} {
		kinds := map[reflect.Type]bool{}
		for _, z := range zs {
			m, ps := z.mk(64)
			if m == nil || kinds[reflect.TypeOf(m)] {
				continue
			}
			kinds[reflect.TypeOf(m)] = true
			z.large = true
			if z.scale == 0 {
				z.scale = 0.1
			}
			for _, d := range dts {
				for si, set := range subsets(len(ps), len(ps))[:2] {
					for _, w := range saveWays {
						t.Casef("models", true, func() error { return z.saveLoad(d, set, w.f) }, "large/%s/%d/subset%d/%s", z.name, d, si, w.name)
					}
				}
			}
		}
	}
	t.Res.Notes["models"] = fmt.Sprintf("%d types of models", len(seen))
	s02Others(t)
}

func (z zoo) saveLoad(d DT, set []bool, way func(m nn.Model) (nn.Model, error)) error {
	mk := func() (nn.Model, []*nn.Param) {
		m, params := z.mk(d)
		ps, _ := z.values(d, params, 1)
		for i, p := range params {
			d.set(p, ps[i].v)
			p.SetRequiresGrad(set[i])
		}
		return m, params
	}
	m, _ := mk()
	twin, _ := mk()
	_, xs := z.values(d, nil, 1)
	inputs := func() (out []mat.Tensor) {
		for _, x := range xs {
			out = append(out, d.g(x.r, x.c, x.v))
		}
		return out
	}
	// what is computed, and the gradients
	run := func(m nn.Model) (ys, grads []mat.Tensor, err error) {
		in := inputs()
		forceSync(func() { ys = z.forward(m, in) })
		var roots []mat.Tensor
		for i, y := range ys {
			if y.RequiresGrad() {
				r, c := dims(y)
				y.AccGrad(d.mk(r, c, d.rounds(coefs(r*c+i, i%2 == 1)[i:])))
				roots = append(roots, y)
			}
		}
		if err := ag.Backward(roots...); err != nil {
			return nil, nil, tag("backward", err)
		}
		for _, p := range paramsOf(m) {
			in = append(in, p)
		}
		for _, x := range in {
			var g mat.Tensor
			if x.HasGrad() {
				g = x.Grad()
			}
			grads = append(grads, g)
		}
		for i := range ys {
			ys[i] = ys[i].Value().(mat.Matrix).Clone()
		}
		return ys, grads, nil
	}
	l1, err := way(m)
	if err != nil {
		return err
	}
	if err := sameParams(twin, m); err != nil {
		return tag("saving has changed the model", err)
	}
	if a, b := reflect.TypeOf(l1), reflect.TypeOf(m); a != b {
		return errf("a %v has been loaded as %v", b, a)
	}
	if err := sameParams(m, l1); err != nil {
		return err
	}
	for _, p := range paramsOf(l1) {
		if p.HasGrad() || p.State != nil {
			return errf("a loaded parameter has gradients or a state")
		}
	}
	l2, err := way(l1)
	if err != nil {
		return tag("second generation", err)
	}
	if err := sameParams(m, l2); err != nil {
		return tag("second generation", err)
	}
	ys, gs, err := run(twin)
	if err != nil {
		return err
	}
	for gen, l := range []nn.Model{m, l1, l2} {
		name := [...]string{"the saved model", "the loaded model", "the model of the second generation"}[gen]
		gotYs, gotGs, err := run(l)
		if err != nil {
			return tag(name, err)
		}
		if err := sameTensors(gotYs, ys); err != nil {
			return tag(name, err)
		}
		for i := range gs {
			if (gs[i] == nil) != (gotGs[i] == nil) {
				return errf("%s: gradient %d is %v, expected %v", name, i, gotGs[i], gs[i])
			}
			if gs[i] == nil {
				continue
			}
			want := refOf(gs[i])
			abs := d.tol(1e-10, 1e-4) * (1 + want.absSum())
			if err := same(gotGs[i], want, 0, abs); err != nil {
				return tag(fmt.Sprintf("%s: gradient %d", name, i), err)
			}
		}
	}
	// a model which has gradients can be saved as well, without them
	l3, err := way(m)
	if err != nil {
		return tag("with gradients", err)
	}
	if err := sameParams(m, l3); err != nil {
		return tag("with gradients", err)
	}
	for i, p := range paramsOf(l3) {
		if p.HasGrad() {
			return errf("parameter %d is loaded with gradients", i)
		}
	}
	// they are independent
	for _, p := range paramsOf(l1) {
		if p.Size() > 0 {
			p.AddScalarInPlace(1)
		}
	}
	for _, l := range []nn.Model{m, l2, l3} {
		if err := sameParams(twin, l); err != nil {
			return tag("changing a loaded model changes another one", err)
		}
	}
	return nil
}

// s02Training interrupts the training after every number of steps.
func s02Training(t *lib.T, z zoo) {
	steps := lib.Pick(t, 3, 5)
	for vi, v := range optVariants() {
		for _, d := range dts {
			for at := 0; at <= steps; at++ {
				for again := at; again <= steps; again++ {
					v, d, at, again := v, d, at, again
					for _, saved := range []bool{false, true} {
						saved := saved
						t.Casef("training", at > 0, func() error { return z.training(d, v, vi, steps, at, again, saved) }, "%s/%s/%d/steps%d/saved%d,%d/optimizer=%v", z.name, v.name, d, steps, at, again, saved)
					}
				}
			}
		}
	}
}

// training is interrupted at two steps: the model is saved, and the optimizer
// is saved too, or made anew.
func (z zoo) training(d DT, v optVariant, vi, steps, at, again int, saved bool) error {
	mk := func() nn.Model {
		m, params := z.mk(d)
		ps, _ := z.values(d, params, 2)
		for i, p := range params {
			d.set(p, ps[i].v)
			p.SetRequiresGrad(i%4 != 3)
		}
		return m
	}
	type run struct {
		m    nn.Model
		s    optimizers.OptimizationStrategy
		tick func()
	}
	strategy := func(time int) (optimizers.OptimizationStrategy, func()) {
		s, tick := v.mk(d)
		for i := 0; i < time; i++ {
			tick()
		}
		return s, tick
	}
	var a, b run
	a.m, b.m = mk(), mk()
	a.s, a.tick = strategy(0)
	b.s, b.tick = strategy(0)
	save := func(step int) error {
		l, err := saveWays[vi%len(saveWays)].f(b.m)
		if err != nil {
			return err
		}
		if err := sameParams(b.m, l); err != nil {
			return tag("loaded", err)
		}
		ps, qs := paramsOf(b.m), paramsOf(l)
		for i := range ps {
			if reflect.TypeOf(ps[i].State) != reflect.TypeOf(qs[i].State) {
				return errf("the state of parameter %d is loaded as %T, expected %T", i, qs[i].State, ps[i].State)
			}
		}
		b.m = l
		if !saved {
			b.s, b.tick = strategy(step) // a new optimizer
			return nil
		}
		var buf bytes.Buffer
		if err := gob.NewEncoder(&buf).Encode(b.s); err != nil {
			return tag("saving the optimizer", err)
		}
		loaded := reflect.New(reflect.TypeOf(b.s).Elem()).Interface()
		if err := gob.NewDecoder(&buf).Decode(loaded); err != nil {
			return tag("loading the optimizer", err)
		}
		b.s, b.tick = loaded.(optimizers.OptimizationStrategy), func() {}
		switch s := loaded.(type) {
		case interface{ IncExample() }:
			b.tick = s.IncExample
		case interface{ IncBatch() }:
			b.tick = s.IncBatch
		}
		return nil
	}
	for step := 0; step <= steps; step++ {
		if step == at || step == again {
			if err := save(step); err != nil {
				return tag(fmt.Sprintf("saving after %d steps", step), err)
			}
		}
		if step == again && again != at { // twice, without steps between
			if err := save(step); err != nil {
				return tag(fmt.Sprintf("saving again after %d steps", step), err)
			}
		}
		if step == steps {
			break
		}
		for _, r := range []run{a, b} {
			ps := paramsOf(r.m)
			for i, p := range ps {
				if (i+step)%5 == 4 {
					continue // without gradients
				}
				rr, cc := dims(p)
				g := genMixed2(rr*cc, i+3*step)
				p.AccGrad(d.mk(rr, cc, d.rounds(g)))
			}
			if err := optimizers.New(nn.Parameters(r.m), r.s).Optimize(); err != nil {
				return tag(fmt.Sprintf("step %d", step), err)
			}
			r.tick()
		}
		if err := sameParams(a.m, b.m); err != nil {
			return tag(fmt.Sprintf("after step %d", step), err)
		}
	}
	return nil
}

func s02Others(t *lib.T) {
	for _, d := range dts {
		d := d
		// running statistics
		for _, n := range []int{1, 2, 5} {
			for before := 0; before <= 3; before++ {
				for after := 0; after <= 2; after++ {
					for _, w := range saveWays {
						t.Casef("statistics", before > 0, func() error {
							mk := func() *batchnorm.Model {
								if d == 32 {
									return batchnorm.NewWithMomentum[float32](n, 0.75)
								}
								return batchnorm.NewWithMomentum[float64](n, 0.75)
							}
							step := func(m *batchnorm.Model, k int) []mat.Tensor {
								var xs []mat.Tensor
								for i := 0; i < 3; i++ {
									xs = append(xs, d.mk(n, 1, d.rounds(genMixed(n, i+5*k))))
								}
								return m.ForwardT(xs...)
							}
							a := mk()
							for k := 0; k < before; k++ {
								step(a, k)
							}
							l, err := w.f(a)
							if err != nil {
								return err
							}
							b := l.(*batchnorm.Model)
							for k := 0; ; k++ {
								for i, p := range [][2]*nn.Buffer{{a.Mean, b.Mean}, {a.StdDev, b.StdDev}, {a.Momentum, b.Momentum}} {
									if !eqBits(bitsOf(p[0]), bitsOf(p[1])) {
										return errf("buffer %d is %v, expected %v", i, vals(p[1]), vals(p[0]))
									}
									if p[1].RequiresGrad() || p[1].HasGrad() {
										return errf("a loaded buffer requires or has gradients")
									}
									p[1].AccGrad(d.scalar(1))
									if p[1].HasGrad() {
										return errf("a loaded buffer accumulates gradients")
									}
								}
								x := d.mk(n, 1, d.rounds(genMixed(n, 9)))
								if err := sameTensors(b.Forward(x), a.Forward(x)); err != nil {
									return err
								}
								if k == after {
									return nil
								}
								if err := sameTensors(step(b, before+k), step(a, before+k)); err != nil {
									return tag("training", err)
								}
							}
						}, "%d/size%d/before%d/after%d/%s", d, n, before, after, w.name)
					}
				}
			}
		}
		// tables
		for _, size := range []int{0, 1, 2, 7} {
			for _, dim := range []int{1, 3, 8} {
				for mask := 0; mask < 1<<size; mask++ {
					if size == 7 && mask%11 != 0 {
						continue
					}
					for _, w := range saveWays {
						t.Casef("tables", size > 0, func() error { return s02Table(d, size, dim, mask, w.f) }, "%d/%dx%d/grads%b/%s", d, size, dim, mask, w.name)
					}
				}
			}
		}
		// parameters and buffers alone
		for _, s := range shapes(3, false, sh{1, 17}, sh{33, 1}) {
			for _, rg := range []bool{false, true} {
				for _, v := range optVariants() {
					t.Casef("parameters", true, func() error { return s02Param(d, s, rg, v) }, "%d/%v/%v/%s", d, s, rg, v.name)
				}
				t.Casef("buffers", true, func() error {
					b := nn.Buf(d.mk(s[0], s[1], ramp(s[0]*s[1]), mat.WithGrad(rg)))
					l, err := roundTrip(b)
					if err != nil {
						return err
					}
					if err := exactly(l, rampRef(s[0], s[1])); err != nil {
						return err
					}
					if l.RequiresGrad() || l.HasGrad() || l.Grad() != nil {
						return errf("a loaded buffer requires or has gradients")
					}
					return sameDT(l, d)
				}, "%d/%v/%v", d, s, rg)
			}
		}
		t.Casef("fields", true, func() error {
			l, err := roundTrip(&saved{Name: "only"})
			if err != nil {
				return err
			}
			if l.Name != "only" || l.Model != nil || l.List != nil || l.Map != nil || l.Tail != nil {
				return errf("empty fields are loaded as %+v", l)
			}
			var buf bytes.Buffer
			m := &saved{Model: &saved{List: []nn.Model{&saved{Map: map[string]nn.Model{"k": &saved{Tail: nn.NewParam(d.scalar(7))}}}}}, Tail: nn.NewParam(d.scalar(2))}
			if err := nn.Dump(m, &buf); err != nil {
				return err
			}
			l, err = nn.Load[*saved](&buf)
			if err != nil {
				return err
			}
			ps := paramsOf(l)
			if len(ps) != 2 || ps[0].Item().F64()*ps[1].Item().F64() != 14 {
				return errf("the nested parameters are lost")
			}
			return nil
		}, "%d/nested", d)
		for _, p := range []float64{0, 0.25, 1} {
			t.Casef("dropout", true, func() error {
				l, err := roundTrip(&saved{Model: dropout.New(p)})
				if err != nil {
					return err
				}
				m, ok := l.Model.(*dropout.Model)
				if !ok {
					return errf("loaded as %T", l.Model)
				}
				var outs [2][]mat.Tensor
				for i, m := range []*dropout.Model{dropout.New(p), m} {
					ag.ManualSeed(42)
					forceSync(func() { outs[i] = m.Forward(d.mk(40, 1, ramp(40)), d.mk(2, 3, ramp(6))) })
				}
				return sameTensors(outs[1], outs[0])
			}, "%d/%g", d, p)
		}
	}
}

func s02Table(d DT, size, dim, mask int, way func(nn.Model) (nn.Model, error)) error {
	var m *embedding.Model
	if d == 32 {
		m = embedding.New[float32](size, dim)
	} else {
		m = embedding.New[float64](size, dim)
	}
	for i, w := range m.Weights {
		d.set(w, d.rounds(genMixed(dim, i)))
		if mask>>i&1 == 1 {
			e, err := m.Embedding(i)
			if err != nil {
				return err
			}
			e.AccGrad(d.mk(dim, 1, ramp(dim)))
		}
	}
	any, err := way(m)
	if err != nil {
		return err
	}
	l, ok := any.(*embedding.Model)
	if !ok {
		return errf("loaded as %T", any)
	}
	if l.Size != size || l.Dim != dim || len(l.Weights) != size {
		return errf("a table of %d rows of size %d (%d weights), expected %d and %d", l.Size, l.Dim, len(l.Weights), size, dim)
	}
	if c := l.CountEmbedWithGrad(); c != 0 {
		return errf("%d rows with gradients", c)
	}
	idx := make([]int, 0, 2*size)
	for i := 0; i < size; i++ {
		idx = append(idx, size-1-i, i)
	}
	xs, err := l.Encode(idx)
	if err != nil {
		return err
	}
	for k, i := range idx {
		if err := exactly(xs[k], ref{dim, 1, d.rounds(genMixed(dim, i))}); err != nil {
			return tag(fmt.Sprintf("row %d", i), err)
		}
		if !xs[k].RequiresGrad() || xs[k].HasGrad() {
			return errf("row %d: requires gradients: %v, has gradients: %v", i, xs[k].RequiresGrad(), xs[k].HasGrad())
		}
	}
	for _, bad := range []int{-1, size} {
		if _, err := l.Embedding(bad); err == nil {
			return errf("Embedding(%d) is accepted", bad)
		}
	}
	// it can be trained
	for i := range l.Weights {
		if mask>>i&1 == 0 {
			continue
		}
		x := xs[2*i+1]
		x.AccGrad(d.mk(dim, 1, ramp(dim)))
	}
	n := len(paramsOf(l))
	want := 0
	for i := 0; i < size; i++ {
		want += mask >> i & 1
	}
	if n != want || l.CountEmbedWithGrad() != want {
		return errf("%d parameters are visited, %d are counted, expected %d", n, l.CountEmbedWithGrad(), want)
	}
	l.ZeroGrad()
	if len(paramsOf(l)) != 0 {
		return errf("rows are visited after ZeroGrad")
	}
	// shared tables are saved as empty ones
	s, err := roundTrip(embedding.Shared{Model: m})
	if err != nil {
		return tag("shared", err)
	}
	if s.Model != nil {
		return errf("a shared table has been saved")
	}
	return nil
}

func s02Param(d DT, s [2]int, rg bool, v optVariant) error {
	p := nn.NewParam(d.mk(s[0], s[1], ramp(s[0]*s[1]))).WithGrad(rg)
	kept := []*nn.Param{p} // all the generations are trained
	for gen := 0; gen < 3; gen++ {
		q, err := roundTrip(kept[gen])
		if err != nil {
			return err
		}
		if err := sameMatrix(q, p); err != nil {
			return err
		}
		if a, b := reflect.TypeOf(p.State), reflect.TypeOf(q.State); a != b {
			return errf("the state is loaded as %v, expected %v", b, a)
		}
		if q.HasGrad() {
			return errf("it is loaded with gradients")
		}
		kept = append(kept, q)
		for k, x := range kept {
			st, tick := v.mk(d)
			for i := 0; i < gen; i++ {
				tick()
			}
			x.SetRequiresGrad(true)
			x.AccGrad(d.mk(s[0], s[1], d.rounds(genMixed2(s[0]*s[1], gen))))
			if err := st.OptimizeParams(x); err != nil {
				return err
			}
			x.SetRequiresGrad(rg)
			if err := sameMatrix(x, p); err != nil {
				return tag(fmt.Sprintf("step %d of generation %d", gen, k), err)
			}
		}
	}
	return nil
}
