package checks

import (
	"fmt"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/gradfn"
	"github.com/nlpodyssey/spago/mat/rand"
	"github.com/nlpodyssey/spago/verifmc/lib"
)

func init() { Registry["G05"] = g05 }

// direct is a function which is used without an operator.
type direct struct {
	name string
	in   []sh
	out  sh
	mk   func(x []mat.Tensor) ag.AutoGradFunction
	none []int // operands which never get gradients
}

func directs(shapes ...sh) []direct {
	type T = mat.Tensor
	var out []direct
	add := func(name string, in []sh, o sh, mk func(x []T) ag.AutoGradFunction) {
		out = append(out, direct{name: name, in: in, out: o, mk: mk})
	}
	for _, s := range shapes {
		s := s
		for name, f := range map[string]func(x T) ag.AutoGradFunction{
			"Exp": func(x T) ag.AutoGradFunction { return gradfn.NewExp(x) }, "Copy": func(x T) ag.AutoGradFunction { return gradfn.NewCopy(x) },
			"Log": func(x T) ag.AutoGradFunction { return gradfn.NewLog(x) }, "Tan": func(x T) ag.AutoGradFunction { return gradfn.NewTan(x) },
			"Tanh": func(x T) ag.AutoGradFunction { return gradfn.NewTanh(x) }, "HardSigmoid": func(x T) ag.AutoGradFunction { return gradfn.NewHardSigmoid(x) },
			"HardTanh": func(x T) ag.AutoGradFunction { return gradfn.NewHardTanh(x) }, "ReLU": func(x T) ag.AutoGradFunction { return gradfn.NewReLU(x) },
			"Softsign": func(x T) ag.AutoGradFunction { return gradfn.NewSoftsign(x) }, "Cos": func(x T) ag.AutoGradFunction { return gradfn.NewCos(x) },
			"Sin": func(x T) ag.AutoGradFunction { return gradfn.NewSin(x) }, "Neg": func(x T) ag.AutoGradFunction { return gradfn.NewNeg(x) },
			"Reciprocal": func(x T) ag.AutoGradFunction { return gradfn.NewReciprocal(x) }, "Abs": func(x T) ag.AutoGradFunction { return gradfn.NewAbs(x) },
			"Mish": func(x T) ag.AutoGradFunction { return gradfn.NewMish(x) }, "GELU": func(x T) ag.AutoGradFunction { return gradfn.NewGELU(x) },
			"SiLU": func(x T) ag.AutoGradFunction { return gradfn.NewSiLU(x) }, "Pow": func(x T) ag.AutoGradFunction { return gradfn.NewPow(x, 1.5) },
			"Sigmoid": func(x T) ag.AutoGradFunction { return gradfn.NewSigmoid(x) }, "Sqrt": func(x T) ag.AutoGradFunction { return gradfn.NewSqrt(x) },
			"Square": func(x T) ag.AutoGradFunction { return gradfn.NewSquare(x) }, "Swish": func(x T) ag.AutoGradFunction { return gradfn.NewSwish(x) },
			"Dropout": func(x T) ag.AutoGradFunction { return gradfn.NewDropout(x, 0.5, rand.NewLockedRand(1)) },
			"Pow0":    func(x T) ag.AutoGradFunction { return gradfn.NewPow(x, 0) },
		} {
			f := f
			add(name, []sh{s}, s, func(x []T) ag.AutoGradFunction { return f(x[0]) })
		}
		for name, f := range map[string]func(x []T) ag.AutoGradFunction{
			"Add": func(x []T) ag.AutoGradFunction { return gradfn.NewAdd(x[0], x[1]) }, "Sub": func(x []T) ag.AutoGradFunction { return gradfn.NewSub(x[0], x[1]) },
			"Prod": func(x []T) ag.AutoGradFunction { return gradfn.NewProd(x[0], x[1]) }, "Div": func(x []T) ag.AutoGradFunction { return gradfn.NewDiv(x[0], x[1]) },
			"Max": func(x []T) ag.AutoGradFunction { return gradfn.NewMax(x[0], x[1]) }, "Min": func(x []T) ag.AutoGradFunction { return gradfn.NewMin(x[0], x[1]) },
		} {
			add(name, []sh{s, s}, s, f)
		}
		for name, f := range map[string]func(x []T) ag.AutoGradFunction{
			"AddScalar": func(x []T) ag.AutoGradFunction { return gradfn.NewAddScalar(x[0], x[1]) }, "SubScalar": func(x []T) ag.AutoGradFunction { return gradfn.NewSubScalar(x[0], x[1]) },
			"ProdScalar": func(x []T) ag.AutoGradFunction { return gradfn.NewProdScalar(x[0], x[1]) }, "DivScalar": func(x []T) ag.AutoGradFunction { return gradfn.NewDivScalar(x[0], x[1]) },
			"ReverseSubScalar": func(x []T) ag.AutoGradFunction { return gradfn.NewReverseSubScalar(x[0], x[1]) },
			"CELU":             func(x []T) ag.AutoGradFunction { return gradfn.NewCELU(x[0], x[1]) }, "ELU": func(x []T) ag.AutoGradFunction { return gradfn.NewELU(x[0], x[1]) },
			"LeakyReLU": func(x []T) ag.AutoGradFunction { return gradfn.NewLeakyReLU(x[0], x[1]) }, "SoftShrink": func(x []T) ag.AutoGradFunction { return gradfn.NewSoftShrink(x[0], x[1]) },
			"SwishB": func(x []T) ag.AutoGradFunction { return gradfn.NewSwishB(x[0], x[1]) },
		} {
			add(name, []sh{s, {1, 1}}, s, f)
		}
		for name, f := range map[string]func(x []T) ag.AutoGradFunction{
			"SELU": func(x []T) ag.AutoGradFunction { return gradfn.NewSELU(x[0], x[1], x[2]) }, "SoftPlus": func(x []T) ag.AutoGradFunction { return gradfn.NewSoftPlus(x[0], x[1], x[2]) },
			"Threshold": func(x []T) ag.AutoGradFunction { return gradfn.NewThreshold(x[0], x[1], x[2]) },
		} {
			add(name, []sh{s, {1, 1}, {1, 1}}, s, f)
		}
		n := s[0] * s[1]
		for name, f := range map[string]func(x T) ag.AutoGradFunction{
			"ReduceSum": func(x T) ag.AutoGradFunction { return gradfn.NewReduceSum(x) }, "ReduceMean": func(x T) ag.AutoGradFunction { return gradfn.NewReduceMean(x) },
		} {
			f := f
			add(name, []sh{s}, sh{1, 1}, func(x []T) ag.AutoGradFunction { return f(x[0]) })
		}
		add("Flatten", []sh{s}, sh{1, n}, func(x []T) ag.AutoGradFunction { return gradfn.NewFlatten(x[0]) })
		add("Reshape", []sh{s}, sh{n, 1}, func(x []T) ag.AutoGradFunction { return gradfn.NewReshape(x[0], n, 1) })
		add("Transpose", []sh{s}, sh{s[1], s[0]}, func(x []T) ag.AutoGradFunction { return gradfn.NewTranspose(x[0]) })
		add("At", []sh{s}, sh{1, 1}, func(x []T) ag.AutoGradFunction { return gradfn.NewAt(x[0], s[0]-1, s[1]-1) })
		add("ColView", []sh{s}, sh{s[0], 1}, func(x []T) ag.AutoGradFunction { return gradfn.NewColView(x[0], s[1]-1) })
		add("RowView", []sh{s}, sh{1, s[1]}, func(x []T) ag.AutoGradFunction { return gradfn.NewRowView(x[0], s[0]-1) })
		add("Slice", []sh{s}, sh{1, s[1]}, func(x []T) ag.AutoGradFunction { return gradfn.NewSlice(x[0], 0, 0, 1, s[1]) })
		add("MaxPooling", []sh{s}, sh{1, s[1]}, func(x []T) ag.AutoGradFunction { return gradfn.NewMaxPooling(x[0], s[0], 1) })
		add("AppendRows", []sh{s, {s[1], 1}}, sh{s[0] + 1, s[1]}, func(x []T) ag.AutoGradFunction { return gradfn.NewAppendRows(x[0], x[1]) })
		add("Concat", []sh{{s[0], 1}, {s[1], 1}}, sh{s[0] + s[1], 1}, func(x []T) ag.AutoGradFunction { return gradfn.NewConcat(x) })
		add("Stack", []sh{{s[0], 1}, {s[0], 1}, {s[0], 1}}, sh{3, s[0]}, func(x []T) ag.AutoGradFunction { return gradfn.NewStack(x) })
		add("Mul", []sh{s, {s[1], 2}}, sh{s[0], 2}, func(x []T) ag.AutoGradFunction { return gradfn.NewMul(x[0], x[1]) })
		add("MulT", []sh{{s[1], s[0]}, {s[1], 1}}, sh{s[0], 1}, func(x []T) ag.AutoGradFunction { return gradfn.NewMulT(x[0], x[1]) })
		add("Dot", []sh{s, s}, sh{1, 1}, func(x []T) ag.AutoGradFunction { return gradfn.NewDot(x[0], x[1]) })
		add("Affine", []sh{{s[0], 1}, s, {s[1], 1}}, sh{s[0], 1}, func(x []T) ag.AutoGradFunction { return gradfn.NewAffine(x[0], x[1], x[2]) })
		add("Affine2", []sh{{s[0], 1}, s, {s[1], 1}, {s[0], 2}, {2, 1}}, sh{s[0], 1}, func(x []T) ag.AutoGradFunction {
			return gradfn.NewAffine(x[0], x[1], x[2], x[3], x[4])
		})
		if s[1] == 1 {
			add("Softmax", []sh{s}, s, func(x []T) ag.AutoGradFunction { return gradfn.NewSoftmax(x[0]) })
			add("SparseMax", []sh{s}, s, func(x []T) ag.AutoGradFunction { return gradfn.NewSparseMax(x[0]) })
			add("SparseMaxLoss", []sh{s}, s, func(x []T) ag.AutoGradFunction { return gradfn.NewSparseMaxLoss(x[0]) })
			add("ReduceMax", []sh{s}, sh{1, 1}, func(x []T) ag.AutoGradFunction { return gradfn.NewReduceMax(x[0]) })
			add("RotateR", []sh{s}, s, func(x []T) ag.AutoGradFunction { return gradfn.NewRotateR(x[0], 1) })
		}
	}
	add("ScalarMax", []sh{{1, 1}, {1, 1}, {1, 1}}, sh{1, 1}, func(x []T) ag.AutoGradFunction { return gradfn.NewScalarMax(x) })
	return out
}

// unchecked are functions which do not compare the shape of the gradients with
// the output's in all cases; only right gradients are stated for them.
var unchecked = map[string]bool{"MulT": true, "SparseMax": true, "MaxPooling": true, "AppendRows": true}

func g05(t *lib.T) {
	t.Rule("every function, used directly, x shapes x {float32,float64} x every subset of operands which require gradients x output gradients of every shape up to 4x4: of the right shape, exactly the operands which require gradients get some, of their own shape and type, and twice as many when it is called twice; evaluated again after its operands have changed, the value and the gradients of a new function of these, and the value which it gave before stays the same; with another number of elements, an error or a panic, and no operand gets gradients; operands are listed in order, and neither they nor the output gradients change")
	for _, f := range sortedDirects(sh{2, 3}, sh{3, 1}, sh{1, 3}, sh{1, 1}) {
		f := f
		for _, d := range dts {
			d := d
			for mask := 0; mask < 1<<len(f.in); mask++ {
				mask := mask
				for gr := 1; gr <= 4; gr++ {
					for gc := 1; gc <= 4; gc++ {
						gr, gc := gr, gc
						if unchecked[f.name] && (gr != f.out[0] || gc != f.out[1]) {
							continue
						}
						if gr*gc == f.out[0]*f.out[1] && (gr != f.out[0] || gc != f.out[1]) {
							continue // the same number of elements: not stated
						}
						t.Casef("functions", true, func() error { return f.run(d, mask, gr, gc) }, "%s/%v/%d/mask%b/%dx%d", f.name, f.in, d, mask, gr, gc)
					}
				}
				t.Casef("again", true, func() error { return f.again(d, mask) }, "%s/%v/%d/mask%b", f.name, f.in, d, mask)
				if s := f.out; s[0] > 4 || s[1] > 4 {
					t.Casef("functions", true, func() error { return f.run(d, mask, s[0], s[1]) }, "%s/%v/%d/mask%b/right", f.name, f.in, d, mask)
				}
			}
		}
	}
}

// sortedDirects are the functions in a fixed order.
func sortedDirects(shapes ...sh) []direct {
	fs := directs(shapes...)
	for i := 1; i < len(fs); i++ {
		for j := i; j > 0; j-- {
			a, b := fs[j-1], fs[j]
			if a.name < b.name || a.name == b.name && fmt.Sprint(a.in) <= fmt.Sprint(b.in) {
				break
			}
			fs[j-1], fs[j] = b, a
		}
	}
	return fs
}

func (f direct) run(d DT, mask, gr, gc int) error {
	var xs []mat.Tensor
	var vs []ref
	for i, s := range f.in {
		v := ref{s[0], s[1], d.rounds(genPos(s[0]*s[1], i))}
		m := d.like(v)
		m.SetRequiresGrad(mask>>i&1 == 1)
		xs, vs = append(xs, m), append(vs, v)
	}
	fn := f.mk(xs)
	ops := fn.Operands()
	if f.name == "Square" && len(ops) == 2 && ops[1] == ops[0] {
		ops = ops[:1] // x·x
	}
	if len(ops) != len(xs) {
		return errf("%d operands, expected %d", len(ops), len(xs))
	}
	for i := range ops {
		if ops[i] != xs[i] {
			return errf("operand %d is another one", i)
		}
	}
	y, err := fn.Forward()
	if err != nil {
		return tag("forward", err)
	}
	if r, c := dims(y); r != f.out[0] || c != f.out[1] {
		return errf("the output has shape %d×%d, expected %v", r, c, f.out)
	}
	if err := sameDT(y, d); err != nil {
		return tag("output", err)
	}
	gyv := d.rounds(coefs(gr*gc, false))
	gy := d.mk(gr, gc, gyv)
	right := gr == f.out[0] && gc == f.out[1]
	var first []ref
	for round := 0; round < 2; round++ {
		err := lib.Guard(func() error { return fn.Backward(gy) })
		if right && err != nil {
			return tag("backward", err)
		}
		if !right && err == nil && mask != 0 {
			return errf("gradients of shape %d×%d are accepted for an output of shape %v", gr, gc, f.out)
		}
		for i, x := range xs {
			if err := exactly(x, vs[i]); err != nil {
				return tag(fmt.Sprintf("operand %d has been changed", i), err)
			}
			if !right || mask>>i&1 == 0 {
				if x.HasGrad() {
					return errf("operand %d has got gradients (it requires them: %v; right shape: %v)", i, mask>>i&1 == 1, right)
				}
				continue
			}
			g := x.Grad()
			if g == nil {
				if f.name == "SparseMaxLoss" || f.name == "ScalarMax" || f.name == "Threshold" || f.name == "SoftPlus" {
					continue // null gradients can be omitted
				}
				return errf("operand %d has no gradients", i)
			}
			if r, c := dims(g); (r != vs[i].r || c != vs[i].c) && !(f.name == "AppendRows" && i > 0 && r*c == vs[i].r*vs[i].c) {
				return errf("operand %d has gradients of shape %d×%d", i, r, c)
			}
			if err := sameDT(g, d); err != nil {
				return tag("gradients", err)
			}
			if g == mat.Tensor(gy) {
				return errf("operand %d shares the gradients of the output", i)
			}
		}
		if err := exactly(gy, ref{gr, gc, gyv}); err != nil {
			return tag("the gradients of the output have been changed", err)
		}
		if !right {
			return nil
		}
		// the second time, twice as many
		for i, x := range xs {
			g := ref{1, 1, []float64{0}}
			if x.HasGrad() {
				g = refOf(x.Grad())
			}
			if round == 0 {
				first = append(first, g)
				continue
			}
			if !x.HasGrad() {
				continue
			}
			if err := same(x.Grad(), first[i].scaled(2), d.tol(1e-12, 1e-5), d.tol(1e-12, 1e-6)); err != nil {
				return tag(fmt.Sprintf("gradients of operand %d after the second call", i), err)
			}
		}
	}
	return nil
}

// again evaluates one function, changes its operands, and evaluates it again.
func (f direct) again(d DT, mask int) error {
	if f.name == "Dropout" {
		return nil // draws another mask
	}
	mk := func(k int) []mat.Tensor {
		var xs []mat.Tensor
		for i, s := range f.in {
			m := d.like(ref{s[0], s[1], d.rounds(genPos(s[0]*s[1], i+k))})
			m.SetRequiresGrad(mask>>i&1 == 1)
			xs = append(xs, m)
		}
		return xs
	}
	gy := d.mk(f.out[0], f.out[1], d.rounds(coefs(f.out[0]*f.out[1], false)))
	xs := mk(0)
	fn := f.mk(xs)
	y0, err := fn.Forward()
	if err != nil {
		return tag("forward", err)
	}
	before := refOf(y0)
	for backward := 0; backward < 2; backward++ {
		if backward == 1 {
			if err := fn.Backward(gy); err != nil {
				return tag("backward", err)
			}
		}
		news := mk(3 + backward)
		for i, x := range xs {
			x.ZeroGrad()
			d.set(x, mat.Data[float64](news[i]))
		}
		y, err := fn.Forward()
		if err != nil {
			return tag("forward again", err)
		}
		fresh := f.mk(news)
		w, err := fresh.Forward()
		if err != nil {
			return tag("forward of a new function", err)
		}
		if err := exactly(y, refOf(w)); err != nil {
			return tag("value after the operands changed", err)
		}
		if err := exactly(y0, before); err != nil {
			return tag("the value which it gave before", err)
		}
		if err := first(fn.Backward(gy), fresh.Backward(gy)); err != nil {
			return tag("backward again", err)
		}
		for i := range xs {
			if xs[i].HasGrad() != news[i].HasGrad() {
				return errf("operand %d has gradients: %v, with a new function: %v", i, xs[i].HasGrad(), news[i].HasGrad())
			}
			if !xs[i].HasGrad() {
				continue
			}
			if err := same(xs[i].Grad(), refOf(news[i].Grad()), d.tol(1e-12, 1e-5), d.tol(1e-12, 1e-6)); err != nil {
				return tag(fmt.Sprintf("gradients of operand %d after the operands changed", i), err)
			}
		}
	}
	return nil
}
