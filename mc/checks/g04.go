package checks

import (
	"math"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/verifmc/lib"
)

func init() { Registry["G04"] = g04 }

type stableFn struct {
	name   string
	params []float64
	f      func(x []mat.Tensor) mat.Tensor
	def    func(x float64, p []float64) float64
	// the derivatives with respect to the operands
	der []func(x float64, p []float64) float64
}

func step(c bool, a, b float64) float64 {
	if c {
		return a
	}
	return b
}

func stableFns() []stableFn {
	type fs = []func(x float64, p []float64) float64
	type ts = []mat.Tensor
	un := func(name string, f func(mat.Tensor) mat.Tensor, def, der func(float64) float64) stableFn {
		return stableFn{name, nil, func(x []mat.Tensor) mat.Tensor { return f(x[0]) },
			func(x float64, _ []float64) float64 { return def(x) }, fs{func(x float64, _ []float64) float64 { return der(x) }}}
	}
	sd := func(x float64) float64 { return sigmoid(x) * sigmoid(-x) }
	silud := func(x float64) float64 { return sigmoid(x) + x*sd(x) }
	expm1 := math.Expm1
	elud := func(x, a float64) float64 { return step(x > 0, 1, a*math.Exp(math.Min(x, 0))) }
	eluad := func(x float64) float64 { return step(x > 0, 0, expm1(math.Min(x, 0))) }
	zero := func(float64, []float64) float64 { return 0 }
	out := []stableFn{
		un("Abs", ag.Abs, math.Abs, func(x float64) float64 { return step(x > 0, 1, -1) }),
		un("Neg", ag.Neg, func(x float64) float64 { return -x }, func(x float64) float64 { return -1 }),
		un("Copy", ag.Copy, func(x float64) float64 { return x }, func(x float64) float64 { return 1 }),
		un("Sigmoid", ag.Sigmoid, sigmoid, sd),
		un("SiLU", ag.SiLU, func(x float64) float64 { return x * sigmoid(x) }, silud),
		un("Swish", ag.Swish, func(x float64) float64 { return x * sigmoid(x) }, silud),
		un("Tanh", ag.Tanh, math.Tanh, func(x float64) float64 { return 4 * sigmoid(2*x) * sigmoid(-2*x) }),
		un("Softsign", ag.Softsign, func(x float64) float64 { return x / (1 + math.Abs(x)) }, func(x float64) float64 { a := 1 + math.Abs(x); return 1 / a / a }),
		un("ReLU", ag.ReLU, func(x float64) float64 { return math.Max(0, x) }, func(x float64) float64 { return step(x > 0, 1, 0) }),
		un("GELU", ag.GELU, geluDef, func(x float64) float64 {
			if math.Abs(x) > 30 {
				return step(x > 0, 1, 0)
			}
			k := math.Sqrt(2 / math.Pi)
			u := k * (x + 0.044715*x*x*x)
			return 0.5*(1+math.Tanh(u)) + 0.5*x*4*sigmoid(2*u)*sigmoid(-2*u)*k*(1+3*0.044715*x*x)
		}),
		un("HardSigmoid", ag.HardSigmoid, func(x float64) float64 { return math.Max(0, math.Min(1, 0.2*x+0.5)) },
			func(x float64) float64 { return step(math.Abs(x) < 2.5, 0.2, 0) }),
		un("HardTanh", ag.HardTanh, func(x float64) float64 { return math.Max(-1, math.Min(1, x)) },
			func(x float64) float64 { return step(math.Abs(x) < 1, 1, 0) }),
		un("Mish", ag.Mish, func(x float64) float64 { return x * math.Tanh(softplus(x)) }, func(x float64) float64 {
			s := softplus(x)
			return math.Tanh(s) + x*4*sigmoid(2*s)*sigmoid(-2*s)*sigmoid(x)
		}),
		un("PositiveELU", ag.PositiveELU, func(x float64) float64 { return eluDef(x, 1) + 1 }, func(x float64) float64 { return elud(x, 1) }),
	}
	for _, a := range []float64{1, 0.5, 2} {
		out = append(out,
			stableFn{"CELU", []float64{a}, func(x ts) mat.Tensor { return ag.CELU(x[0], x[1]) },
				func(x float64, p []float64) float64 { return celuDef(x, p[0]) },
				fs{func(x float64, p []float64) float64 { return elud(x/p[0], 1) },
					func(x float64, p []float64) float64 {
						if x > 0 {
							return 0
						}
						u := x / p[0]
						return expm1(u) - u*math.Exp(u)
					}}},
			stableFn{"ELU", []float64{a}, func(x ts) mat.Tensor { return ag.ELU(x[0], x[1]) },
				func(x float64, p []float64) float64 { return eluDef(x, p[0]) },
				fs{func(x float64, p []float64) float64 { return elud(x, p[0]) }, func(x float64, p []float64) float64 { return eluad(x) }}},
			stableFn{"SELU", []float64{a, 1.5}, func(x ts) mat.Tensor { return ag.SELU(x[0], x[1], x[2]) },
				func(x float64, p []float64) float64 { return p[1] * eluDef(x, p[0]) },
				fs{func(x float64, p []float64) float64 { return p[1] * elud(x, p[0]) },
					func(x float64, p []float64) float64 { return p[1] * eluad(x) },
					func(x float64, p []float64) float64 { return eluDef(x, p[0]) }}},
			stableFn{"LeakyReLU", []float64{a / 4}, func(x ts) mat.Tensor { return ag.LeakyReLU(x[0], x[1]) },
				func(x float64, p []float64) float64 { return step(x > 0, x, p[0]*x) },
				fs{func(x float64, p []float64) float64 { return step(x > 0, 1, p[0]) }, func(x float64, p []float64) float64 { return math.Min(0, x) }}},
			stableFn{"SoftPlus", []float64{a, 20}, func(x ts) mat.Tensor { return ag.SoftPlus(x[0], x[1], x[2]) },
				func(x float64, p []float64) float64 { return softplusDef(x, p[0], p[1]) },
				fs{func(x float64, p []float64) float64 { return step(x > p[1], 1, sigmoid(x*p[0])) },
					func(x float64, p []float64) float64 {
						if x > p[1] {
							return 0
						}
						return x*sigmoid(x*p[0])/p[0] - softplus(x*p[0])/p[0]/p[0]
					}, zero}},
			// a threshold which does not hide the large values
			stableFn{"SoftPlusNoThreshold", []float64{a, 1e35}, func(x ts) mat.Tensor { return ag.SoftPlus(x[0], x[1], x[2]) },
				func(x float64, p []float64) float64 { return softplusDef(x, p[0], p[1]) },
				fs{func(x float64, p []float64) float64 { return sigmoid(x * p[0]) }, nil, zero}},
			stableFn{"SoftShrink", []float64{a}, func(x ts) mat.Tensor { return ag.SoftShrink(x[0], x[1]) },
				func(x float64, p []float64) float64 { return softshrinkDef(x, p[0]) },
				fs{func(x float64, p []float64) float64 { return step(math.Abs(x) > p[0], 1, 0) },
					func(x float64, p []float64) float64 {
						return step(x > p[0], -1, step(x < -p[0], 1, 0))
					}}},
			stableFn{"SwishB", []float64{a}, func(x ts) mat.Tensor { return ag.SwishB(x[0], x[1]) },
				func(x float64, p []float64) float64 { return x * sigmoid(x*p[0]) },
				fs{func(x float64, p []float64) float64 { u := x * p[0]; return sigmoid(u) + u*sd(u) },
					func(x float64, p []float64) float64 { return x * (x * sd(x*p[0])) }}},
			stableFn{"Threshold", []float64{a * 3, -a}, func(x ts) mat.Tensor { return ag.Threshold(x[0], x[1], x[2]) },
				func(x float64, p []float64) float64 { return step(x > p[0], x, p[1]) },
				fs{func(x float64, p []float64) float64 { return step(x > p[0], 1, 0) }, zero,
					func(x float64, p []float64) float64 { return step(x > p[0], 0, 1) }}},
		)
	}
	return out
}

func g04(t *lib.T) {
	t.Rule("every activation function at values of every magnitude (1e-30 to 1e30, of both signs, next to one another in short and long vectors) with several parameters, and softmax, log-sum-exp, sparsemax, log-softmax over short and long vectors with every offset and spread of a list, and with one element far from the others at several places × {float32,float64}; values and derivatives (of the parameters too) are compared with overflow-free definitions, and must be finite; non-trivial: the exponentials of some value overflow or vanish")
	t.Assume("log-softmax is documented as the logarithm of the softmax, so it is only compared where the softmax does not vanish")
	mags := []float64{1e-30, 1e-12, 1e-8, 1e-4, 0.03, 0.3, 0.9, 1.7, 2.3, 5, 10, 15, 19, 21, 30, 40, 60, 80, 87, 90, 100, 104, 200, 350, 400, 700, 720, 745, 760, 1000, 1500, 1e4, 1e6, 1e9, 1e15, 1e30}
	if t.Thorough() {
		for x := 0.05; x < 1e5; x *= 1.09 {
			mags = append(mags, x)
		}
	}
	for _, fn := range stableFns() {
		for _, d := range dts {
			for _, m := range mags {
				for _, sign := range []float64{1, -1} {
					x := d.round(m * sign)
					t.Casef("activations", m > 30, func() error {
						return fn.check(d, []float64{x, 0.7, -x, -0.7, x / 2})
					}, "%s/%d/%v/%v", fn.name, d, fn.params, x)
				}
			}
		}
	}
	// long vectors: each magnitude at each place of the vectorized code
	for _, fn := range stableFns() {
		for _, d := range dts {
			for _, n := range []int{33, 67, 1027} {
				for shift := 0; shift < len(mags); shift += lib.Pick(t, 5, 1) {
					x := make([]float64, n)
					for i := range x {
						x[i] = d.round(mags[(i+shift)%len(mags)] * float64(1-2*(i/len(mags)%2)))
					}
					t.Casef("activations", true, func() error { return fn.check(d, x) }, "%s/%d/%v/long%d/%d", fn.name, d, fn.params, n, shift)
				}
			}
		}
	}
	// one element far from the others
	for _, d := range dts {
		for _, n := range []int{2, 3, 4, 8, 17, 33, 67, 130, 1027} {
			for _, at := range []int{0, 1, n / 4, n / 2, n - 2, n - 1} {
				for _, spike := range []float64{20, 90, 800, 1e4, 1e6, -90, -800, -1e4, -1e6} {
					for _, off := range []float64{0, 500, -2000} {
						x := make([]float64, n)
						for i := range x {
							x[i] = d.round(off + 0.5*math.Sin(float64(i)*2.1+0.3))
						}
						x[at] = d.round(off + spike)
						t.Casef("normalisations", true, func() error { return stableVec(d, x) }, "%d/spike%v/%v/%d of %d", d, spike, off, at, n)
					}
				}
			}
		}
	}
	offsets := []float64{0, 1, 50, 88, 100, 710, 1000, 1e4, 1e6}
	spreads := []float64{0, 0.1, 1, 10, 40}
	for _, d := range dts {
		for _, off := range offsets {
			for _, sign := range []float64{1, -1} {
				for _, spread := range spreads {
					for _, n := range []int{1, 2, 3, 5, 9, 35, 131} {
						x := make([]float64, n)
						for i := range x {
							x[i] = d.round(off*sign + spread*math.Sin(float64(i)*2.1+0.3))
						}
						t.Casef("normalisations", off > 80, func() error { return stableVec(d, x) }, "%d/offset%v/spread%v/%d", d, off*sign, spread, n)
					}
				}
			}
		}
	}
}

func finite(what string, m mat.Tensor) error {
	for i, v := range vals(m) {
		if math.IsNaN(v) || math.IsInf(v, 0) {
			return errf("%s: element %d is %v", what, i, v)
		}
	}
	return nil
}

func (fn stableFn) check(d DT, xs []float64) error {
	ops := []mat.Tensor{d.g(len(xs), 1, xs)}
	ps := d.rounds(fn.params)
	for _, p := range ps {
		ops = append(ops, d.g(1, 1, []float64{p}))
	}
	y := fn.f(ops)
	want := newRef(len(xs), 1)
	for i, x := range xs {
		want.v[i] = fn.def(x, ps)
	}
	if err := same(y, want, d.tol(1e-9, 1e-4), d.tol(1e-12, 1e-6)); err != nil {
		return tag("value", err)
	}
	gy := []float64{1, -0.5, 2, 0.25, 1.5}
	for i := len(gy); i < len(xs); i++ {
		gy = append(gy, gy[i%5])
	}
	y.AccGrad(d.mk(len(xs), 1, gy))
	if err := ag.Backward(y); err != nil {
		return err
	}
	for k, der := range fn.der {
		if der == nil {
			continue
		}
		var w []float64
		scale := 0.0
		for i, x := range xs {
			v := gy[i] * der(x, ps)
			scale = math.Max(scale, math.Abs(v))
			if k == 0 {
				w = append(w, v)
			} else if i == 0 {
				w = append(w, v)
			} else {
				w[0] += v
			}
		}
		if d == 32 && scale > 1e38 {
			continue
		}
		tol := d.tol(1e-7, 1e-3)
		if fn.name == "GELU" {
			tol = 1e-3
		}
		abs := d.tol(1e-9, 1e-5)
		if k > 0 {
			abs = math.Max(abs, scale*d.tol(1e-9, 1e-4))
		}
		if fn.name == "GELU" {
			abs = 1e-5
		}
		if err := lib.CloseSlices(vals(ops[k].Grad()), w, tol, abs); err != nil {
			return tag(map[bool]string{true: "derivative", false: "derivative of a parameter"}[k == 0], err)
		}
	}
	return nil
}

func stableVec(d DT, xs []float64) error {
	n := len(xs)
	l := logSumExp(xs)
	soft := ref{n, 1, xs}.apply(func(v float64) float64 { return math.Exp(v - l) })
	// rounding of the differences from the maximum
	m := maxOf(ref{n, 1, xs})
	abs := d.tol(1e-9, 2e-5)
	rel := d.tol(1e-9, 2e-5)
	gy := coefs(n, false)
	run := func(name string, f func(mat.Tensor) mat.Tensor, want ref, grad func() []float64) error {
		x := d.g(n, 1, xs)
		y := f(x)
		if err := same(y, want, rel, abs); err != nil {
			return tag(name, err)
		}
		g := gy
		if y.Value().Size() == 1 {
			g = []float64{1.5}
		}
		y.AccGrad(d.mk(y.Value().Shape()[0], 1, g))
		if err := ag.Backward(y); err != nil {
			return tag(name, err)
		}
		if err := lib.CloseSlices(vals(x.Grad()), grad(), d.tol(1e-8, 1e-3), d.tol(1e-9, 1e-4)); err != nil {
			return tag(name+": gradients", err)
		}
		return nil
	}
	dot := 0.0
	for i := range gy {
		dot += gy[i] * soft.v[i]
	}
	// The LogSumExp of large values has the rounding of the values themselves.
	lse := func() error {
		x := d.g(n, 1, xs)
		y := ag.LogSumExp(x)
		if err := same(y, one1(l), d.tol(1e-12, 1e-6), abs); err != nil {
			return tag("LogSumExp", err)
		}
		y.AccGrad(d.mk(1, 1, []float64{1.5}))
		if err := ag.Backward(y); err != nil {
			return err
		}
		return finite("gradients of LogSumExp", x.Grad())
	}
	lses := func() error {
		if n == 1 {
			return nil
		}
		var os []mat.Tensor
		for _, v := range xs {
			os = append(os, d.g(1, 1, []float64{v}))
		}
		y := ag.LogSumExp(os...)
		if err := same(y, one1(l), d.tol(1e-12, 1e-6), abs); err != nil {
			return tag("LogSumExp of a list", err)
		}
		y.AccGrad(d.mk(1, 1, []float64{1.5}))
		if err := ag.Backward(y); err != nil {
			return err
		}
		for i, o := range os {
			if !lib.Close(vals(o.Grad())[0], 1.5*soft.v[i], d.tol(1e-8, 1e-3), d.tol(1e-9, 1e-4)) && !ties(xs) {
				return errf("LogSumExp of a list: gradient %d is %v, expected %v", i, vals(o.Grad())[0], 1.5*soft.v[i])
			}
		}
		return nil
	}
	sm, tau := sparsemaxDef(ref{n, 1, xs}.apply(func(v float64) float64 { return v - m }))
	_ = tau
	logOK := true
	for _, v := range soft.v {
		if v < d.tol(1e-300, 1e-37) {
			logOK = false
		}
	}
	return first(
		run("Softmax", ag.Softmax, soft, func() []float64 {
			g := make([]float64, n)
			for i := range g {
				g[i] = soft.v[i] * (gy[i] - dot)
			}
			return g
		}),
		lse(), lses(),
		run("SparseMax", ag.SparseMax, sm, func() []float64 {
			g := make([]float64, n)
			s, k := 0.0, 0.0
			for i, v := range sm.v {
				if v > 0 {
					s += gy[i]
					k++
				}
			}
			for i, v := range sm.v {
				if v > 0 {
					g[i] = gy[i] - s/k
				}
			}
			return g
		}),
		func() error {
			if !logOK {
				return nil
			}
			s := 0.0
			for _, v := range gy {
				s += v
			}
			return run("LogSoftmax", ag.LogSoftmax, ref{n, 1, xs}.apply(func(v float64) float64 { return v - l }), func() []float64 {
				g := make([]float64, n)
				for i := range g {
					g[i] = gy[i] - s*soft.v[i]
				}
				return g
			})
		}(),
	)
}

func ties(xs []float64) bool {
	m, k := maxOf(ref{len(xs), 1, xs}), 0
	for _, v := range xs {
		if v == m {
			k++
		}
	}
	return k > 1
}
