package checks

import (
	"math"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/verifmc/lib"
)

func init() { Registry["G01"] = g01 }

func sigmoid(x float64) float64 {
	if x >= 0 {
		return 1 / (1 + math.Exp(-x))
	}
	e := math.Exp(x)
	return e / (1 + e)
}

func softplus(x float64) float64 { return math.Max(x, 0) + math.Log1p(math.Exp(-math.Abs(x))) }

func geluDef(x float64) float64 {
	return 0.5 * x * (1 + math.Tanh(math.Sqrt(2/math.Pi)*(x+0.044715*x*x*x)))
}

func celuDef(x, a float64) float64 { return math.Max(0, x) + math.Min(0, a*math.Expm1(x/a)) }

func eluDef(x, a float64) float64 {
	if x > 0 {
		return x
	}
	return a * math.Expm1(x)
}

func softplusDef(x, b, th float64) float64 {
	if x > th {
		return x
	}
	return softplus(x*b) / b
}

func softshrinkDef(x, l float64) float64 {
	switch {
	case x > l:
		return x - l
	case x < -l:
		return x + l
	}
	return 0
}

// scalarFns are the functions of one value.
var scalarFns = []struct {
	name string
	pos  bool // defined on positive values
	f    func(mat.Tensor) mat.Tensor
	def  func(float64) float64
}{
	{"Abs", false, ag.Abs, math.Abs},
	{"Cos", false, ag.Cos, math.Cos},
	{"Sin", false, ag.Sin, math.Sin},
	{"Tan", false, func(x mat.Tensor) mat.Tensor { return ag.Tan(x) }, math.Tan},
	{"Tanh", false, ag.Tanh, math.Tanh},
	{"Exp", false, ag.Exp, math.Exp},
	{"Log", true, ag.Log, math.Log},
	{"Neg", false, ag.Neg, func(x float64) float64 { return -x }},
	{"Copy", false, ag.Copy, func(x float64) float64 { return x }},
	{"Reciprocal", false, ag.Reciprocal, func(x float64) float64 { return 1 / x }},
	{"ReverseSubOne", false, ag.ReverseSubOne, func(x float64) float64 { return 1 - x }},
	{"Sqrt", true, ag.Sqrt, math.Sqrt},
	{"Square", false, ag.Square, func(x float64) float64 { return x * x }},
	{"Pow0", false, func(x mat.Tensor) mat.Tensor { return ag.Pow(x, 0) }, func(x float64) float64 { return 1 }},
	{"Pow2", false, func(x mat.Tensor) mat.Tensor { return ag.Pow(x, 2) }, func(x float64) float64 { return x * x }},
	{"Pow3", false, func(x mat.Tensor) mat.Tensor { return ag.Pow(x, 3) }, func(x float64) float64 { return x * x * x }},
	{"Pow1", false, func(x mat.Tensor) mat.Tensor { return ag.Pow(x, 1) }, func(x float64) float64 { return x }},
	{"Pow-1", false, func(x mat.Tensor) mat.Tensor { return ag.Pow(x, -1) }, func(x float64) float64 { return 1 / x }},
	{"Pow0.5", true, func(x mat.Tensor) mat.Tensor { return ag.Pow(x, 0.5) }, math.Sqrt},
	{"Pow-1.5", true, func(x mat.Tensor) mat.Tensor { return ag.Pow(x, -1.5) }, func(x float64) float64 { return math.Pow(x, -1.5) }},
	{"Sigmoid", false, ag.Sigmoid, sigmoid},
	{"SiLU", false, ag.SiLU, func(x float64) float64 { return x * sigmoid(x) }},
	{"Swish", false, ag.Swish, func(x float64) float64 { return x * sigmoid(x) }},
	{"Softsign", false, ag.Softsign, func(x float64) float64 { return x / (1 + math.Abs(x)) }},
	{"ReLU", false, ag.ReLU, func(x float64) float64 { return math.Max(0, x) }},
	{"GELU", false, ag.GELU, geluDef},
	{"HardSigmoid", false, ag.HardSigmoid, func(x float64) float64 { return math.Max(0, math.Min(1, 0.2*x+0.5)) }},
	{"HardTanh", false, ag.HardTanh, func(x float64) float64 { return math.Max(-1, math.Min(1, x)) }},
	{"Mish", false, ag.Mish, func(x float64) float64 { return x * math.Tanh(softplus(x)) }},
	{"PositiveELU", false, ag.PositiveELU, func(x float64) float64 { return eluDef(x, 1) + 1 }},
}

// paramFns are the functions of one value and some scalar parameters.
var paramFns = []struct {
	name   string
	params [][]float64
	f      func(x []mat.Tensor) mat.Tensor
	def    func(x float64, p []float64) float64
}{
	{"CELU", [][]float64{{1}, {0.6}, {1.7}}, func(x []mat.Tensor) mat.Tensor { return ag.CELU(x[0], x[1]) },
		func(x float64, p []float64) float64 { return celuDef(x, p[0]) }},
	{"ELU", [][]float64{{1}, {0.6}, {-0.4}, {0}}, func(x []mat.Tensor) mat.Tensor { return ag.ELU(x[0], x[1]) },
		func(x float64, p []float64) float64 { return eluDef(x, p[0]) }},
	{"LeakyReLU", [][]float64{{0.01}, {0.3}, {-0.2}, {0}}, func(x []mat.Tensor) mat.Tensor { return ag.LeakyReLU(x[0], x[1]) },
		func(x float64, p []float64) float64 {
			if x > 0 {
				return x
			}
			return p[0] * x
		}},
	{"SELU", [][]float64{{1.67, 1.05}, {0.7, 2}}, func(x []mat.Tensor) mat.Tensor { return ag.SELU(x[0], x[1], x[2]) },
		func(x float64, p []float64) float64 { return p[1] * eluDef(x, p[0]) }},
	{"SoftPlus", [][]float64{{1, 20}, {2, 1}, {0.5, 0.7}}, func(x []mat.Tensor) mat.Tensor { return ag.SoftPlus(x[0], x[1], x[2]) },
		func(x float64, p []float64) float64 { return softplusDef(x, p[0], p[1]) }},
	{"SoftShrink", [][]float64{{0.5}, {1.05}, {0}}, func(x []mat.Tensor) mat.Tensor { return ag.SoftShrink(x[0], x[1]) },
		func(x float64, p []float64) float64 { return softshrinkDef(x, p[0]) }},
	{"SwishB", [][]float64{{1}, {0.4}, {-1.3}, {0}}, func(x []mat.Tensor) mat.Tensor { return ag.SwishB(x[0], x[1]) },
		func(x float64, p []float64) float64 { return x * sigmoid(x*p[0]) }},
	{"Threshold", [][]float64{{0.1, 20}, {-0.8, 3.1}, {1.05, -2}}, func(x []mat.Tensor) mat.Tensor { return ag.Threshold(x[0], x[1], x[2]) },
		func(x float64, p []float64) float64 {
			if x > p[0] {
				return x
			}
			return p[1]
		}},
}

func elementwise(f func(float64) float64) func([]ref) ref {
	return func(x []ref) ref { return x[0].apply(f) }
}

func zipDef(f func(a, b float64) float64) func([]ref) ref {
	return func(x []ref) ref { return zipRef(x[0], x[1], f) }
}

func scalarDef(f func(a, b float64) float64) func([]ref) ref {
	return func(x []ref) ref { return x[0].apply(func(v float64) float64 { return f(v, x[1].v[0]) }) }
}

func g01(t *lib.T) {
	t.Rule("every element-wise operator (functions of one value, parametrised activations, binary operators, operators with a scalar, and sums, means, maxima and minima of lists) × {float32,float64} × shapes × value sets on both sides of every kink × kinds of operand (leaf, parameter, intermediate node, leaf which has gradients) × every subset of operands which require gradients × dense and sparse output gradients, and with the same tensor as two operands; the gradients are compared with central differences of the definition; non-trivial: some operand requires gradients")
	t.Assume("at the kinks of the functions, any number between the derivatives at their two sides, or zero, is accepted")
	shs := [][2]int{{1, 1}, {1, 4}, {4, 1}, {2, 3}, {3, 3}, {1, 9}, {17, 1}}
	if t.Thorough() {
		shs = append(shs, sh{8, 1}, sh{1, 16}, sh{5, 7}, sh{33, 1}, sh{2, 2}, sh{3, 1}, sh{1, 3}, sh{4, 8})
	}
	big := [][2]int{{34, 1}, {1, 65}, {5, 13}, {9, 16}}
	var lone, ltwo [][][2]int
	for _, s := range big {
		lone = append(lone, [][2]int{s})
		ltwo = append(ltwo, [][2]int{s, s})
	}
	// very large ones
	var hone, htwo, hscalar [][][2]int
	for _, s := range [][2]int{{1025, 1}, {1, 1025}, {40, 41}, {2051, 1}} {
		hone = append(hone, [][2]int{s})
		htwo = append(htwo, [][2]int{s, s})
		hscalar = append(hscalar, [][2]int{s, {1, 1}})
	}
	var one, two [][][2]int
	for _, s := range shs {
		one = append(one, [][2]int{s})
		two = append(two, [][2]int{s, s})
	}
	mixed := gens{genMixed, genMixed2, genSmall}
	positives := gens{genPos, func(n, s int) []float64 { return genPos(n, s+4) }}
	for _, fn := range scalarFns {
		g := mixed
		if fn.pos {
			g = positives
		}
		f := fn.f
		o := gop{name: fn.name, points: pts(g, one...), f: func(x []mat.Tensor) mat.Tensor { return f(x[0]) }, def: elementwise(fn.def)}
		if fn.name == "GELU" {
			o.loose = 1e-4 // the derivative is an approximation with rounded constants
		}
		o.check(t, "unary")
		o.large(pts(g[:1], lone...)).check(t, "large")
		long := gens{genLong}
		if fn.pos {
			long = gens{genLongPos}
		}
		o.huge(pts(long, hone...)).check(t, "huge")
		o.light = false
		switch fn.name { // those which are smooth at zero
		case "Cos", "Sin", "Tan", "Tanh", "Exp", "Neg", "Copy", "ReverseSubOne", "Square", "Pow0", "Pow1", "Pow2", "Pow3", "Sigmoid", "SiLU", "Swish", "GELU", "Mish", "Softsign":
			o.points = [][]ref{{{1, 1, []float64{0}}}, {{3, 1, []float64{0.5, 0, -0.25}}}, {{1, 3, []float64{0, 0, 0}}}, {{3, 3, []float64{0, 1, 0, -1, 0, 0.5, 2, -2, 0}}}}
			o.check(t, "zeros")
		}
	}
	for _, fn := range paramFns {
		var points [][]ref
		for _, p := range append(pts(mixed, one...), pts(mixed[:1], lone...)...) {
			for _, ps := range fn.params {
				q := append([]ref(nil), p...)
				for _, v := range ps {
					q = append(q, ref{1, 1, []float64{v}})
				}
				points = append(points, q)
			}
		}
		def := fn.def
		var hpoints [][]ref
		for _, p := range pts(gens{genLong}, hone...) {
			for _, ps := range fn.params[:1] {
				q := append([]ref(nil), p...)
				for _, v := range ps {
					q = append(q, ref{1, 1, []float64{v}})
				}
				hpoints = append(hpoints, q)
			}
		}
		o := gop{name: fn.name, points: points, f: fn.f, def: func(x []ref) ref {
			var ps []float64
			for _, p := range x[1:] {
				ps = append(ps, p.v[0])
			}
			return x[0].apply(func(v float64) float64 { return def(v, ps) })
		}}.noTwins()
		o.check(t, "parametrised")
		o.huge(hpoints).check(t, "huge")
	}
	kinks(t)
	for _, b := range []struct {
		name string
		f    func(a, b mat.Tensor) mat.Tensor
		def  func(a, b float64) float64
		twin bool
	}{
		{"Add", ag.Add, func(a, b float64) float64 { return a + b }, true},
		{"Sub", ag.Sub, func(a, b float64) float64 { return a - b }, true},
		{"Prod", ag.Prod, func(a, b float64) float64 { return a * b }, true},
		{"Div", ag.Div, func(a, b float64) float64 { return a / b }, true},
		{"Max", ag.Max, math.Max, false},
		{"Min", ag.Min, math.Min, false},
	} {
		f := b.f
		o := gop{name: b.name, points: pts(mixed, two...), f: func(x []mat.Tensor) mat.Tensor { return f(x[0], x[1]) }, def: zipDef(b.def)}
		o.single = !b.twin
		o.check(t, "binary")
		o.large(pts(mixed[:2], ltwo...)).check(t, "large")
		o.huge(pts(gens{genLong}, htwo...)).check(t, "huge")
		if b.twin && b.name != "Div" {
			o.light = false
			o.points = pts(gens{genTied, genZeros}, two...)
			o.check(t, "zeros")
		}
	}
	for _, b := range []struct {
		name string
		f    func(a, b mat.Tensor) mat.Tensor
		def  func(a, b float64) float64
	}{
		{"AddScalar", ag.AddScalar, func(a, b float64) float64 { return a + b }},
		{"SubScalar", ag.SubScalar, func(a, b float64) float64 { return a - b }},
		{"ReverseSub", ag.ReverseSub, func(a, b float64) float64 { return b - a }},
		{"ProdScalar", ag.ProdScalar, func(a, b float64) float64 { return a * b }},
		{"DivScalar", ag.DivScalar, func(a, b float64) float64 { return a / b }},
	} {
		var ss [][][2]int
		for _, s := range shs {
			ss = append(ss, [][2]int{s, {1, 1}})
		}
		f := b.f
		o := gop{name: b.name, points: pts(mixed, ss...), f: func(x []mat.Tensor) mat.Tensor { return f(x[0], x[1]) }, def: scalarDef(b.def)}
		o.check(t, "scalar")
		o.huge(pts(gens{genLong}, hscalar...)).check(t, "huge")
		o.light, o.probed = false, false
		o.points, o.single = nil, b.name == "DivScalar" // not 0/0
		for _, s := range append(ss, [][2]int{{34, 1}, {1, 1}}, [][2]int{{5, 13}, {1, 1}}) {
			for _, g := range (gens{genTied, genZeros, genMixed}) {
				n := s[0][0] * s[0][1]
				scalars := []float64{1, 0, -1, 0.375}
				if b.name == "DivScalar" {
					scalars = []float64{1, -1, 0.375}
				}
				for _, v := range scalars {
					o.points = append(o.points, []ref{{s[0][0], s[0][1], g(n, 0)}, one1(v)})
				}
			}
		}
		o.check(t, "zeros")
	}
	fold := func(f func(a, b float64) float64) func([]ref) ref {
		return func(x []ref) ref {
			o := x[0].clone()
			for _, y := range x[1:] {
				o = zipRef(o, y, f)
			}
			return o
		}
	}
	for _, n := range []int{1, 2, 3, 4, 9, 33, 62} {
		var ss [][][2]int
		for _, s := range [][2]int{{1, 1}, {3, 1}, {1, 3}, {2, 2}} {
			if n > 4 && s[0]+s[1] == 4 && n%2 == 0 {
				continue
			}
			var p [][2]int
			for i := 0; i < n; i++ {
				p = append(p, s)
			}
			ss = append(ss, p)
		}
		p := pts(gens{genMixed, genMixed2}, ss...)
		if n > 4 {
			p = nil
			for _, s := range ss { // all the elements are different
				q := pts(gens{genZeros}, s)[0]
				v := genLong(n*len(q[0].v), 0)
				for i := range q {
					q[i].v = v[i*len(q[i].v) : (i+1)*len(q[i].v)]
				}
				p = append(p, q)
			}
		}
		light := n > 4
		add := fold(func(a, b float64) float64 { return a + b })
		gop{name: "Sum", points: p, light: light, f: func(x []mat.Tensor) mat.Tensor { return ag.Sum(x...) }, def: add}.check(t, "lists")
		gop{name: "Mean", points: p, light: light, f: ag_(ag.Mean), def: func(x []ref) ref {
			return add(x).apply(func(v float64) float64 { return v / float64(len(x)) })
		}}.check(t, "lists")
		gop{name: "Maximum", points: p, light: light, f: ag_(ag.Maximum), def: fold(math.Max)}.noTwins().check(t, "lists")
		gop{name: "Minimum", points: p, light: light, f: ag_(ag.Minimum), def: fold(math.Min)}.noTwins().check(t, "lists")
	}
	// a great number of them
	for _, n := range lib.Pick(t, []int{65, 130}, []int{63, 64, 65, 130, 257}) {
		for _, s := range [][2]int{{1, 1}, {3, 1}, {2, 2}} {
			var p []ref
			v := genLong(n*s[0]*s[1], 0)
			for i := 0; i < n; i++ {
				p = append(p, ref{s[0], s[1], v[i*s[0]*s[1] : (i+1)*s[0]*s[1]]})
			}
			add := fold(func(a, b float64) float64 { return a + b })
			many := func(name string, f func(x []mat.Tensor) mat.Tensor, def func(x []ref) ref, single bool) {
				gop{name: name, points: [][]ref{p}, f: f, def: def, single: single, mag: 100}.checkMany(t, "many")
			}
			many("Sum", func(x []mat.Tensor) mat.Tensor { return ag.Sum(x...) }, add, false)
			many("Mean", ag.Mean, func(x []ref) ref {
				return add(x).apply(func(v float64) float64 { return v / float64(len(x)) })
			}, false)
			many("Maximum", ag.Maximum, fold(math.Max), true)
			many("Minimum", ag.Minimum, fold(math.Min), true)
		}
	}
}

func ag_(f func([]mat.Tensor) mat.Tensor) func([]mat.Tensor) mat.Tensor { return f }

// kinks checks values and gradients at points where functions are not smooth:
// any number between the derivatives at the two sides, or zero, is accepted.
func kinks(t *lib.T) {
	type kink struct {
		name   string
		at     []float64
		params []float64
		f      func(x []mat.Tensor) mat.Tensor
		def    func(x float64, p []float64) float64
	}
	var ks []kink
	for _, fn := range scalarFns {
		at, ok := map[string][]float64{"Abs": {0}, "ReLU": {0}, "HardSigmoid": {-2.5, 2.5}, "HardTanh": {-1, 1}, "PositiveELU": {0}, "Softsign": {0}}[fn.name]
		if ok {
			f, def := fn.f, fn.def
			ks = append(ks, kink{fn.name, at, nil, func(x []mat.Tensor) mat.Tensor { return f(x[0]) }, func(x float64, _ []float64) float64 { return def(x) }})
		}
	}
	for _, fn := range paramFns {
		for _, p := range fn.params {
			at := []float64{0}
			switch fn.name {
			case "SoftPlus":
				at = []float64{p[1]}
			case "SoftShrink":
				at = []float64{-p[0], p[0]}
			case "Threshold":
				at = []float64{p[0]}
			}
			ks = append(ks, kink{fn.name, at, p, fn.f, fn.def})
		}
	}
	for _, k := range ks {
		for _, d := range dts {
			for _, n := range []int{1, 3, 8, 17} {
				for pos := 0; pos < n; pos++ {
					for _, at := range k.at {
						t.Casef("kinks", true, func() error {
							var params []float64
							for _, p := range k.params {
								params = append(params, d.round(p))
							}
							v := d.rounds(genMixed(n, 1))
							v[pos] = d.round(at)
							x := d.g(n, 1, v)
							xs := []mat.Tensor{x}
							for _, p := range params {
								xs = append(xs, d.scalar(p))
							}
							y := k.f(xs)
							want := ref{n, 1, v}.apply(func(v float64) float64 { return k.def(v, params) })
							if err := same(y, want, d.tol(1e-10, 2e-5), d.tol(1e-12, 1e-6)); err != nil {
								return tag("value", err)
							}
							gy := d.rounds(coefs(n, false))
							y.AccGrad(d.mk(n, 1, gy))
							if err := ag.Backward(y); err != nil {
								return err
							}
							g := vals(x.Grad())
							for i, v := range v {
								const h = 1e-6
								l := (k.def(v, params) - k.def(v-h, params)) / h * gy[i]
								r := (k.def(v+h, params) - k.def(v, params)) / h * gy[i]
								lo, hi := math.Min(0, math.Min(l, r)), math.Max(0, math.Max(l, r))
								if i != pos {
									lo, hi = math.Min(l, r), math.Max(l, r)
								}
								if k.name == "Threshold" && math.Abs(hi-lo) > 10 { // a step
									lo, hi = math.Min(0, gy[i]), math.Max(0, gy[i])
								}
								if tol := d.tol(1e-4, 2e-3); !(g[i] >= lo-tol && g[i] <= hi+tol) {
									return errf("gradient of element %d (%v): got %v, expected %v to %v", i, v, g[i], lo, hi)
								}
							}
							return nil
						}, "%s%v/%d/%d@%d/%v", k.name, k.params, d, n, pos, at)
					}
				}
			}
		}
	}
}
