package checks

import (
	"fmt"
	"math"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/verifmc/lib"
)

func init() { Registry["M01"] = m01 }

var (
	inf = math.Inf(1)
	nan = math.NaN()
)

// layouts returns the shapes with n elements which are explored.
func layouts(n int) [][2]int {
	out := [][2]int{{n, 1}}
	if n != 1 {
		out = append(out, [2]int{1, n})
	}
	for k := 2; k*k <= n; k++ {
		if n%k == 0 {
			out = append(out, [2]int{k, n / k})
			if n/k != k {
				out = append(out, [2]int{n / k, k})
			}
			break
		}
	}
	return out
}

// f32of computes with the precision of the type.
func (d DT) un(f func(float64) float64) func(float64) float64 {
	return func(v float64) float64 { return d.round(f(v)) }
}

type unaryOp struct {
	name     string
	f        func(mat.Matrix) mat.Matrix
	inPlace  bool
	ref      func(d DT, v float64) float64
	specials []float64
	positive bool
	t64, t32 float64
}

var basicSpecials = []float64{0, math.Copysign(0, -1), 1, -1, 1e-30, -1e30, inf, -inf, nan, 65504.25}

func unaryOps() []unaryOp {
	type fn = func(float64) float64
	x := func(f fn) func(DT, float64) float64 {
		return func(d DT, v float64) float64 { return d.round(f(v)) }
	}
	cb := func(r, c int, v float64) float64 { return 3*v - 1 }
	cba := func(r, c int, v float64, a ...float64) float64 { return a[0]*v - a[1] }
	expSpecials := []float64{0, 1, -1, 1e-10, 20, -20, 70, -70, 87, -87, 120, -120, 800, -800, inf, -inf, nan, 0.34657, -0.34658, 0.6931471805599453}
	return []unaryOp{
		{"AddScalar", func(m mat.Matrix) mat.Matrix { return m.AddScalar(0.375) }, false, x(func(v float64) float64 { return v + 0.375 }), basicSpecials, false, 0, 0},
		{"AddScalarInPlace", func(m mat.Matrix) mat.Matrix { return m.AddScalarInPlace(-1.25) }, true, x(func(v float64) float64 { return v - 1.25 }), basicSpecials, false, 0, 0},
		{"SubScalar", func(m mat.Matrix) mat.Matrix { return m.SubScalar(0.375) }, false, x(func(v float64) float64 { return v - 0.375 }), basicSpecials, false, 0, 0},
		{"SubScalarInPlace", func(m mat.Matrix) mat.Matrix { return m.SubScalarInPlace(-1.25) }, true, x(func(v float64) float64 { return v + 1.25 }), basicSpecials, false, 0, 0},
		{"ProdScalar", func(m mat.Matrix) mat.Matrix { return m.ProdScalar(1.75) }, false, x(func(v float64) float64 { return v * 1.75 }), basicSpecials, false, 0, 0},
		{"ProdScalarInPlace", func(m mat.Matrix) mat.Matrix { return m.ProdScalarInPlace(-0.5) }, true, x(func(v float64) float64 { return v * -0.5 }), basicSpecials, false, 0, 0},
		{"ProdMatrixScalarInPlace", func(m mat.Matrix) mat.Matrix {
			o := m.OnesLike()
			return o.ProdMatrixScalarInPlace(m, -2.5)
		}, false, x(func(v float64) float64 { return v * -2.5 }), basicSpecials, false, 0, 0},
		{"ProdMatrixScalarInPlaceSelf", func(m mat.Matrix) mat.Matrix { return m.ProdMatrixScalarInPlace(m, -2.5) }, true, x(func(v float64) float64 { return v * -2.5 }), basicSpecials, false, 0, 0},
		{"ClipInPlace", func(m mat.Matrix) mat.Matrix { return m.ClipInPlace(-1.5, 2) }, true, x(func(v float64) float64 { return math.Max(-1.5, math.Min(2, v)) }), []float64{-1.5, 2, inf, -inf, 0, 1e30, -1e30}, false, 0, 0},
		{"Abs", func(m mat.Matrix) mat.Matrix { return m.Abs() }, false, x(math.Abs), basicSpecials, false, 0, 0},
		{"Pow2", func(m mat.Matrix) mat.Matrix { return m.Pow(2) }, false, x(func(v float64) float64 { return math.Pow(v, 2) }), basicSpecials, false, 1e-15, 1e-7},
		{"Pow3", func(m mat.Matrix) mat.Matrix { return m.Pow(3) }, false, x(func(v float64) float64 { return math.Pow(v, 3) }), basicSpecials, false, 1e-15, 1e-7},
		{"Pow-0.5", func(m mat.Matrix) mat.Matrix { return m.Pow(-0.5) }, false, x(func(v float64) float64 { return math.Pow(v, -0.5) }), []float64{1, 1e-10, 1e10, inf, nan}, true, 1e-15, 1e-7},
		{"Sqrt", func(m mat.Matrix) mat.Matrix { return m.Sqrt() }, false, x(math.Sqrt), []float64{0, 1, 1e-30, 1e30, inf, nan, -1}, true, 1e-15, 1e-7},
		{"Log", func(m mat.Matrix) mat.Matrix { return m.Log() }, false, x(math.Log), []float64{1, 1e-30, 1e30, 1.0000001, 0.9999999, 2, 0.5, 0.70710677, 0.70710679, 1.41421357, 0, inf, 1024, 3e38}, true, 4e-16, 3e-7},
		{"Exp", func(m mat.Matrix) mat.Matrix { return m.Exp() }, false, x(math.Exp), expSpecials, false, 4e-16, 4e-7},
		{"Sigmoid", func(m mat.Matrix) mat.Matrix { return m.Sigmoid() }, false, x(func(v float64) float64 { return 1 / (1 + math.Exp(-v)) }), expSpecials, false, 1e-15, 5e-7},
		{"Apply", func(m mat.Matrix) mat.Matrix { return m.Apply(cb) }, false, x(func(v float64) float64 { return 3*v - 1 }), basicSpecials, false, 1e-15, 2e-7},
		{"ApplyInPlaceSelf", func(m mat.Matrix) mat.Matrix { return m.ApplyInPlace(cb, m) }, true, x(func(v float64) float64 { return 3*v - 1 }), basicSpecials, false, 1e-15, 2e-7},
		{"ApplyInPlace", func(m mat.Matrix) mat.Matrix { return m.OnesLike().ApplyInPlace(cb, m) }, false, x(func(v float64) float64 { return 3*v - 1 }), basicSpecials, false, 1e-15, 2e-7},
		{"ApplyWithAlpha", func(m mat.Matrix) mat.Matrix { return m.ApplyWithAlpha(cba, 2, 5) }, false, x(func(v float64) float64 { return 2*v - 5 }), basicSpecials, false, 1e-15, 2e-7},
		{"ApplyWithAlphaInPlace", func(m mat.Matrix) mat.Matrix { return m.OnesLike().ApplyWithAlphaInPlace(cba, m, 2, 5) }, false, x(func(v float64) float64 { return 2*v - 5 }), basicSpecials, false, 1e-15, 2e-7},
		{"ApplyWithAlphaInPlaceSelf", func(m mat.Matrix) mat.Matrix { return m.ApplyWithAlphaInPlace(cba, m, 2, 5) }, true, x(func(v float64) float64 { return 2*v - 5 }), basicSpecials, false, 1e-15, 2e-7},
		{"Clone", func(m mat.Matrix) mat.Matrix { return m.Clone() }, false, x(func(v float64) float64 { return v }), basicSpecials, false, 0, 0},
		{"OnesLike", func(m mat.Matrix) mat.Matrix { return m.OnesLike() }, false, x(func(v float64) float64 { return 1 }), nil, false, 0, 0},
		{"ZerosLike", func(m mat.Matrix) mat.Matrix { return m.ZerosLike() }, false, x(func(v float64) float64 { return 0 }), nil, false, 0, 0},
		{"Zeros", func(m mat.Matrix) mat.Matrix { m.Zeros(); return m }, true, x(func(v float64) float64 { return 0 }), nil, false, 0, 0},
	}
}

// constantOps are the operations with a number, with special ones.
func constantOps(d DT) (ops []unaryOp) {
	add := func(name string, c float64, inPlace bool, f func(m mat.Matrix) mat.Matrix, ref func(v float64) float64, tol float64) {
		ops = append(ops, unaryOp{fmt.Sprintf("%s(%v)", name, c), f, inPlace, func(d DT, v float64) float64 { return d.round(ref(v)) }, basicSpecials, false, tol, tol * 1e9})
	}
	for _, c := range []float64{0, math.Copysign(0, -1), 1, -1, 2, 0.1, 1e-30, 1e30, 1e-45, 1e300, inf, -inf, nan} {
		c := c
		k := d.round(c) // the number has the precision of the matrix
		add("AddScalar", c, false, func(m mat.Matrix) mat.Matrix { return m.AddScalar(c) }, func(v float64) float64 { return v + k }, 0)
		add("AddScalarInPlace", c, true, func(m mat.Matrix) mat.Matrix { return m.AddScalarInPlace(c) }, func(v float64) float64 { return v + k }, 0)
		add("SubScalar", c, false, func(m mat.Matrix) mat.Matrix { return m.SubScalar(c) }, func(v float64) float64 { return v - k }, 0)
		add("SubScalarInPlace", c, true, func(m mat.Matrix) mat.Matrix { return m.SubScalarInPlace(c) }, func(v float64) float64 { return v - k }, 0)
		add("ProdScalar", c, false, func(m mat.Matrix) mat.Matrix { return m.ProdScalar(c) }, func(v float64) float64 { return v * k }, 0)
		add("ProdScalarInPlace", c, true, func(m mat.Matrix) mat.Matrix { return m.ProdScalarInPlace(c) }, func(v float64) float64 { return v * k }, 0)
		add("ProdMatrixScalarInPlace", c, false, func(m mat.Matrix) mat.Matrix { return m.OnesLike().ProdMatrixScalarInPlace(m, c) }, func(v float64) float64 { return v * k }, 0)
	}
	for _, c := range []float64{0, 0.5, 1, -1, -2, -3, 1.5, 4, 7, 10, 100, 0.1, inf, -inf, nan} {
		c := c
		add("Pow", c, false, func(m mat.Matrix) mat.Matrix { return m.Pow(c) }, func(v float64) float64 { return math.Pow(v, c) }, 1e-15)
	}
	for _, c := range [][2]float64{{0, 0}, {-inf, 1}, {-1, inf}, {-inf, inf}, {-1e30, 1e30}, {0.5, 0.5}, {1, 2}, {-2, -1}} {
		c := c
		lo, hi := d.round(c[0]), d.round(c[1])
		add(fmt.Sprintf("ClipInPlace(%v)", c[0]), c[1], true, func(m mat.Matrix) mat.Matrix { return m.ClipInPlace(c[0], c[1]) }, func(v float64) float64 {
			switch {
			case v < lo:
				return lo
			case v > hi:
				return hi
			}
			return v
		}, 0)
	}
	return ops
}

func m01Constants(t *lib.T) {
	for _, d := range dts {
		for _, op := range constantOps(d) {
			for _, n := range []int{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 67, 130, 1027} {
				t.Casef("constants", true, func() error {
					for shift := range op.specials {
						x := d.rounds(genMixed(n, shift))
						for i := range x {
							if i%3 != 1 {
								x[i] = d.round(op.specials[(i+shift)%len(op.specials)])
							}
						}
						m, guards := d.guarded(n, 1, x, shift%4)
						in := ref{n, 1, x}
						got := op.f(m)
						tol := d.tol(op.t64, 1e-6)
						if op.t64 == 0 {
							tol = 0
						}
						err := tag("result", same(got, in.apply(func(v float64) float64 { return op.ref(d, v) }), tol, tol*d.tol(1e-290, 1e-37)))
						if err == nil && op.inPlace && got != m {
							err = errf("an in-place operation returned another matrix")
						}
						if err == nil && !op.inPlace {
							err = tag("the operand has changed", exactly(m, in))
						}
						if err := first(err, sameDT(got, d), guards()); err != nil {
							return tag(fmt.Sprintf("of %v", x), err)
						}
					}
					return nil
				}, "%s/%d/%d", op.name, d, n)
			}
		}
	}
}

type binaryOp struct {
	name    string
	f       func(a, b mat.Matrix) mat.Matrix
	inPlace bool
	ref     func(a, b float64) float64
	nans    bool
}

func binaryOps() []binaryOp {
	add := func(a, b float64) float64 { return a + b }
	sub := func(a, b float64) float64 { return a - b }
	mul := func(a, b float64) float64 { return a * b }
	div := func(a, b float64) float64 { return a / b }
	second := func(a, b float64) float64 { return b }
	return []binaryOp{
		{"Add", func(a, b mat.Matrix) mat.Matrix { return a.Add(b) }, false, add, true},
		{"AddInPlace", func(a, b mat.Matrix) mat.Matrix { return a.AddInPlace(b) }, true, add, true},
		{"Sub", func(a, b mat.Matrix) mat.Matrix { return a.Sub(b) }, false, sub, true},
		{"SubInPlace", func(a, b mat.Matrix) mat.Matrix { return a.SubInPlace(b) }, true, sub, true},
		{"Prod", func(a, b mat.Matrix) mat.Matrix { return a.Prod(b) }, false, mul, true},
		{"ProdInPlace", func(a, b mat.Matrix) mat.Matrix { return a.ProdInPlace(b) }, true, mul, true},
		{"Div", func(a, b mat.Matrix) mat.Matrix { return a.Div(b) }, false, div, true},
		{"DivInPlace", func(a, b mat.Matrix) mat.Matrix { return a.DivInPlace(b) }, true, div, true},
		{"Maximum", func(a, b mat.Matrix) mat.Matrix { return a.Maximum(b) }, false, math.Max, false},
		{"Minimum", func(a, b mat.Matrix) mat.Matrix { return a.Minimum(b) }, false, math.Min, false},
		{"Copy", func(a, b mat.Matrix) mat.Matrix { a.Copy(b); return a }, true, second, true},
	}
}

type reduceOp struct {
	name     string
	vector   bool
	nonEmpty bool
	f        func(m mat.Matrix) []float64 // also checks the shape by returning it first
	ref      func(x []float64) []float64
	// condition number of the result: the tolerance is n*eps*cond
	cond func(x []float64) float64
}

func absSum(x []float64) float64 {
	s := 0.0
	for _, v := range x {
		s += math.Abs(v)
	}
	return s
}

// scales are magnitudes whose squares are not representable in 32 bits, or
// which are extreme in 64 bits.
func (d DT) scales() []float64 {
	if d == 32 {
		return []float64{1e25, 1e-25, 1e34, 1e-30}
	}
	return []float64{1e25, 1e-25, 1e90, 1e-90}
}

// limit makes the values lower than a maximum.
func limit(x []float64, max float64) []float64 {
	out := append([]float64(nil), x...)
	for i, v := range out {
		if v > max {
			out[i] = max
		}
	}
	return out
}

func scalarOut(m mat.Matrix) []float64 {
	r, c := dims(m)
	return append([]float64{float64(r), float64(c)}, vals(m)...)
}

func scal(v float64) []float64 { return []float64{1, 1, v} }

func reduceOps() []reduceOp {
	one := func(x []float64) float64 { return 1 }
	none := func(x []float64) float64 { return 0 }
	norm := func(p float64) reduceOp {
		return reduceOp{"Norm", true, false, func(m mat.Matrix) []float64 { return scalarOut(m.Norm(p)) }, func(x []float64) []float64 {
			s := 0.0
			for _, v := range x {
				s += math.Pow(math.Abs(v), p)
			}
			return scal(math.Pow(s, 1/p))
		}, absSum}
	}
	n1, n2, n3 := norm(1), norm(2), norm(3)
	n1.name, n2.name, n3.name = "Norm1", "Norm2", "Norm3"
	return []reduceOp{
		{"Sum", false, false, func(m mat.Matrix) []float64 { return scalarOut(m.Sum()) }, func(x []float64) []float64 { return scal(ref{v: x}.sum()) }, absSum},
		{"Max", false, true, func(m mat.Matrix) []float64 { return scalarOut(m.Max()) }, func(x []float64) []float64 {
			s := math.Inf(-1)
			for _, v := range x {
				s = math.Max(s, v)
			}
			return scal(s)
		}, none},
		{"Min", false, true, func(m mat.Matrix) []float64 { return scalarOut(m.Min()) }, func(x []float64) []float64 {
			s := math.Inf(1)
			for _, v := range x {
				s = math.Min(s, v)
			}
			return scal(s)
		}, none},
		{"ArgMax", true, true, func(m mat.Matrix) []float64 { return []float64{float64(m.ArgMax())} }, func(x []float64) []float64 {
			k := 0
			for i, v := range x {
				if v > x[k] {
					k = i
				}
			}
			return []float64{float64(k)}
		}, none},
		{"DotUnitarySelf", false, false, func(m mat.Matrix) []float64 { return scalarOut(m.DotUnitary(m)) }, func(x []float64) []float64 {
			s := 0.0
			for _, v := range x {
				s += v * v
			}
			return scal(s)
		}, func(x []float64) float64 {
			s := 0.0
			for _, v := range x {
				s += v * v
			}
			return s
		}},
		n1, n2, n3,
		{"CumSum", true, false, func(m mat.Matrix) []float64 { return scalarOut(m.CumSum()) }, func(x []float64) []float64 {
			out := []float64{float64(len(x)), 1}
			s := 0.0
			for _, v := range x {
				s += v
				out = append(out, s)
			}
			return out
		}, absSum},
		{"Softmax", true, false, func(m mat.Matrix) []float64 { return scalarOut(m.Softmax()) }, func(x []float64) []float64 {
			return append([]float64{float64(len(x)), 1}, softmaxRef(x)...)
		}, one},
		{"Normalize2", true, false, func(m mat.Matrix) []float64 { return vals(m.Normalize2()) }, func(x []float64) []float64 {
			s := 0.0
			for _, v := range x {
				s += v * v
			}
			s = math.Sqrt(s)
			out := append([]float64(nil), x...)
			if s != 0 {
				for i := range out {
					out[i] /= s
				}
			}
			return out
		}, one},
	}
}

func softmaxRef(x []float64) []float64 {
	m := math.Inf(-1)
	for _, v := range x {
		m = math.Max(m, v)
	}
	s := 0.0
	out := make([]float64, len(x))
	for i, v := range x {
		out[i] = math.Exp(v - m)
		s += out[i]
	}
	for i := range out {
		out[i] /= s
	}
	return out
}

func m01(t *lib.T) {
	maxN := lib.Pick(t, 41, 140)
	maxSpecial := lib.Pick(t, 24, 72)
	t.Rule("every element-wise operation, vectorised function and reduction × {float32,float64} × every size 0..%d (and larger ones, around the powers of two, up to 100000) in row, column and rectangular layout × memory alignment × (for sizes up to %d) every special value at every position; operations with a number, with special numbers; non-trivial: at least one element", maxN, maxSpecial)
	t.Assume("the reference values are computed in float64 by independent scalar code; rounding differences within the documented tolerance of each function are accepted")
	t.Assume("the exponentials of 32 bit values above 88.3, logarithms of infinity and functions of NaN are not compared: the vectorised implementations saturate at the limits of the type, by design")
	t.Assume("maxima and minima of NaN values, and the sign of zeros, are not compared")

	lengths := []int{}
	for n := 0; n <= maxN; n++ {
		lengths = append(lengths, n)
	}
	if !t.Thorough() {
		lengths = append(lengths, 63, 64, 65, 127, 128, 129, 130, 257)
	} else {
		lengths = append(lengths, 255, 256, 257, 511, 513, 1023, 1025)
	}

	// Large sizes, around the powers of two, at which an implementation could
	// change its way.
	big := []int{511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5003, 8191, 8192, 8193, 10007, 16384, 16387, 32769, 65535, 65536, 65543, 100003}
	if t.Thorough() {
		big = append(big, 131071, 131072, 131077, 262147, 1048583)
	}
	cycle := func(fill func(int) []float64, n int) []float64 { // ordinary values, whose period is prime
		base := fill(251)
		out := make([]float64, n)
		for i := range out {
			out[i] = base[i%251] * 0.125
		}
		return out
	}

	m01Constants(t)
	for _, d := range dts {
		d := d
		for _, op := range unaryOps() {
			op := op
			run := func(r, c, off int, x []float64) error {
				if d == 32 && op.name == "Exp" {
					x = limit(x, 88)
				}
				m, guards := d.guarded(r, c, x, off)
				in := ref{r, c, d.rounds(x)}
				want := in.apply(func(v float64) float64 { return op.ref(d, v) })
				got := op.f(m)
				tol := d.tol(op.t64, op.t32)
				abs := 0.0
				if tol > 0 {
					abs = d.tol(1e-300, 1e-37)
				}
				if op.name == "Apply" || len(op.name) > 5 && op.name[:5] == "Apply" {
					abs = tol * 10
				}
				err := tag("result", same(got, want, tol, abs))
				if err == nil && op.inPlace && got != m {
					err = errf("an in-place operation returned another matrix")
				}
				if err == nil && !op.inPlace {
					err = tag("the operand has changed", exactly(m, in))
				}
				if err == nil {
					err = sameDT(got, d)
				}
				return first(err, guards())
			}
			fill := ramp
			if op.positive {
				fill = positive
			}
			for _, n := range big {
				for i, l := range layouts(n) {
					t.Casef(op.name, true, func() error { return run(l[0], l[1], (i+n)%2, cycle(fill, n)) }, "%d/%dx%d/large", d, l[0], l[1])
				}
			}
			for _, n := range lengths {
				for _, l := range layouts(n) {
					for _, off := range lib.Pick(t, []int{0, 1, 3}, []int{0, 1, 2, 3, 4, 5, 6, 7}) {
						t.Casef(op.name, n > 0, func() error { return run(l[0], l[1], off, fill(n)) }, "%d/%dx%d+%d", d, l[0], l[1], off)
					}
				}
				if n > maxSpecial {
					continue
				}
				for pos := 0; pos < n; pos++ {
					for si, s := range op.specials {
						// The vectorised 32 bit implementations saturate.
						if d == 32 && (op.name == "Exp" && !(s < 88.3) || op.name == "Log" && math.IsInf(s, 0) || op.name == "Sigmoid" && math.IsNaN(s)) {
							continue
						}
						t.Casef(op.name, true, func() error {
							x := fill(n)
							x[pos] = s
							return run(n, 1, si%2, x)
						}, "%d/%dx1/%v@%d", d, n, s, pos)
					}
				}
			}
		}

		for _, op := range binaryOps() {
			op := op
			run := func(r, c, offA, offB int, x, y []float64, db DT) error {
				a, ga := d.guarded(r, c, x, offA)
				b, gb := db.guarded(r, c, y, offB)
				ra, rb := ref{r, c, d.rounds(x)}, ref{r, c, db.rounds(y)}
				want := zipRef(ra, ref{r, c, d.rounds(rb.v)}, func(p, q float64) float64 { return d.round(op.ref(p, q)) })
				got := op.f(a, b)
				err := tag("result", exactly(got, want))
				if err == nil && op.inPlace && op.name != "Copy" && got != a {
					err = errf("an in-place operation returned another matrix")
				}
				if err == nil && !op.inPlace {
					err = tag("the receiver has changed", exactly(a, ra))
				}
				return first(err, tag("the operand has changed", exactly(b, rb)), sameDT(got, d), ga(), gb())
			}
			for _, n := range big {
				for i, l := range layouts(n) {
					t.Casef(op.name, true, func() error {
						return run(l[0], l[1], i%2, n%2, cycle(ramp, n), cycle(ramp2, n), DT(32<<(n/2%2)))
					}, "%d/%dx%d/large", d, l[0], l[1])
				}
			}
			for _, n := range lengths {
				for _, l := range layouts(n) {
					for _, offs := range [][2]int{{0, 0}, {1, 0}, {0, 3}, {1, 1}} {
						t.Casef(op.name, n > 0, func() error { return run(l[0], l[1], offs[0], offs[1], ramp(n), ramp2(n), d) }, "%d/%dx%d+%d+%d", d, l[0], l[1], offs[0], offs[1])
					}
					t.Casef(op.name, n > 0, func() error { return run(l[0], l[1], 0, 0, ramp(n), ramp2(n), 96-d) }, "%d/%dx%d/mixed", d, l[0], l[1])
					t.Casef(op.name, n > 0, func() error {
						a, ga := d.guarded(l[0], l[1], ramp2(n), 0)
						want := ref{l[0], l[1], d.rounds(ramp2(n))}.apply(func(v float64) float64 { return d.round(op.ref(v, v)) })
						return first(tag("result", exactly(op.f(a, a), want)), ga())
					}, "%d/%dx%d/self", d, l[0], l[1])
				}
				if n > maxSpecial {
					continue
				}
				for pos := 0; pos < n; pos++ {
					for i, s := range []float64{0, 1e30, -1e-30, inf, -inf, nan} {
						for j, s2 := range []float64{0, -1e30, inf, nan} {
							if !op.nans && (math.IsNaN(s) || math.IsNaN(s2)) {
								continue
							}
							if (i+j+pos)%2 == 1 && !t.Thorough() {
								continue
							}
							t.Casef(op.name, true, func() error {
								x, y := ramp(n), ramp2(n)
								x[pos], y[pos] = s, s2
								return run(n, 1, i%2, j%2, x, y, d)
							}, "%d/%dx1/%v,%v@%d", d, n, s, s2, pos)
						}
					}
				}
			}
		}

		for _, op := range reduceOps() {
			op := op
			run := func(r, c, off int, x []float64) error {
				m, guards := d.guarded(r, c, x, off)
				in := ref{r, c, d.rounds(x)}
				want := op.ref(in.v)
				got := op.f(m)
				eps := d.tol(2.3e-16, 1.2e-7)
				abs := (float64(len(x)) + 6) * eps * op.cond(in.v)
				return first(tag("result", lib.CloseSlices(got, want, eps*4, abs)), tag("the operand has changed", exactly(m, in)), guards())
			}
			for _, n := range big {
				for i, l := range layouts(n) {
					if op.vector && l[0] != 1 && l[1] != 1 {
						continue
					}
					t.Casef(op.name, true, func() error { return run(l[0], l[1], i%2, cycle(ramp, n)) }, "%d/%dx%d/large", d, l[0], l[1])
					// a single element which matters, at either end and around the middle
					poss := []int{0, n / 2, n - 5, n - 2, n - 1}
					if n < 5000 || t.Thorough() && n < 50000 {
						poss = []int{0, 1, 2, 3, 7, 8, 31, 32, 255, 256, n / 4, n/2 - 1, n / 2, n/2 + 1, n * 3 / 4, n - 258, n - 65, n - 33, n - 32, n - 17, n - 9, n - 8, n - 7, n - 6, n - 5, n - 4, n - 3, n - 2, n - 1}
					}
					for _, pos := range poss {
						t.Casef(op.name, true, func() error {
							x := make([]float64, n)
							x[pos] = 3
							err := run(l[0], l[1], 0, x)
							for j := range x { // the least one, too
								x[j] = -x[j]
							}
							return first(err, run(l[0], l[1], 1, x))
						}, "%d/%dx%d/large@%d", d, l[0], l[1], pos)
					}
				}
			}
			for _, n := range lengths {
				if n == 0 && op.nonEmpty {
					continue
				}
				for _, l := range layouts(n) {
					if op.vector && l[0] != 1 && l[1] != 1 {
						continue
					}
					for _, off := range lib.Pick(t, []int{0, 1, 3}, []int{0, 1, 2, 3, 4, 5, 6, 7}) {
						for fi, fill := range []func(int) []float64{ramp, ramp2, positive} {
							t.Casef(op.name, n > 0, func() error { return run(l[0], l[1], off, fill(n)) }, "%d/%dx%d+%d/fill%d", d, l[0], l[1], off, fi)
						}
					}
				}
				if n <= maxSpecial && op.name != "DotUnitarySelf" {
					for _, scale := range d.scales() {
						t.Casef(op.name, n > 0, func() error {
							x := ramp(n)
							for i := range x {
								x[i] *= scale
							}
							if n%2 == 0 {
								return run(n, 1, 0, x)
							}
							return run(1, n, 1, x)
						}, "%d/%d/scale%v", d, n, scale)
					}
				}
				if n > maxSpecial {
					continue
				}
				for pos := 0; pos < n; pos++ {
					for _, s := range []float64{0, 100, -100, 1000, -1000, 3} {
						for _, base := range []string{"ramp", "neg", "zero", "big"} {
							t.Casef(op.name, true, func() error {
								x := ramp(n)
								for i := range x {
									switch base {
									case "neg":
										x[i] = -1 - float64(i%5)
									case "zero":
										x[i] = 0
									case "big":
										x[i] = 900 + float64(i%7)
									}
								}
								x[pos] = s
								if pos%2 == 0 {
									return run(n, 1, 0, x)
								}
								return run(1, n, 1, x)
							}, "%d/%d/%s/%v@%d", d, n, base, s, pos)
						}
					}
				}
			}
		}
		// The dot product of two vectors.
		for _, n := range big {
			for i, l := range layouts(n) {
				for _, db := range dts {
					t.Casef("DotUnitary", true, func() error {
						x, y := make([]float64, n), make([]float64, n)
						want := 0.0
						for j := range x { // whole numbers: the sums are exact
							x[j], y[j] = float64(j%5-2), float64(j*3%7-3)
							want += x[j] * y[j]
						}
						a, ga := d.guarded(l[0], l[1], x, i%2)
						b, gb := db.guarded(l[0], l[1], y, n%2)
						return first(exactly(a.DotUnitary(b), ref{1, 1, []float64{want}}), ga(), gb())
					}, "%d,%d/%dx%d/large", d, db, l[0], l[1])
				}
			}
		}
		for _, n := range lengths {
			for _, l := range layouts(n) {
				for _, offs := range [][2]int{{0, 0}, {1, 0}, {0, 3}, {1, 1}} {
					for _, db := range dts {
						t.Casef("DotUnitary", n > 0, func() error {
							x, y := ramp(n), ramp2(n)
							a, ga := d.guarded(l[0], l[1], x, offs[0])
							b, gb := db.guarded(l[0], l[1], y, offs[1])
							want, cond := 0.0, 0.0
							for i := range x {
								want += x[i] * y[i]
								cond += math.Abs(x[i] * y[i])
							}
							got := a.DotUnitary(b)
							return first(same(got, ref{1, 1, []float64{want}}, 0, cond*float64(n+4)*d.tol(2.3e-16, 1.2e-7)), sameDT(got, d), ga(), gb())
						}, "%d,%d/%dx%d+%d+%d", d, db, l[0], l[1], offs[0], offs[1])
					}
				}
			}
		}
	}

	// Extremes which the operations over slices have in common with the scalar
	// ones are the same for all the elements, whatever their position.
	for _, d := range dts {
		for _, n := range []int{1, 3, 4, 5, 8, 9, 15, 16, 17, 31, 33} {
			grid := make([]float64, 0, 2048)
			for e := -40.0; e <= 40; e += 0.0625 {
				grid = append(grid, e)
			}
			for k := -120; k <= 120; k++ {
				grid = append(grid, math.Ldexp(1.25, k), -math.Ldexp(1.75, k))
			}
			for _, f := range []string{"Exp", "Log", "Sigmoid", "Sqrt"} {
				t.Casef("grid", true, func() error {
					for at := 0; at < len(grid); at++ {
						x := make([]float64, n)
						for i := range x {
							x[i] = grid[(at+i)%len(grid)]
							if f == "Log" || f == "Sqrt" {
								x[i] = math.Abs(x[i])
							}
						}
						if at%n != 0 && at > 300 {
							continue
						}
						if d == 32 && f == "Exp" {
							x = limit(x, 88)
						}
						m := d.mk(n, 1, x)
						var got mat.Matrix
						var rf func(float64) float64
						tol := d.tol(4e-16, 4e-7)
						switch f {
						case "Exp":
							got, rf = m.Exp(), math.Exp
						case "Log":
							got, rf = m.Log(), math.Log
						case "Sqrt":
							got, rf = m.Sqrt(), math.Sqrt
						default:
							got, rf = m.Sigmoid(), func(v float64) float64 { return 1 / (1 + math.Exp(-v)) }
						}
						want := ref{n, 1, d.rounds(x)}.apply(d.un(rf))
						if err := same(got, want, tol, d.tol(1e-300, 1e-37)); err != nil {
							return tag("input "+fmtVals(x), err)
						}
					}
					return nil
				}, "%s/%d/%d", f, d, n)
			}
		}
	}
}
