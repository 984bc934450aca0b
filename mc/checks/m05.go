package checks

import (
	"fmt"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
	"github.com/nlpodyssey/spago/verifmc/lib"
)

func init() { Registry["M05"] = m05 }

func f1(name string, args ...int) string { return fmt.Sprintf("%s%v", name, args) }

func m05(t *lib.T) {
	max := lib.Pick(t, 4, 6)
	t.Rule("every operation of matrices with preconditions x every shape up to %d×%d (empty ones included) x every shape of the other operand, or every index, size and range from below zero to beyond the end x both data types (mixed, too): invalid calls panic, and leave the receiver (its shape, data, gradients, and the memory around it) and the operands as they were; valid ones do not panic", max, max)
	all := shapes(max, true)

	// call runs f on a matrix, which must panic unless it is valid
	call := func(d DT, r, c int, what string, valid bool, args []mat.Matrix, f func(m mat.Matrix)) error {
		in := rampRef(r, c)
		m, guards := d.guarded(r, c, in.v, 1)
		m.SetRequiresGrad(true)
		m.AccGrad(d.mk(r, c, in.v))
		var before []ref
		for _, a := range args {
			before = append(before, refOf(a))
		}
		panicked := lib.Panics(func() { f(m) })
		if panicked == valid {
			if valid {
				return errf("%s of %d×%d panics", what, r, c)
			}
			return errf("%s of %d×%d does not panic", what, r, c)
		}
		if !panicked {
			return guards()
		}
		for i, a := range args {
			if err := exactly(a, before[i]); err != nil {
				return errf("%s of %d×%d: operand %d has changed: %v", what, r, c, i, err)
			}
		}
		if !responds(func() { m.Grad() }) {
			return errf("%s of %d×%d panics, and leaves the gradients locked", what, r, c)
		}
		if err := first(exactly(m, in), exactly(m.Grad(), in), guards()); err != nil {
			return errf("%s of %d×%d panics, but has changed the receiver: %v", what, r, c, err)
		}
		return nil
	}

	// operations of two matrices
	type binary struct {
		name string
		f    func(a, b mat.Matrix)
		ok   func(a, b sh) bool
	}
	eq := func(a, b sh) bool { return a == b }
	bins := []binary{
		{"Add", func(a, b mat.Matrix) { a.Add(b) }, eq}, {"AddInPlace", func(a, b mat.Matrix) { a.AddInPlace(b) }, eq},
		{"Sub", func(a, b mat.Matrix) { a.Sub(b) }, eq}, {"SubInPlace", func(a, b mat.Matrix) { a.SubInPlace(b) }, eq},
		{"Prod", func(a, b mat.Matrix) { a.Prod(b) }, eq}, {"ProdInPlace", func(a, b mat.Matrix) { a.ProdInPlace(b) }, eq},
		{"Div", func(a, b mat.Matrix) { a.Div(b) }, eq}, {"DivInPlace", func(a, b mat.Matrix) { a.DivInPlace(b) }, eq},
		{"ProdMatrixScalarInPlace", func(a, b mat.Matrix) { a.ProdMatrixScalarInPlace(b, 2) }, eq},
		{"DotUnitary", func(a, b mat.Matrix) { a.DotUnitary(b) }, eq},
		{"Maximum", func(a, b mat.Matrix) { a.Maximum(b) }, eq}, {"Minimum", func(a, b mat.Matrix) { a.Minimum(b) }, eq},
		{"Copy", func(a, b mat.Matrix) { a.Copy(b) }, eq},
		{"ApplyInPlace", func(a, b mat.Matrix) { a.ApplyInPlace(func(_, _ int, v float64) float64 { return v + 1 }, b) }, eq},
		{"ApplyWithAlphaInPlace", func(a, b mat.Matrix) {
			a.ApplyWithAlphaInPlace(func(_, _ int, v float64, p ...float64) float64 { return v + p[0] }, b, 2)
		}, eq},
		{"Mul", func(a, b mat.Matrix) { a.Mul(b) }, func(a, b sh) bool { return a[1] == b[0] }},
		{"MulT", func(a, b mat.Matrix) { a.MulT(b) }, func(a, b sh) bool { return a[0] == b[0] && b[1] == 1 }},
		{"SetData", func(a, b mat.Matrix) { a.SetData(b.Data()) }, func(a, b sh) bool { return a[0]*a[1] == b[0]*b[1] }},
		{"AppendRows", func(a, b mat.Matrix) { a.AppendRows(b) }, func(a, b sh) bool { return (b[0] == 1 || b[1] == 1) && b[0]*b[1] == a[1] }},
		{"AppendRows2", func(a, b mat.Matrix) { a.AppendRows(b, b) }, func(a, b sh) bool { return (b[0] == 1 || b[1] == 1) && b[0]*b[1] == a[1] }},
		{"NewStack", func(a, b mat.Matrix) { a.NewStack(b, b) }, func(a, b sh) bool { return b[0] == 1 || b[1] == 1 }},
		{"NewStack2", func(a, b mat.Matrix) { a.NewStack(a, b) }, func(a, b sh) bool {
			return (a[0] == 1 || a[1] == 1) && (b[0] == 1 || b[1] == 1) && a[0]*a[1] == b[0]*b[1]
		}},
		{"NewConcatV", func(a, b mat.Matrix) { a.NewConcatV(a, b) }, func(a, b sh) bool { return (a[0] == 1 || a[1] == 1) && (b[0] == 1 || b[1] == 1) }},
		{"AccGrad", func(a, b mat.Matrix) { a.AccGrad(b) }, eq},
		{"SetAt", func(a, b mat.Matrix) { a.SetAt(b, 0, 0) }, func(a, b sh) bool { return a[0]*a[1] > 0 && b == sh{1, 1} }},
	}
	for _, op := range bins {
		op := op
		for _, d := range dts {
			for _, e := range dts {
				d, e := d, e
				for _, a := range all {
					a := a
					t.Casef("operands", true, func() error {
						for _, b := range all {
							other, guards := e.guarded(b[0], b[1], rampRef(b[0], b[1]).v, 1)
							if err := call(d, a[0], a[1], op.name+" with "+shapesOf([]ref{rampRef(b[0], b[1])}), op.ok(a, b), []mat.Matrix{other}, func(m mat.Matrix) { op.f(m, other) }); err != nil {
								return err
							}
							if err := guards(); err != nil {
								return tag(op.name, err)
							}
						}
						return nil
					}, "%s/%d-%d/%v", op.name, d, e, a)
				}
			}
		}
	}

	// indices, sizes and ranges
	one := float.Interface(1.0)
	for _, d := range dts {
		d := d
		for _, s := range all {
			s := s
			r, c := s[0], s[1]
			n := r * c
			vec := r == 1 || c == 1
			in := func(i, n int) bool { return i >= 0 && i < n }
			try := func(name string, f func(do func(what string, valid bool, f func(m mat.Matrix)) error) error) {
				t.Casef(name, true, func() error {
					return f(func(what string, valid bool, f func(m mat.Matrix)) error { return call(d, r, c, what, valid, nil, f) })
				}, "%d/%dx%d", d, r, c)
			}
			type do = func(what string, valid bool, f func(m mat.Matrix)) error
			try("indices", func(do do) error {
				for i := -2; i <= n+1; i++ {
					err := first(
						do(f1("ScalarAt", i), vec && in(i, n), func(m mat.Matrix) { m.ScalarAt(i) }),
						do(f1("At", i), vec && in(i, n), func(m mat.Matrix) { m.At(i) }),
						do(f1("SetScalar", i), vec && in(i, n), func(m mat.Matrix) { m.SetScalar(one, i) }),
						do(f1("SetAt", i), vec && in(i, n), func(m mat.Matrix) { m.SetAt(d.scalar(1), i) }),
						do(f1("ExtractRow", i), in(i, r), func(m mat.Matrix) { m.ExtractRow(i) }),
						do(f1("ExtractColumn", i), in(i, c), func(m mat.Matrix) { m.ExtractColumn(i) }),
						do(f1("ResizeVector", i), vec && i >= 0, func(m mat.Matrix) { m.ResizeVector(i) }),
						do(f1("PadRows", i), i >= 0, func(m mat.Matrix) { m.PadRows(i) }),
						do(f1("PadColumns", i), i >= 0, func(m mat.Matrix) { m.PadColumns(i) }),
						do(f1("SplitV", i), vec && i >= 0 && i <= n, func(m mat.Matrix) { m.SplitV(i) }),
						do(f1("Reshape", i), false, func(m mat.Matrix) { m.Reshape(i) }),
						do(f1("ReshapeInPlace", i), false, func(m mat.Matrix) { m.ReshapeInPlace(i) }),
					)
					if err != nil {
						return err
					}
					for j := -2; j <= n+1; j++ {
						err := first(
							do(f1("ScalarAt", i, j), in(i, r) && in(j, c), func(m mat.Matrix) { m.ScalarAt(i, j) }),
							do(f1("At", i, j), in(i, r) && in(j, c), func(m mat.Matrix) { m.At(i, j) }),
							do(f1("SetScalar", i, j), in(i, r) && in(j, c), func(m mat.Matrix) { m.SetScalar(one, i, j) }),
							do(f1("SetAt", i, j), in(i, r) && in(j, c), func(m mat.Matrix) { m.SetAt(d.scalar(1), i, j) }),
							do(f1("Range", i, j), vec && i >= 0 && i <= j && j <= n, func(m mat.Matrix) { m.Range(i, j) }),
							do(f1("SplitV", i, j), vec && i >= 0 && j >= 0 && i+j <= n, func(m mat.Matrix) { m.SplitV(i, j) }),
							do(f1("SwapInPlace", i, j), in(i, r) && in(j, r), func(m mat.Matrix) { m.SwapInPlace(i, j) }),
							do(f1("Reshape", i, j), i >= 0 && j >= 0 && i*j == n, func(m mat.Matrix) { m.Reshape(i, j) }),
							do(f1("ReshapeInPlace", i, j), i >= 0 && j >= 0 && i*j == n, func(m mat.Matrix) { m.ReshapeInPlace(i, j) }),
							do(f1("ClipInPlace", i, j), i <= j, func(m mat.Matrix) { m.ClipInPlace(float64(i), float64(j)) }),
							do(f1("NewMatrix", i, j), i >= 0 && j >= 0, func(m mat.Matrix) { m.NewMatrix(mat.WithShape(i, j)) }),
							do(f1("NewMatrix with data", i, j), i >= 0 && j >= 0 && i*j == n, func(m mat.Matrix) {
								m.NewMatrix(mat.WithShape(i, j), mat.WithBacking(make([]float64, n)))
							}),
						)
						if err != nil {
							return err
						}
					}
				}
				return first(
					do("ScalarAt without index", false, func(m mat.Matrix) { m.ScalarAt() }),
					do("SetScalar without index", false, func(m mat.Matrix) { m.SetScalar(one) }),
					do("At without index", false, func(m mat.Matrix) { m.At() }),
					do("SetAt without index", false, func(m mat.Matrix) { m.SetAt(d.scalar(1)) }),
					do("ScalarAt with 3 indices", false, func(m mat.Matrix) { m.ScalarAt(0, 0, 0) }),
					do("SetScalar with 3 indices", false, func(m mat.Matrix) { m.SetScalar(one, 0, 0, 0) }),
					do("Reshape without shape", false, func(m mat.Matrix) { m.Reshape() }),
					do("ReshapeInPlace with 3 dimensions", false, func(m mat.Matrix) { m.ReshapeInPlace(r, c, 1) }),
					do("NewMatrix without shape", false, func(m mat.Matrix) { m.NewMatrix() }),
					do("NewMatrix with 3 dimensions", false, func(m mat.Matrix) { m.NewMatrix(mat.WithShape(r, c, 1)) }),
				)
			})
			try("slices", func(do do) error {
				for i := -1; i <= r+1; i++ {
					for j := -1; j <= c+1; j++ {
						for k := -1; k <= r+1; k++ {
							for l := -1; l <= c+1; l++ {
								if i == r && k == r && in(j, c+1) && in(l, c+1) || j == c && l == c && in(i, r+1) && in(k, r+1) {
									continue // empty, just after the last element: not stated
								}
								valid := in(i, r+1) && in(j, c+1) && k >= i && l >= j && k <= r && l <= c
								if err := do(f1("Slice", i, j, k, l), valid, func(m mat.Matrix) { m.Slice(i, j, k, l) }); err != nil {
									return err
								}
							}
						}
					}
				}
				return nil
			})
			try("shapes", func(do do) error {
				return first(
					do("Item", n == 1, func(m mat.Matrix) { m.Item() }),
					do("ArgMax", vec && n > 0, func(m mat.Matrix) { m.ArgMax() }),
					do("Max", n > 0, func(m mat.Matrix) { m.Max() }),
					do("Min", n > 0, func(m mat.Matrix) { m.Min() }),
					do("Softmax", vec, func(m mat.Matrix) { m.Softmax() }),
					do("CumSum", vec, func(m mat.Matrix) { m.CumSum() }),
					do("Norm", vec, func(m mat.Matrix) { m.Norm(2) }),
					do("Normalize2", vec, func(m mat.Matrix) { m.Normalize2() }),
					do("DoVecNonZero", vec, func(m mat.Matrix) { m.DoVecNonZero(func(int, float64) {}) }),
					do("Augment", r == c, func(m mat.Matrix) { m.Augment() }),
					do("SplitV without sizes", vec, func(m mat.Matrix) { m.SplitV() }),
				)
			})
		}
	}

	// constructors
	for n := -3; n <= max; n++ {
		n := n
		t.Casef("constructors", true, func() error {
			want := func(what string, valid bool, f func()) error {
				if lib.Panics(f) == valid {
					return errf("%s: valid: %v, panics: %v", what, valid, valid)
				}
				return nil
			}
			if err := first(
				want(f1("CreateInitializedSlice", n), n >= 0, func() { mat.CreateInitializedSlice(n, 1.0) }),
				want(f1("CreateIdentityMatrix", n), n >= 0, func() { mat.CreateIdentityMatrix[float32](n) }),
				want(f1("NewDense", n), n >= 0, func() { mat.NewDense[float32](mat.WithShape(n)) }),
				want(f1("NewDense with data", n), n == 3, func() { mat.NewDense[float32](mat.WithShape(n), mat.WithBacking([]float64{1, 2, 3})) }),
			); err != nil {
				return err
			}
			for k := -3; k <= max; k++ {
				if err := first(
					want(f1("InitializeMatrix", n, k), n >= 0 && k >= 0, func() { mat.InitializeMatrix(n, k, func(r, c int) float64 { return 1 }) }),
					want(f1("CreateOneHotVector", n, k), n >= 0 && k >= 0 && k < n, func() { mat.CreateOneHotVector[float32](n, k) }),
					want(f1("NewDense", n, k), n >= 0 && k >= 0, func() { mat.NewDense[float64](mat.WithShape(n, k)) }),
					want(f1("NewDense with data", n, k), n >= 0 && k >= 0 && n*k == 4, func() { mat.NewDense[float64](mat.WithShape(n, k), mat.WithBacking([]float32{1, 2, 3, 4})) }),
					want(f1("NewDense with data first", n, k), n >= 0 && k >= 0 && n*k == 4, func() { mat.NewDense[float64](mat.WithBacking([]float32{1, 2, 3, 4}), mat.WithShape(n, k)) }),
					want(f1("NewDense with three dimensions", n, k), false, func() { mat.NewDense[float64](mat.WithShape(n, k, 1)) }),
				); err != nil {
					return err
				}
			}
			return nil
		}, "%d", n)
	}
}
