package checks

import (
	"fmt"
	"math"
	"strings"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
	"github.com/nlpodyssey/spago/verifmc/lib"
)

func init() { Registry["M04"] = m04 }

// histOp is an operation of a history over a set of matrices.
type histOp struct {
	name    string
	arity   int
	mutates bool // the first argument is changed; otherwise there is a new matrix
	enabled func(a []ref) bool
	do      func(a []mat.Matrix) mat.Matrix
	model   func(a []ref) ref
}

func histOps() []histOp {
	always := func([]ref) bool { return true }
	sameShape := func(a []ref) bool { return a[0].r == a[1].r && a[0].c == a[1].c }
	vec := func(a []ref) bool { return a[0].isVector() }
	vec2 := func(a []ref) bool { return a[0].isVector() && a[1].isVector() }
	square := func(a []ref) bool { return a[0].r == a[0].c }
	var out []histOp
	pure := func(name string, en func([]ref) bool, f func(a mat.Matrix) mat.Matrix, m func(a ref) ref) {
		out = append(out, histOp{name, 1, false, en, func(a []mat.Matrix) mat.Matrix { return f(a[0]) }, func(a []ref) ref { return m(a[0]) }})
	}
	pure2 := func(name string, en func([]ref) bool, f func(a, b mat.Matrix) mat.Matrix, m func(a, b ref) ref) {
		out = append(out, histOp{name, 2, false, en, func(a []mat.Matrix) mat.Matrix { return f(a[0], a[1]) }, func(a []ref) ref { return m(a[0], a[1]) }})
	}
	mut := func(name string, en func([]ref) bool, f func(a mat.Matrix) mat.Matrix, m func(a ref) ref) {
		out = append(out, histOp{name, 1, true, en, func(a []mat.Matrix) mat.Matrix { return f(a[0]) }, func(a []ref) ref { return m(a[0]) }})
	}
	mut2 := func(name string, en func([]ref) bool, f func(a, b mat.Matrix) mat.Matrix, m func(a, b ref) ref) {
		out = append(out, histOp{name, 2, true, en, func(a []mat.Matrix) mat.Matrix { return f(a[0], a[1]) }, func(a []ref) ref { return m(a[0], a[1]) }})
	}
	each := func(f func(float64) float64) func(ref) ref { return func(a ref) ref { return a.apply(f) } }
	zip := func(f func(x, y float64) float64) func(a, b ref) ref {
		return func(a, b ref) ref { return zipRef(a, b, f) }
	}
	add := func(x, y float64) float64 { return x + y }
	sub := func(x, y float64) float64 { return x - y }
	mul := func(x, y float64) float64 { return x * y }

	pure("Clone", always, mat.Matrix.Clone, func(a ref) ref { return a })
	pure("T", always, mat.Matrix.T, ref.t)
	pure("Flatten", always, mat.Matrix.Flatten, func(a ref) ref { return a.reshape(1, len(a.v)) })
	pure("Reshape", always, func(a mat.Matrix) mat.Matrix { s := a.Shape(); return a.Reshape(s[1], s[0]) }, func(a ref) ref { return a.reshape(a.c, a.r) })
	pure("ReshapeSame", always, func(a mat.Matrix) mat.Matrix { return a.Reshape(a.Shape()...) }, func(a ref) ref { return a })
	pure("ExtractRow0", always, func(a mat.Matrix) mat.Matrix { return a.ExtractRow(0) }, func(a ref) ref { return a.row(0) })
	pure("ExtractColumn0", always, func(a mat.Matrix) mat.Matrix { return a.ExtractColumn(0) }, func(a ref) ref { return a.col(0) })
	pure("ExtractLastRow", always, func(a mat.Matrix) mat.Matrix { return a.ExtractRow(a.Shape()[0] - 1) }, func(a ref) ref { return a.row(a.r - 1) })
	pure("ExtractLastColumn", always, func(a mat.Matrix) mat.Matrix { return a.ExtractColumn(a.Shape()[1] - 1) }, func(a ref) ref { return a.col(a.c - 1) })
	pure("SliceAll", always, func(a mat.Matrix) mat.Matrix { s := a.Shape(); return a.Slice(0, 0, s[0], s[1]) }, func(a ref) ref { return a })
	pure("SliceRow", always, func(a mat.Matrix) mat.Matrix { return a.Slice(0, 0, 1, a.Shape()[1]) }, func(a ref) ref { return a.row(0) })
	pure("ZerosLike", always, mat.Matrix.ZerosLike, each(func(float64) float64 { return 0 }))
	pure("OnesLike", always, mat.Matrix.OnesLike, each(func(float64) float64 { return 1 }))
	pure("NewShape", always, func(a mat.Matrix) mat.Matrix { return a.NewMatrix(mat.WithShape(a.Shape()...)) }, each(func(float64) float64 { return 0 }))
	pure("NewBackingShape", always, func(a mat.Matrix) mat.Matrix {
		return a.NewMatrix(mat.WithShape(a.Shape()...), mat.WithBacking(append([]float64(nil), a.Data().F64()...)))
	}, func(a ref) ref { return a })
	pure("AddScalar", always, func(a mat.Matrix) mat.Matrix { return a.AddScalar(0) }, func(a ref) ref { return a })
	pure("SubScalar", always, func(a mat.Matrix) mat.Matrix { return a.SubScalar(1) }, each(func(v float64) float64 { return v - 1 }))
	pure("SubScalar0", always, func(a mat.Matrix) mat.Matrix { return a.SubScalar(0) }, func(a ref) ref { return a })
	pure("ProdScalar", always, func(a mat.Matrix) mat.Matrix { return a.ProdScalar(1) }, func(a ref) ref { return a })
	pure("Abs", always, mat.Matrix.Abs, each(math.Abs))
	pure("Pow", always, func(a mat.Matrix) mat.Matrix { return a.Pow(1) }, func(a ref) ref { return a })
	pure("Apply", always, func(a mat.Matrix) mat.Matrix { return a.Apply(func(r, c int, v float64) float64 { return v }) }, func(a ref) ref { return a })
	pure("ApplyWithAlpha", always, func(a mat.Matrix) mat.Matrix {
		return a.ApplyWithAlpha(func(r, c int, v float64, al ...float64) float64 { return v * al[0] }, 2)
	}, each(func(v float64) float64 { return v * 2 }))
	pure("Sum", always, mat.Matrix.Sum, func(a ref) ref { return ref{1, 1, []float64{a.sum()}} })
	pure("Max", always, mat.Matrix.Max, func(a ref) ref {
		m := a.v[0]
		for _, v := range a.v {
			m = math.Max(m, v)
		}
		return ref{1, 1, []float64{m}}
	})
	pure("At", always, func(a mat.Matrix) mat.Matrix { return a.At(0, 0).(mat.Matrix) }, func(a ref) ref { return ref{1, 1, a.v[:1:1]} })
	pure("PadRows0", always, func(a mat.Matrix) mat.Matrix { return a.PadRows(0) }, func(a ref) ref { return a })
	pure("PadColumns0", always, func(a mat.Matrix) mat.Matrix { return a.PadColumns(0) }, func(a ref) ref { return a })
	pure("AppendRows0", always, func(a mat.Matrix) mat.Matrix { return a.AppendRows() }, func(a ref) ref { return a })
	pure("ResizeVector", vec, func(a mat.Matrix) mat.Matrix { return a.ResizeVector(a.Size()) }, func(a ref) ref { return a.reshape(len(a.v), 1) })
	pure("ResizeVector1", vec, func(a mat.Matrix) mat.Matrix { return a.ResizeVector(1) }, func(a ref) ref { return ref{1, 1, a.v[:1:1]} })
	pure("RangeAll", vec, func(a mat.Matrix) mat.Matrix { return a.Range(0, a.Size()) }, func(a ref) ref { return a.reshape(len(a.v), 1) })
	pure("SplitV", vec, func(a mat.Matrix) mat.Matrix { return a.SplitV(a.Size())[0] }, func(a ref) ref { return a.reshape(len(a.v), 1) })
	pure("SplitV1", vec, func(a mat.Matrix) mat.Matrix { return a.SplitV(a.Size()-1, 1)[1] }, func(a ref) ref { return ref{1, 1, a.v[len(a.v)-1:]} })
	pure("CumSum", vec, mat.Matrix.CumSum, func(a ref) ref {
		o := a.reshape(len(a.v), 1)
		for i := 1; i < len(o.v); i++ {
			o.v[i] += o.v[i-1]
		}
		return o
	})
	pure("Normalize2", func(a []ref) bool { return a[0].isVector() && a[0].absSum() == 0 }, mat.Matrix.Normalize2, func(a ref) ref { return a })
	pure("Normalize2Unit", func(a []ref) bool { return a[0].isVector() && math.Abs(a[0].absSum()) == 1 && a[0].nonZeros() == 1 }, mat.Matrix.Normalize2, func(a ref) ref { return a })
	pure("NewConcatV", vec, func(a mat.Matrix) mat.Matrix { return a.NewConcatV(a) }, func(a ref) ref { return a.reshape(len(a.v), 1) })
	pure("NewStack", vec, func(a mat.Matrix) mat.Matrix { return a.NewStack(a) }, func(a ref) ref { return a.reshape(1, len(a.v)) })
	pure("Augment", square, mat.Matrix.Augment, func(a ref) ref {
		o := newRef(a.r, 2*a.c)
		for i := 0; i < a.r; i++ {
			copy(o.v[i*2*a.c:], a.row(i).v)
			o.v[i*2*a.c+a.c+i] = 1
		}
		return o
	})
	pure2("Add", sameShape, mat.Matrix.Add, zip(add))
	pure2("Sub", sameShape, mat.Matrix.Sub, zip(sub))
	pure2("Prod", sameShape, mat.Matrix.Prod, zip(mul))
	pure2("Maximum", sameShape, mat.Matrix.Maximum, zip(math.Max))
	pure2("Minimum", sameShape, mat.Matrix.Minimum, zip(math.Min))
	pure2("Mul", func(a []ref) bool { return a[0].c == a[1].r }, mat.Matrix.Mul, mulRef)
	pure2("MulT", func(a []ref) bool { return a[0].r == a[1].r && a[1].c == 1 }, mat.Matrix.MulT, func(a, b ref) ref { return mulRef(a.t(), b) })
	pure2("AppendRows1", func(a []ref) bool { return a[1].isVector() && len(a[1].v) == a[0].c }, func(a, b mat.Matrix) mat.Matrix { return a.AppendRows(b) }, func(a, b ref) ref {
		return ref{a.r + 1, a.c, append(append([]float64(nil), a.v...), b.v...)}
	})
	pure2("NewConcatV2", vec2, func(a, b mat.Matrix) mat.Matrix { return a.NewConcatV(a, b) }, func(a, b ref) ref {
		return ref{len(a.v) + len(b.v), 1, append(append([]float64(nil), a.v...), b.v...)}
	})
	pure2("NewStack2", func(a []ref) bool { return vec2(a) && len(a[0].v) == len(a[1].v) }, func(a, b mat.Matrix) mat.Matrix { return a.NewStack(a, b) }, func(a, b ref) ref {
		return ref{2, len(a.v), append(append([]float64(nil), a.v...), b.v...)}
	})

	mut("SetScalar", always, func(a mat.Matrix) mat.Matrix { a.SetScalar(float.Interface(9.0), 0, 0); return a }, func(a ref) ref { o := a.clone(); o.v[0] = 9; return o })
	mut("SetAtLast", always, func(a mat.Matrix) mat.Matrix {
		s := a.Shape()
		a.SetAt(mat.Scalar(-7.0), s[0]-1, s[1]-1)
		return a
	}, func(a ref) ref { o := a.clone(); o.v[len(o.v)-1] = -7; return o })
	mut("Zeros", always, func(a mat.Matrix) mat.Matrix { a.Zeros(); return a }, each(func(float64) float64 { return 0 }))
	mut("AddScalarInPlace", always, func(a mat.Matrix) mat.Matrix { return a.AddScalarInPlace(0.5) }, each(func(v float64) float64 { return v + 0.5 }))
	mut("SubScalarInPlace", always, func(a mat.Matrix) mat.Matrix { return a.SubScalarInPlace(0.25) }, each(func(v float64) float64 { return v - 0.25 }))
	mut("ProdScalarInPlace", always, func(a mat.Matrix) mat.Matrix { return a.ProdScalarInPlace(-1) }, each(func(v float64) float64 { return -v }))
	mut("ClipInPlace", always, func(a mat.Matrix) mat.Matrix { return a.ClipInPlace(-0.5, 0.5) }, each(func(v float64) float64 { return math.Max(-0.5, math.Min(0.5, v)) }))
	mut("TransposeInPlace", always, mat.Matrix.TransposeInPlace, ref.t)
	mut("FlattenInPlace", always, mat.Matrix.FlattenInPlace, func(a ref) ref { return a.reshape(1, len(a.v)) })
	mut("ReshapeInPlace", always, func(a mat.Matrix) mat.Matrix { return a.ReshapeInPlace(a.Size(), 1) }, func(a ref) ref { return a.reshape(len(a.v), 1) })
	mut("SwapInPlace", func(a []ref) bool { return a[0].r > 1 }, func(a mat.Matrix) mat.Matrix { return a.SwapInPlace(0, 1) }, func(a ref) ref {
		o := a.clone()
		copy(o.v, a.row(1).v)
		copy(o.v[a.c:], a.row(0).v)
		return o
	})
	mut2("AddInPlace", sameShape, mat.Matrix.AddInPlace, zip(add))
	mut2("SubInPlace", sameShape, mat.Matrix.SubInPlace, zip(sub))
	mut2("ProdInPlace", sameShape, mat.Matrix.ProdInPlace, zip(mul))
	mut2("Copy", sameShape, func(a, b mat.Matrix) mat.Matrix { a.Copy(b); return a }, zip(func(x, y float64) float64 { return y }))
	mut2("SetData", func(a []ref) bool { return len(a[0].v) == len(a[1].v) }, func(a, b mat.Matrix) mat.Matrix { a.SetData(b.Data()); return a }, func(a, b ref) ref { return ref{a.r, a.c, append([]float64(nil), b.v...)} })
	mut2("ProdMatrixScalarInPlace", sameShape, func(a, b mat.Matrix) mat.Matrix { return a.ProdMatrixScalarInPlace(b, 1) }, zip(func(x, y float64) float64 { return y }))
	mut2("ApplyInPlace", sameShape, func(a, b mat.Matrix) mat.Matrix {
		return a.ApplyInPlace(func(r, c int, v float64) float64 { return v }, b)
	}, zip(func(x, y float64) float64 { return y }))
	mut2("ApplyWithAlphaInPlace", sameShape, func(a, b mat.Matrix) mat.Matrix {
		return a.ApplyWithAlphaInPlace(func(r, c int, v float64, al ...float64) float64 { return v * al[0] }, b, 0.5)
	}, zip(func(x, y float64) float64 { return y * 0.5 }))
	return out
}

// histState is the model of the matrices, and of their gradients.
type histState struct {
	v []ref
	g []*ref
}

func (s histState) clone() histState {
	o := histState{append([]ref(nil), s.v...), append([]*ref(nil), s.g...)}
	return o
}

func (s histState) key() string {
	var b strings.Builder
	for i, v := range s.v {
		fmt.Fprint(&b, v.r, v.c, v.v, "|")
		if s.g[i] != nil {
			fmt.Fprint(&b, "g", s.g[i].r, s.g[i].c, s.g[i].v)
		}
	}
	return b.String()
}

// histStep is an operation with its arguments.
type histStep struct {
	op   int
	args []int
}

func m04(t *lib.T) {
	ops := histOps()
	// Operations over the gradients are identified by numbers after those of
	// the operations over the values.
	const (
		accGrad  = 1000 // args[0].AccGrad(args[1])
		zeroGrad = 1001
		gradOf   = 1002 // a new matrix is a clone of the gradients
		mutGrad  = 1003 // the gradients are changed in place, as the clippers do
	)
	t.Rule("every history of operations (%d kinds, on every choice of existing matrices, including the same one twice) over an initial set of matrices, up to the depth; every matrix and gradient is compared with a pure copy-semantics model after every step; non-trivial: histories in which a matrix which was an operand or a result is later changed in place", len(ops)+4)
	t.Assume("NewMatrix with a backing slice, Data and Value share memory with their argument or receiver by design, and are not among the operations")

	enabledSteps := func(s histState, onlyMut bool) []histStep {
		var out []histStep
		n := len(s.v)
		for oi, op := range ops {
			if onlyMut && !op.mutates {
				continue
			}
			for i := 0; i < n; i++ {
				if op.arity == 1 {
					if op.enabled([]ref{s.v[i]}) {
						out = append(out, histStep{oi, []int{i}})
					}
					continue
				}
				for j := 0; j < n; j++ {
					if op.enabled([]ref{s.v[i], s.v[j]}) {
						out = append(out, histStep{oi, []int{i, j}})
					}
				}
			}
		}
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if s.v[i].r == s.v[j].r && s.v[i].c == s.v[j].c {
					if g := s.g[i]; g == nil || g.r == s.v[j].r && g.c == s.v[j].c {
						out = append(out, histStep{accGrad, []int{i, j}})
					}
				}
			}
			if s.g[i] != nil {
				out = append(out, histStep{zeroGrad, []int{i}}, histStep{mutGrad, []int{i}})
				if !onlyMut {
					out = append(out, histStep{gradOf, []int{i}})
				}
			}
		}
		return out
	}
	model := func(s histState, st histStep) histState {
		o := s.clone()
		switch st.op {
		case accGrad:
			x := s.v[st.args[1]].clone()
			if g := s.g[st.args[0]]; g != nil {
				x = zipRef(*g, x, func(a, b float64) float64 { return a + b })
			}
			o.g[st.args[0]] = &x
			return o
		case zeroGrad:
			o.g[st.args[0]] = nil
			return o
		case gradOf:
			o.v = append(o.v, *s.g[st.args[0]])
			o.g = append(o.g, nil)
			return o
		case mutGrad:
			x := s.g[st.args[0]].apply(func(v float64) float64 { return v * 2 })
			o.g[st.args[0]] = &x
			return o
		}
		op := ops[st.op]
		var args []ref
		for _, a := range st.args {
			args = append(args, s.v[a])
		}
		r := op.model(args)
		if op.mutates {
			o.v[st.args[0]] = r
		} else {
			o.v = append(o.v, r)
			o.g = append(o.g, nil)
		}
		return o
	}
	apply := func(ms []mat.Matrix, st histStep) ([]mat.Matrix, error) {
		switch st.op {
		case accGrad:
			ms[st.args[0]].AccGrad(ms[st.args[1]])
			return ms, nil
		case zeroGrad:
			ms[st.args[0]].ZeroGrad()
			return ms, nil
		case gradOf:
			return append(ms, ms[st.args[0]].Grad().(mat.Matrix).Clone()), nil
		case mutGrad:
			ms[st.args[0]].Grad().(mat.Matrix).ProdScalarInPlace(2)
			return ms, nil
		}
		op := ops[st.op]
		var args []mat.Matrix
		for _, a := range st.args {
			args = append(args, ms[a])
		}
		r := op.do(args)
		if op.mutates {
			if r != args[0] {
				return ms, errf("%s returned another matrix", op.name)
			}
			return ms, nil
		}
		for _, a := range args {
			if r == a {
				return ms, errf("%s returned its operand", op.name)
			}
		}
		return append(ms, r), nil
	}
	compare := func(ms []mat.Matrix, s histState) error {
		for i, m := range ms {
			if err := exactly(m, s.v[i]); err != nil {
				return tag(fmt.Sprintf("matrix %d", i), err)
			}
			if m.HasGrad() != (s.g[i] != nil) {
				return errf("matrix %d: HasGrad is %v", i, m.HasGrad())
			}
			if s.g[i] != nil {
				if err := exactly(m.Grad(), *s.g[i]); err != nil {
					return tag(fmt.Sprintf("gradients of matrix %d", i), err)
				}
			} else if m.Grad() != nil {
				return errf("matrix %d: unexpected gradients", i)
			}
		}
		return nil
	}
	name := func(h []histStep) string {
		var p []string
		for _, st := range h {
			n := map[int]string{accGrad: "AccGrad", zeroGrad: "ZeroGrad", gradOf: "GradClone", mutGrad: "GradChange"}[st.op]
			if n == "" {
				n = ops[st.op].name
			}
			p = append(p, fmt.Sprintf("%s%v", n, st.args))
		}
		return strings.Join(p, ";")
	}

	type start struct {
		name  string
		v     []ref
		large bool
	}
	starts := []start{
		{"2x2,2x1", []ref{{2, 2, []float64{1, -2, 3, 0.5}}, {2, 1, []float64{2, -1}}}, false},
		{"1x2,2x1", []ref{{1, 2, []float64{1.5, -2}}, {2, 1, []float64{2, -1}}}, false},
		{"1x1,1x3", []ref{{1, 1, []float64{-2}}, {1, 3, []float64{2, 0, -1}}}, false},
		{"2x3,2x3", []ref{{2, 3, []float64{1, 2, 3, 4, 5, 6}}, {2, 3, []float64{-1, 2, -3, 4, -5, 6}}}, false},
		{"3x1,zeros", []ref{{3, 1, []float64{1, 2, 3}}, {3, 1, []float64{0, 0, 0}}}, false},
	}
	// large ones, for histories of two operations
	large := func(name string, shapes ...sh) start {
		st := start{name: name, large: true}
		for i, x := range shapes {
			v := newRef(x[0], x[1])
			for k := range v.v {
				v.v[k] = float64((k*7+i)%5) - 2
			}
			st.v = append(st.v, v)
		}
		return st
	}
	starts = append(starts,
		start{name: "1x1,unit", v: []ref{{1, 1, []float64{1}}, {3, 1, []float64{0, -1, 0}}}},
		large("large1", sh{70, 70}, sh{70, 1}), large("large2", sh{1, 5003}, sh{5003, 1}), large("large3", sh{4200, 1}, sh{4200, 1}),
		large("large4", sh{66, 65}, sh{66, 65}), large("large5", sh{70000, 1}, sh{1, 1}), large("large6", sh{2, 40000}, sh{2, 1}))
	if t.Thorough() {
		starts = append(starts, large("large7", sh{300, 300}, sh{300, 1}), large("large8", sh{1, 1100000}, sh{1, 1}), large("large9", sh{130, 130}, sh{130, 130}))
	}
	depth := lib.Pick(t, 3, 4)
	// The last step of a history changes something in place.
	probes := map[string]bool{"SetScalar": true, "SetAtLast": true, "FlattenInPlace": true, "TransposeInPlace": true, "AddScalarInPlace": true}
	states := map[string]struct{}{}
	for _, d := range dts {
		for _, st := range starts {
			if d == 32 && st.name != "2x2,2x1" && !st.large {
				continue
			}
			depth := depth
			if depth == 4 && (d == 32 || st.name == "2x3,2x3" || st.name == "3x1,zeros") {
				depth = 3
			}
			if st.large {
				depth = 2
			}
			var rec func(s histState, h []histStep)
			rec = func(s histState, h []histStep) {
				left := depth - len(h)
				if len(h) == min(2, depth-1) && !t.Mine() {
					return
				}
				if left == 0 {
					t.Run("history", fmt.Sprintf("%d/%s/%s", d, st.name, name(h)), true, func() error {
						ms := make([]mat.Matrix, 0, 6)
						for _, v := range st.v {
							ms = append(ms, d.like(v))
						}
						cur := histState{st.v, make([]*ref, len(st.v))}
						var kept []mat.Tensor // gradients which have been reset
						var keptValues []ref
						for _, step := range h {
							if step.op == zeroGrad {
								g := ms[step.args[0]].Grad()
								kept, keptValues = append(kept, g), append(keptValues, refOf(g))
							}
							cur = model(cur, step)
							var err error
							if ms, err = apply(ms, step); err != nil {
								return err
							}
							t.Res.Transitions++
							if err := compare(ms, cur); err != nil {
								return err
							}
							if err := unchanged("the gradient kept since its reset", kept, keptValues); err != nil {
								return err
							}
						}
						if !st.large && len(states) < 1_000_000 {
							k := cur.key()
							if _, ok := states[k]; !ok {
								states[k] = struct{}{}
								t.Res.States++
							}
						}
						t.Res.Traces++
						return nil
					})
					return
				}
				// The last steps are those which change something.
				steps := enabledSteps(s, left == 1 || depth == 4 && left == 2)
				if left == 1 {
					k := 0
					for _, x := range steps {
						if st.large && x.op < 1000 && ops[x.op].name != "SetScalar" && ops[x.op].name != "AddScalarInPlace" {
							continue
						}
						if x.op >= 1000 && x.op != zeroGrad || x.op < 1000 && probes[ops[x.op].name] {
							steps[k] = x
							k++
						}
					}
					steps = steps[:k]
				}
				for _, step := range steps {
					rec(model(s, step), append(append([]histStep(nil), h...), step))
				}
			}
			rec(histState{st.v, make([]*ref, len(st.v))}, nil)
		}
	}
}
