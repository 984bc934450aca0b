package checks

import (
	"fmt"
	"strings"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
	"github.com/nlpodyssey/spago/verifmc/lib"
)

func init() { Registry["M03"] = m03 }

func (m ref) row(i int) ref { return ref{1, m.c, append([]float64(nil), m.v[i*m.c:(i+1)*m.c]...)} }

func (m ref) col(j int) ref {
	o := newRef(m.r, 1)
	for i := 0; i < m.r; i++ {
		o.v[i] = m.at(i, j)
	}
	return o
}

func (m ref) slice(r0, c0, r1, c1 int) ref {
	o := newRef(r1-r0, c1-c0)
	for i := r0; i < r1; i++ {
		for j := c0; j < c1; j++ {
			o.v[(i-r0)*o.c+j-c0] = m.at(i, j)
		}
	}
	return o
}

func (m ref) reshape(r, c int) ref { o := m.clone(); o.r, o.c = r, c; return o }

func (m ref) isVector() bool { return m.r == 1 || m.c == 1 }

// compositions lists the sequences of k sizes whose sum is at most n.
func compositions(n, k int) [][]int {
	if k == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range compositions(n, k-1) {
		s := 0
		for _, v := range p {
			s += v
		}
		for v := 0; s+v <= n; v++ {
			out = append(out, append(append([]int(nil), p...), v))
		}
	}
	return out
}

func m03(t *lib.T) {
	small := lib.Pick(t, 6, 9)
	max := lib.Pick(t, 18, 36)
	t.Rule("every structural operation (transpose, reshape, flatten, slice, row/column extraction, ranges, splits, padding, appending, stacking, concatenation, element access, construction) × {float32,float64} × every shape up to %d×%d, and larger ones, × every valid argument (up to %d×%d; beyond, every choice of indices among the first three, the middle and the last two); non-trivial: non-empty matrices", max, max, small, small)
	ext := [][2]int{{1, 33}, {33, 1}, {31, 33}, {32, 32}, {33, 31}, {64, 65}, {65, 64}, {66, 66}, {1, 129}, {129, 1}, {2, 257}, {257, 2}, {100, 130}, {130, 100}, {128, 128}, {129, 129}, {131, 131}, {257, 257}, {3, 1030}, {1030, 3}, {1025, 1}, {1, 4100}, {4100, 1}}
	if t.Thorough() {
		ext = append(ext, [2]int{129, 257}, [2]int{257, 129}, [2]int{1, 70000}, [2]int{70000, 1}, [2]int{513, 65}, [2]int{65, 513})
	}
	for _, d := range dts {
		for _, sh := range shapes(max, true, ext...) {
			r, c := sh[0], sh[1]
			in := rampRef(r, c)
			// idx returns the indices which are explored.
			idx := func(n int) []int {
				if r <= small && c <= small {
					n0 := make([]int, n)
					for i := range n0 {
						n0[i] = i
					}
					return n0
				}
				return someIndices(n)
			}
			op := func(name string, args any, f func(m mat.Matrix) error) {
				t.Casef(name, r*c > 0, func() error {
					m, guards := d.guarded(r, c, in.v, 1)
					return first(f(m), tag("the operand has changed", exactly(m, in)), guards())
				}, "%d/%dx%d/%v", d, r, c, args)
			}
			inPlace := func(name string, args any, f func(m mat.Matrix) mat.Matrix, want func() ref) {
				t.Casef(name, r*c > 0, func() error {
					m, guards := d.guarded(r, c, in.v, 1)
					got := f(m)
					if got != m {
						return errf("an in-place operation returned another matrix")
					}
					return first(exactly(m, want()), sameDT(got, d), guards())
				}, "%d/%dx%d/%v", d, r, c, args)
			}
			check := func(got mat.Tensor, want ref) error {
				return first(exactly(got, want), sameDT(got, d))
			}

			op("T", "", func(m mat.Matrix) error { return check(m.T(), in.t()) })
			op("TT", "", func(m mat.Matrix) error { return check(m.T().T(), in) })
			inPlace("TransposeInPlace", "", func(m mat.Matrix) mat.Matrix { return m.TransposeInPlace() }, func() ref { return in.t() })
			inPlace("TransposeInPlaceTwice", "", func(m mat.Matrix) mat.Matrix { return m.TransposeInPlace().TransposeInPlace() }, func() ref { return in })
			op("Flatten", "", func(m mat.Matrix) error { return check(m.Flatten(), in.reshape(1, r*c)) })
			inPlace("FlattenInPlace", "", func(m mat.Matrix) mat.Matrix { return m.FlattenInPlace() }, func() ref { return in.reshape(1, r*c) })
			for r2 := 0; r2 <= r*c; r2++ {
				for c2 := 0; c2 <= r*c; c2++ {
					if r2 > 0 && c2 == 0 {
						if c2 = r * c / r2; r*c > 0 && r*c%r2 != 0 {
							break
						}
					}
					if r2*c2 > r*c || r2 == 0 && r*c > 0 {
						break
					}
					if r2*c2 != r*c {
						continue
					}
					op("Reshape", [2]int{r2, c2}, func(m mat.Matrix) error { return check(m.Reshape(r2, c2), in.reshape(r2, c2)) })
					inPlace("ReshapeInPlace", [2]int{r2, c2}, func(m mat.Matrix) mat.Matrix { return m.ReshapeInPlace(r2, c2) }, func() ref { return in.reshape(r2, c2) })
				}
			}
			for _, i := range idx(r) {
				op("ExtractRow", i, func(m mat.Matrix) error { return check(m.ExtractRow(i), in.row(i)) })
			}
			for _, j := range idx(c) {
				op("ExtractColumn", j, func(m mat.Matrix) error { return check(m.ExtractColumn(j), in.col(j)) })
			}
			if r <= max && c <= max || r*c <= 2000 {
				for _, r0 := range idx(r) {
					for _, c0 := range idx(c) {
						op("Slice", [2]int{r0, c0}, func(m mat.Matrix) error {
							for _, r1 := range idx(r + 1) {
								for _, c1 := range idx(c + 1) {
									if r1 < r0 || c1 < c0 {
										continue
									}
									if err := check(m.Slice(r0, c0, r1, c1), in.slice(r0, c0, r1, c1)); err != nil {
										return tag(fmt.Sprintf("slice to %d,%d", r1, c1), err)
									}
								}
							}
							return nil
						})
					}
				}
			}
			for _, i := range idx(r) {
				for _, j := range idx(c) {
					op("At", [2]int{i, j}, func(m mat.Matrix) error {
						want := in.at(i, j)
						if got := m.ScalarAt(i, j).F64(); got != want {
							return errf("ScalarAt: got %v, expected %v", got, want)
						}
						if in.isVector() {
							if got := m.ScalarAt(i + j).F64(); got != want {
								return errf("ScalarAt of the vector: got %v, expected %v", got, want)
							}
							if err := check(m.At(i+j), ref{1, 1, []float64{want}}); err != nil {
								return err
							}
						}
						return check(m.At(i, j), ref{1, 1, []float64{want}})
					})
					for variant := 0; variant < 4; variant++ {
						inPlace("Set", [3]int{i, j, variant}, func(m mat.Matrix) mat.Matrix {
							idx := []int{i, j}
							if variant >= 2 && in.isVector() {
								idx = []int{i + j}
							}
							if variant%2 == 0 {
								m.SetScalar(float.Interface(float32(77.5)), idx...)
							} else {
								m.SetAt(mat.Scalar(77.5), idx...)
							}
							return m
						}, func() ref {
							o := in.clone()
							o.v[i*c+j] = 77.5
							return o
						})
					}
				}
			}
			for _, n := range []int{0, 1, 2, 3, 4, 17} {
				op("PadRows", n, func(m mat.Matrix) error {
					w := newRef(r+n, c)
					copy(w.v, in.v)
					return check(m.PadRows(n), w)
				})
				op("PadColumns", n, func(m mat.Matrix) error {
					w := newRef(r, c+n)
					for i := 0; i < r; i++ {
						copy(w.v[i*(c+n):], in.row(i).v)
					}
					return check(m.PadColumns(n), w)
				})
			}
			for n := 0; n <= 3; n++ {
				for kinds := 0; kinds < 1<<n; kinds++ {
					if c == 0 {
						continue
					}
					op("AppendRows", [2]int{n, kinds}, func(m mat.Matrix) error {
						w := ref{r + n, c, append([]float64(nil), in.v...)}
						var vs []mat.Matrix
						for k := 0; k < n; k++ {
							x := ramp2(c)
							x[0] += float64(k)
							dd := d
							if k == 2 {
								dd = 96 - d
							}
							if kinds>>k&1 == 0 {
								vs = append(vs, dd.mk(1, c, x))
							} else {
								vs = append(vs, dd.mk(c, 1, x))
							}
							w.v = append(w.v, x...)
						}
						return check(m.AppendRows(vs...), w)
					})
				}
			}
			if r == c {
				op("Augment", "", func(m mat.Matrix) error {
					w := newRef(r, 2*c)
					for i := 0; i < r; i++ {
						copy(w.v[i*2*c:], in.row(i).v)
						w.v[i*2*c+c+i] = 1
					}
					return check(m.Augment(), w)
				})
			}
			for _, i := range idx(r) {
				for _, j := range idx(r) {
					inPlace("SwapInPlace", [2]int{i, j}, func(m mat.Matrix) mat.Matrix { return m.SwapInPlace(i, j) }, func() ref {
						o := in.clone()
						copy(o.v[i*c:], in.row(j).v)
						copy(o.v[j*c:], in.row(i).v)
						return o
					})
				}
			}
			if in.isVector() {
				n := r * c
				for _, k := range idx(n + 4) {
					op("ResizeVector", k, func(m mat.Matrix) error {
						w := newRef(k, 1)
						copy(w.v, in.v)
						return check(m.ResizeVector(k), w)
					})
				}
				for _, from := range idx(n + 1) {
					for _, to := range idx(n + 1) {
						if to < from {
							continue
						}
						op("Range", [2]int{from, to}, func(m mat.Matrix) error {
							return check(m.Range(from, to), ref{to - from, 1, in.v[from:to]})
						})
					}
				}
				{
					for k := 0; k <= 3; k++ {
						var parts [][]int
						if n <= 6 {
							parts = compositions(n, k)
						} else if k == 2 || k == 3 {
							for _, from := range idx(n + 1) {
								for _, to := range idx(n + 1) {
									if from <= to {
										parts = append(parts, append([]int{from, to - from}, []int{n - to}[:k-2]...))
									}
								}
							}
						}
						for _, sizes := range parts {
							op("SplitV", sizes, func(m mat.Matrix) error {
								got := m.SplitV(sizes...)
								if len(got) != len(sizes) {
									return errf("%d chunks, expected %d", len(got), len(sizes))
								}
								at := 0
								for i, s := range sizes {
									if err := check(got[i], ref{s, 1, in.v[at : at+s]}); err != nil {
										return tag(fmt.Sprintf("chunk %d", i), err)
									}
									at += s
								}
								return nil
							})
						}
					}
				}
				op("DoVecNonZero", "", func(m mat.Matrix) error {
					z := in.clone()
					for i := range z.v {
						if i%3 == 1 {
							z.v[i] = 0
						}
					}
					var got []string
					d.like(z).DoVecNonZero(func(i int, v float64) { got = append(got, fmt.Sprint(i, v)) })
					var want []string
					for i, v := range z.v {
						if v != 0 {
							want = append(want, fmt.Sprint(i, v))
						}
					}
					return eqStrings(got, want)
				})
			}
			op("DoNonZero", "", func(m mat.Matrix) error {
				z := in.clone()
				for i := range z.v {
					if i%3 == 1 {
						z.v[i] = 0
					}
				}
				var got, want []string
				d.like(z).DoNonZero(func(i, j int, v float64) { got = append(got, fmt.Sprint(i, j, v)) })
				for i, v := range z.v {
					if v != 0 {
						want = append(want, fmt.Sprint(i/c, i%c, v))
					}
				}
				return eqStrings(got, want)
			})
			op("Apply-positions", "", func(m mat.Matrix) error {
				f := func(i, j int, v float64) float64 { return float64(100*i+j) + v }
				w := in.clone()
				for i := range w.v {
					w.v[i] = float64(100*(i/c)+i%c) + in.v[i]
				}
				g := func(i, j int, v float64, a ...float64) float64 { return float64(100*i+j) + v*a[0] }
				return first(check(m.Apply(f), w), check(m.ZerosLike().ApplyInPlace(f, m), w), check(m.ApplyWithAlpha(g, 1), w), check(m.OnesLike().ApplyWithAlphaInPlace(g, m, 1), w))
			})
			op("Equal", "", func(m mat.Matrix) error {
				for _, d2 := range dts {
					o := d2.like(in)
					if !mat.Equal(m, o) || !mat.InDelta(m, o, 0) || !mat.SameDims(m, o) {
						return errf("equal matrices of %d and %d bits are not reported as such", d, d2)
					}
					for _, i := range idx(len(in.v)) {
						x := in.clone()
						x.v[i] += 0.5
						if o := d2.like(x); mat.Equal(m, o) || mat.InDelta(m, o, 0.25) || !mat.InDelta(m, o, 0.75) {
							return errf("matrices which differ in the element %d are not compared correctly", i)
						}
					}
					if r != c {
						if o := d2.mk(c, r, in.v); mat.Equal(m, o) || mat.SameDims(m, o) || mat.InDelta(m, o, 10) {
							return errf("matrices of different shapes are reported as equal")
						}
					}
				}
				if mat.IsVector(m) != in.isVector() || mat.IsScalar(m) != (r*c == 1) || m.Dims() != 2 || m.Size() != r*c {
					return errf("wrong IsVector, IsScalar, Dims or Size")
				}
				return nil
			})
			op("Data", "", func(m mat.Matrix) error {
				f64, f32 := mat.Data[float64](m), mat.Data[float32](m)
				for i, v := range in.v {
					if f64[i] != v || f32[i] != float32(v) {
						return errf("element %d", i)
					}
				}
				if len(f64) != r*c || len(f32) != r*c {
					return errf("length")
				}
				o := m.ZerosLike()
				o.SetData(m.Data())
				p := m.OnesLike()
				p.SetData((96 - d).like(in).Data())
				q := m.ZerosLike()
				mat.SetData(q, in.v)
				cp := m.ZerosLike()
				cp.Copy((96 - d).like(in))
				return first(check(o, in), check(p, in), check(q, in), check(cp, in))
			})
			op("SetData-copies", "", func(m mat.Matrix) error {
				o := m.ZerosLike()
				o.SetData(m.Data())
				o.AddScalarInPlace(1)
				cp := m.ZerosLike()
				cp.Copy(m)
				cp.AddScalarInPlace(1)
				cl := m.Clone()
				cl.AddScalarInPlace(1)
				return nil
			})
			op("New", "", func(m mat.Matrix) error {
				if err := first(check(m.NewMatrix(mat.WithShape(r, c)), newRef(r, c)), check(m.NewMatrix(mat.WithShape(r, c), mat.WithBacking(conv[float64](in.v))), in), check(m.NewMatrix(mat.WithShape(r, c), mat.WithBacking(conv[float32](in.v))), in),
					check(m.NewScalar(2.5), ref{1, 1, []float64{2.5}})); err != nil {
					return err
				}
				if r*c > 0 {
					return check(m.NewMatrix(mat.WithBacking(conv[float64](in.v))), ref{r * c, 1, in.v})
				}
				return nil
			})
			op("New-requires-grad", "", func(m mat.Matrix) error {
				for _, g := range []bool{true, false} {
					x := m.NewMatrix(mat.WithShape(r, c), mat.WithGrad(g))
					y := m.NewScalar(1, mat.WithGrad(g))
					if x.RequiresGrad() != g || y.RequiresGrad() != g {
						return errf("WithGrad(%v) is not honoured", g)
					}
					x.SetRequiresGrad(!g)
					if x.RequiresGrad() == g || m.RequiresGrad() {
						return errf("SetRequiresGrad is not honoured")
					}
				}
				return nil
			})
			op("Initialize", "", func(m mat.Matrix) error {
				got := mat.InitializeMatrix(r, c, func(i, j int) float64 { return float64(100*i + j) })
				if len(got) != r*c {
					return errf("%d elements", len(got))
				}
				for i, v := range got {
					if v != float64(100*(i/c)+i%c) {
						return errf("element %d: %v", i, v)
					}
				}
				if r == c {
					id := mat.CreateIdentityMatrix[float32](r)
					for i, v := range id {
						if w := i/c == i%c; (v == 1) != w || (v == 0) == w {
							return errf("identity: element %d: %v", i, v)
						}
					}
					if len(id) != r*c {
						return errf("identity: %d elements", len(id))
					}
				}
				for j := 0; j < c; j++ {
					for k, v := range mat.CreateOneHotVector[float64](c, j) {
						if (v == 1) != (k == j) || (v == 0) == (k == j) {
							return errf("one-hot: element %d: %v", k, v)
						}
					}
				}
				for _, v := range mat.CreateInitializedSlice[float64](r, 1.5) {
					if v != 1.5 {
						return errf("CreateInitializedSlice")
					}
				}
				return nil
			})
			op("String", "", func(m mat.Matrix) error {
				var ws []string
				for _, v := range in.v {
					ws = append(ws, fmt.Sprint(v))
				}
				want := fmt.Sprintf("(%d×%d)[%s]", r, c, strings.Join(ws, " "))
				if got := m.String(); !strings.HasSuffix(got, want) {
					return errf("String() = %s, expected ...%s", got, want)
				}
				return nil
			})
			if r*c == 1 {
				op("Item", "", func(m mat.Matrix) error {
					if m.Item().F64() != in.v[0] {
						return errf("Item() = %v", m.Item())
					}
					return nil
				})
			}
		}

		// Concatenation and stacking of all the sequences of vectors.
		var seqs [][]int
		for k := 0; k <= lib.Pick(t, 3, 4); k++ {
			for _, s := range compositions(lib.Pick(t, 7, 10), k) {
				seqs = append(seqs, s)
			}
		}
		for _, a := range []int{0, 3, 15, 17, 33, 64, 257} {
			for _, b := range []int{1, 16, 17, 31, 64, 130} {
				seqs = append(seqs, []int{a, b}, []int{b, b}, []int{b, a, 9}, []int{b, b, b})
			}
		}
		var many, equal []int
		for k := 0; k < 40; k++ {
			many, equal = append(many, k%7), append(equal, 19)
		}
		for _, s := range append(seqs, many, equal) {
			variants := 1 << len(s)
			if len(s) > 5 {
				variants = 3
			}
			for kinds := 0; kinds < variants; kinds++ {
				t.Casef("Concat", len(s) > 0, func() error {
					var vs []mat.Matrix
					var refs []ref
					var all []float64
					for i, n := range s {
						x := ramp(n)
						for j := range x {
							x[j] += float64(10 * i)
						}
						dd := d
						if i == 1 {
							dd = 96 - d
						}
						r, c := n, 1
						if kinds>>i&1 == 1 {
							r, c = 1, n
						}
						vs = append(vs, dd.mk(r, c, x))
						refs = append(refs, ref{r, c, x})
						all = append(all, x...)
					}
					m := d.scalar(1)
					want := ref{len(all), 1, all}
					errs := []error{tag("NewConcatV", first(exactly(m.NewConcatV(vs...), want), sameDT(m.NewConcatV(vs...), d)))}
					if d == 32 {
						errs = append(errs, tag("ConcatV", first(exactly(mat.ConcatV[float32](vs...), want))))
					} else {
						errs = append(errs, tag("ConcatV", first(exactly(mat.ConcatV[float64](vs...), want))))
					}
					equal := true
					for _, n := range s {
						equal = equal && n == s[0]
					}
					if equal {
						w := ref{0, 0, all}
						if len(s) > 0 {
							w.r, w.c = len(s), s[0]
						}
						errs = append(errs, tag("NewStack", first(exactly(m.NewStack(vs...), w), sameDT(m.NewStack(vs...), d))))
					} else if !lib.Panics(func() { m.NewStack(vs...) }) {
						errs = append(errs, errf("NewStack accepts vectors of different sizes"))
					}
					for i := range vs {
						errs = append(errs, tag("operand", exactly(vs[i], refs[i])))
					}
					return first(errs...)
				}, "%d/%v/%b", d, s, kinds)
			}
		}
	}
}

// someIndices returns the first three, the middle and the last two of n indices.
func someIndices(n int) []int {
	var out []int
	for _, i := range []int{0, 1, 2, n / 2, n - 2, n - 1} {
		if i >= 0 && i < n && (len(out) == 0 || i > out[len(out)-1]) {
			out = append(out, i)
		}
	}
	return out
}

func eqStrings(got, want []string) error {
	if strings.Join(got, "|") != strings.Join(want, "|") {
		return errf("got %v, expected %v", got, want)
	}
	return nil
}
