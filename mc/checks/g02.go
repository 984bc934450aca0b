package checks

import (
	"fmt"
	"math"
	"sort"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/verifmc/lib"
)

func init() {
	Registry["G02"] = g02
	Registry["G03"] = g03
}

func colOf(v ...float64) ref { return ref{len(v), 1, v} }

func addRef(a, b ref) ref { return zipRef(a, b, func(x, y float64) float64 { return x + y }) }

func g02(t *lib.T) {
	t.Rule("every linear-algebra and structural operator (products, affine and bilinear maps with any number of pairs and absent ones, transpose, reshape, flatten, slice, row/column/element access, rotation, concatenation, stacking, appending of rows, separations and splits) × {float32,float64} × shapes and valid arguments × kinds of operand × every subset of operands which require gradients × dense and sparse output gradients, and with the same tensor as two operands; the gradients are compared with central differences of the definition; non-trivial: some operand requires gradients")
	two := gens{genMixed, genMixed2, genTied}
	one := gens{genMixed, genTied}
	th := t.Thorough()

	// Products.
	var muls, dots, mults [][][2]int
	dim := []int{1, 2, 3, 5}
	if th {
		dim = []int{1, 2, 3, 4, 5, 8, 9}
	}
	var lmuls, ldots, lmults [][][2]int
	for _, r := range []int{1, 4, 9, 17} {
		for _, k := range []int{1, 8, 16, 19, 33} {
			for _, c := range []int{1, 2, 9, 18} {
				lmuls = append(lmuls, [][2]int{{r, k}, {k, c}})
			}
			lmults = append(lmults, [][2]int{{k, r}, {k, 1}})
			ldots = append(ldots, [][2]int{{r, k}, {r, k}}, [][2]int{{k, r}, {k, r}})
		}
	}
	for _, r := range dim {
		for _, k := range dim {
			for _, c := range dim {
				muls = append(muls, [][2]int{{r, k}, {k, c}})
			}
			mults = append(mults, [][2]int{{k, r}, {k, 1}})
			dots = append(dots, [][2]int{{r, k}, {r, k}})
		}
	}
	for _, o := range []gop{gop{name: "Mul", points: pts(two, muls...), f: func(x []mat.Tensor) mat.Tensor { return ag.Mul(x[0], x[1]) },
		def: func(x []ref) ref { return mulRef(x[0], x[1]) }}} {
		o.check(t, "products")
		o.large(pts(two, lmuls...)).check(t, "large")
	}
	for _, o := range []gop{gop{name: "MulT", points: pts(two, mults...), f: func(x []mat.Tensor) mat.Tensor { return ag.MulT(x[0], x[1]) },
		def: func(x []ref) ref { return mulRef(x[0].t(), x[1]) }}} {
		o.check(t, "products")
		o.large(pts(two, lmults...)).check(t, "large")
	}
	for _, o := range []gop{gop{name: "Dot", points: pts(two, dots...), f: func(x []mat.Tensor) mat.Tensor { return ag.Dot(x[0], x[1]) },
		def: func(x []ref) ref {
			return ref{1, 1, []float64{zipRef(x[0], x[1], func(a, b float64) float64 { return a * b }).sum()}}
		}}} {
		o.check(t, "products")
		o.large(pts(two, ldots...)).check(t, "large")
	}

	// Very large ones.
	mk := func(name string, f func(x []mat.Tensor) mat.Tensor, def func(x []ref) ref, shs ...[][2]int) {
		gop{name: name, f: f, def: def}.huge(pts(gens{genLong}, shs...)).check(t, "huge")
	}
	mk("Mul", func(x []mat.Tensor) mat.Tensor { return ag.Mul(x[0], x[1]) }, func(x []ref) ref { return mulRef(x[0], x[1]) },
		[][2]int{{1025, 2}, {2, 1}}, [][2]int{{2, 1025}, {1025, 1}}, [][2]int{{2, 1025}, {1025, 3}}, [][2]int{{2, 3}, {3, 600}}, [][2]int{{40, 41}, {41, 1}}, [][2]int{{40, 41}, {41, 33}}, [][2]int{{130, 130}, {130, 1}})
	mk("MulT", func(x []mat.Tensor) mat.Tensor { return ag.MulT(x[0], x[1]) }, func(x []ref) ref { return mulRef(x[0].t(), x[1]) },
		[][2]int{{1025, 2}, {1025, 1}}, [][2]int{{2, 1025}, {2, 1}}, [][2]int{{40, 41}, {40, 1}}, [][2]int{{130, 130}, {130, 1}})
	mk("Dot", func(x []mat.Tensor) mat.Tensor { return ag.Dot(x[0], x[1]) }, func(x []ref) ref {
		return ref{1, 1, []float64{zipRef(x[0], x[1], func(a, b float64) float64 { return a * b }).sum()}}
	}, [][2]int{{1025, 1}, {1025, 1}}, [][2]int{{1, 600}, {1, 600}}, [][2]int{{40, 41}, {40, 41}})
	mk("Affine", func(x []mat.Tensor) mat.Tensor { return ag.Affine(x[0], x[1], x[2]) }, func(x []ref) ref { return addRef(x[0], mulRef(x[1], x[2])) },
		[][2]int{{600, 1}, {600, 2}, {2, 1}}, [][2]int{{2, 1}, {2, 1025}, {1025, 1}}, [][2]int{{40, 3}, {40, 41}, {41, 3}})
	for _, pairs := range []int{6, 20} {
		s := [][2]int{{2, 1}, {2, 3}, {3, 1}}
		for i := 0; i < pairs; i++ {
			s = append(s, sh{2, 1 + i%4}, sh{1 + i%4, 1})
		}
		mk("AffinePairs", func(x []mat.Tensor) mat.Tensor { return ag.Affine(x[0], x[1], x[2], x[3:]...) }, func(x []ref) ref {
			y := x[0]
			for i := 1; i < len(x); i += 2 {
				y = addRef(y, mulRef(x[i], x[i+1]))
			}
			return y
		}, s)
	}
	for _, s := range [][2]int{{130, 3}, {3, 130}, {40, 41}, {1025, 1}, {1, 1025}, {260, 2}} {
		r, c := s[0], s[1]
		st := func(name string, f func(x mat.Tensor) mat.Tensor, def func(x ref) ref) {
			mk(name, func(x []mat.Tensor) mat.Tensor { return f(x[0]) }, func(x []ref) ref { return def(x[0]) }, [][2]int{s})
		}
		joined := func(x ref) ref { return colOf(x.v...) }
		st("T", ag.T, ref.t)
		st("Flatten", ag.Flatten, func(x ref) ref { return x.reshape(1, r*c) })
		st("Reshape", func(x mat.Tensor) mat.Tensor { return ag.Reshape(x, r*c, 1) }, func(x ref) ref { return x.reshape(r*c, 1) })
		st("RowView", func(x mat.Tensor) mat.Tensor { return ag.RowView(x, r-1) }, func(x ref) ref { return x.row(r - 1) })
		st("ColView", func(x mat.Tensor) mat.Tensor { return ag.ColView(x, c-1) }, func(x ref) ref { return x.col(c - 1) })
		st("At", func(x mat.Tensor) mat.Tensor { return ag.At(x, r-1, c/2) }, func(x ref) ref { return one1(x.at(r-1, c/2)) })
		st("Slice", func(x mat.Tensor) mat.Tensor { return ag.Slice(x, r/3, c/3, r, c) }, func(x ref) ref { return x.slice(r/3, c/3, r, c) })
		if r*c < 500 {
			st("RowViews", func(x mat.Tensor) mat.Tensor { return ag.Concat(ag.RowViews(x)...) }, joined)
			st("ColViews", func(x mat.Tensor) mat.Tensor { return ag.Concat(ag.ColViews(x)...) }, func(x ref) ref { return joined(x.t()) })
			st("SeparateMatrix", func(x mat.Tensor) mat.Tensor {
				var all []mat.Tensor
				for _, row := range ag.SeparateMatrix(x) {
					all = append(all, row...)
				}
				return ag.Concat(all...)
			}, joined)
		}
		if r == 1 || c == 1 {
			st("RotateR", func(x mat.Tensor) mat.Tensor { return ag.RotateR(x, 700) }, func(x ref) ref {
				return colOf(append(append([]float64(nil), x.v[325:]...), x.v[:325]...)...)
			})
		}
		if c == 1 {
			st("SplitVec", func(x mat.Tensor) mat.Tensor { return ag.Concat(ag.SplitVec(x, 205)...) }, joined)
		}
	}
	for _, n := range []int{9, 40, 60} {
		var vecs, equal, rows [][2]int
		rows = append(rows, sh{2, 4})
		for i := 0; i < n; i++ {
			vecs = append(vecs, [][2]int{{1 + i%5, 1}, {1, 2 + i%3}}[i%2])
			equal = append(equal, [][2]int{{4, 1}, {1, 4}}[i*3%7%2])
			rows = append(rows, [][2]int{{4, 1}, {1, 4}}[i*3%7%2])
		}
		rows = rows[:n]
		concatOp(vecs).huge(pts(gens{genLong}, vecs)).check(t, "huge")
		stackOp(equal).huge(pts(gens{genLong}, equal)).check(t, "huge")
		mk("AppendRows", func(x []mat.Tensor) mat.Tensor { return ag.AppendRows(x[0], x[1:]...) }, func(x []ref) ref {
			o := ref{n + 1, 4, nil}
			for _, y := range x {
				o.v = append(o.v, y.v...)
			}
			return o
		}, rows)
	}
	for _, n := range lib.Pick(t, []int{65, 130}, []int{63, 64, 65, 130, 257}) {
		var vecs, equal [][2]int
		rows, affine := [][2]int{{2, 3}}, [][2]int{{2, 1}}
		for i := 0; i < n; i++ {
			vecs = append(vecs, [][2]int{{1 + i%3, 1}, {1, 2 + i%2}}[i%2])
			equal = append(equal, [][2]int{{3, 1}, {1, 3}}[i*3%7%2])
			affine = append(affine, sh{2, 1 + i%3}, sh{1 + i%3, 1})
		}
		rows = append(rows, equal[1:]...)
		affine = affine[:n/2*2+1]
		many := func(o gop, ss [][2]int) {
			o.points, o.mag = pts(gens{genLong}, ss), 30
			o.checkMany(t, "many")
		}
		many(concatOp(vecs), vecs)
		many(stackOp(equal), equal)
		many(gop{name: "AppendRows", f: func(x []mat.Tensor) mat.Tensor { return ag.AppendRows(x[0], x[1:]...) }, def: func(x []ref) ref {
			o := ref{n + 1, 3, nil}
			for _, y := range x {
				o.v = append(o.v, y.v...)
			}
			return o
		}}, rows)
		many(gop{name: "AffinePairs", f: func(x []mat.Tensor) mat.Tensor { return ag.Affine(x[0], x[1], x[2], x[3:]...) }, def: func(x []ref) ref {
			y := x[0]
			for i := 1; i < len(x); i += 2 {
				y = addRef(y, mulRef(x[i], x[i+1]))
			}
			return y
		}}, affine)
	}
	longs := [][2]int{{1025, 1}, {600, 1}}
	for _, ss := range [][][2]int{{{1025, 1}, {1, 600}, {3, 1}}, {{2, 1}, {1025, 1}}, longs} {
		concatOp(ss).huge(pts(gens{genLong}, ss)).check(t, "huge")
	}
	for _, ss := range [][][2]int{{{600, 1}, {1, 600}}, {{1, 1025}, {1025, 1}}} {
		stackOp(ss).huge(pts(gens{genLong}, ss)).check(t, "huge")
	}

	// Affine maps; a bit of the mask tells which of the additional pairs have no x.
	for _, o := range []int{1, 3, 9} {
		for _, k := range []int{1, 2, 4, 17} {
			for _, c := range []int{1, 2} {
				for pairs := 0; pairs <= 2; pairs++ {
					for absent := 0; absent < 1<<pairs; absent++ {
						s, same := [][2]int{{o, c}, {o, k}, {k, c}}, [][2]int{{o, c}, {o, k}, {k, c}}
						for i := 0; i < pairs; i++ {
							s = append(s, sh{o, k + i}, sh{k + i, c})
							same = append(same, sh{o, k}, sh{k, c})
						}
						points := pts(one, s)
						if pairs > 0 {
							points = append(points, pts(one[:1], same)...)
						}
						gop{name: fmt.Sprintf("Affine/absent%b", absent), points: points, light: o > 3 || k > 4,
							f: func(x []mat.Tensor) mat.Tensor {
								ps := append([]mat.Tensor(nil), x[3:]...)
								for i := 0; i < pairs; i++ {
									if absent>>i&1 == 1 {
										ps[2*i+1] = nil
									}
								}
								return ag.Affine(x[0], x[1], x[2], ps...)
							},
							def: func(x []ref) ref {
								y := addRef(x[0], mulRef(x[1], x[2]))
								for i := 0; i < pairs; i++ {
									if absent>>i&1 == 0 {
										y = addRef(y, mulRef(x[3+2*i], x[4+2*i]))
									}
								}
								return y
							},
							unused: func(i int) bool { return i >= 3 && absent>>((i-3)/2)&1 == 1 },
						}.check(t, "affine")
					}
				}
			}
		}
	}
	for _, n := range []int{1, 2, 3, 9} {
		for _, m := range []int{1, 2, 4, 17} {
			bil := func(w, a, b ref) ref { return mulRef(mulRef(a.t(), w), b) }
			gop{name: "BiLinear", points: pts(one, [][2]int{{n, m}, {n, 1}, {m, 1}}),
				f:   func(x []mat.Tensor) mat.Tensor { return ag.BiLinear(x[0], x[1], x[2]) },
				def: func(x []ref) ref { return bil(x[0], x[1], x[2]) }}.check(t, "bilinear")
			gop{name: "BiAffine", points: pts(one, [][2]int{{n, m}, {n, 1}, {m, 1}, {1, 1}, {n, 1}, {m, 1}}),
				f: func(x []mat.Tensor) mat.Tensor { return ag.BiAffine(x[0], x[1], x[2], x[3], x[4], x[5]) },
				def: func(x []ref) ref {
					return addRef(addRef(addRef(bil(x[0], x[4], x[5]), mulRef(x[1].t(), x[4])), mulRef(x[2].t(), x[5])), x[3])
				}}.check(t, "bilinear")
		}
	}

	// Structure.
	max := lib.Pick(t, 4, 5)
	for _, s := range shapes(max, false, sh{1, 5}, sh{5, 1}, sh{1, 18}, sh{18, 1}, sh{1, 33}, sh{33, 1}, sh{9, 17}, sh{17, 9}, sh{16, 16}) {
		r, c := s[0], s[1]
		p := pts(one, [][2]int{s})
		light := r > 5 || c > 5
		idx := func(from, n int) []int {
			var out []int
			for i := from; i < n; i++ {
				if light && i > from+1 && i < n-2 && i != n/2 {
					continue
				}
				out = append(out, i)
			}
			return out
		}
		st := func(name string, f func(x mat.Tensor) mat.Tensor, def func(x ref) ref) {
			gop{name: name, points: p, f: func(x []mat.Tensor) mat.Tensor { return f(x[0]) }, def: func(x []ref) ref { return def(x[0]) }, light: light}.check(t, "structure")
		}
		st("T", ag.T, ref.t)
		st("Flatten", ag.Flatten, func(x ref) ref { return x.reshape(1, r*c) })
		for k := 1; k <= r*c; k++ {
			if r*c%k == 0 {
				st(fmt.Sprintf("Reshape%dx%d", k, r*c/k), func(x mat.Tensor) mat.Tensor { return ag.Reshape(x, k, r*c/k) }, func(x ref) ref { return x.reshape(k, r*c/k) })
			}
		}
		for _, i := range idx(0, r) {
			st(fmt.Sprintf("RowView%d", i), func(x mat.Tensor) mat.Tensor { return ag.RowView(x, i) }, func(x ref) ref { return x.row(i) })
			for _, j := range idx(0, c) {
				st(fmt.Sprintf("At%d,%d", i, j), func(x mat.Tensor) mat.Tensor { return ag.At(x, i, j) }, func(x ref) ref { return ref{1, 1, []float64{x.at(i, j)}} })
				for _, i2 := range idx(i+1, r+1) {
					for _, j2 := range idx(j+1, c+1) {
						st(fmt.Sprintf("Slice%d,%d-%d,%d", i, j, i2, j2), func(x mat.Tensor) mat.Tensor { return ag.Slice(x, i, j, i2, j2) }, func(x ref) ref { return x.slice(i, j, i2, j2) })
					}
				}
			}
		}
		for _, j := range idx(0, c) {
			st(fmt.Sprintf("ColView%d", j), func(x mat.Tensor) mat.Tensor { return ag.ColView(x, j) }, func(x ref) ref { return x.col(j) })
		}
		reversed := func(xs []mat.Tensor) mat.Tensor {
			var ys []mat.Tensor
			for i := len(xs) - 1; i >= 0; i-- {
				ys = append(ys, xs[i])
			}
			return ag.Concat(ys...)
		}
		st("RowViews", func(x mat.Tensor) mat.Tensor { return reversed(ag.RowViews(x)) }, func(x ref) ref {
			var v []float64
			for i := r - 1; i >= 0; i-- {
				v = append(v, x.row(i).v...)
			}
			return colOf(v...)
		})
		st("ColViews", func(x mat.Tensor) mat.Tensor { return reversed(ag.ColViews(x)) }, func(x ref) ref {
			var v []float64
			for j := c - 1; j >= 0; j-- {
				v = append(v, x.col(j).v...)
			}
			return colOf(v...)
		})
		st("SeparateMatrix", func(x mat.Tensor) mat.Tensor {
			var all []mat.Tensor
			for _, row := range ag.SeparateMatrix(x) {
				all = append(all, row...)
			}
			return reversed(all)
		}, func(x ref) ref {
			var v []float64
			for i := len(x.v) - 1; i >= 0; i-- {
				v = append(v, x.v[i])
			}
			return colOf(v...)
		})
		if r == 1 || c == 1 {
			n := r * c
			for _, i := range idx(0, n) {
				st(fmt.Sprintf("At%d", i), func(x mat.Tensor) mat.Tensor { return ag.At(x, i) }, func(x ref) ref { return ref{1, 1, x.v[i : i+1]} })
				st(fmt.Sprintf("RotateR%d", i), func(x mat.Tensor) mat.Tensor { return ag.RotateR(x, i) }, func(x ref) ref {
					return colOf(append(append([]float64(nil), x.v[n-i:]...), x.v[:n-i]...)...)
				})
			}
			st("SeparateVec", func(x mat.Tensor) mat.Tensor { return reversed(ag.SeparateVec(x)) }, func(x ref) ref {
				var v []float64
				for i := n - 1; i >= 0; i-- {
					v = append(v, x.v[i])
				}
				return colOf(v...)
			})
			if c == 1 {
				for k := 1; k <= n; k++ {
					if n%k != 0 {
						continue
					}
					st(fmt.Sprintf("SplitVec%d", k), func(x mat.Tensor) mat.Tensor { return reversed(ag.SplitVec(x, k)) }, func(x ref) ref {
						var v []float64
						for i := k - 1; i >= 0; i-- {
							v = append(v, x.v[i*n/k:(i+1)*n/k]...)
						}
						return colOf(v...)
					})
				}
			}
		}
		// Rows appended, as row or column vectors.
		for n := 0; n <= 2; n++ {
			for cols := 0; cols < 1<<n; cols++ {
				ss := [][2]int{s}
				for i := 0; i < n; i++ {
					if cols>>i&1 == 1 {
						ss = append(ss, sh{c, 1})
					} else {
						ss = append(ss, sh{1, c})
					}
				}
				gop{name: fmt.Sprintf("AppendRows%d", n), points: pts(one, ss), light: light, f: func(x []mat.Tensor) mat.Tensor { return ag.AppendRows(x[0], x[1:]...) },
					def: func(x []ref) ref {
						o := ref{r + n, c, nil}
						for _, y := range x {
							o.v = append(o.v, y.v...)
						}
						return o
					}}.check(t, "append")
			}
		}
	}
	// Concatenation and stacking of vectors.
	var lists [][][2]int
	for _, a := range []int{8, 17, 33, 64} {
		for _, b := range []int{1, 9, 16} {
			lists = append(lists, [][2]int{{a, 1}, {b, 1}}, [][2]int{{1, b}, {a, 1}, {1, a}}, [][2]int{{a, 1}, {1, a}, {a, 1}, {a, 1}, {1, a}})
		}
	}
	for _, ss := range lists {
		concatOp(ss).large(pts(one, ss)).check(t, "large")
		if ss[0][0]*ss[0][1] == ss[1][0]*ss[1][1] {
			stackOp(ss).large(pts(one, ss)).check(t, "large")
		}
	}
	for _, n := range []int{1, 2, 3} {
		lens := []int{1, 2, 3}
		total := 1
		for i := 0; i < n; i++ {
			total *= len(lens) * 2
		}
		for k := 0; k < total; k++ {
			var ss [][2]int
			q := k
			equal := true
			for i := 0; i < n; i++ {
				l := lens[q%3]
				q /= 3
				if q%2 == 0 {
					ss = append(ss, sh{l, 1})
				} else {
					ss = append(ss, sh{1, l})
				}
				q /= 2
				if l != ss[0][0]*ss[0][1] {
					equal = false
				}
			}
			o := concatOp(ss)
			o.points = pts(one, ss)
			o.check(t, "concat")
			if equal {
				o := stackOp(ss)
				o.points = pts(one, ss)
				o.check(t, "concat")
			}
		}
	}
}

func concatOp(ss [][2]int) gop {
	return gop{name: "Concat", f: func(x []mat.Tensor) mat.Tensor { return ag.Concat(x...) },
		def: func(x []ref) ref {
			var v []float64
			for _, y := range x {
				v = append(v, y.v...)
			}
			return colOf(v...)
		}}
}

func stackOp(ss [][2]int) gop {
	return gop{name: "Stack", f: func(x []mat.Tensor) mat.Tensor { return ag.Stack(x...) },
		def: func(x []ref) ref {
			o := ref{len(ss), len(x[0].v), nil}
			for _, y := range x {
				o.v = append(o.v, y.v...)
			}
			return o
		}}
}

func sparsemaxDef(x ref) (ref, float64) {
	z := append([]float64(nil), x.v...)
	sort.Sort(sort.Reverse(sort.Float64Slice(z)))
	s, tau := 0.0, 0.0
	for i, v := range z {
		s += v
		if 1+float64(i+1)*v > s {
			tau = (s - 1) / float64(i+1)
		}
	}
	return x.apply(func(v float64) float64 { return math.Max(0, v-tau) }), tau
}

func logSumExp(x []float64) float64 {
	m := x[0]
	for _, v := range x {
		m = math.Max(m, v)
	}
	s := 0.0
	for _, v := range x {
		s += math.Exp(v - m)
	}
	return m + math.Log(s)
}

func one1(v float64) ref { return ref{1, 1, []float64{v}} }

func maxOf(x ref) float64 {
	m := x.v[0]
	for _, v := range x.v {
		m = math.Max(m, v)
	}
	return m
}

func g03(t *lib.T) {
	t.Rule("every reduction and normalisation operator (sum, mean, maximum of a matrix, maximum of scalars, softmax, log-softmax, log-sum-exp, sparsemax and its loss, max pooling with every window) × {float32,float64} × shapes × value sets (of both signs, all negative, all positive) × kinds of operand × every subset of operands which require gradients × dense and sparse output gradients; the gradients are compared with central differences of the definition; non-trivial: some operand requires gradients")
	t.Assume("derivatives are not compared where the maximum is not unique")
	neg := func(n, s int) []float64 {
		v := genPos(n, s)
		for i := range v {
			v[i] = -v[i]
		}
		return v
	}
	g := gens{genMixed, genMixed2, genPos, neg, genSmall, genTied, genTied2}
	var mats, vecs [][][2]int
	for _, s := range shapes(lib.Pick(t, 3, 5), false, sh{1, 9}, sh{17, 1}, sh{4, 6}, sh{33, 1}, sh{66, 1}, sh{1, 40}, sh{9, 17}) {
		mats = append(mats, [][2]int{s})
		if s[1] == 1 {
			vecs = append(vecs, [][2]int{s})
		}
	}
	var rows [][][2]int
	for _, n := range []int{2, 3, 4, 5, 6, 7, 8, 9, 17, 34} {
		rows = append(rows, [][2]int{{1, n}})
	}
	for n := 4; n <= lib.Pick(t, 8, 20); n++ {
		vecs = append(vecs, [][2]int{{n, 1}})
	}
	un := func(name string, shs [][][2]int, f func(x mat.Tensor) mat.Tensor, def func(x ref) ref) {
		gop{name: name, points: pts(g, shs...), f: func(x []mat.Tensor) mat.Tensor { return f(x[0]) }, def: func(x []ref) ref { return def(x[0]) }}.check(t, name)
	}
	var hmats, hvecs, hrows [][][2]int
	for _, s := range [][2]int{{1025, 1}, {300, 1}, {1, 600}, {40, 41}, {130, 3}} {
		hmats = append(hmats, [][2]int{s})
		if s[1] == 1 {
			hvecs = append(hvecs, [][2]int{s})
		}
		if s[0] == 1 {
			hrows = append(hrows, [][2]int{s})
		}
	}
	hugeOf := map[string][][][2]int{"ReduceSum": hmats, "ReduceMean": hmats, "ReduceMax": append(hrows, hvecs...), "Softmax": hvecs, "LogSoftmax": hvecs, "LogSumExp": append(hrows, hvecs...), "SparseMax": hvecs, "SparseMaxLoss": hvecs}
	un0 := un
	un = func(name string, shs [][][2]int, f func(x mat.Tensor) mat.Tensor, def func(x ref) ref) {
		un0(name, shs, f, def)
		gop{name: name, f: func(x []mat.Tensor) mat.Tensor { return f(x[0]) }, def: func(x []ref) ref { return def(x[0]) }}.huge(pts(gens{genLong}, hugeOf[name]...)).check(t, "huge")
	}
	un("ReduceSum", mats, ag.ReduceSum, func(x ref) ref { return one1(x.sum()) })
	zeros := func(name string, shs [][][2]int, f func(x mat.Tensor) mat.Tensor, def func(x ref) ref) {
		gop{name: name, points: pts(gens{genZeros}, shs...), f: func(x []mat.Tensor) mat.Tensor { return f(x[0]) }, def: func(x []ref) ref { return def(x[0]) }}.check(t, name)
	}
	zeros("Softmax", vecs, ag.Softmax, func(x ref) ref {
		l := logSumExp(x.v)
		return x.apply(func(v float64) float64 { return math.Exp(v - l) })
	})
	zeros("LogSumExp", append(rows, vecs...), func(x mat.Tensor) mat.Tensor { return ag.LogSumExp(x) }, func(x ref) ref { return one1(logSumExp(x.v)) })
	zeros("SparseMax", vecs, ag.SparseMax, func(x ref) ref { y, _ := sparsemaxDef(x); return y })
	un("ReduceMean", mats, ag.ReduceMean, func(x ref) ref { return one1(x.sum() / float64(len(x.v))) })
	un("ReduceMax", append(rows, vecs...), ag.ReduceMax, func(x ref) ref { return one1(maxOf(x)) })
	soft := func(x ref) ref {
		l := logSumExp(x.v)
		return x.apply(func(v float64) float64 { return math.Exp(v - l) })
	}
	un("Softmax", vecs, ag.Softmax, soft)
	un("LogSoftmax", vecs, ag.LogSoftmax, func(x ref) ref {
		l := logSumExp(x.v)
		return x.apply(func(v float64) float64 { return v - l })
	})
	un("LogSumExp", append(rows, vecs...), func(x mat.Tensor) mat.Tensor { return ag.LogSumExp(x) }, func(x ref) ref { return one1(logSumExp(x.v)) })
	un("SparseMax", vecs, ag.SparseMax, func(x ref) ref { y, _ := sparsemaxDef(x); return y })
	un("SparseMaxLoss", vecs, ag.SparseMaxLoss, func(x ref) ref {
		y, tau := sparsemaxDef(x)
		reg := 0.5
		for i, v := range x.v {
			if y.v[i] > 0 {
				reg += 0.5 * (v*v - tau*tau)
			}
		}
		return x.apply(func(v float64) float64 { return v - reg })
	})
	for _, s := range shapes(lib.Pick(t, 4, 6), false, sh{8, 8}, sh{6, 18}, sh{20, 4}, sh{40, 6}) {
		for r := 1; r <= s[0]; r++ {
			for c := 1; c <= s[1]; c++ {
				if s[0]%r != 0 || s[1]%c != 0 {
					continue
				}
				gop{name: fmt.Sprintf("MaxPooling%dx%d", r, c), points: pts(g[:5], [][2]int{s}),
					f: func(x []mat.Tensor) mat.Tensor { return ag.MaxPooling(x[0], r, c) },
					def: func(x []ref) ref {
						o := newRef(s[0]/r, s[1]/c)
						for i := range o.v {
							a, b := i/o.c*r, i%o.c*c
							o.v[i] = maxOf(x[0].slice(a, b, a+r, b+c))
						}
						return o
					}}.check(t, "MaxPooling")
			}
		}
	}
	for _, n := range []int{1, 2, 3, 4, 9, 40, 60} {
		var ss [][2]int
		for i := 0; i < n; i++ {
			ss = append(ss, sh{1, 1})
		}
		flat := func(x []ref) []float64 {
			var v []float64
			for _, y := range x {
				v = append(v, y.v[0])
			}
			return v
		}
		points := pts(g[:5], ss)
		if n > 4 { // all the elements are different
			points = points[:1]
			for i, v := range genLong(n, 0) {
				points[0][i].v[0] = v
			}
		}
		gop{name: "ScalarMax", points: points, light: n > 4, f: ag.ScalarMax, def: func(x []ref) ref { return one1(maxOf(colOf(flat(x)...))) }}.noTwins().check(t, "ScalarMax")
		if n > 1 {
			if n <= 4 {
				points = pts(g, ss)
			}
			gop{name: "LogSumExp", points: points, light: n > 4, f: func(x []mat.Tensor) mat.Tensor { return ag.LogSumExp(x...) },
				def: func(x []ref) ref { return one1(logSumExp(flat(x))) }}.noTwins().check(t, "LogSumExpList")
		}
	}
}
