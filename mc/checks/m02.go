package checks

import (
	"math"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/verifmc/lib"
)

func init() { Registry["M02"] = m02 }

// fills are the contents of the matrices of a product.
var fills = []struct {
	name string
	f    func(n int) []float64
}{
	{"ramp", ramp},
	{"ramp2", ramp2},
	{"sparse", func(n int) []float64 {
		x := ramp2(n)
		for i := range x {
			if i%3 != 1 {
				x[i] = 0
			}
		}
		return x
	}},
	{"zero", func(n int) []float64 { return make([]float64, n) }},
}

func productTol(d DT, a, b ref) float64 {
	// sum of the absolute values of the products, at most
	ma, mb := 0.0, 0.0
	for _, v := range a.v {
		ma = math.Max(ma, math.Abs(v))
	}
	for _, v := range b.v {
		mb = math.Max(mb, math.Abs(v))
	}
	k := float64(a.c)
	return k * (k + 2) * ma * mb * d.tol(2.3e-16, 1.2e-7)
}

// huge returns the sizes of large products.
func huge(thorough bool) [][3]int {
	var out [][3]int
	ls := []int{255, 256, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 2049, 4096, 4097, 5003, 8193, 16385}
	for _, n := range ls {
		for _, a := range []int{1, 2, 3} {
			for _, b := range []int{1, 2, 5} {
				if n > 3000 && a*b > 4 {
					continue
				}
				out = append(out, [3]int{n, a, b}, [3]int{a, n, b}, [3]int{a, b, n})
			}
		}
	}
	out = append(out, [3]int{130, 260, 3}, [3]int{3, 260, 130}, [3]int{260, 3, 130}, [3]int{200, 201, 202}, [3]int{257, 256, 255}, [3]int{1025, 40, 30}, [3]int{40, 1025, 30}, [3]int{40, 30, 1025}, [3]int{513, 514, 1}, [3]int{1, 513, 514}, [3]int{300, 300, 300})
	if thorough {
		out = append(out, [3]int{512, 512, 512}, [3]int{700, 513, 601}, [3]int{1024, 1025, 64}, [3]int{64, 1024, 1025}, [3]int{1030, 64, 1027})
	}
	return out
}

func m02(t *lib.T) {
	sizes := lib.Pick(t, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 33}, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 23, 24, 25, 31, 32, 33, 40, 41, 47, 48, 49})
	large := lib.Pick(t, []int{1, 3, 63, 64, 65, 129}, []int{1, 2, 3, 4, 31, 63, 64, 65, 66, 127, 128, 129, 130, 192, 193, 257})
	t.Rule("every product of matrices with rows, inner size and columns from %v (and from %v) × {float32,float64} for each operand × contents (dense, sparse, zero), and every product with a transposed left operand; long and large ones (up to 300×300×300, and 16385) with exact sums; non-trivial: a non-empty result", sizes, large)
	t.Assume("products of non-finite values are not compared")

	run := func(n, k, m int, da, db DT, fa, fb int, offA, offB int) error {
		a := ref{n, k, fills[fa].f(n * k)}
		b := ref{k, m, fills[fb].f(k * m)}
		ma, ga := da.guarded(n, k, a.v, offA)
		mb, gb := db.guarded(k, m, b.v, offB)
		got := ma.Mul(mb)
		want := mulRef(a, b)
		return first(same(got, want, 0, productTol(da, a, b)), sameDT(got, da), tag("left operand", exactly(ma, a)), tag("right operand", exactly(mb, b)), ga(), gb())
	}
	for _, da := range dts {
		for _, db := range dts {
			for _, n := range sizes {
				for _, k := range sizes {
					for _, m := range sizes {
						for fi, ff := range [][2]int{{0, 1}, {2, 1}, {1, 2}, {3, 0}, {0, 3}} {
							if da != db && fi > 0 {
								break
							}
							if fi > 2 && (n > 6 || k > 6 || m > 6) {
								continue
							}
							t.Casef("Mul", n*m > 0, func() error { return run(n, k, m, da, db, ff[0], ff[1], n%2, m%3) }, "%d,%d/%dx%dx%d/%s,%s", da, db, n, k, m, fills[ff[0]].name, fills[ff[1]].name)
						}
					}
				}
			}
			for _, n := range large {
				for _, k := range large {
					for _, m := range large {
						if da != db {
							continue
						}
						t.Casef("Mul-large", true, func() error { return run(n, k, m, da, db, 0, 1, 0, 0) }, "%d,%d/%dx%dx%d", da, db, n, k, m)
					}
				}
			}
			// Long and large ones, with small whole numbers: the sums are exact.
			whole := func(r, c, k int) ref {
				x := newRef(r, c)
				for i := range x.v {
					x.v[i] = float64((i*k+i/c)%7 - 3)
				}
				return x
			}
			for _, s := range huge(t.Thorough()) {
				t.Casef("Mul-huge", true, func() error {
					a, b := whole(s[0], s[1], 3), whole(s[1], s[2], 5)
					ma, ga := da.guarded(a.r, a.c, a.v, 1)
					mb, gb := db.guarded(b.r, b.c, b.v, 0)
					return first(exactly(ma.Mul(mb), mulRef(a, b)), tag("left operand", exactly(ma, a)), tag("right operand", exactly(mb, b)), ga(), gb())
				}, "%d,%d/%v", da, db, s)
				t.Casef("MulT-huge", true, func() error {
					a, b := whole(s[0], s[1], 3), whole(s[0], 1, 5)
					ma, ga := da.guarded(a.r, a.c, a.v, 1)
					mb, gb := db.guarded(b.r, b.c, b.v, 0)
					return first(exactly(ma.MulT(mb), mulRef(a.t(), b)), tag("left operand", exactly(ma, a)), tag("right operand", exactly(mb, b)), ga(), gb())
				}, "%d,%d/%v", da, db, s)
			}
			// The unit matrices: each element of the result comes from the right place.
			for _, n := range []int{1, 2, 3, 4, 5, 7, 8, 9, 17} {
				for _, k := range []int{1, 2, 3, 4, 5, 7, 8, 9, 17} {
					for i := 0; i < n; i++ {
						t.Casef("Mul-unit", true, func() error {
							for j := 0; j < k; j++ {
								a := newRef(n, k)
								a.v[i*k+j] = 1
								b := rampRef(k, k+1)
								if err := exactly(da.like(a).Mul(db.like(b)), mulRef(a, b)); err != nil {
									return err
								}
							}
							return nil
						}, "%d,%d/%dx%d@%d", da, db, n, k, i)
					}
				}
			}
			vs := append(append([]int(nil), sizes...), large...)
			for _, n := range vs {
				for _, k := range vs {
					for fi, ff := range [][2]int{{0, 1}, {2, 1}, {1, 2}} {
						t.Casef("MulT", k > 0, func() error {
							a := ref{n, k, fills[ff[0]].f(n * k)}
							b := ref{n, 1, fills[ff[1]].f(n)}
							ma, ga := da.guarded(n, k, a.v, fi)
							mb, gb := db.guarded(n, 1, b.v, 1)
							got := ma.MulT(mb)
							want := mulRef(a.t(), b)
							return first(same(got, want, 0, productTol(da, a.t(), b)), sameDT(got, da), tag("left operand", exactly(ma, a)), tag("right operand", exactly(mb, b)), ga(), gb())
						}, "%d,%d/%dx%d/%d", da, db, n, k, fi)
					}
				}
			}
		}
	}
	// Powers of the same matrix.
	for _, d := range dts {
		for n := 0; n <= 9; n++ {
			t.Casef("Mul-self", n > 0, func() error {
				a := rampRef(n, n)
				m := d.like(a)
				return first(same(m.Mul(m), mulRef(a, a), 0, productTol(d, a, a)), exactly(m, a))
			}, "%d/%d", d, n)
		}
	}
	_ = mat.Equal
}
