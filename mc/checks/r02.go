package checks

import (
	"fmt"
	"math"
	"sort"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/initializers"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
	"github.com/nlpodyssey/spago/mat/gradfn"
	"github.com/nlpodyssey/spago/mat/rand"
	"github.com/nlpodyssey/spago/mat/rand/bernulli"
	"github.com/nlpodyssey/spago/mat/rand/normal"
	"github.com/nlpodyssey/spago/mat/rand/uniform"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/activation"
	"github.com/nlpodyssey/spago/nn/attention/multiheadattention"
	"github.com/nlpodyssey/spago/nn/attention/selfattention"
	"github.com/nlpodyssey/spago/nn/dropout"
	"github.com/nlpodyssey/spago/nn/recurrent/lstm"
	"github.com/nlpodyssey/spago/nn/sgu"
	"github.com/nlpodyssey/spago/verifmc/lib"
)

func init() { Registry["R02"] = r02 }

func r02(t *lib.T) {
	t.Rule("dropout (function, operator, model) x shapes x probabilities x {float32,float64} x operands with and without gradients x seeds: each element null or divided by the probability to keep it, gradients by the same mask, every mask reached, the frequency of nulls; Bernoulli matrices; in large masks no two elements at any distance agree more or less often than independent ones; uniform and normal distributions and every initializer x shapes x data types x parameters x seeds: every element set, bounds, exact constants, the same values for the same seed, the frequencies of 8 equally probable intervals; initialisation of the models with an initializer; unique choices for every subset of valid numbers; weighted choices for every distribution over an alphabet; shuffling: every permutation, evenly")
	t.Assume("that distributions are the stated ones is decided from the frequencies over fixed seeds, within 6 standard deviations (8.5 for elements at a distance)")
	r02Dropout(t)
	r02Large(t)
	r02Bernulli(t)
	r02Initializers(t)
	r02Models(t)
	r02Choices(t)
}

// evenly checks that a count of n draws with probability p is plausible.
func evenly(what string, count, n int, p float64) error {
	mean, sd := float64(n)*p, math.Sqrt(float64(n)*p*(1-p))
	if math.Abs(float64(count)-mean) > 6*sd+1e-9 {
		return errf("%s: %d of %d, expected about %g", what, count, n, mean)
	}
	return nil
}

func r02Dropout(t *lib.T) {
	seeds := lib.Pick(t, 300, 3000)
	for _, d := range dts {
		d := d
		for _, s := range []sh{{1, 1}, {4, 1}, {1, 4}, {2, 2}, {3, 2}, {7, 5}} {
			s := s
			for _, p := range []float64{0, 0.1, 0.25, 0.5, 0.9, 1} {
				p := p
				t.Casef("dropout", true, func() error {
					n := s[0] * s[1]
					masks := map[string]int{}
					nulls, total := 0, 0
					zeroNulls, zeroTotal := 0, 0 // gradients of elements which are zero
					ways := []string{"function", "operator", "func", "model"}
					for seed := 0; seed < seeds; seed++ {
						way := ways[seed%len(ways)]
						rg := seed/len(ways)%2 == 0
						var firstMask string
						for round := 0; round < 2; round++ { // the same, for the same seed
							vs := d.rounds(genPos(n, seed%5))
							if round == 1 { // with some zeros
								for i := range vs {
									if (i+seed)%3 == 0 {
										vs[i] = 0
									}
								}
							}
							var xs []mat.Tensor
							for k := 0; k < 2; k++ {
								m := d.mk(s[0], s[1], vs)
								m.SetRequiresGrad(rg)
								xs = append(xs, m)
							}
							var ys []mat.Tensor
							switch way {
							case "function":
								r := rand.NewLockedRand(uint64(seed))
								for _, x := range xs {
									f := gradfn.NewDropout(x, p, r)
									y, err := f.Forward()
									if err != nil {
										return err
									}
									ys = append(ys, y)
									gy := d.mk(s[0], s[1], coefs(n, false))
									if err := f.Backward(gy); err != nil {
										return err
									}
								}
							default:
								ag.ManualSeed(uint64(seed))
								switch way {
								case "operator":
									ys = []mat.Tensor{ag.Dropout(xs[0], p), ag.Dropout(xs[1], p)}
								case "func":
									f := ag.DropoutFunc(p)
									ys = []mat.Tensor{f(xs[0]), f(xs[1])}
								case "model":
									ys = dropout.New(p).Forward(xs...)
								}
								if p > 0 {
									for i := range ys { // the order of evaluation
										ys[i].Value()
									}
								}
								if rg {
									for _, y := range ys {
										y.AccGrad(d.mk(s[0], s[1], coefs(n, false)))
									}
									if p > 0 {
										if err := ag.Backward(ys...); err != nil {
											return err
										}
									}
								}
							}
							all := ""
							for k, y := range ys {
								mask, zeros, err := droppedOut(d, ref{s[0], s[1], vs}, xs[k], y.Value(), p, rg)
								if err != nil {
									return errf("%s, seed %d, dropout %d: %v", way, seed, k, err)
								}
								all += mask + "|"
								for i, v := range vs {
									if v == 0 && rg {
										zeroTotal++
										if mask[i] == 'd' {
											zeroNulls++
										}
									}
								}
								if round == 0 {
									nulls += zeros
									total += n
									masks[mask]++
								}
							}
							if round == 0 {
								firstMask = all
							} else if way == "function" && !sameMasks(all, firstMask) {
								return errf("seed %d gives the masks %s and %s", seed, firstMask, all)
							}
						}
					}
					if p == 0 || p == 1 {
						if nulls != int(p)*total || zeroNulls != int(p)*zeroTotal {
							return errf("%d of %d elements are null, and %d of %d gradients of zeros", nulls, total, zeroNulls, zeroTotal)
						}
						return nil
					}
					if n <= 4 && p == 0.5 && len(masks) != 1<<n {
						return errf("%d masks of %d are reached", len(masks), 1<<n)
					}
					if n > 30 && len(masks) < seeds {
						return errf("only %d masks in %d calls", len(masks), 2*seeds)
					}
					return first(evenly("nulls", nulls, total, p), evenly("null gradients of zeros", zeroNulls, zeroTotal, p))
				}, "%d/%v/%v", d, s, p)
			}
		}
	}
}

// unrelated checks that the bits of a large sequence, each of which is set with
// the probability p, have nothing to do with each other: at no distance, nor
// with those at the other end, they agree more often, or less, than expected.
func unrelated(what string, bits []bool, p float64) error {
	n := len(bits)
	agree := p*p + (1-p)*(1-p)
	compare := func(what string, pairs int, other func(i int) int) error {
		c := 0
		for i := 0; i < pairs; i++ {
			if bits[i] == bits[other(i)] {
				c++
			}
		}
		mean, sd := float64(pairs)*agree, math.Sqrt(2*float64(pairs)*agree*(1-agree)) // (twice the variance: the pairs overlap)
		if math.Abs(float64(c)-mean) > 6*sd+1 {
			return errf("%s: %d of %d agree, expected about %g", what, c, pairs, mean)
		}
		return nil
	}
	for lag := 1; lag <= n-60; lag++ {
		if err := compare(fmt.Sprintf("%s, at the distance %d", what, lag), n-lag, func(i int) int { return i + lag }); err != nil {
			return err
		}
	}
	for size := 128; size <= n; size *= 2 {
		if err := compare(fmt.Sprintf("%s, from the ends of the first %d", what, size), size/2, func(i int) int { return size - 1 - i }); err != nil {
			return err
		}
	}
	return compare(what+", from both ends", n/2, func(i int) int { return n - 1 - i })
}

// r02Large checks that the elements of large masks are dropped independently.
func r02Large(t *lib.T) {
	for _, d := range dts {
		for _, s := range []sh{{64, 1}, {100, 1}, {128, 1}, {1, 256}, {256, 1}, {384, 1}, {512, 1}, {1000, 1}, {1024, 1}, {1, 2048}, {30, 17}, {32, 64}, {64, 32}, {3, 300}, {300, 3}, {128, 20}} {
			for _, p := range []float64{0.1, 0.3, 0.5, 0.8} {
				for seed := 0; seed < lib.Pick(t, 3, 30); seed++ {
					t.Casef("large", true, func() error {
						n := s[0] * s[1]
						one := make([]float64, n)
						for i := range one {
							one[i] = 1
						}
						mask := func(y mat.Tensor) (b []bool) {
							for _, v := range refOf(y).v {
								b = append(b, v != 0)
							}
							return b
						}
						ag.ManualSeed(uint64(seed + 31))
						var long []bool
						for call := 0; call < 3; call++ { // one after the other
							x := d.mk(s[0], s[1], one)
							x.SetRequiresGrad(true)
							y := ag.Dropout(x, p)
							m := mask(y)
							y.AccGrad(d.mk(s[0], s[1], one))
							if err := ag.Backward(y); err != nil {
								return err
							}
							for i, k := range mask(x.Grad()) {
								if k != m[i] {
									return errf("element %d: kept %v, gradient %v", i, m[i], k)
								}
							}
							long = append(long, m...)
						}
						kept := 0
						for _, b := range long {
							if b {
								kept++
							}
						}
						if err := evenly("kept", kept, len(long), 1-p); err != nil {
							return err
						}
						return unrelated("dropout", long, 1-p)
					}, "dropout/%d/%v/%v/%d", d, s, p, seed)
					t.Casef("large", true, func() error {
						r := rand.NewLockedRand(uint64(seed + 7))
						var long []bool
						for call := 0; call < 2; call++ {
							var m mat.Matrix
							if d == 32 {
								m = bernulli.Distribution[float32](s[0], s[1], float32(p), r)
							} else {
								m = bernulli.Distribution[float64](s[0], s[1], p, r)
							}
							for _, v := range refOf(m).v {
								long = append(long, v != 0)
							}
						}
						return unrelated("bernoulli", long, 1-p)
					}, "bernoulli/%d/%v/%v/%d", d, s, p, seed)
				}
			}
		}
	}
}

// sameMasks compares two masks, where elements which are zero match.
func sameMasks(a, b string) bool {
	for i := range a {
		if a[i] != b[i] && a[i] != 'd' && a[i] != 'k' {
			return false
		}
	}
	return len(a) == len(b)
}

// droppedOut checks one dropout, and returns its mask.
func droppedOut(d DT, in ref, x, y mat.Tensor, p float64, rg bool) (string, int, error) {
	if err := exactly(x, in); err != nil {
		return "", 0, tag("the operand has been changed", err)
	}
	if r, c := dims(y); r != in.r || c != in.c {
		return "", 0, errf("shape %d×%d", r, c)
	}
	if err := sameDT(y, d); err != nil {
		return "", 0, err
	}
	if x.HasGrad() != rg {
		return "", 0, errf("gradients: %v, expected %v", x.HasGrad(), rg)
	}
	var g ref
	if rg {
		g = refOf(x.Grad())
	}
	gy := coefs(len(in.v), false)
	out := refOf(y)
	mask := ""
	zeros := 0
	for i, v := range in.v {
		factor := 0.0
		if v == 0 {
			// only the gradients tell whether it is kept (k) or dropped (d)
			if out.v[i] != 0 {
				return "", 0, errf("element %d is %v, expected 0", i, out.v[i])
			}
			if !rg || g.v[i] == 0 {
				mask += "d"
			} else {
				mask += "k"
				factor = 1 / (1 - p)
			}
		} else if out.v[i] == 0 {
			mask += "0"
			zeros++
		} else {
			mask += "1"
			factor = 1 / (1 - p)
			if math.Abs(out.v[i]-v*factor) > d.tol(1e-12, 1e-6)*math.Abs(v*factor) {
				return "", 0, errf("element %d is %v, expected 0 or %v", i, out.v[i], v*factor)
			}
		}
		if rg && math.Abs(g.v[i]-gy[i]*factor) > d.tol(1e-12, 1e-6)*math.Abs(gy[i]*factor) {
			return "", 0, errf("the gradient of element %d is %v, expected %v", i, g.v[i], gy[i]*factor)
		}
	}
	return mask, zeros, nil
}

func r02Bernulli(t *lib.T) {
	for _, p := range []float64{0, 0.2, 0.5, 0.75, 1} {
		p := p
		t.Casef("bernoulli", true, func() error {
			return first(bernulliOf[float64](t, p), bernulliOf[float32](t, p))
		}, "%v", p)
	}
}

func bernulliOf[T float.DType](t *lib.T, p float64) error {
	zeros, total := 0, 0
	for seed := 0; seed < lib.Pick(t, 100, 1000); seed++ {
		for _, s := range []sh{{0, 0}, {1, 1}, {3, 2}, {1, 7}, {8, 1}} {
			m := bernulli.Distribution[T](s[0], s[1], T(p), rand.NewLockedRand(uint64(seed)))
			o := bernulli.Distribution[T](s[0], s[1], T(p), rand.NewLockedRand(uint64(seed)))
			if err := exactly(o, refOf(m)); err != nil {
				return errf("seed %d: %v", seed, err)
			}
			if r, c := dims(m); r != s[0] || c != s[1] {
				return errf("shape %d×%d, expected %v", r, c, s)
			}
			for _, v := range refOf(m).v {
				total++
				switch v {
				case 0:
					zeros++
				case 1:
				default:
					return errf("value %v", v)
				}
			}
		}
	}
	return evenly("zeros", zeros, total, p)
}

// initializer is a way to fill matrices, with the probability that a value is
// less than v. Where the probability jumps, values are the stated ones.
type initializer struct {
	name   string
	f      func(m mat.Matrix, r *rand.LockedRand) mat.Matrix
	cdf    func(s sh, v float64) float64 // continuous distributions
	range_ func(s sh) (float64, float64)
	discr  map[float64]float64 // discrete ones
}

func phi(v float64) float64 { return 0.5 * math.Erfc(-v/math.Sqrt2) }

func initializersOf() []initializer {
	var out []initializer
	uni := func(name string, lim func(s sh) (float64, float64), f func(m mat.Matrix, r *rand.LockedRand) mat.Matrix) {
		out = append(out, initializer{name: name, f: f, range_: lim, cdf: func(s sh, v float64) float64 {
			lo, hi := lim(s)
			return math.Max(0, math.Min(1, (v-lo)/(hi-lo)))
		}})
	}
	norm := func(name string, par func(s sh) (mean, std float64), f func(m mat.Matrix, r *rand.LockedRand) mat.Matrix) {
		out = append(out, initializer{name: name, f: f,
			cdf: func(s sh, v float64) float64 {
				mean, std := par(s)
				return phi((v - mean) / std)
			},
			range_: func(s sh) (float64, float64) {
				mean, std := par(s)
				return mean - 12*std, mean + 12*std
			}})
	}
	for _, b := range [][2]float64{{-1, 1}, {0, 1}, {-0.25, -0.125}, {2, 10}} {
		b := b
		lim := func(sh) (float64, float64) { return b[0], b[1] }
		uni(fmt.Sprintf("Uniform%v", b), lim, func(m mat.Matrix, r *rand.LockedRand) mat.Matrix { return initializers.Uniform(m, b[0], b[1], r) })
		uni(fmt.Sprintf("uniform.Next%v", b), lim, func(m mat.Matrix, r *rand.LockedRand) mat.Matrix {
			u := uniform.New(b[0], b[1], r)
			for i := 0; i < m.Size(); i++ {
				m.SetScalar(float.Interface(u.Next()), i/m.Shape()[1], i%m.Shape()[1])
			}
			return m
		})
	}
	for _, b := range [][2]float64{{0, 1}, {3, 0.5}, {-2, 4}} {
		b := b
		par := func(sh) (float64, float64) { return b[0], b[1] }
		norm(fmt.Sprintf("Normal%v", b), par, func(m mat.Matrix, r *rand.LockedRand) mat.Matrix { return initializers.Normal(m, b[0], b[1], r) })
		norm(fmt.Sprintf("normal.Next%v", b), par, func(m mat.Matrix, r *rand.LockedRand) mat.Matrix {
			u := normal.New(b[1], b[0], r)
			for i := 0; i < m.Size(); i++ {
				m.SetScalar(float.Interface(u.Next()), i/m.Shape()[1], i%m.Shape()[1])
			}
			return m
		})
	}
	for _, a := range []activation.Activation{activation.Identity, activation.Sigmoid, activation.Tanh, activation.ReLU} {
		a := a
		gain := map[activation.Activation]float64{activation.Identity: 1, activation.Sigmoid: 1, activation.Tanh: 5.0 / 3, activation.ReLU: math.Sqrt(2)}[a]
		uni(fmt.Sprintf("XavierUniform-%v", a), func(s sh) (float64, float64) {
			b := gain * math.Sqrt(6/float64(s[0]+s[1]))
			return -b, b
		}, func(m mat.Matrix, r *rand.LockedRand) mat.Matrix {
			return initializers.XavierUniform(m, initializers.Gain(a), r)
		})
		norm(fmt.Sprintf("XavierNormal-%v", a), func(s sh) (float64, float64) { return 0, gain * math.Sqrt(2/float64(s[0]+s[1])) },
			func(m mat.Matrix, r *rand.LockedRand) mat.Matrix {
				return initializers.XavierNormal(m, initializers.Gain(a), r)
			})
	}
	out = append(out,
		initializer{name: "Achlioptas", discr: map[float64]float64{-math.Sqrt(3): 1.0 / 6, 0: 2.0 / 3, math.Sqrt(3): 1.0 / 6},
			f: func(m mat.Matrix, r *rand.LockedRand) mat.Matrix { return initializers.Achlioptas(m, r) }},
		initializer{name: "Ones", discr: map[float64]float64{1: 1}, f: func(m mat.Matrix, r *rand.LockedRand) mat.Matrix { return initializers.Ones(m) }},
		initializer{name: "Zeros", discr: map[float64]float64{0: 1}, f: func(m mat.Matrix, r *rand.LockedRand) mat.Matrix { return initializers.Zeros(m) }},
		initializer{name: "Constant", discr: map[float64]float64{-0.3: 1}, f: func(m mat.Matrix, r *rand.LockedRand) mat.Matrix { return initializers.Constant(m, -0.3) }},
	)
	return out
}

func r02Initializers(t *lib.T) {
	target := lib.Pick(t, 4000, 60000) // elements
	for _, in := range initializersOf() {
		in := in
		for _, d := range dts {
			d := d
			for _, s := range []sh{{0, 0}, {1, 1}, {3, 1}, {1, 4}, {2, 5}, {5, 2}, {12, 9}, {256, 1}, {1, 1100}, {40, 50}, {130, 3}, {64, 64}} {
				s := s
				t.Casef("initializers", s[0]*s[1] > 0, func() error {
					n := s[0] * s[1]
					bins := make([]int, 8)
					discr := map[float64]int{}
					total := 0
					seen := map[float64]bool{}
					for seed := uint64(0); n > 0 && total < target || seed < 2; seed++ {
						var vs [2]ref
						for k := range vs {
							m := d.mk(s[0], s[1], genMixed2(n, k))
							if k == 0 { // a matrix which is in the middle of others
								m, _ = d.guarded(s[0], s[1], genMixed2(n, k), 1)
							}
							out := in.f(m, rand.NewLockedRand(seed))
							if out != m {
								return errf("another matrix is returned")
							}
							if r, c := dims(m); r != s[0] || c != s[1] {
								return errf("shape %d×%d", r, c)
							}
							vs[k] = refOf(m)
						}
						for i := range vs[0].v {
							v := vs[0].v[i]
							if v != vs[1].v[i] {
								return errf("seed %d: element %d is %v and %v", seed, i, v, vs[1].v[i])
							}
							total++
							if in.discr != nil {
								found := false
								for w := range in.discr {
									if v == d.round(w) {
										discr[w]++
										found = true
									}
								}
								if !found {
									return errf("element %d is %v", i, v)
								}
								continue
							}
							lo, hi := in.range_(s)
							if v < d.round(lo) || v > d.round(hi) || math.IsNaN(v) {
								return errf("seed %d: element %d is %v, not in [%v,%v]", seed, i, v, lo, hi)
							}
							b := int(in.cdf(s, v) * 8)
							if b > 7 {
								b = 7
							}
							bins[b]++
							if d == 64 {
								seen[v] = true
							}
						}
					}
					if n == 0 {
						return nil
					}
					for w, p := range in.discr {
						if err := evenly(fmt.Sprintf("value %v", w), discr[w], total, p); err != nil {
							return err
						}
					}
					if in.discr == nil {
						if d == 64 && len(seen) < total*99/100 {
							return errf("%d distinct values in %d", len(seen), total)
						}
						for b, c := range bins {
							if err := evenly(fmt.Sprintf("part %d of 8 of the distribution", b), c, total, 1.0/8); err != nil {
								return err
							}
						}
					}
					return nil
				}, "%s/%d/%v", in.name, d, s)
			}
		}
	}
}

// r02Models checks models which initialise themselves.
func r02Models(t *lib.T) {
	xavier := func(name string, m mat.Tensor) error {
		v := refOf(m.Value())
		b := math.Sqrt(6 / float64(v.r+v.c))
		distinct := map[float64]bool{}
		far := 0
		for i, x := range v.v {
			if math.Abs(x) > b*(1+1e-6) {
				return errf("%s: element %d is %v, beyond %v", name, i, x, b)
			}
			if math.Abs(x) > b/2 {
				far++
			}
			distinct[x] = true
		}
		if len(distinct) != len(v.v) {
			return errf("%s: %d distinct values in %d", name, len(distinct), len(v.v))
		}
		if len(v.v) >= 40 {
			return evenly(name+": values in the outer half", far, len(v.v), 0.5)
		}
		return nil
	}
	constant := func(name string, m mat.Tensor, want float64) error {
		for i, x := range refOf(m.Value()).v {
			if x != want {
				return errf("%s: element %d is %v, expected %v", name, i, x, want)
			}
		}
		return nil
	}
	type initModel struct {
		name  string
		mk    func(d DT, seed uint64) nn.Model
		check func(m nn.Model) error
	}
	attention := func(m *selfattention.Model) error {
		return first(xavier("query", m.Query.W), xavier("key", m.Key.W), xavier("value", m.Value.W),
			constant("bias of the query", m.Query.B, 0), constant("bias of the key", m.Key.B, 0), constant("bias of the value", m.Value.B, 0))
	}
	models := []initModel{
		{"lstm", func(d DT, seed uint64) nn.Model {
			m := lstm.New[float64](5, 9)
			if d == 32 {
				m = lstm.New[float32](5, 9)
			}
			if m.Init(rand.NewLockedRand(seed)) != m {
				panic("Init returns another model")
			}
			return m
		}, func(m nn.Model) error {
			l := m.(*lstm.Model)
			err := constant("bias of the forget gate", l.BFor, 1)
			nn.ForEachParam(l, func(p *nn.Param) {
				if p != l.BFor && err == nil {
					err = xavier("parameter", p)
				}
			})
			return err
		}},
		{"selfattention", func(d DT, seed uint64) nn.Model {
			c := selfattention.Config{InputSize: 6, QuerySize: 7, KeySize: 7, ValueSize: 8, ScaleFactor: 0.5}
			m := selfattention.New[float64](c)
			if d == 32 {
				m = selfattention.New[float32](c)
			}
			m.Init(rand.NewLockedRand(seed))
			return m
		}, func(m nn.Model) error { return attention(m.(*selfattention.Model)) }},
		{"multiheadattention", func(d DT, seed uint64) nn.Model {
			m := multiheadattention.New[float64](8, 2, false, false)
			if d == 32 {
				m = multiheadattention.New[float32](8, 2, false, false)
			}
			m.Init(rand.NewLockedRand(seed))
			return m
		}, func(m nn.Model) error {
			a := m.(*multiheadattention.Model)
			if err := first(xavier("merge", a.OutputMerge.W), constant("bias of the merge", a.OutputMerge.B, 0)); err != nil {
				return err
			}
			for _, h := range a.Heads {
				if err := attention(h); err != nil {
					return err
				}
			}
			// heads differ
			if exactly(a.Heads[0].Query.W.Value(), refOf(a.Heads[1].Query.W.Value())) == nil {
				return errf("two heads have the same parameters")
			}
			return nil
		}},
		{"sgu", func(d DT, seed uint64) nn.Model {
			c := sgu.Config{Dim: 4, DimSeq: 7, InitEps: 0.7}
			m := sgu.New[float64](c)
			if d == 32 {
				m = sgu.New[float32](c)
			}
			m.Initialize(seed)
			return m
		}, func(m nn.Model) error {
			s := m.(*sgu.Model)
			far := 0
			v := refOf(s.Proj.W.Value())
			for i, x := range v.v {
				if math.Abs(x) > 0.1*(1+1e-6) {
					return errf("element %d of the projection is %v, beyond 0.1", i, x)
				}
				if math.Abs(x) > 0.05 {
					far++
				}
			}
			return first(evenly("values of the outer half", far, len(v.v), 0.5), constant("bias of the projection", s.Proj.B, 1))
		}},
	}
	for _, im := range models {
		im := im
		for _, d := range dts {
			d := d
			for seed := uint64(0); seed < lib.Pick(t, uint64(20), uint64(200)); seed++ {
				seed := seed
				t.Casef("models", true, func() error {
					a, b, c := im.mk(d, seed), im.mk(d, seed), im.mk(d, seed+1000)
					if err := im.check(a); err != nil {
						return err
					}
					if err := sameParams(a, b); err != nil {
						return tag("twice with the same seed", err)
					}
					if sameParams(a, c) == nil {
						return errf("the same parameters for another seed")
					}
					return nil
				}, "%s/%d/%d", im.name, d, seed)
			}
		}
	}
}

func r02Choices(t *lib.T) {
	maxN := lib.Pick(t, 5, 7)
	for max := 1; max <= maxN; max++ {
		for valid := 0; valid < 1<<max; valid++ {
			max, valid := max, valid
			t.Casef("unique", true, func() error {
				var ok []int
				for i := 0; i < max; i++ {
					if valid>>i&1 == 1 {
						ok = append(ok, i)
					}
				}
				isValid := func(r int) bool {
					if r < 0 || r >= max {
						panic(fmt.Sprintf("%d is not less than %d", r, max))
					}
					return valid>>r&1 == 1
				}
				for n := 0; n <= len(ok); n++ {
					ways := 1 // ordered
					for i := 0; i < n; i++ {
						ways *= len(ok) - i
					}
					if ways > 24 {
						continue
					}
					seen := map[string]int{}
					draws := 60 * ways
					for i := 0; i < draws; i++ {
						got := rand.GetUniqueRandomInt(n, max, isValid)
						if err := unique(got, n, isValid); err != nil {
							return tag(fmt.Sprintf("GetUniqueRandomInt(%d, %d)", n, max), err)
						}
						seen[fmt.Sprint(got)]++
						idx := make([]int, max)
						for j := range idx {
							idx[j] = 10 + 3*j
						}
						got = rand.GetUniqueRandomIndices(n, idx, func(r int) bool { return isValid((r - 10) / 3) })
						if err := unique(got, n, func(r int) bool { return (r-10)%3 == 0 && isValid((r-10)/3) }); err != nil {
							return tag(fmt.Sprintf("GetUniqueRandomIndices(%d, %v)", n, idx), err)
						}
						sort.Ints(idx)
						for j := range idx {
							if idx[j] != 10+3*j {
								return errf("GetUniqueRandomIndices has changed the indices to %v", idx)
							}
						}
						for j := range got {
							got[j] += 1000
						}
						seen[fmt.Sprint(got)]++
					}
					want := 2 * ways
					if n == 0 {
						want = 1
					}
					if len(seen) != want {
						return errf("%d of %d choices of %d in %v are reached", len(seen), want, n, ok)
					}
					if n > 0 {
						for k, c := range seen {
							if err := evenly(k, c, draws, 1/float64(ways)); err != nil {
								return err
							}
						}
					}
				}
				return nil
			}, "%d/%b", max, valid)
		}
	}
	// weighted choices
	steps := lib.Pick(t, 4, 10)
	for n := 1; n <= 4; n++ {
		for _, parts := range splits(steps, n) {
			parts := parts
			t.Casef("weighted", true, func() error { return first(weighted[float64](t, parts, steps), weighted[float32](t, parts, steps)) }, "%v", parts)
		}
	}
	// a distribution whose probabilities add up to one, and to less than that
	// when they are added in 32 bit arithmetic
	for _, big := range []float64{0.99, 0.75} {
		t.Casef("weighted", true, func() error {
			const small = 1.0 / (1 << 25)
			dist := []float32{0, float32(big), 0}
			rest := 1 - big
			for n := int(rest / small); n > 0; n-- {
				dist = append(dist, small)
			}
			dist = append(dist, 0, 0)
			for i, draws := 0, int(lib.Pick(t, 15.0, 60.0)/rest); i < draws; i++ {
				if k := rand.WeightedChoice(dist); k < 0 || k >= len(dist) || dist[k] == 0 {
					return errf("%d of %d, of probability 0, is chosen", k, len(dist))
				}
			}
			return nil
		}, "rounding%v", big)
	}
	for _, n := range []int{40, 257, 1000, 5003} {
		t.Casef("weighted", true, func() error { return first(weightedMany[float64](t, n), weightedMany[float32](t, n)) }, "many%d", n)
		for _, own := range []bool{false, true} {
			t.Casef("shuffle", true, func() error { return shuffledMany(t, n, own) }, "many%d/%v", n, own)
		}
		if n > 1000 {
			continue
		}
		t.Casef("unique", true, func() error {
			odd := func(v int) bool { return v%2 == 1 }
			all := make([]int, n)
			for i := range all {
				all[i] = 3 * i
			}
			from := func(got []int, err error) error {
				for _, v := range got {
					if v < 0 || v%3 != 0 || v/3 >= n {
						return errf("%d is not one of the indices", v)
					}
				}
				return err
			}
			a := rand.GetUniqueRandomInt(n, n, func(int) bool { return true })
			b := rand.GetUniqueRandomInt(n/2, n, odd)
			c := rand.GetUniqueRandomIndices(n/4, append([]int(nil), all...), odd)
			return first(unique(a, n, func(v int) bool { return v >= 0 && v < n }),
				unique(b, n/2, func(v int) bool { return v >= 0 && v < n && odd(v) }),
				from(c, unique(c, n/4, func(v int) bool { return odd(v) })))
		}, "many%d", n)
	}
	// shuffling
	for n := 0; n <= 4; n++ {
		for _, own := range []bool{false, true} {
			n, own := n, own
			t.Casef("shuffle", n > 0, func() error {
				perms := 1
				for i := 2; i <= n; i++ {
					perms *= i
				}
				draws := perms * lib.Pick(t, 200, 2000)
				seen := map[string]int{}
				for i := 0; i < draws; i++ {
					xs := make([]int, n, n+2)
					for j := range xs {
						xs[j] = j
					}
					var r *rand.LockedRand
					if own {
						r = rand.NewLockedRand(uint64(i))
					}
					got := rand.ShuffleInPlace(xs, r)
					if len(got) != n || n > 0 && &got[0] != &xs[0] {
						return errf("another slice is returned")
					}
					if !isPerm(xs) {
						return errf("%v", xs)
					}
					seen[fmt.Sprint(xs)]++
					if own {
						ys := make([]int, n)
						for j := range ys {
							ys[j] = j
						}
						rand.ShuffleInPlace(ys, rand.NewLockedRand(uint64(i)))
						if fmt.Sprint(ys) != fmt.Sprint(xs) {
							return errf("seed %d: %v and %v", i, xs, ys)
						}
					}
				}
				if len(seen) != perms {
					return errf("%d of %d permutations are reached", len(seen), perms)
				}
				for k, c := range seen {
					if perms > 1 {
						if err := evenly(k, c, draws, 1/float64(perms)); err != nil {
							return err
						}
					}
				}
				return nil
			}, "%d/%v", n, own)
		}
	}
}

func unique(got []int, n int, valid func(int) bool) error {
	if len(got) != n {
		return errf("%d numbers: %v", len(got), got)
	}
	for i, v := range got {
		if !valid(v) {
			return errf("%v: %d is not valid", got, v)
		}
		for _, w := range got[:i] {
			if v == w {
				return errf("%v: %d is there twice", got, v)
			}
		}
	}
	return nil
}

// splits lists the ways to write total as a sum of n numbers.
func splits(total, n int) [][]int {
	if n == 1 {
		return [][]int{{total}}
	}
	var out [][]int
	for k := 0; k <= total; k++ {
		for _, rest := range splits(total-k, n-1) {
			out = append(out, append([]int{k}, rest...))
		}
	}
	return out
}

// weightedMany chooses among many.
func weightedMany[T float.DType](t *lib.T, n int) error {
	draws := lib.Pick(t, 2000, 20000)
	for _, k := range []int{0, 1, 7, 8, 31, 32, 33, 255, 256, n / 2, n - 2, n - 1} {
		if k >= n {
			continue
		}
		dist := make([]T, n)
		dist[k] = 1
		for i := 0; i < 20; i++ {
			if got := rand.WeightedChoice(dist); got != k {
				return errf("%d of %d is chosen, the only possible choice is %d", got, n, k)
			}
		}
	}
	// every third one, the second half of the others twice as often
	dist := make([]T, n)
	var total float64
	weight := func(i int) float64 {
		if i%3 != 0 {
			return 0
		}
		return float64(1 + i*2/n)
	}
	for i := range dist {
		total += weight(i)
	}
	want, counts := make([]float64, 8), make([]int, 8)
	for i := range dist {
		dist[i] = T(weight(i) / total)
		want[i*8/n] += weight(i) / total
	}
	for i := 0; i < draws; i++ {
		k := rand.WeightedChoice(dist)
		if k < 0 || k >= n || dist[k] == 0 {
			return errf("%d of %d is chosen, whose probability is 0", k, n)
		}
		counts[k*8/n]++
	}
	for i, c := range counts {
		if err := evenly(fmt.Sprintf("eighth %d of the choices among %d", i, n), c, draws, want[i]); err != nil {
			return err
		}
	}
	return nil
}

// shuffledMany shuffles many elements.
func shuffledMany(t *lib.T, n int, own bool) error {
	draws := lib.Pick(t, 400, 2000)
	looked := []int{0, 1, 31, 32, n / 2, n - 2, n - 1}
	counts := map[int][]int{}
	for _, v := range looked {
		counts[v] = make([]int, 4)
	}
	for i := 0; i < draws; i++ {
		xs := make([]int, n)
		for j := range xs {
			xs[j] = j
		}
		var r *rand.LockedRand
		if own {
			r = rand.NewLockedRand(uint64(i))
		}
		rand.ShuffleInPlace(xs, r)
		if i%20 == 0 && !isPerm(xs) {
			return errf("it is not a permutation of %d elements any more", n)
		}
		for j, v := range xs {
			if c, ok := counts[v]; ok {
				c[j*4/n]++
			}
		}
	}
	for _, v := range looked {
		for q, c := range counts[v] {
			size := (n*(q+1)+3)/4 - (n*q+3)/4
			if err := evenly(fmt.Sprintf("element %d of %d in quarter %d", v, n, q), c, draws, float64(size)/float64(n)); err != nil {
				return err
			}
		}
	}
	return nil
}

func weighted[T float.DType](t *lib.T, parts []int, steps int) error {
	dist := make([]T, len(parts))
	for i, p := range parts {
		dist[i] = T(p) / T(steps)
	}
	draws := lib.Pick(t, 600, 10000)
	counts := make([]int, len(parts))
	for i := 0; i < draws; i++ {
		k := rand.WeightedChoice(dist)
		if k < 0 || k >= len(parts) {
			return errf("%d is chosen of %v", k, dist)
		}
		counts[k]++
	}
	for i, p := range parts {
		if p == 0 && counts[i] > 0 {
			return errf("%d of probability 0 is chosen of %v", i, dist)
		}
		if err := evenly(fmt.Sprintf("choice %d of %v", i, dist), counts[i], draws, float64(p)/float64(steps)); err != nil {
			return err
		}
	}
	return nil
}
