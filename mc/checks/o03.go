package checks

import (
	"fmt"
	"math"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/losses"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/optimizers/decay"
	"github.com/nlpodyssey/spago/optimizers/decay/exponential"
	"github.com/nlpodyssey/spago/optimizers/decay/hyperbolic"
	"github.com/nlpodyssey/spago/optimizers/gradclipper"
	"github.com/nlpodyssey/spago/verifmc/lib"
)

func init() {
	Registry["O03"] = o03
	Registry["O04"] = o04
	Registry["O05"] = o05
}

// clipping is one of the ways to clip, with its definition.
type clipping struct {
	name string
	mk   func() gradclipper.GradClipper
	def  func(gs [][]float64)
}

func clippings() []clipping {
	var out []clipping
	for _, v := range []float64{0, 0.3, 1, 4, 1e6} {
		v := v
		out = append(out, clipping{fmt.Sprintf("value%g", v), func() gradclipper.GradClipper { return &gradclipper.ValueClipper{Value: v} }, func(gs [][]float64) {
			for _, g := range gs {
				for i := range g {
					g[i] = math.Max(-v, math.Min(v, g[i]))
				}
			}
		}})
	}
	for _, p := range []float64{1.5, 2, 3, math.Inf(1)} {
		for _, max := range []float64{0, 0.5, 1, 3, 10, 1e6} {
			p, max := p, max
			out = append(out, clipping{fmt.Sprintf("norm%g/%g", p, max), func() gradclipper.GradClipper { return &gradclipper.NormClipper{MaxNorm: max, NormType: p} }, func(gs [][]float64) {
				total := lpNorm(gs, p)
				if k := max / (total + 1e-7); k < 1 {
					for _, g := range gs {
						for i := range g {
							g[i] *= k
						}
					}
				}
			}})
		}
	}
	return out
}

func lpNorm(gs [][]float64, p float64) float64 {
	s := 0.0
	for _, g := range gs {
		for _, v := range g {
			if math.IsInf(p, 1) {
				s = math.Max(s, math.Abs(v))
			} else {
				s += math.Pow(math.Abs(v), p)
			}
		}
	}
	if math.IsInf(p, 1) {
		return s
	}
	return math.Pow(s, 1/p)
}

func o03(t *lib.T) {
	t.Rule("every clipper (by value, by norms 1.5, 2, 3 and infinity) x thresholds x {float32,float64} x sets of up to 3 parameters, each without gradients or with one of the stated gradients (zeros, small, large, of both signs) x parameters listed once or twice x up to 2 clippers one after the other; every combination of 3 (4 in the thorough tier) of 8 numbers as gradients of one or two parameters; gradients are compared with the definition; a few large sets of large gradients; gradients which have come from the backward pass of a shared computation; values, other gradients and the order stay the same; invalid norms are rejected")
	shs := [][2]int{{2, 3}, {1, 1}, {5, 1}}
	kinds := lib.Pick(t, 5, 6) // 0: none
	cs := clippings()
	for ci := range cs {
		for cj := -1; cj < len(cs); cj++ {
			if cj >= 0 && !t.Thorough() && (ci+cj)%7 != 0 {
				continue
			}
			for _, d := range dts {
				for set := 0; set < kinds*kinds*kinds; set++ {
					if cj >= 0 && set%5 != (ci+cj)%5 {
						continue
					}
					for _, twice := range []bool{false, true} {
						name := cs[ci].name
						if cj >= 0 {
							name += "+" + cs[cj].name
						}
						t.Casef("sets", set > 0, func() error {
							var ps, list []*nn.Param
							var gs, before [][]float64
							for i, s := range shs {
								n := s[0] * s[1]
								p := nn.NewParam(d.mk(s[0], s[1], ramp(n)))
								ps = append(ps, p)
								list = append(list, p)
								if twice {
									list = append(list, ps[0])
								}
								g := clipGrad(set/[]int{1, kinds, kinds * kinds}[i]%kinds, n, i, d)
								before = append(before, g)
								if g != nil {
									p.AccGrad(d.mk(s[0], s[1], g))
									gs = append(gs, append([]float64(nil), g...))
								}
							}
							for k, c := range []int{ci, cj} {
								if c < 0 {
									continue
								}
								cs[c].def(gs)
								cs[c].mk().ClipGrads(nn.StreamParams(list))
								j := 0
								for i, p := range ps {
									if err := exactly(p, rampRef(shs[i][0], shs[i][1])); err != nil {
										return tag(fmt.Sprintf("parameter %d has been changed", i), err)
									}
									if before[i] == nil {
										if p.HasGrad() {
											return errf("parameter %d has got gradients", i)
										}
										continue
									}
									g := p.Grad()
									if g == nil {
										return errf("parameter %d has no gradients", i)
									}
									abs := 0.0
									if err := same(g, ref{shs[i][0], shs[i][1], gs[j]}, d.tol(1e-12, 1e-5), abs); err != nil {
										return tag(fmt.Sprintf("clipping %d, parameter %d, from %v", k, i, fmtVals(before[i])), err)
									}
									if err := sameDT(g, d); err != nil {
										return err
									}
									j++
								}
							}
							return nil
						}, "%s/%d/set%d/twice=%v", name, d, set, twice)
					}
				}
			}
		}
	}
	// every combination of a few numbers
	alphabet := []float64{-2.5, -1, -0.2, 0, 0.2, 1, 2.5, 6}
	for _, c := range cs {
		for _, d := range dts {
			for _, split := range []int{0, 1, 2} { // the elements of the first of two parameters
				for i := 0; i < len(alphabet)*len(alphabet)*len(alphabet)*len(alphabet); i++ {
					if !t.Thorough() && i >= len(alphabet)*len(alphabet)*len(alphabet) {
						break
					}
					t.Casef("combinations", i > 0, func() error {
						n := 3
						if t.Thorough() {
							n = 4
						}
						g := make([]float64, n)
						for j, k := 0, i; j < n; j++ {
							g[j] = d.round(alphabet[k%len(alphabet)])
							k /= len(alphabet)
						}
						var ps []*nn.Param
						gs := [][]float64{append([]float64(nil), g...)}
						if split > 0 {
							gs = [][]float64{append([]float64(nil), g[:split]...), append([]float64(nil), g[split:]...)}
						}
						for _, g := range gs {
							p := nn.NewParam(d.mk(len(g), 1, ramp(len(g))))
							p.AccGrad(d.mk(len(g), 1, g))
							ps = append(ps, p)
						}
						c.def(gs)
						c.mk().ClipGrads(nn.StreamParams(ps))
						for i, p := range ps {
							if err := same(p.Grad(), ref{len(gs[i]), 1, gs[i]}, d.tol(1e-12, 1e-5), 0); err != nil {
								return tag(fmt.Sprintf("gradients %v, parameter %d", g, i), err)
							}
						}
						return nil
					}, "%s/%d/split%d/%d", c.name, d, split, i)
				}
			}
		}
	}
	// many gradients
	for _, c := range cs {
		for _, d := range dts {
			for _, ns := range [][2]int{{1, 10007}, {70, 130}, {600, 3}, {2, 4096}} {
				for kind := 2; kind <= 5; kind++ {
					t.Casef("large", true, func() error {
						var ps []*nn.Param
						var gs [][]float64
						for i := 0; i < ns[0]; i++ {
							n := ns[1]
							p := nn.NewParam(d.mk(n, 1, ramp(n)))
							g := clipGrad(kind, n, i%11, d)
							switch {
							case kind == 4: // only one element of all
								g = make([]float64, n)
								if i == ns[0]-1 {
									g[n-1-n%3] = -2.5
								}
							case kind != 4:
								for k, v := range genLong(n, i%11) {
									g[k] = d.round(v * []float64{1, 1e3, 1, 1e-4}[kind-2])
								}
							}
							p.AccGrad(d.mk(n, 1, g))
							ps, gs = append(ps, p), append(gs, append([]float64(nil), g...))
						}
						c.def(gs)
						c.mk().ClipGrads(nn.StreamParams(ps))
						for i, p := range ps {
							if err := same(p.Grad(), ref{ns[1], 1, gs[i]}, d.tol(1e-11, 1e-4), 0); err != nil {
								return tag(fmt.Sprintf("parameter %d", i), err)
							}
						}
						return nil
					}, "%s/%d/%dx%d/kind%d", c.name, d, ns[0], ns[1], kind)
				}
			}
		}
	}
	// the gradients of a graph
	for ci, c := range cs {
		for _, d := range dts {
			t.Casef("graphs", true, func() error {
				a, b, x := nn.NewParam(d.mk(2, 2, ramp(4))), nn.NewParam(d.mk(2, 2, ramp2(4))), nn.NewParam(d.mk(2, 2, ramp(4))).WithGrad(false)
				y := ag.Add(ag.Add(a, b), x)
				y.AccGrad(d.mk(2, 2, []float64{2, -3, 0.25, 0}))
				if err := ag.Backward(y); err != nil {
					return err
				}
				gs := [][]float64{{2, -3, 0.25, 0}, {2, -3, 0.25, 0}}
				c.def(gs)
				c.mk().ClipGrads(nn.StreamParams([]*nn.Param{a, b, x, a}))
				for i, p := range []*nn.Param{a, b} {
					if err := same(p.Grad(), ref{2, 2, gs[i]}, d.tol(1e-12, 1e-5), 0); err != nil {
						return tag(fmt.Sprintf("parameter %d", i), err)
					}
				}
				if x.HasGrad() {
					return errf("a parameter which requires no gradients has got some")
				}
				return exactly(y.Grad(), ref{2, 2, []float64{2, -3, 0.25, 0}})
			}, "%s/%d", c.name, d)
			_ = ci
		}
	}
	for _, p := range []float64{1, 0.5, 0, -2, math.Inf(-1)} {
		for _, n := range []int{0, 1, 2} {
			t.Casef("invalid", true, func() error {
				var ps []*nn.Param
				for i := 0; i < n; i++ {
					ps = append(ps, nn.NewParam(DT(64).mk(1, 2, ramp(2))))
					ps[i].AccGrad(DT(64).mk(1, 2, ramp(2)))
				}
				if !lib.Panics(func() {
					(&gradclipper.NormClipper{MaxNorm: 0.1, NormType: p}).ClipGrads(nn.StreamParams(ps))
				}) {
					return errf("the norm %g is accepted", p)
				}
				for _, q := range ps {
					if err := exactly(q.Grad(), rampRef(1, 2)); err != nil {
						return err
					}
				}
				return nil
			}, "%g/%d", p, n)
		}
	}
}

// clipGrad returns the gradients of a kind.
func clipGrad(kind, n, salt int, d DT) []float64 {
	g := make([]float64, n)
	switch kind {
	case 0:
		return nil
	case 1: // zeros
	case 2:
		copy(g, genMixed(n, salt))
	case 3: // large
		for i, v := range genMixed2(n, salt) {
			g[i] = v * 1e3
		}
	case 4: // one of them is not null
		g[(salt+1)%n] = -2.5
	case 5: // small
		for i, v := range genMixed(n, salt) {
			g[i] = v * 1e-4
		}
	}
	return d.rounds(g)
}

func o04(t *lib.T) {
	t.Rule("exponential and hyperbolic decay x initial rates x final rates x numbers of steps or rates x every time step up to beyond the end, applied one after the other and to the initial rate; compared with the definitions: the sequence never increases, stays above the final rate (exponential), reaches it at the last step and stays there; invalid settings are rejected; every sequence of up to 3 of 9 calls to the same instance gives what new instances give")
	inits := []float64{1, 0.5, 0.1, 0.01, 0.003, 1e-4, 1e-6, 10}
	finals := []float64{1, 0.1, 0.05, 0.01, 0.003, 0.001, 1e-4, 3e-5, 1e-6, 1e-9}
	for _, a := range inits {
		for _, b := range finals {
			for times := 0; times <= lib.Pick(t, 60, 400); times++ {
				t.Casef("exponential", true, func() error { return exponentialDecay(a, b, times) }, "%g/%g/%d", a, b, times)
			}
			for _, near := range []float64{b, math.Nextafter(b, 20), b * (1 + 1e-15), b * (1 + 1e-12), b * (1 + 1e-9), b * 1.0001, b * 2} {
				for times := 0; times <= 20; times++ {
					t.Casef("narrow", near > b, func() error { return exponentialDecay(near, b, times) }, "%b/%g/%d", near, b, times)
				}
			}
			if a >= b {
				lrs := []float64{a, b + (a-b)*0.7, b}
				for _, times := range []int{1, 3, 4, 10, 50} {
					t.Casef("calls", true, func() error {
						return independentCalls(func() decay.Function { return exponential.New(a, b, times) }, lrs, []int{2, 3, times})
					}, "exponential/%g/%g/%d", a, b, times)
				}
				for _, rate := range []float64{0, 0.1, 1} {
					t.Casef("calls", true, func() error {
						return independentCalls(func() decay.Function { return hyperbolic.New(a, b, rate) }, lrs, []int{1, 2, 7})
					}, "hyperbolic/%g/%g/%g", a, b, rate)
				}
			}
			for _, rate := range []float64{0, -1, 1e-3, 0.1, 0.5, 1, 10} {
				t.Casef("hyperbolic", true, func() error {
					if a < b {
						if !lib.Panics(func() { hyperbolic.New(a, b, rate) }) {
							return errf("an initial rate less than the final one is accepted")
						}
						return nil
					}
					var f decay.Function = hyperbolic.New(a, b, rate)
					lr := a
					for step := 0; step <= 200; step++ {
						next := f.Decay(lr, step)
						want := lr
						if step > 1 && rate > 0 && lr > b {
							want = a / (1 + rate*float64(step))
						}
						if !(math.Abs(next-want) <= 1e-12*want) || next > lr {
							return errf("step %d: from %v to %v, expected %v", step, lr, next, want)
						}
						lr = next
					}
					return nil
				}, "%g/%g/%g", a, b, rate)
			}
		}
	}
}

// independentCalls checks that what a function gives does not depend on the
// calls before.
func independentCalls(mk func() decay.Function, lrs []float64, steps []int) error {
	type call struct {
		lr   float64
		step int
	}
	var calls []call
	var want []float64
	for _, lr := range lrs {
		for _, s := range steps {
			calls = append(calls, call{lr, s})
			want = append(want, mk().Decay(lr, s))
		}
	}
	for i := range calls {
		for j := range calls {
			for k := range calls {
				f := mk()
				for _, c := range []int{i, j, k} {
					if got := f.Decay(calls[c].lr, calls[c].step); got != want[c] {
						return errf("after the calls %v, %v and %v: %v, expected %v", calls[i], calls[j], calls[k], got, want[c])
					}
				}
			}
		}
	}
	return nil
}

// exponentialDecay checks all the steps of a decay.
func exponentialDecay(a, b float64, times int) error {
	if a < b {
		if !lib.Panics(func() { exponential.New(a, b, times) }) {
			return errf("an initial rate less than the final one is accepted")
		}
		return nil
	}
	var f decay.Function = exponential.New(a, b, times)
	lr := a
	for step := 0; step <= times+20; step++ {
		next := f.Decay(lr, step)
		switch {
		case math.IsNaN(next) || next > lr:
			return errf("step %d: from %v to %v", step, lr, next)
		case next < b:
			return errf("step %d: %v is less than the final rate", step, next)
		case step <= 1 && next != lr:
			return errf("step %d: from %v to %v, before the beginning", step, lr, next)
		case step >= times && step > 1 && next != b:
			return errf("step %d: %v, expected the final rate", step, next)
		}
		if step > 1 && step < times && lr > b*(1+1e-9) {
			n := float64(times - step)
			want := math.Exp((n*math.Log(lr) + math.Log(b)) / (n + 1))
			if math.Abs(next-want) > 1e-9*want {
				return errf("step %d: from %v to %v, expected %v", step, lr, next, want)
			}
			if !(next < lr) {
				return errf("step %d: no decay from %v", step, lr)
			}
		}
		// it depends on its arguments only
		if again := f.Decay(lr, step); again != next {
			return errf("step %d: %v, and then %v", step, next, again)
		}
		if direct := f.Decay(a, step); math.IsNaN(direct) || direct > a || direct < b {
			return errf("step %d: from the initial rate to %v", step, direct)
		}
		lr = next
	}
	return nil
}

func o05(t *lib.T) {
	t.Rule("every loss function x classes, weights, exponents and lengths x shapes x {float32,float64} x values x kinds of operand x every subset of operands which require gradients; values are compared with the definitions and gradients with their differences; cross-entropies of logits of every magnitude and certain predictions: finite values and gradients")
	t.Assume("derivatives are not compared at the kinks of the functions")
	mixed := gens{genMixed, genMixed2}
	pairs := func(ss ...sh) (out [][][2]int) {
		for _, s := range ss {
			out = append(out, [][2]int{s, s})
		}
		return
	}
	sq := func(a, b float64) float64 { return (a - b) * (a - b) / 2 }
	ad := func(a, b float64) float64 { return math.Abs(a - b) }
	shs := []sh{{1, 1}, {4, 1}, {1, 3}, {2, 3}, {17, 1}}
	for _, mean := range []bool{false, true} {
		mean := mean
		red := func(f func(a, b float64) float64) func(x []ref) ref {
			return func(x []ref) ref {
				v := zipRef(x[0], x[1], f).sum()
				if mean {
					v /= float64(len(x[0].v))
				}
				return one1(v)
			}
		}
		gop{name: fmt.Sprintf("MSE/mean=%v", mean), points: pts(mixed, pairs(shs...)...), def: red(sq),
			f: func(x []mat.Tensor) mat.Tensor { return losses.MSE(x[0], x[1], mean) }}.check(t, "losses")
		gop{name: fmt.Sprintf("MAE/mean=%v", mean), points: pts(mixed, pairs(shs...)...), def: red(ad),
			f: func(x []mat.Tensor) mat.Tensor { return losses.MAE(x[0], x[1], mean) }}.noTwins().check(t, "losses")
		hugeShapes := pts(gens{genLong}, pairs(sh{300, 1}, sh{1, 1030}, sh{40, 30}, sh{5000, 1})...)
		gop{name: fmt.Sprintf("MSE/mean=%v", mean), def: red(sq),
			f: func(x []mat.Tensor) mat.Tensor { return losses.MSE(x[0], x[1], mean) }}.huge(hugeShapes).check(t, "huge")
		gop{name: fmt.Sprintf("MAE/mean=%v", mean), def: red(ad),
			f: func(x []mat.Tensor) mat.Tensor { return losses.MAE(x[0], x[1], mean) }}.noTwins().huge(hugeShapes).check(t, "huge")
		for _, kl := range [][2]int{{1, 24}, {70, 24}, {1, 131}, {2, 307}} {
			k, l := kl[0], kl[1]
			var p [][2]int
			for i := 0; i < 2*l; i++ {
				p = append(p, sh{k, 1})
			}
			seq := func(f func(a, b float64) float64) func(x []ref) ref {
				return func(x []ref) ref {
					v := 0.0
					for i := 0; i < l; i++ {
						v += zipRef(x[i], x[l+i], f).sum()
					}
					if mean {
						v /= float64(l)
					}
					return one1(v)
				}
			}
			gop{name: fmt.Sprintf("MSESeq/mean=%v", mean), def: seq(sq),
				f: func(x []mat.Tensor) mat.Tensor { return losses.MSESeq(x[:l], x[l:], mean) }}.huge(pts(gens{genLong}, p)).check(t, "huge")
			gop{name: fmt.Sprintf("MAESeq/mean=%v", mean), def: seq(ad),
				f: func(x []mat.Tensor) mat.Tensor { return losses.MAESeq(x[:l], x[l:], mean) }}.noTwins().huge(pts(gens{genLong}, p)).check(t, "huge")
			target := make([]int, 2*l)
			for i := range target {
				target[i] = (i*13 + 5) % k
			}
			gop{name: fmt.Sprintf("CrossEntropySeq/mean=%v", mean), tol32: 1e-4,
				def: func(x []ref) ref {
					v := 0.0
					for i := range x {
						v += logSumExp(x[i].v) - x[i].v[target[i]]
					}
					if mean {
						v /= float64(len(x))
					}
					return one1(v)
				},
				f: func(x []mat.Tensor) mat.Tensor { return losses.CrossEntropySeq(x, target, mean) }}.huge(pts(gens{genLong}, p)).check(t, "huge")
		}
		for n := 1; n <= 3; n++ {
			n := n
			for _, s := range []sh{{1, 1}, {3, 1}, {1, 2}, {2, 2}} {
				var p [][2]int
				for i := 0; i < 2*n; i++ {
					p = append(p, s)
				}
				seq := func(f func(a, b float64) float64) func(x []ref) ref {
					return func(x []ref) ref {
						v := 0.0
						for i := 0; i < n; i++ {
							v += zipRef(x[i], x[n+i], f).sum()
						}
						if mean {
							v /= float64(n)
						}
						return one1(v)
					}
				}
				gop{name: fmt.Sprintf("MSESeq/mean=%v", mean), points: pts(mixed, p), def: seq(sq),
					f: func(x []mat.Tensor) mat.Tensor { return losses.MSESeq(x[:n], x[n:], mean) }}.check(t, "sequences")
				gop{name: fmt.Sprintf("MAESeq/mean=%v", mean), points: pts(mixed, p), def: seq(ad),
					f: func(x []mat.Tensor) mat.Tensor { return losses.MAESeq(x[:n], x[n:], mean) }}.noTwins().check(t, "sequences")
				if s[0] > 1 && s[1] > 1 {
					continue
				}
				k := s[0] * s[1]
				var targets [][]int // all of them
				for c := 0; c < int(math.Pow(float64(k), float64(n))+0.5); c++ {
					target := make([]int, n)
					for i, r := 0, c; i < n; i, r = i+1, r/k {
						target[i] = r % k
					}
					targets = append(targets, target)
				}
				for _, target := range targets {
					target := target
					gop{name: fmt.Sprintf("CrossEntropySeq/mean=%v/%v", mean, target), points: pts(mixed, p[:n]), tol32: 1e-4,
						def: func(x []ref) ref {
							v := 0.0
							for i := range x {
								v += logSumExp(x[i].v) - x[i].v[target[i]]
							}
							if mean {
								v /= float64(n)
							}
							return one1(v)
						},
						f: func(x []mat.Tensor) mat.Tensor { return losses.CrossEntropySeq(x, target, mean) }}.check(t, "sequences")
				}
			}
		}
	}
	for n := 1; n <= 4; n++ {
		n := n
		var p [][2]int
		for i := 0; i < 2*n; i++ {
			p = append(p, sh{1, 1})
		}
		gop{name: "SPG", mag: float64(n), points: pts(mixed, p), def: func(x []ref) ref {
			v := 0.0
			for i := 0; i < n; i++ {
				v -= x[i].v[0] * x[n+i].v[0]
			}
			return one1(v)
		}, f: func(x []mat.Tensor) mat.Tensor { return losses.SPG(x[:n], x[n:]) }}.check(t, "losses")
	}
	// of classes
	type class struct {
		name string
		f    func(x mat.Tensor, c int, w mat.Matrix) mat.Tensor
		def  func(ce, w float64) float64
	}
	var classes []class
	classes = append(classes,
		class{"CrossEntropy", func(x mat.Tensor, c int, _ mat.Matrix) mat.Tensor { return losses.CrossEntropy(x, c) }, func(ce, _ float64) float64 { return ce }},
		class{"WeightedCrossEntropy", func(x mat.Tensor, c int, w mat.Matrix) mat.Tensor { return losses.WeightedCrossEntropy(w)(x, c) }, func(ce, w float64) float64 { return ce * w }},
		class{"Perplexity", func(x mat.Tensor, c int, _ mat.Matrix) mat.Tensor { return losses.Perplexity(x, c) }, func(ce, _ float64) float64 { return math.Exp(ce) }})
	for _, g := range []float64{0, 0.5, 1, 2, 3.5} {
		g := g
		classes = append(classes,
			class{fmt.Sprintf("FocalLoss%g", g), func(x mat.Tensor, c int, _ mat.Matrix) mat.Tensor { return losses.FocalLoss(x, c, g) }, func(ce, _ float64) float64 { return math.Pow(-math.Expm1(-ce), g) * ce }},
			class{fmt.Sprintf("WeightedFocalLoss%g", g), func(x mat.Tensor, c int, w mat.Matrix) mat.Tensor { return losses.WeightedFocalLoss(w)(x, c, g) }, func(ce, w float64) float64 { return w * math.Pow(-math.Expm1(-ce), g) * ce }})
	}
	weight := func(c int) float64 { return 0.25 + 0.125*float64((c*3)%5) }
	ceOf := func(x []float64, c int) float64 { // exact for certain predictions
		s := 0.0
		for i, v := range x {
			if i != c {
				s += math.Exp(v - x[c])
			}
		}
		if s > 1e300 {
			return logSumExp(x) - x[c]
		}
		return math.Log1p(s)
	}
	for _, cl := range classes {
		cl := cl
		for _, s := range []sh{{2, 1}, {5, 1}, {1, 4}, {17, 1}} {
			n := s[0] * s[1]
			for c := 0; c < n; c++ {
				if n == 17 && c%5 != 0 {
					continue
				}
				c := c
				var ws []float64
				for i := 0; i < n; i++ {
					ws = append(ws, weight(i))
				}
				gop{name: fmt.Sprintf("%s/class%d", cl.name, c), points: pts(mixed, [][2]int{s}), tol32: 1e-4,
					def: func(x []ref) ref { return one1(cl.def(ceOf(x[0].v, c), weight(c))) },
					f: func(x []mat.Tensor) mat.Tensor {
						d := DT(x[0].Value().Data().BitSize())
						return cl.f(x[0], c, d.mk(n, 1, ws))
					}}.check(t, "classes")
			}
		}
		for _, n := range []int{64, 65, 300, 1030} { // many classes
			for _, c := range []int{0, 1, n / 2, 64, n - 1} {
				if c >= n {
					continue
				}
				var ws []float64
				for i := 0; i < n; i++ {
					ws = append(ws, weight(i))
				}
				gop{name: fmt.Sprintf("%s/class%d", cl.name, c), tol32: 1e-4,
					def: func(x []ref) ref { return one1(cl.def(ceOf(x[0].v, c), weight(c))) },
					f: func(x []mat.Tensor) mat.Tensor {
						d := DT(x[0].Value().Data().BitSize())
						return cl.f(x[0], c, d.mk(n, 1, ws))
					}}.huge(pts(gens{genLong}, [][2]int{{n, 1}})).check(t, "huge")
			}
		}
		// certain and wrong predictions
		for _, d := range dts {
			for _, gap := range []float64{0, 1e-3, 1, 10, 20, 40, 80, 100, 500, 700, 1000, 1e4, 1e6} {
				for _, base := range []float64{0, 1, -3, 1000, -1000, 1e5} {
					for _, n := range []int{1, 2, 4} {
						for c := 0; c < n; c++ {
							for top := 0; top < n; top++ {
								t.Casef("magnitudes", true, func() error {
									xs := make([]float64, n)
									for i := range xs {
										xs[i] = base + float64(i)*0.5
									}
									xs[top] += gap
									xs = d.rounds(xs)
									ws := make([]float64, n)
									for i := range ws {
										ws[i] = weight(i)
									}
									ce := ceOf(xs, c)
									want := cl.def(ce, weight(c))
									if math.Abs(want) > d.tol(1e300, 1e37) {
										return nil // perplexities out of range
									}
									x := d.g(n, 1, xs)
									l := cl.f(x, c, d.mk(n, 1, ws))
									got := l.Item().F64()
									big := 1 + math.Abs(base) + gap
									tol := big * d.tol(1e-14, 1e-6)
									if cl.name == "Perplexity" {
										tol *= 1 + want
									}
									if cl.name[len(cl.name)-1] == '5' { // of the square root
										tol = math.Max(tol, 4*math.Sqrt(tol)*ce)
									}
									if !(math.Abs(got-want) <= 4*tol+d.tol(1e-10, 1e-4)*math.Abs(want)) {
										return errf("got %v, expected %v", got, want)
									}
									if err := ag.Backward(l); err != nil {
										return err
									}
									return finite("gradients", x.Grad().(mat.Matrix))
								}, "%s/%d/gap%g/base%g/%d/class%d/top%d", cl.name, d, gap, base, n, c, top)
							}
						}
					}
				}
			}
		}
	}
	probs := func(n, salt int) []float64 {
		v := genPos(n, salt)
		s := 0.0
		for _, p := range v {
			s += p
		}
		for i := range v {
			v[i] /= s
		}
		return v
	}
	for n := 1; n <= 5; n++ {
		for c := 0; c < n; c++ {
			var points [][]ref
			for salt := 0; salt < 2; salt++ {
				hot := make([]float64, n)
				hot[c] = 1
				points = append(points, []ref{{n, 1, probs(n, salt)}, {n, 1, hot}}, []ref{{1, n, probs(n, salt)}, {1, n, hot}})
			}
			gop{name: fmt.Sprintf("NLL/class%d", c), points: points, def: func(x []ref) ref {
				v := 0.0
				for i, p := range x[0].v {
					v -= x[1].v[i] * math.Log(p)
				}
				return one1(v)
			}, f: func(x []mat.Tensor) mat.Tensor { return losses.NLL(x[0], x[1]) }}.noTwins().check(t, "classes")
		}
	}
	var one [][][2]int
	for _, s := range shs {
		one = append(one, [][2]int{s})
	}
	zeroOne := func(x ref) float64 {
		return x.apply(func(v float64) float64 { return v * v * (1 - v) * (1 - v) }).sum()
	}
	normQ := func(x ref) float64 {
		s := x.apply(func(v float64) float64 { return v * v }).sum() - 1
		return s * s
	}
	small := gens{genMixed, genSmall}
	gop{name: "ZeroOneQuantization", points: pts(small, one...), tol32: 1e-4, def: func(x []ref) ref { return one1(zeroOne(x[0])) },
		f: func(x []mat.Tensor) mat.Tensor { return losses.ZeroOneQuantization(x[0]) }}.check(t, "losses")
	gop{name: "Norm2Quantization", points: pts(small, one...), tol32: 1e-4, def: func(x []ref) ref { return one1(normQ(x[0])) },
		f: func(x []mat.Tensor) mat.Tensor { return losses.Norm2Quantization(x[0]) }}.check(t, "losses")
	for _, q := range []float64{0, 1e-5, 0.5, 3} {
		q := q
		gop{name: fmt.Sprintf("OneHotQuantization%g", q), points: pts(small, one...), tol32: 1e-4, def: func(x []ref) ref { return one1(q * (zeroOne(x[0]) + normQ(x[0]))) },
			f: func(x []mat.Tensor) mat.Tensor { return losses.OneHotQuantization(x[0], q) }}.check(t, "losses")
	}
	for _, target := range []float64{0, 1, -2.3, 100} {
		target := target
		gop{name: fmt.Sprintf("Distance%g", target), points: pts(mixed, [][2]int{{1, 1}}), def: func(x []ref) ref { return one1(math.Abs(target - x[0].v[0])) },
			f: func(x []mat.Tensor) mat.Tensor { return losses.Distance(x[0], target) }}.check(t, "losses")
	}
}
