package checks

import (
	"fmt"
	"math"
	"strings"

	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/linear"
	"github.com/nlpodyssey/spago/optimizers"
	"github.com/nlpodyssey/spago/optimizers/adagrad"
	"github.com/nlpodyssey/spago/optimizers/adam"
	"github.com/nlpodyssey/spago/optimizers/lamb"
	"github.com/nlpodyssey/spago/optimizers/radam"
	"github.com/nlpodyssey/spago/optimizers/rmsprop"
	"github.com/nlpodyssey/spago/optimizers/sgd"
	"github.com/nlpodyssey/spago/verifmc/lib"
)

func init() { Registry["O01"] = o01 }

// trained is a parameter with its model.
type trained struct {
	d    DT
	p    *nn.Param
	w    []float64
	mag  float64 // the magnitude of what has been added up
	st   moments
	r, c int
}

func newTrained(d DT, r, c, salt int, scale float64) *trained {
	w := genMixed2(r*c, salt)
	for i := range w {
		w[i] = d.round(w[i] * scale)
	}
	return &trained{d: d, p: nn.NewParam(d.mk(r, c, w)), w: w, r: r, c: c}
}

// grad returns one of the gradients.
func (x *trained) gradOf(kind int, scale float64) []float64 {
	g := make([]float64, x.r*x.c)
	switch kind {
	case 0: // zeros
	case 1:
		copy(g, genMixed(len(g), 3))
	case 2:
		copy(g, genMixed2(len(g), 7))
	case 3: // some zeros
		for i, v := range genMixed2(len(g), 4) {
			if i%2 == 0 {
				g[i] = v
			}
		}
	}
	for i := range g {
		g[i] = x.d.round(g[i] * scale)
	}
	return g
}

func (x *trained) step(v optVariant, g []float64, time int) {
	delta := v.rule(&x.st, x.w, g, time)
	for i := range x.w {
		x.w[i] -= delta[i]
		x.mag = math.Max(x.mag, math.Abs(x.w[i])+math.Abs(delta[i]))
	}
}

func (x *trained) compare() error {
	if x.p.HasGrad() {
		return errf("there are gradients after the step")
	}
	if !x.p.RequiresGrad() {
		return errf("it does not require gradients any more")
	}
	if err := sameDT(x.p, x.d); err != nil {
		return err
	}
	return same(x.p, ref{x.r, x.c, x.w}, x.d.tol(1e-9, 2e-4), x.d.tol(1e-9, 2e-5)*x.mag)
}

// The operations of the histories.
var optOps = []struct {
	name string
	grad int // -1: no gradients
}{
	{"A", 1}, {"B", 2}, {"partial", 3}, {"zero", 0}, {"none", -1}, {"tick", -2}, {"replace", -3}, {"reload", -4}, {"zerograd", -5},
}

func o01(t *lib.T) {
	depth := lib.Pick(t, 4, 5)
	t.Rule("every optimizer (SGD, momentum, Nesterov, AdaGrad, RMSProp, Adam, AdamW, RAdam, LAMB) x settings x {float32,float64} x every history of up to %d of %d operations (steps with gradients of several kinds, with gradients which are zero, without gradients, with gradients which have been dropped, time steps, replaced values, save and load) with two more parameters which get gradients in other steps; every shape up to the bound, and a few large ones; 300 parameters, and up to 1100 steps; steps after up to 70000 (3000000) time steps; every scale of weights and gradients; weights are compared with the published rules after every step", depth, len(optOps))
	for _, v := range optVariants() {
		v := v
		for _, d := range dts {
			d := d
			hist := make([]int, 0, depth)
			var rec func()
			rec = func() {
				if len(hist) == depth {
					h := append([]int(nil), hist...)
					if !t.Mine() {
						return
					}
					names := ""
					for _, k := range h {
						names += "/" + optOps[k].name
					}
					t.Run("histories", fmt.Sprintf("%s/%d%s", v.name, d, names), true, func() error { return o01History(t, d, v, h) })
					return
				}
				for k := range optOps {
					if optOps[k].name == "tick" && !v.timed {
						continue
					}
					hist = append(hist, k)
					rec()
					hist = hist[:len(hist)-1]
				}
			}
			rec()
			// shapes
			for _, s := range shapes(lib.Pick(t, 4, 6), false, sh{1, 17}, sh{33, 1}, sh{9, 31}, sh{64, 65}, sh{1, 1025}, sh{9000, 1}, sh{200, 400}) {
				t.Casef("shapes", true, func() error {
					x := newTrained(d, s[0], s[1], 1, 1)
					st, tick := v.mk(d)
					for step := 0; step < 4; step++ {
						g := x.gradOf([]int{1, 3, 2, 0}[step], 1)
						x.p.AccGrad(d.mk(x.r, x.c, g))
						if err := st.OptimizeParams(x.p); err != nil {
							return err
						}
						x.step(v, g, step+1)
						tick()
						if err := x.compare(); err != nil {
							return tag(fmt.Sprintf("step %d", step), err)
						}
					}
					return nil
				}, "%s/%d/%v", v.name, d, s)
			}
			// scales
			for _, ws := range []float64{0, 1e-6, 1, 1e4} {
				for _, gs := range []float64{1e-9, 1e-6, 1e-3, 1, 100, 1e5} {
					for _, steps := range []int{1, 3, 12, lib.Pick(t, 12, 200)} {
						t.Casef("scales", true, func() error {
							x := newTrained(d, 3, 2, 1, ws)
							st, tick := v.mk(d)
							for step := 0; step < steps; step++ {
								g := x.gradOf(1+step%3, gs)
								x.p.AccGrad(d.mk(x.r, x.c, g))
								if err := st.OptimizeParams(x.p); err != nil {
									return err
								}
								x.step(v, g, step+1)
								tick()
								if err := x.compare(); err != nil {
									return tag(fmt.Sprintf("step %d", step), err)
								}
							}
							return nil
						}, "%s/%d/weights%g/gradients%g/steps%d", v.name, d, ws, gs, steps)
					}
				}
			}
		}
	}
	o01Sets(t)
	o01Many(t)
	o01Late(t)
	o01States(t)
}

// o01Many optimizes many parameters, for a long time.
func o01Many(t *lib.T) {
	for _, v := range optVariants() {
		for _, d := range dts {
			for _, ns := range [][2]int{{300, 4}, {1, 130}, {3, 1100}, {1, 6000}} {
				n, steps := ns[0], ns[1]
				if strings.HasPrefix(v.name, "lamb") && steps > 130 {
					continue // its weights grow without bounds
				}
				t.Casef("many", true, func() error {
					var ws []*trained
					var ps []*nn.Param
					for i := 0; i < n; i++ {
						x := newTrained(d, 1+i%4, 1+i%3, i%17, 1)
						ws, ps = append(ws, x), append(ps, x.p)
					}
					st, tick := v.mk(d)
					o := optimizers.New(nn.StreamParams(ps), st)
					for step := 0; step < steps; step++ {
						for i, x := range ws {
							if (i+step)%5 != 4 || n == 1 {
								g := x.gradOf(1+(i+step)%3, 1)
								x.p.AccGrad(d.mk(x.r, x.c, g))
								x.step(v, g, step+1)
							}
						}
						if err := o.Optimize(); err != nil {
							return err
						}
						tick()
						for i, x := range ws {
							if err := x.compare(); err != nil {
								return tag(fmt.Sprintf("step %d, parameter %d", step, i), err)
							}
						}
					}
					return nil
				}, "%s/%d/%d/steps%d", v.name, d, n, steps)
			}
		}
	}
}

// o01Late takes steps after many time steps.
func o01Late(t *lib.T) {
	for _, v := range optVariants() {
		if !v.timed {
			continue
		}
		for _, d := range dts {
			for _, ticks := range []int{1, 5, 20, 100, 300, 1000, 2500, 6000, 20000, lib.Pick(t, 70000, 3000000)} {
				for _, before := range []bool{false, true} {
					t.Casef("late", true, func() error {
						x := newTrained(d, 3, 2, 1, 1)
						st, tick := v.mk(d)
						time := 1
						for step := 0; step < 5; step++ {
							if step == 2 && before || step == 0 && !before {
								for k := 0; k < ticks; k++ {
									tick()
								}
								time += ticks
							}
							g := x.gradOf([]int{1, 2, 0, 3, 2}[step], 1)
							x.p.AccGrad(d.mk(x.r, x.c, g))
							if err := st.OptimizeParams(x.p); err != nil {
								return err
							}
							x.step(v, g, time)
							tick()
							time++
							if err := x.compare(); err != nil {
								return tag(fmt.Sprintf("step %d, time %d", step, time-1), err)
							}
						}
						return nil
					}, "%s/%d/ticks%d/before=%v", v.name, d, ticks, before)
				}
			}
		}
	}
}

func o01History(t *lib.T, d DT, v optVariant, h []int) error {
	// the first one follows the history, the others get gradients in other steps
	xs := []*trained{newTrained(d, 2, 3, 1, 1), newTrained(d, 1, 1, 2, 1), newTrained(d, 5, 1, 3, 1)}
	st, tick := v.mk(d)
	time := 1
	params := func(x ...*trained) nn.ParamChannelFunc {
		var ps []*nn.Param
		for _, x := range x {
			ps = append(ps, x.p)
		}
		return nn.StreamParams(ps)
	}
	for step, k := range h {
		op := optOps[k]
		x := xs[0]
		switch op.grad {
		case -2:
			tick()
			time++
		case -3:
			x.w = d.rounds(genMixed(6, step+11))
			x.st = moments{}
			x.p.ReplaceValue(d.g(2, 3, x.w))
			x.w = append([]float64(nil), x.w...)
		case -4:
			for i, x := range xs {
				q, err := roundTrip(x.p)
				if err != nil {
					return err
				}
				xs[i].p = q
			}
		default:
			var gs [3][]float64
			for i, x := range xs {
				kind := op.grad
				if i > 0 {
					kind = (step*2 + k + i*3) % 5 // 4: none
					if kind == 4 {
						kind = -1
					}
				}
				if kind == -1 {
					continue
				}
				g := x.gradOf(kind&3, 1)
				if kind == -5 {
					g = x.gradOf(1, 1)
				}
				// in two parts
				part := make([]float64, len(g))
				for j := range part {
					part[j] = g[j] / 2
				}
				x.p.AccGrad(d.mk(x.r, x.c, part))
				x.p.AccGrad(d.mk(x.r, x.c, part))
				if kind == -5 {
					x.p.ZeroGrad()
					continue
				}
				gs[i] = g
			}
			// (a parameter can be listed more than once)
			if err := optimizers.New(params(xs[0], xs[1], xs[0], xs[2]), st).Optimize(); err != nil {
				return tag(fmt.Sprintf("step %d", step), err)
			}
			for i, x := range xs {
				if gs[i] != nil {
					x.step(v, gs[i], time)
				}
			}
		}
		t.Res.Transitions++
		for i, x := range xs {
			if err := x.compare(); err != nil {
				return tag(fmt.Sprintf("after step %d (%s), parameter %d", step, op.name, i), err)
			}
		}
	}
	t.Res.Traces++
	return nil
}

// o01Sets optimizes the parameters of a model.
func o01Sets(t *lib.T) {
	for _, v := range optVariants() {
		v := v
		for _, d := range dts {
			d := d
			for n := 1; n <= lib.Pick(t, 3, 4); n++ {
				n := n
				for mask := 0; mask < 1<<(2*n); mask++ {
					mask := mask
					t.Casef("models", mask != 0, func() error {
						s := &saved{}
						var ws []*trained
						for i := 0; i < n; i++ {
							var l *linear.Model
							if d == 32 {
								l = linear.New[float32](2, 3)
							} else {
								l = linear.New[float64](2, 3)
							}
							s.List = append(s.List, l, l) // the same model can be reached twice
							for k, p := range []*nn.Param{l.W, l.B} {
								r, c := dims(p)
								x := newTrained(d, r, c, 2*i+k, 1)
								d.set(p, x.w)
								x.p = p
								ws = append(ws, x)
							}
						}
						st, tick := v.mk(d)
						o := optimizers.New(nn.Parameters(s), st)
						for step := 0; step < 3; step++ {
							for i, x := range ws {
								if mask>>i&1 == 1 {
									g := x.gradOf(1+(i+step)%3, 1)
									x.p.AccGrad(d.mk(x.r, x.c, g))
									x.step(v, g, step+1)
								}
							}
							if err := o.Optimize(); err != nil {
								return err
							}
							tick()
							for i, x := range ws {
								if err := x.compare(); err != nil {
									return tag(fmt.Sprintf("step %d, parameter %d", step, i), err)
								}
							}
						}
						return nil
					}, "%s/%d/%d/gradients%b", v.name, d, n, mask)
				}
			}
		}
	}
}

// o01States checks that a state of another optimizer is rejected.
func o01States(t *lib.T) {
	vs := optVariants()
	kinds := map[string]optVariant{}
	var names []string
	for _, v := range vs {
		x := newTrained(64, 2, 2, 1, 1)
		x.p.AccGrad(DT(64).mk(2, 2, ramp(4)))
		st, _ := v.mk(64)
		if err := st.OptimizeParams(x.p); err != nil {
			panic(err)
		}
		name := fmt.Sprintf("%T", x.p.State)
		if _, ok := kinds[name]; !ok {
			kinds[name] = v
			names = append(names, name)
		}
	}
	for _, a := range names {
		for _, b := range append([]string{""}, names...) {
			a, b := a, b
			for _, d := range dts {
				d := d
				t.Casef("states", a != b, func() error {
					x := newTrained(d, 2, 2, 1, 1)
					x.p.AccGrad(d.mk(2, 2, ramp(4)))
					if b == "" {
						x.p.State = "something else"
					} else {
						st, _ := kinds[b].mk(d)
						if err := st.OptimizeParams(x.p); err != nil {
							return err
						}
						x.p.AccGrad(d.mk(2, 2, ramp(4)))
					}
					before := refOf(x.p)
					state := x.p.State
					st, _ := kinds[a].mk(d)
					err := optimizers.New(nn.StreamParams([]*nn.Param{x.p}), st).Optimize()
					if a == b {
						return err
					}
					if err == nil {
						return errf("the state %T has been accepted", state)
					}
					if x.p.State != state {
						return errf("the state has been changed")
					}
					if !x.p.HasGrad() {
						return errf("the gradients are lost")
					}
					return exactly(x.p, before)
				}, "%s/%s/%d", a, b, d)
			}
		}
	}
	for _, b := range []float64{-1, -1e-9, 0, 0.5, 1 - 1e-9, 1, 1.5, math.NaN()} {
		for name, f := range map[string]func(b1, b2 float64){
			"adam":  func(b1, b2 float64) { adam.NewConfig(0.1, b1, b2, 1e-8) },
			"adamw": func(b1, b2 float64) { adam.NewAdamWConfig(0.1, b1, b2, 1e-8, 0.1) },
			"radam": func(b1, b2 float64) { radam.NewConfig(0.1, b1, b2, 1e-8) },
			"lamb":  func(b1, b2 float64) { lamb.NewConfig(0.1, b1, b2, 1e-8, 0.1) },
		} {
			if t.N > 1 && t.Shard != 0 { // (the order of the map differs among the shards)
				continue
			}
			t.Run("settings", fmt.Sprintf("%s/%g", name, b), true, func() error {
				ok := b >= 0 && b < 1
				for i, g := range []func(){func() { f(b, 0.5) }, func() { f(0.5, b) }} {
					if p := lib.Panics(g); p == ok {
						return errf("coefficient %d = %g: %v", i+1, b, p)
					}
				}
				return nil
			})
		}
	}
	t.Case("settings", "defaults", true, func() error {
		for i, ok := range []bool{
			adam.NewDefaultConfig() == adam.NewConfig(0.001, 0.9, 0.999, 1e-8),
			radam.NewDefaultConfig() == radam.NewConfig(0.001, 0.9, 0.999, 1e-8),
			lamb.NewDefaultConfig() == lamb.NewConfig(0.001, 0.9, 0.999, 1e-8, 0.1),
			adagrad.NewDefaultConfig() == adagrad.NewConfig(0.01, 1e-8),
			rmsprop.NewDefaultConfig() == rmsprop.NewConfig(0.001, 1e-8, 0.95),
			sgd.NewConfig(0.1, 0.2, true) == sgd.Config{LR: 0.1, Mu: 0.2, Nesterov: true},
		} {
			if !ok {
				return errf("default settings %d differ", i)
			}
		}
		return nil
	})
}
