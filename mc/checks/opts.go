package checks

import (
	"fmt"
	"math"

	"github.com/nlpodyssey/spago/mat/float"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/optimizers"
	"github.com/nlpodyssey/spago/optimizers/adagrad"
	"github.com/nlpodyssey/spago/optimizers/adam"
	"github.com/nlpodyssey/spago/optimizers/lamb"
	"github.com/nlpodyssey/spago/optimizers/radam"
	"github.com/nlpodyssey/spago/optimizers/rmsprop"
	"github.com/nlpodyssey/spago/optimizers/sgd"
)

// optVariant is a configuration of an optimization strategy.
type optVariant struct {
	name  string
	timed bool // the step depends on the time
	mk    func(d DT) (s optimizers.OptimizationStrategy, tick func())
	// rule is the documented rule: it updates the moments and returns what is
	// subtracted from the weights.
	rule func(s *moments, w, g []float64, time int) []float64
}

// moments is the state of a parameter.
type moments struct{ a, b []float64 }

func (s *moments) init(n int) {
	if s.a == nil {
		s.a, s.b = make([]float64, n), make([]float64, n)
	}
}

// ema is the exponential moving average.
func ema(m, x []float64, beta float64) {
	for i := range m {
		m[i] = m[i]*beta + x[i]*(1-beta)
	}
}

func squares(x []float64) []float64 {
	out := make([]float64, len(x))
	for i, v := range x {
		out[i] = v * v
	}
	return out
}

func l2norm(x []float64) float64 {
	s := 0.0
	for _, v := range x {
		s += v * v
	}
	return math.Sqrt(s)
}

func mapIdx(n int, f func(i int) float64) []float64 {
	out := make([]float64, n)
	for i := range out {
		out[i] = f(i)
	}
	return out
}

func strat[T float.DType](kind string, c []float64) (optimizers.OptimizationStrategy, func()) {
	none := func() {}
	switch kind {
	case "sgd":
		return sgd.New[T](sgd.NewConfig(c[0], c[1], c[2] != 0)), none
	case "adagrad":
		return adagrad.New[T](adagrad.NewConfig(c[0], c[1])), none
	case "rmsprop":
		return rmsprop.New[T](rmsprop.NewConfig(c[0], c[1], c[2])), none
	case "adam":
		s := adam.New(adam.NewConfig(c[0], c[1], c[2], c[3]))
		return s, s.IncExample
	case "adamw":
		s := adam.New(adam.NewAdamWConfig(c[0], c[1], c[2], c[3], c[4]))
		return s, s.IncExample
	case "radam":
		s := radam.New[T](radam.NewConfig(c[0], c[1], c[2], c[3]))
		return s, s.IncBatch
	case "lamb":
		s := lamb.New[T](lamb.NewConfig(c[0], c[1], c[2], c[3], c[4]))
		return s, s.IncExample
	}
	panic(kind)
}

func optRule(kind string, c []float64) func(s *moments, w, g []float64, time int) []float64 {
	biased := func(time int) float64 { // Adam's step size
		t := float64(time)
		return c[0] * math.Sqrt(1-math.Pow(c[2], t)) / (1 - math.Pow(c[1], t))
	}
	return func(s *moments, w, g []float64, time int) []float64 {
		n := len(w)
		s.init(n)
		switch kind {
		case "sgd":
			lr, mu := c[0], c[1]
			if mu == 0 {
				return mapIdx(n, func(i int) float64 { return lr * g[i] })
			}
			prev := append([]float64(nil), s.a...)
			for i := range s.a {
				s.a[i] = mu*s.a[i] + lr*g[i]
			}
			if c[2] == 0 {
				return append([]float64(nil), s.a...)
			}
			return mapIdx(n, func(i int) float64 { return (1+mu)*s.a[i] - mu*prev[i] })
		case "adagrad":
			for i := range s.a {
				s.a[i] += g[i] * g[i]
			}
			return mapIdx(n, func(i int) float64 { return c[0] * g[i] / (math.Sqrt(s.a[i]) + c[1]) })
		case "rmsprop":
			ema(s.a, squares(g), c[2])
			return mapIdx(n, func(i int) float64 { return c[0] * g[i] / (math.Sqrt(s.a[i]) + c[1]) })
		case "adam", "adamw", "lamb":
			ema(s.a, g, c[1])
			ema(s.b, squares(g), c[2])
			step := mapIdx(n, func(i int) float64 {
				v := s.a[i] / (math.Sqrt(s.b[i]) + c[3])
				if kind != "adam" {
					v += c[4] * w[i]
				}
				return v
			})
			k := biased(time)
			if kind == "lamb" {
				if a, b := l2norm(w), l2norm(step); a != 0 && b != 0 {
					k *= a / b
				}
			}
			return mapIdx(n, func(i int) float64 { return k * step[i] })
		case "radam":
			ema(s.a, g, c[1])
			ema(s.b, squares(g), c[2])
			t := float64(time)
			b2t := math.Pow(c[2], t)
			max := 2/(1-c[2]) - 1
			ro := max - 2*t*b2t/(1-b2t)
			rect := 1.0
			if ro > 4 {
				rect = math.Sqrt((ro - 4) * (ro - 2) * max / ((max - 4) * (max - 2) * ro))
			}
			k := rect * biased(time)
			return mapIdx(n, func(i int) float64 {
				return k * s.a[i] / (math.Sqrt(s.b[i]) + c[3]*math.Sqrt(1-b2t))
			})
		}
		panic(kind)
	}
}

func optVariants() []optVariant {
	var out []optVariant
	add := func(kind string, timed bool, cs ...[]float64) {
		for _, c := range cs {
			c := c
			out = append(out, optVariant{
				name:  fmt.Sprintf("%s%v", kind, c),
				timed: timed,
				mk: func(d DT) (optimizers.OptimizationStrategy, func()) {
					if d == 32 {
						return strat[float32](kind, c)
					}
					return strat[float64](kind, c)
				},
				rule: optRule(kind, c),
			})
		}
	}
	add("sgd", false, []float64{0.1, 0, 0}, []float64{0.1, 0.9, 0}, []float64{0.1, 0.9, 1}, []float64{0.25, 0.5, 1})
	add("adagrad", false, []float64{0.01, 1e-8}, []float64{0.5, 0.125})
	add("rmsprop", false, []float64{0.001, 1e-8, 0.95}, []float64{0.25, 0.125, 0.5})
	add("adam", true, []float64{0.001, 0.9, 0.999, 1e-8}, []float64{0.25, 0.5, 0.75, 0.125}, []float64{0.25, 0, 0, 1e-3})
	add("adamw", true, []float64{0.001, 0.9, 0.999, 1e-8, 0.5}, []float64{0.25, 0.5, 0.75, 0.125, 0.25})
	add("radam", true, []float64{0.001, 0.9, 0.999, 1e-8}, []float64{0.25, 0.5, 0.96875, 0.125}, []float64{0.25, 0.5, 0.5, 0.125})
	add("lamb", true, []float64{0.001, 0.9, 0.999, 1e-8, 0.1}, []float64{0.25, 0.5, 0.75, 0.125, 0.25}, []float64{0.25, 0.5, 0.75, 0.125, 0})
	return out
}

// Optimization makes parameters, and optimizes them with one strategy.
type Optimization struct {
	Name string
	Make func() (ps []*nn.Param, s optimizers.OptimizationStrategy, begin func(step int))
}

// Optimizations are those of every strategy, with n parameters of the same
// dimensions and one of others.
func Optimizations(n int) (out []Optimization) {
	for i, o := range optVariants() {
		for _, d := range dts {
			if d != dts[i%2] && i > 0 {
				continue
			}
			o, d := o, d
			out = append(out, Optimization{fmt.Sprintf("%s/%d/%d", o.name, n, d), func() ([]*nn.Param, optimizers.OptimizationStrategy, func(step int)) {
				s, tick := o.mk(d)
				var ps []*nn.Param
				for v := 0; v < n; v++ {
					ps = append(ps, nn.NewParam(d.mk(2, 2, d.rounds(genMixed(4, v)))))
				}
				ps = append(ps, nn.NewParam(d.mk(1, 3, d.rounds(genMixed(3, n)))))
				return ps, s, func(step int) {
					for v, p := range ps {
						r, c := dims(p)
						p.AccGrad(d.mk(r, c, d.rounds(genMixed2(r*c, step+3*v))))
					}
					tick()
				}
			}})
		}
	}
	return out
}
