package checks

import (
	"fmt"
	"math"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/activation"
	"github.com/nlpodyssey/spago/nn/attention"
	"github.com/nlpodyssey/spago/nn/attention/multiheadattention"
	"github.com/nlpodyssey/spago/nn/attention/selfattention"
	"github.com/nlpodyssey/spago/nn/birnn"
	"github.com/nlpodyssey/spago/nn/convolution/conv1x1"
	"github.com/nlpodyssey/spago/nn/convolution/convolution1d"
	"github.com/nlpodyssey/spago/nn/convolution/convolution2d"
	"github.com/nlpodyssey/spago/nn/crf"
	"github.com/nlpodyssey/spago/nn/flatten"
	"github.com/nlpodyssey/spago/nn/gmlp"
	"github.com/nlpodyssey/spago/nn/gnn/slstm"
	"github.com/nlpodyssey/spago/nn/highway"
	"github.com/nlpodyssey/spago/nn/linear"
	"github.com/nlpodyssey/spago/nn/mlpmixer"
	"github.com/nlpodyssey/spago/nn/normalization/adanorm"
	"github.com/nlpodyssey/spago/nn/normalization/batchnorm"
	"github.com/nlpodyssey/spago/nn/normalization/fixnorm"
	"github.com/nlpodyssey/spago/nn/normalization/layernorm"
	"github.com/nlpodyssey/spago/nn/normalization/layernormsimple"
	"github.com/nlpodyssey/spago/nn/normalization/rmsnorm"
	"github.com/nlpodyssey/spago/nn/normalization/scalenorm"
	"github.com/nlpodyssey/spago/nn/pooling"
	"github.com/nlpodyssey/spago/nn/recurrent/gru"
	"github.com/nlpodyssey/spago/nn/recurrent/lstm"
	"github.com/nlpodyssey/spago/nn/recurrent/srn"
	"github.com/nlpodyssey/spago/nn/sgu"
	"github.com/nlpodyssey/spago/nn/sqrdist"
	"github.com/nlpodyssey/spago/verifmc/lib"
)

type (
	mats   = []mat.Tensor
	params = []*nn.Param
)

// plain makes a definition without detached values.
func plain(f func(ps, xs []ref) []ref) func(ps, xs, _, _ []ref) []ref {
	return func(ps, xs, _, _ []ref) []ref { return f(ps, xs) }
}

// level tells which models and inputs are enumerated: a few small ones, more
// small ones, or a few large ones.
type level int

const (
	quick level = iota
	thorough
	large
)

func levelOf(t *lib.T) level {
	if t.Thorough() {
		return thorough
	}
	return quick
}

// each makes a definition which maps every input.
func each(f func(ps []ref, x ref) ref) func(ps, xs, _, _ []ref) []ref {
	return plain(func(ps, xs []ref) []ref {
		out := make([]ref, len(xs))
		for i, x := range xs {
			out[i] = f(ps, x)
		}
		return out
	})
}

// The definitions of the activations.
var actDefs = map[activation.Activation]func(x ref, ps []ref) ref{
	activation.Identity:    func(x ref, _ []ref) ref { return x },
	activation.Tan:         func(x ref, _ []ref) ref { return x.apply(math.Tan) },
	activation.Tanh:        func(x ref, _ []ref) ref { return x.tanh() },
	activation.Sigmoid:     func(x ref, _ []ref) ref { return x.sig() },
	activation.HardSigmoid: scalarAct("HardSigmoid"),
	activation.HardTanh:    scalarAct("HardTanh"),
	activation.Softsign:    scalarAct("Softsign"),
	activation.ReLU:        scalarAct("ReLU"),
	activation.GELU:        scalarAct("GELU"),
	activation.PositiveELU: scalarAct("PositiveELU"),
	activation.Swish:       scalarAct("Swish"),
	activation.SiLU:        scalarAct("SiLU"),
	activation.Mish:        scalarAct("Mish"),
	activation.CELU:        paramAct("CELU"),
	activation.ELU:         paramAct("ELU"),
	activation.SwishB:      paramAct("SwishB"),
	activation.LeakyReLU:   paramAct("LeakyReLU"),
	activation.SELU:        paramAct("SELU"),
	activation.SoftPlus:    paramAct("SoftPlus"),
	activation.SoftShrink:  paramAct("SoftShrink"),
	activation.Threshold:   paramAct("Threshold"),
	activation.Softmax:     func(x ref, _ []ref) ref { return softmaxR(x) },
	activation.LogSoftmax:  func(x ref, _ []ref) ref { return softmaxR(x).apply(math.Log) },
	activation.SparseMax: func(x ref, _ []ref) ref {
		y, _ := sparsemaxDef(x)
		return y
	},
}

var actNames = map[activation.Activation]string{
	activation.Identity: "Identity", activation.Tan: "Tan", activation.Tanh: "Tanh", activation.Sigmoid: "Sigmoid",
	activation.HardSigmoid: "HardSigmoid", activation.HardTanh: "HardTanh", activation.Softsign: "Softsign",
	activation.ReLU: "ReLU", activation.CELU: "CELU", activation.GELU: "GELU", activation.ELU: "ELU",
	activation.PositiveELU: "PositiveELU", activation.SwishB: "SwishB", activation.Swish: "Swish", activation.SiLU: "SiLU",
	activation.Mish: "Mish", activation.LeakyReLU: "LeakyReLU", activation.SELU: "SELU", activation.SoftPlus: "SoftPlus",
	activation.SoftShrink: "SoftShrink", activation.Threshold: "Threshold", activation.Softmax: "Softmax",
	activation.LogSoftmax: "LogSoftmax", activation.SparseMax: "SparseMax",
}

func scalarAct(name string) func(x ref, _ []ref) ref {
	for _, f := range scalarFns {
		if f.name == name {
			return func(x ref, _ []ref) ref { return x.apply(f.def) }
		}
	}
	panic(name)
}

func paramAct(name string) func(x ref, ps []ref) ref {
	for _, f := range paramFns {
		if f.name == name {
			return func(x ref, ps []ref) ref {
				var p []float64
				for _, q := range ps {
					p = append(p, q.v[0])
				}
				return x.apply(func(v float64) float64 { return f.def(v, p) })
			}
		}
	}
	panic(name)
}

// Recurrent networks.

func srnParams(m *srn.Model) params { return params{m.W, m.WRec, m.B} }

func gruParams(m *gru.Model) params {
	return params{m.WPart, m.WPartRec, m.BPart, m.WRes, m.WResRec, m.BRes, m.WCand, m.WCandRec, m.BCand}
}

func lstmParams(m *lstm.Model) params {
	return params{m.WIn, m.WInRec, m.BIn, m.WOut, m.WOutRec, m.BOut, m.WFor, m.WForRec, m.BFor, m.WCand, m.WCandRec, m.BCand}
}

// gate is b + W x + Wrec y.
func gate(w, wrec, b, x ref, y *ref) ref {
	o := affineRef(b, w, x)
	if y != nil {
		o = addRef(o, mulRef(wrec, *y))
	}
	return o
}

func srnDef(p, xs []ref, y *ref) []ref {
	var out []ref
	for _, x := range xs {
		o := gate(p[0], p[1], p[2], x, y).tanh()
		out = append(out, o)
		y = &o
	}
	return out
}

func gruDef(p, xs []ref, y *ref) []ref {
	var out []ref
	for _, x := range xs {
		r := gate(p[3], p[4], p[5], x, y).sig()
		z := gate(p[0], p[1], p[2], x, y).sig()
		var ry *ref
		if y != nil {
			v := had(*y, r)
			ry = &v
		}
		o := had(z, gate(p[6], p[7], p[8], x, ry).tanh())
		if y != nil {
			o = addRef(o, had(z.oneMinus(), *y))
		}
		out = append(out, o)
		y = &o
	}
	return out
}

func lstmDef(p, xs []ref, refined bool, y, cell *ref) []ref {
	var out []ref
	for _, x := range xs {
		in, og := gate(p[0], p[1], p[2], x, y).sig(), gate(p[3], p[4], p[5], x, y).sig()
		fg, cand := gate(p[6], p[7], p[8], x, y).sig(), gate(p[9], p[10], p[11], x, y).tanh()
		if refined {
			in, og = had(in, x), had(og, x)
		}
		c := had(in, cand)
		if cell != nil {
			c = addRef(c, had(fg, *cell))
		}
		o := had(og, c.tanh())
		out = append(out, o)
		y, cell = &o, &c
	}
	return out
}

// zooRecurrent are the recurrent networks. The first inputs are the initial
// state, if there is one.
func zooRecurrent(lv level) []zoo {
	th := lv == thorough
	var out []zoo
	lens, sizes := []int{1, 2, 3}, [][2]int{{2, 3}, {1, 1}, {3, 2}}
	if th {
		lens, sizes = []int{1, 2, 3, 4, 5, 8}, [][2]int{{2, 3}, {1, 1}, {3, 2}, {2, 2}, {5, 4}, {1, 6}}
	}
	if lv == large {
		lens, sizes = []int{71, 301}, [][2]int{{19, 17}, {16, 16}, {2, 1}}
	}
	for _, s := range sizes {
		i, o := s[0], s[1]
		for _, n := range lens {
			if lv == large && (n == 301) != (i == 2) {
				continue
			}
			for _, state := range []bool{false, true} {
				for _, next := range []bool{false, true} {
					if state && !next {
						continue
					}
					st := ""
					if state {
						st = "+state"
					}
					if next {
						st += "/next"
					}
					ins := seq(n, i)
					if state {
						ins = append([][2]int{{o, 1}}, ins...)
					}
					name := func(k string) string { return fmt.Sprintf("%s%s/%d-%d/len%d", k, st, i, o, n) }
					first := func(xs []ref) (*ref, []ref) {
						if !state {
							return nil, xs
						}
						return &xs[0], xs[1:]
					}
					z := zoo{prop: "N02", name: name("srn"), in: ins,
						mk: mkT(func() *srn.Model { return srn.New[float32](i, o) }, func() *srn.Model { return srn.New[float64](i, o) }, srnParams),
						def: plain(func(p, xs []ref) []ref {
							y, xs := first(xs)
							return srnDef(p, xs, y)
						})}
					if next {
						z.run = func(m nn.Model, xs mats) (ys mats) {
							var s *srn.State
							if state {
								s, xs = &srn.State{Y: xs[0]}, xs[1:]
							}
							for _, x := range xs {
								s = m.(*srn.Model).Next(s, x)
								ys = append(ys, s.Y)
							}
							return
						}
					}
					out = append(out, z)
					z = zoo{prop: "N02", name: name("gru"), in: ins,
						mk: mkT(func() *gru.Model { return gru.New[float32](i, o) }, func() *gru.Model { return gru.New[float64](i, o) }, gruParams),
						def: plain(func(p, xs []ref) []ref {
							y, xs := first(xs)
							return gruDef(p, xs, y)
						})}
					if next {
						z.run = func(m nn.Model, xs mats) (ys mats) {
							var s *gru.State
							if state {
								s, xs = &gru.State{Y: xs[0]}, xs[1:]
							}
							for _, x := range xs {
								s = m.(*gru.Model).Next(s, x)
								ys = append(ys, s.Y)
							}
							return
						}
					}
					out = append(out, z)
					for _, refined := range []bool{false, true} {
						if refined && i != o {
							continue
						}
						ins := ins
						if state { // and the cell
							ins = append([][2]int{{o, 1}}, ins...)
						}
						k := "lstm"
						if refined {
							k = "lstm-refined"
						}
						z = zoo{prop: "N02", name: name(k), in: ins,
							mk: mkT(func() *lstm.Model { return lstm.New[float32](i, o).WithRefinedGates(refined) },
								func() *lstm.Model { return lstm.New[float64](i, o).WithRefinedGates(refined) }, lstmParams),
							def: plain(func(p, xs []ref) []ref {
								if !state {
									return lstmDef(p, xs, refined, nil, nil)
								}
								return lstmDef(p, xs[2:], refined, &xs[0], &xs[1])
							})}
						if next {
							z.run = func(m nn.Model, xs mats) (ys mats) {
								var s *lstm.State
								if state {
									s, xs = &lstm.State{Y: xs[0], Cell: xs[1]}, xs[2:]
								}
								for _, x := range xs {
									s = m.(*lstm.Model).Next(s, x)
									ys = append(ys, s.Y)
								}
								return
							}
						}
						out = append(out, z)
						if !state || !next {
							continue
						}
						for _, only := range []string{"cell", "y"} { // a state with one of its parts
							cellOnly := only == "cell"
							out = append(out, zoo{prop: "N02", name: name(k + "-" + only), in: ins[1:], mk: z.mk,
								def: plain(func(p, xs []ref) []ref {
									if cellOnly {
										return lstmDef(p, xs[1:], refined, nil, &xs[0])
									}
									return lstmDef(p, xs[1:], refined, &xs[0], nil)
								}),
								run: func(m nn.Model, xs mats) (ys mats) {
									s := &lstm.State{Y: xs[0]}
									if cellOnly {
										s = &lstm.State{Cell: xs[0]}
									}
									for _, x := range xs[1:] {
										s = m.(*lstm.Model).Next(s, x)
										ys = append(ys, s.Y)
									}
									return
								}})
						}
					}
				}
			}
		}
	}
	return out
}

// trees returns every way to continue n runs from the states left by the
// earlier ones: the k-th run continues from the state of run trees[i][k], or
// from none (-1).
func trees(n int) [][]int {
	out := [][]int{{}}
	for k := 0; k < n; k++ {
		var next [][]int
		for _, t := range out {
			for from := -1; from < k; from++ {
				next = append(next, append(append([]int(nil), t...), from))
			}
		}
		out = next
	}
	return out
}

// forest returns trees(n), or a few of them which are large.
func forest(lv level, n int) [][]int {
	if lv != large {
		return trees(n)
	}
	star, comb, pairs := make([]int, n), make([]int, n), make([]int, n)
	for i := range star {
		star[i] = min(i-1, 0)
		comb[i] = max(i-2, -1)
		pairs[i] = (i - 1) / 2
	}
	pairs[0] = -1
	return [][]int{star, comb, pairs}
}

// path returns the elements which run k comes after, in order, and its own.
func path[T any](tree []int, k int, xs []T) []T {
	if k < 0 {
		return nil
	}
	return append(path(tree, tree[k], xs), xs[k])
}

// along runs next along the tree, and returns the states.
func along[S any](tree []int, xs mats, next func(s *S, x mat.Tensor) *S) []*S {
	var states []*S
	for k, from := range tree {
		var s *S
		if from >= 0 {
			s = states[from]
		}
		states = append(states, next(s, xs[k]))
	}
	return states
}

// zooBranches are the recurrent networks which continue in several ways from
// one state.
func zooBranches(lv level) []zoo {
	th := lv == thorough
	var out []zoo
	n := 3
	if th {
		n = 4
	}
	if lv == large {
		n = 12
	}
	ends := func(tree []int, f func(p, xs []ref) []ref) func(ps, xs, ps0, xs0 []ref) []ref {
		return plain(func(p, xs []ref) []ref {
			var ys []ref
			for k := range tree {
				all := f(p, path(tree, k, xs))
				ys = append(ys, all[len(all)-1])
			}
			return ys
		})
	}
	for _, tree := range forest(lv, n) {
		tree := tree
		for _, s := range [][2]int{{2, 3}, {2, 2}} {
			i, o := s[0], s[1]
			in := seq(n, i)
			name := func(k string) string { return fmt.Sprintf("%s/branches%v/%d-%d", k, tree, i, o) }
			if i != o {
				out = append(out, zoo{prop: "N02", name: name("srn"), in: in,
					mk:  mkT(func() *srn.Model { return srn.New[float32](i, o) }, func() *srn.Model { return srn.New[float64](i, o) }, srnParams),
					def: ends(tree, func(p, xs []ref) []ref { return srnDef(p, xs, nil) }),
					run: func(m nn.Model, xs mats) (ys mats) {
						for _, s := range along(tree, xs, m.(*srn.Model).Next) {
							ys = append(ys, s.Y)
						}
						return
					}}, zoo{prop: "N02", name: name("gru"), in: in,
					mk:  mkT(func() *gru.Model { return gru.New[float32](i, o) }, func() *gru.Model { return gru.New[float64](i, o) }, gruParams),
					def: ends(tree, func(p, xs []ref) []ref { return gruDef(p, xs, nil) }),
					run: func(m nn.Model, xs mats) (ys mats) {
						for _, s := range along(tree, xs, m.(*gru.Model).Next) {
							ys = append(ys, s.Y)
						}
						return
					}})
			}
			refined := i == o
			out = append(out, zoo{prop: "N02", name: name(fmt.Sprintf("lstm/refined=%v", refined)), in: in,
				mk: mkT(func() *lstm.Model { return lstm.New[float32](i, o).WithRefinedGates(refined) },
					func() *lstm.Model { return lstm.New[float64](i, o).WithRefinedGates(refined) }, lstmParams),
				def: ends(tree, func(p, xs []ref) []ref { return lstmDef(p, xs, refined, nil, nil) }),
				run: func(m nn.Model, xs mats) (ys mats) {
					for _, s := range along(tree, xs, m.(*lstm.Model).Next) {
						ys = append(ys, s.Y)
					}
					return
				}})
		}
	}
	return out
}

func mergeDef(k birnn.MergeType, a, b ref) ref {
	switch k {
	case birnn.Concat:
		return concatRef(a, b)
	case birnn.Sum:
		return addRef(a, b)
	case birnn.Prod:
		return had(a, b)
	}
	return addRef(a, b).scaled(0.5)
}

func biDef(k birnn.MergeType, xs []ref, pos, neg func(xs []ref) []ref) []ref {
	n := len(xs)
	rev := make([]ref, n)
	for i := range xs {
		rev[n-1-i] = xs[i]
	}
	a, b := pos(xs), neg(rev)
	out := make([]ref, n)
	for i := range out {
		out[i] = mergeDef(k, a[i], b[n-1-i])
	}
	return out
}

// zooBirnn are the bidirectional networks.
func zooBirnn(lv level) []zoo {
	th := lv == thorough
	var out []zoo
	lens, sizes := []int{1, 2, 3}, [][2]int{{2, 2}}
	if th {
		lens, sizes = []int{1, 2, 3, 4, 5, 8}, [][2]int{{2, 2}, {3, 1}, {1, 3}}
	}
	if lv == large {
		lens, sizes = []int{41, 301}, [][2]int{{9, 8}, {2, 1}}
	}
	for _, s := range sizes {
		i, o := s[0], s[1]
		for _, n := range lens {
			if lv == large && (n == 301) != (i == 2) {
				continue
			}
			for ki, k := range []birnn.MergeType{birnn.Concat, birnn.Sum, birnn.Prod, birnn.Avg} {
				kn := []string{"concat", "sum", "prod", "avg"}[ki]
				name := func(m string) string { return fmt.Sprintf("%s/%s/%d-%d/len%d", m, kn, i, o, n) }
				lp := func(m *birnn.Model) params {
					return append(lstmParams(m.Positive.(*lstm.Model)), lstmParams(m.Negative.(*lstm.Model))...)
				}
				lstms := func(p []ref, k birnn.MergeType, xs []ref) []ref {
					return biDef(k, xs, func(xs []ref) []ref { return lstmDef(p[:12], xs, false, nil, nil) },
						func(xs []ref) []ref { return lstmDef(p[12:24], xs, false, nil, nil) })
				}
				out = append(out, zoo{prop: "N02", name: name("bilstm"), in: seq(n, i),
					mk:  mkT(func() *birnn.Model { return birnn.NewBiLSTM[float32](i, o, k) }, func() *birnn.Model { return birnn.NewBiLSTM[float64](i, o, k) }, lp),
					def: plain(func(p, xs []ref) []ref { return lstms(p, k, xs) })})
				out = append(out, zoo{prop: "N02", name: name("bigru"), in: seq(n, i),
					mk: mkT(func() *birnn.Model { return birnn.NewBiGRU[float32](i, o, k) }, func() *birnn.Model { return birnn.NewBiGRU[float64](i, o, k) },
						func(m *birnn.Model) params {
							return append(gruParams(m.Positive.(*gru.Model)), gruParams(m.Negative.(*gru.Model))...)
						}),
					def: plain(func(p, xs []ref) []ref {
						return biDef(k, xs, func(xs []ref) []ref { return gruDef(p[:9], xs, nil) }, func(xs []ref) []ref { return gruDef(p[9:], xs, nil) })
					})})
				out = append(out, zoo{prop: "N02", name: name("bi-srn-gru"), in: seq(n, i),
					mk: mkT(func() *birnn.Model { return birnn.New(srn.New[float32](i, o), gru.New[float32](i, o), k) },
						func() *birnn.Model { return birnn.New(srn.New[float64](i, o), gru.New[float64](i, o), k) },
						func(m *birnn.Model) params {
							return append(srnParams(m.Positive.(*srn.Model)), gruParams(m.Negative.(*gru.Model))...)
						}),
					def: plain(func(p, xs []ref) []ref {
						return biDef(k, xs, func(xs []ref) []ref { return srnDef(p[:3], xs, nil) }, func(xs []ref) []ref { return gruDef(p[3:], xs, nil) })
					})})
				out = append(out, zoo{prop: "N02", name: name("bibilstm"), in: seq(n, i),
					mk: mkT(func() *stack { return newStack(birnn.NewBiBiLSTM[float32](i, o, k)) }, func() *stack { return newStack(birnn.NewBiBiLSTM[float64](i, o, k)) },
						func(m *stack) params {
							return append(lp(m.Layers[0].(*birnn.Model)), lp(m.Layers[1].(*birnn.Model))...)
						}),
					def: plain(func(p, xs []ref) []ref { return lstms(p[24:], k, lstms(p[:24], birnn.Concat, xs)) })})
			}
		}
	}
	return out
}

// stack is a list of models.
type stack struct {
	nn.Module
	Layers nn.ModuleList[nn.StandardModel]
}

func newStack(ms []*birnn.Model) *stack {
	s := &stack{}
	for _, m := range ms {
		s.Layers = append(s.Layers, m)
	}
	return s
}

func (s *stack) Forward(xs ...mat.Tensor) []mat.Tensor { return s.Layers.Forward(xs...) }

// Attention.

// attend returns the results and the weights; visible tells how many keys a
// query can attend.
func attend(q []ref, k, v ref, scale float64, visible func(i int) int) (ys, ws []ref) {
	for i, x := range q {
		s := mulRef(k, x).scaled(scale)
		n := visible(i)
		if n < len(s.v) {
			p := softmaxR(colOf(s.v[:n]...))
			w := newRef(len(s.v), 1)
			copy(w.v, p.v)
			s = w
		} else {
			s = softmaxR(s)
		}
		ws = append(ws, s)
		ys = append(ys, mulRef(v.t(), s))
	}
	return ys, ws
}

func rowsRef(xs []ref) ref {
	o := ref{len(xs), xs[0].r * xs[0].c, nil}
	for _, x := range xs {
		o.v = append(o.v, x.v...)
	}
	return o
}

func attParams(m *selfattention.Model) params {
	return params{m.Query.W, m.Query.B, m.Key.W, m.Key.B, m.Value.W, m.Value.B}
}

func linRef(w, b ref, xs []ref) []ref {
	var out []ref
	for _, x := range xs {
		out = append(out, affineRef(b, w, x))
	}
	return out
}

// attDef is a head over queries and inputs; causal queries are the last
// positions of the inputs.
func attDef(p, q, x []ref, scale float64, causal bool) (ys, ws []ref, k, v ref) {
	k, v = rowsRef(linRef(p[2], p[3], x)), rowsRef(linRef(p[4], p[5], x))
	off := len(x) - len(q)
	ys, ws = attend(linRef(p[0], p[1], q), k, v, scale, func(i int) int {
		if causal {
			return off + i + 1
		}
		return len(x)
	})
	return
}

// partsOf returns the ways to split n in parts.
func partsOf(n int) [][]int {
	if n == 0 {
		return [][]int{nil}
	}
	var out [][]int
	for k := n; k >= 1; k-- {
		for _, rest := range partsOf(n - k) {
			out = append(out, append([]int{k}, rest...))
		}
	}
	return out
}

func zooAttention(lv level) []zoo {
	th := lv == thorough
	var out []zoo
	maxLen := 3
	if th {
		maxLen = 5
	}
	// the function
	loose := 0.0
	lens, fnSizes := [][2]int{}, [][2]int{{2, 2}, {1, 3}, {3, 1}}
	for q := 1; q <= maxLen; q++ {
		for n := 1; n <= maxLen; n++ {
			lens = append(lens, [2]int{q, n})
		}
	}
	if lv == large {
		lens, fnSizes = [][2]int{{1, 70}, {70, 70}, {33, 70}, {70, 9}, {1, 300}, {300, 2}, {130, 131}}, [][2]int{{16, 9}, {3, 20}}
		loose = 5e-2 // long sums which cancel out
	}
	for _, qn := range lens {
		q, n := qn[0], qn[1]
		{
			for _, size := range fnSizes {
				for _, causal := range []bool{false, true} {
					if causal && n < q {
						continue
					}
					in := append(seq(q, size[0]), sh{n, size[0]}, sh{n, size[1]}, sh{1, 1})
					out = append(out, zoo{prop: "N03", name: fmt.Sprintf("attention/%d-%d/q%d/k%d/causal=%v", size[0], size[1], q, n, causal), in: in, gtol32: loose, tol32: map[bool]float64{true: 1e-3}[n > 100],
						mk: func(d DT) (nn.Model, []*nn.Param) { return nil, nil },
						run: func(_ nn.Model, xs mats) mats {
							ys, ws := attention.ScaledDotProductAttention(xs[:q], xs[q], xs[q+1], xs[q+2], causal)
							return append(append(mats(nil), ys...), ws...)
						},
						def: plain(func(_, xs []ref) []ref {
							ys, ws := attend(xs[:q], xs[q], xs[q+1], xs[q+2].v[0], func(i int) int {
								if causal && q > 1 {
									return n - q + i + 1
								}
								return n
							})
							return append(ys, ws...)
						})})
				}
			}
		}
	}
	type dim struct{ in, qk, v int }
	sizes := []dim{{2, 2, 2}, {3, 1, 2}}
	lens1, depth, cuts := []int{}, 3, partsOf
	for n := 1; n <= maxLen; n++ {
		lens1 = append(lens1, n)
	}
	if th {
		depth = 4
	}
	if lv == large {
		sizes, lens1, depth = []dim{{16, 8, 9}}, []int{40}, 12
		cuts = func(n int) [][]int {
			ones := make([]int, n)
			for i := range ones {
				ones[i] = 1
			}
			return [][]int{{n}, ones, {n - 1, 1}, {1, n - 1}, {n / 2, 1, n - n/2 - 1}}
		}
	}
	for _, s := range sizes {
		for _, causal := range []bool{false, true} {
			conf := selfattention.Config{InputSize: s.in, QuerySize: s.qk, KeySize: s.qk, ValueSize: s.v, ScaleFactor: 0.7, UseCausalMask: causal}
			mk := mkT(func() *selfattention.Model { return selfattention.New[float32](conf) }, func() *selfattention.Model { return selfattention.New[float64](conf) }, attParams)
			// incremental processing of a sequence
			for _, n := range lens1 {
				for _, parts := range cuts(n) {
					if !causal && len(parts) > 1 && n > 2 && lv != large {
						continue
					}
					out = append(out, zoo{prop: "N03", name: fmt.Sprintf("selfattention/%d-%d-%d/causal=%v/parts%v", s.in, s.qk, s.v, causal, parts), in: seq(n, s.in), mk: mk,
						run: func(m nn.Model, xs mats) (ys mats) {
							var cache selfattention.Cache
							var ws []mat.Tensor
							for _, k := range parts {
								var y, w mats
								y, w, cache = m.(*selfattention.Model).Forward(cache, xs[:k], xs[:k])
								ys, ws, xs = append(ys, y...), append(ws, w...), xs[k:]
							}
							return append(append(ys, ws...), cache[0], cache[1])
						},
						def: plain(func(p, xs []ref) []ref {
							var ys, ws []ref
							var k, v ref
							at := 0
							for _, n := range parts {
								var y, w []ref
								y, w, k, v = attDef(p, xs[at:at+n], xs[:at+n], 0.7, causal)
								ys, ws = append(ys, y...), append(ws, w...)
								at += n
							}
							return append(append(ys, ws...), k, v)
						})})
				}
			}
			// queries and inputs of their own
			for q := 1; q <= 2; q++ {
				for _, n := range lens1 {
					if n < q {
						continue
					}
					out = append(out, zoo{prop: "N03", name: fmt.Sprintf("selfattention/%d-%d-%d/causal=%v/q%d/x%d", s.in, s.qk, s.v, causal, q, n), in: seq(q+n, s.in), mk: mk,
						run: func(m nn.Model, xs mats) mats {
							y, w, c := m.(*selfattention.Model).Forward(selfattention.Cache{}, xs[:q], xs[q:])
							return append(append(append(mats(nil), y...), w...), c[0], c[1])
						},
						def: plain(func(p, xs []ref) []ref {
							y, w, k, v := attDef(p, xs[:q], xs[q:], 0.7, causal && q > 1)
							return append(append(y, w...), k, v)
						})})
				}
			}
			// calls which continue in several ways from one cache
			for _, tree := range forest(lv, depth) {
				tree := tree
				out = append(out, zoo{prop: "N03", name: fmt.Sprintf("selfattention/%d-%d-%d/causal=%v/branches%v", s.in, s.qk, s.v, causal, tree), in: seq(depth, s.in), mk: mk,
					run: func(m nn.Model, xs mats) (ys mats) {
						for _, c := range along(tree, xs, func(c *selfattention.Cache, x mat.Tensor) *selfattention.Cache {
							var from selfattention.Cache
							if c != nil {
								from = *c
							}
							y, w, next := m.(*selfattention.Model).Forward(from, mats{x}, mats{x})
							ys = append(append(ys, y...), w...)
							return &next
						}) {
							ys = append(ys, c[0], c[1])
						}
						return ys
					},
					def: plain(func(p, xs []ref) []ref {
						var ys, cs []ref
						for i := range tree {
							y, w, k, v := attDef(p, xs[i:i+1], path(tree, i, xs), 0.7, causal)
							ys, cs = append(append(ys, y...), w...), append(cs, k, v)
						}
						return append(ys, cs...)
					})})
			}
			if causal {
				continue
			}
			// cross attention: the keys and values are computed once
			cross := conf
			cross.IsCrossAttention = true
			mk = mkT(func() *selfattention.Model { return selfattention.New[float32](cross) }, func() *selfattention.Model { return selfattention.New[float64](cross) }, attParams)
			crossed := [][2]int{{1, 1}, {1, 2}, {1, 3}, {2, 1}, {2, 2}, {2, 3}}
			if lv == large {
				crossed = [][2]int{{40, 30}, {3, 40}, {300, 2}, {2, 300}}
			}
			for _, nq := range crossed {
				n, q := nq[0], nq[1]
				{
					for _, parts := range cuts(q) {
						out = append(out, zoo{prop: "N03", name: fmt.Sprintf("crossattention/%d-%d-%d/x%d/parts%v", s.in, s.qk, s.v, n, parts), in: seq(n+q, s.in), mk: mk,
							run: func(m nn.Model, xs mats) (ys mats) {
								var cache selfattention.Cache
								x, xs := xs[:n], xs[n:]
								for i, k := range parts {
									var y mats
									if i > 0 {
										x = nil
									}
									y, _, cache = m.(*selfattention.Model).Forward(cache, xs[:k], x)
									ys, xs = append(ys, y...), xs[k:]
								}
								return ys
							},
							def: plain(func(p, xs []ref) []ref {
								y, _, _, _ := attDef(p, xs[n:], xs[:n], 0.7, false)
								return y
							})})
					}
				}
			}
		}
	}
	// several heads
	headSizes, lens1, crossParts := [][2]int{{2, 1}, {2, 2}, {4, 2}, {3, 3}}, []int{1, 2, 3}, [][]int{{1}, {2}, {1, 1}, {1, 2}}
	if lv == large {
		headSizes, lens1, crossParts = [][2]int{{24, 4}, {12, 12}, {70, 70}}, []int{21}, [][]int{{20}, {9, 1, 10}}
	}
	for _, hs := range headSizes {
		size, heads := hs[0], hs[1]
		if !th && size == 3 {
			continue
		}
		mhaParams := func(m *multiheadattention.Model) (ps params) {
			for _, h := range m.Heads {
				ps = append(ps, attParams(h)...)
			}
			return append(ps, m.OutputMerge.W, m.OutputMerge.B)
		}
		scale := 1 / math.Sqrt(float64(size/heads))
		merge := func(p []ref, ys [][]ref) []ref {
			var out []ref
			for i := range ys[0] {
				var c []ref
				for h := range ys {
					c = append(c, ys[h][i])
				}
				out = append(out, affineRef(p[6*heads+1], p[6*heads], concatRef(c...)))
			}
			return out
		}
		for _, causal := range []bool{false, true} {
			mk := mkT(func() *multiheadattention.Model { return multiheadattention.New[float32](size, heads, causal, false) },
				func() *multiheadattention.Model { return multiheadattention.New[float64](size, heads, causal, false) }, mhaParams)
			for _, n := range lens1 {
				for _, parts := range cuts(n) {
					if !causal && len(parts) > 1 {
						continue
					}
					out = append(out, zoo{prop: "N03", name: fmt.Sprintf("multihead/%d-%d/causal=%v/parts%v", size, heads, causal, parts), in: seq(n, size), mk: mk, singular: func(d DT, _ int, grad bool) bool { return size == 70 && d == 32 && grad }, // rounding errors of long sums
						run: func(m nn.Model, xs mats) (ys mats) {
							var cache multiheadattention.Cache
							var ws mats
							for _, k := range parts {
								var y mats
								var w [][]mat.Tensor
								y, w, cache = m.(*multiheadattention.Model).Forward(cache, xs[:k], xs[:k])
								ys, xs = append(ys, y...), xs[k:]
								for _, v := range w {
									ws = append(ws, v...)
								}
							}
							return append(ys, ws...)
						},
						def: plain(func(p, xs []ref) []ref {
							var ys, ws []ref
							at := 0
							for _, n := range parts {
								var hy [][]ref
								for h := 0; h < heads; h++ {
									y, w, _, _ := attDef(p[6*h:], xs[at:at+n], xs[:at+n], scale, causal)
									hy, ws = append(hy, y), append(ws, w...)
								}
								ys = append(ys, merge(p, hy)...)
								at += n
							}
							return append(ys, ws...)
						})})
				}
			}
		}
		mk := mkT(func() *multiheadattention.Model { return multiheadattention.New[float32](size, heads, false, true) },
			func() *multiheadattention.Model { return multiheadattention.New[float64](size, heads, false, true) }, mhaParams)
		for n := 1; n <= 2; n++ {
			for _, parts := range crossParts {
				q := 0
				for _, k := range parts {
					q += k
				}
				out = append(out, zoo{prop: "N03", name: fmt.Sprintf("multihead-cross/%d-%d/x%d/parts%v", size, heads, n, parts), in: seq(n+q, size), mk: mk,
					run: func(m nn.Model, xs mats) (ys mats) {
						var cache multiheadattention.Cache
						x, xs := xs[:n], xs[n:]
						for i, k := range parts {
							var y mats
							if i > 0 {
								x = nil
							}
							y, _, cache = m.(*multiheadattention.Model).Forward(cache, xs[:k], x)
							ys, xs = append(ys, y...), xs[k:]
						}
						return ys
					},
					def: plain(func(p, xs []ref) []ref {
						var hy [][]ref
						for h := 0; h < heads; h++ {
							y, _, _, _ := attDef(p[6*h:], xs[n:], xs[:n], scale, false)
							hy = append(hy, y)
						}
						return merge(p, hy)
					})})
			}
		}
	}
	return out
}

// Convolutions and pooling.

func conv2dRef(w, x ref, sx, sy int) ref {
	o := newRef((x.r-w.r)/sx+1, (x.c-w.c)/sy+1)
	for i := 0; i < o.r; i++ {
		for j := 0; j < o.c; j++ {
			s := 0.0
			for a := 0; a < w.r; a++ {
				for b := 0; b < w.c; b++ {
					s += w.at(a, b) * x.at(i*sx+a, j*sy+b)
				}
			}
			o.v[i*o.c+j] = s
		}
	}
	return o
}

func flatCol(x ref) ref { return ref{len(x.v), 1, x.v} }

func zooConvolution(lv level) []zoo {
	th := lv == thorough
	var out []zoo
	type geom struct{ kr, kc, xr, xc, sx, sy int }
	var geoms []geom
	max := 3
	if th {
		max = 4
	}
	for kr := 1; kr <= 2; kr++ {
		for kc := 1; kc <= 2; kc++ {
			for xr := kr; xr <= max; xr++ {
				for xc := kc; xc <= max; xc++ {
					for sx := 1; sx <= 2; sx++ {
						for sy := 1; sy <= 2; sy++ {
							if (xr-kr)%sx == 0 && (xc-kc)%sy == 0 {
								geoms = append(geoms, geom{kr, kc, xr, xc, sx, sy})
							}
						}
					}
				}
			}
		}
	}
	if lv == large {
		geoms = []geom{{3, 3, 33, 40, 1, 1}, {5, 2, 45, 32, 2, 2}, {4, 7, 4, 70, 1, 3}, {1, 1, 20, 21, 1, 1}}
	}
	type chans struct {
		in, out int
		mask    []int
		dw      bool
		act     activation.Activation
	}
	variants := []chans{
		{1, 1, nil, false, activation.Identity}, {2, 3, nil, false, activation.Tanh}, {2, 2, nil, true, activation.Identity},
		{3, 2, []int{1, 0, 1}, false, activation.Sigmoid}, {3, 3, nil, true, activation.Tanh}, {2, 1, []int{0, 1}, false, activation.Identity},
		{1, 3, nil, false, activation.Identity}, {2, 2, []int{1, 1}, false, activation.Tanh},
	}
	if lv == large {
		mask := []int{1, 0, 1, 1, 0, 0, 1, 1, 0, 1, 0, 1}
		variants = []chans{{1, 1, nil, false, activation.Tanh}, {9, 10, nil, false, activation.Identity}, {17, 17, nil, true, activation.Sigmoid}, {12, 3, mask, false, activation.Tanh}}
	}
	for gi, g := range geoms {
		for vi, v := range variants {
			if lv == large && g.xr > 20 && v.in > 1 && (gi+vi)%2 == 0 {
				continue
			}
			if lv == quick && vi != 0 && (gi+vi)%3 != 0 {
				continue
			}
			// a channel of a one-dimensional convolution spans all the rows
			def := func(p, xs []ref, conv func(w, x ref) ref) []ref {
				n := len(p) / 2
				ks, bs := p[:n], p[n:]
				var ys []ref
				for o := 0; o < v.out; o++ {
					var y ref
					if v.dw {
						y = conv(ks[o], xs[o]).plus(bs[o].v[0])
					} else {
						for i := range xs {
							if v.mask != nil && v.mask[i] == 0 {
								continue
							}
							c := conv(ks[o*v.in+i], xs[i]).plus(bs[o*v.in+i].v[0])
							if y.v == nil {
								y = c
							} else {
								y = addRef(y, c)
							}
						}
					}
					ys = append(ys, actDefs[v.act](y, nil))
				}
				return ys
			}
			var ins [][2]int
			for i := 0; i < v.in; i++ {
				ins = append(ins, sh{g.xr, g.xc})
			}
			name := fmt.Sprintf("k%dx%d/x%dx%d/stride%d,%d/channels%d-%d/mask%v/depthwise=%v/%s", g.kr, g.kc, g.xr, g.xc, g.sx, g.sy, v.in, v.out, v.mask, v.dw, actNames[v.act])
			c2 := convolution2d.Config{KernelSizeX: g.kr, KernelSizeY: g.kc, XStride: g.sx, YStride: g.sy, InputChannels: v.in, OutputChannels: v.out, Mask: v.mask, DepthWise: v.dw, Activation: v.act}
			out = append(out, zoo{prop: "N06", name: "conv2d/" + name, in: ins, noGrad: gi%4 != vi%4 && lv != large,
				mk: mkT(func() *convolution2d.Model { return convolution2d.New[float32](c2) }, func() *convolution2d.Model { return convolution2d.New[float64](c2) },
					func(m *convolution2d.Model) params { return append(append(params(nil), m.K...), m.B...) }),
				def: plain(func(p, xs []ref) []ref {
					return def(p, xs, func(w, x ref) ref { return conv2dRef(w, x, g.sx, g.sy) })
				})})
			if g.kr != g.xr || g.sx != 1 {
				continue
			}
			c1 := convolution1d.Config{KernelSizeX: g.kr, KernelSizeY: g.kc, YStride: g.sy, InputChannels: v.in, OutputChannels: v.out, Mask: v.mask, DepthWise: v.dw, Activation: v.act}
			out = append(out, zoo{prop: "N06", name: "conv1d/" + name, in: ins,
				mk: mkT(func() *convolution1d.Model { return convolution1d.New[float32](c1) }, func() *convolution1d.Model { return convolution1d.New[float64](c1) },
					func(m *convolution1d.Model) params { return append(append(params(nil), m.K...), m.B...) }),
				def: plain(func(p, xs []ref) []ref {
					return def(p, xs, func(w, x ref) ref { return flatCol(conv2dRef(w, x, 1, g.sy)) })
				})})
		}
	}
	mixed, mixedSizes, windows := [][2]int{}, []int{1, 2, 4}, [][2]int{{1, 1}, {1, 2}, {2, 1}, {2, 2}}
	for i := 1; i <= 3; i++ {
		for o := 1; o <= 3; o++ {
			mixed = append(mixed, [2]int{i, o})
		}
	}
	if lv == large {
		mixed, mixedSizes, windows = [][2]int{{20, 17}, {1, 30}, {30, 1}}, []int{41, 131}, [][2]int{{2, 2}, {4, 5}, {20, 21}, {20, 1}, {1, 21}}
	}
	for _, io := range mixed {
		i, o := io[0], io[1]
		{
			for _, n := range mixedSizes {
				conf := conv1x1.Config{InputChannels: i, OutputChannels: o}
				out = append(out, zoo{prop: "N06", name: fmt.Sprintf("conv1x1/%d-%d/size%d", i, o, n), in: seq(i, n),
					mk: mkT(func() *conv1x1.Model { return conv1x1.New[float32](conf) }, func() *conv1x1.Model { return conv1x1.New[float64](conf) },
						func(m *conv1x1.Model) params { return params{m.W, m.B} }),
					def: plain(conv1x1Def)})
			}
		}
	}
	for _, g := range geoms {
		for _, w := range windows {
			r, c := w[0], w[1]
			{
				if g.kr != 1 || g.kc != 1 || g.sx != 1 || g.sy != 1 || g.xr%r != 0 || g.xc%c != 0 {
					continue
				}
				out = append(out, zoo{prop: "N06", name: fmt.Sprintf("maxpooling%dx%d/x%dx%d", r, c, g.xr, g.xc), in: [][2]int{{g.xr, g.xc}, {g.xr, g.xc}},
					mk: func(d DT) (nn.Model, []*nn.Param) { return pooling.NewMax(r, c), nil },
					def: each(func(_ []ref, x ref) ref {
						o := newRef(x.r/r, x.c/c)
						for i := range o.v {
							o.v[i] = math.Inf(-1)
						}
						for i := 0; i < x.r; i++ {
							for j := 0; j < x.c; j++ {
								k := i/r*o.c + j/c
								o.v[k] = math.Max(o.v[k], x.at(i, j))
							}
						}
						return o
					})})
			}
		}
	}
	return out
}

func conv1x1Def(p, xs []ref) []ref {
	var ys []ref
	for o := 0; o < p[0].r; o++ {
		y := newRef(len(xs[0].v), 1)
		for i, x := range xs {
			y = addRef(y, flatCol(x).scaled(p[0].at(o, i)))
		}
		ys = append(ys, y.plus(p[1].v[o]))
	}
	return ys
}

// Normalisations.

func meanStd(x ref) (float64, float64) {
	m := x.mean()
	d := x.plus(-m)
	return m, math.Sqrt(had(d, d).mean())
}

func layerNormDef(w, b, x ref, eps float64) ref {
	m, s := meanStd(x)
	return addRef(had(x.plus(-m).scaled(1/math.Sqrt(s*s+eps)), w), b)
}

func norm2(x ref) float64 { return math.Sqrt(had(x, x).sum()) }

func zooNormalization(lv level) []zoo {
	th := lv == thorough
	var out []zoo
	sizes, lens := []int{2, 3, 5}, []int{1, 3}
	if th {
		sizes, lens = []int{2, 3, 4, 5, 8, 17}, []int{1, 2, 3, 5}
	}
	if lv == large {
		sizes, lens = []int{70, 1030, 3}, []int{2, 41, 301}
	}
	// no derivatives where the deviation or the norm is zero
	atZero := func(d DT, salt int, grad bool) bool {
		return grad && (salt >= noFirst && salt <= noInputs || salt == tinyInputs && d == 32)
	}
	for _, n := range sizes {
		for _, l := range lens {
			if lv == large && (n == 3) != (l == 301) {
				continue
			}
			name := func(k string) string { return fmt.Sprintf("%s/size%d/len%d", k, n, l) }
			in := seq(l, n)
			for _, eps := range []float64{1e-12, 1e-5, 0.1} {
				out = append(out, zoo{prop: "N07", name: name(fmt.Sprintf("layernorm/eps%g", eps)), in: in, singular: atZero,
					mk: mkT(func() *layernorm.Model { return layernorm.New[float32](n, eps) }, func() *layernorm.Model { return layernorm.New[float64](n, eps) },
						func(m *layernorm.Model) params { return params{m.W, m.B} }),
					def: each(func(p []ref, x ref) ref { return layerNormDef(p[0], p[1], x, eps) })})
			}
			none := func(m nn.StandardModel) func(d DT) (nn.Model, []*nn.Param) {
				return func(DT) (nn.Model, []*nn.Param) { return m, nil }
			}
			out = append(out, zoo{prop: "N07", name: name("layernormsimple"), in: in, singular: atZero, mk: none(layernormsimple.New()),
				def: each(func(_ []ref, x ref) ref {
					m, s := meanStd(x)
					return x.plus(-m).scaled(1 / (s + 1e-10))
				})})
			out = append(out, zoo{prop: "N07", name: name("rmsnorm"), in: in, singular: atZero,
				mk: mkT(func() *rmsnorm.Model { return rmsnorm.New[float32](n) }, func() *rmsnorm.Model { return rmsnorm.New[float64](n) },
					func(m *rmsnorm.Model) params { return params{m.W, m.B} }),
				def: each(func(p []ref, x ref) ref {
					return addRef(had(x.scaled(1/(math.Sqrt(had(x, x).mean())+1e-10)), p[0]), p[1])
				})})
			out = append(out, zoo{prop: "N07", name: name("scalenorm"), in: in, singular: atZero,
				mk: mkT(func() *scalenorm.Model { return scalenorm.New[float32](n) }, func() *scalenorm.Model { return scalenorm.New[float64](n) },
					func(m *scalenorm.Model) params { return params{m.Gain} }),
				def: each(func(p []ref, x ref) ref { return had(x.scaled(1/(norm2(x)+1e-10)), p[0]) })})
			out = append(out, zoo{prop: "N07", name: name("fixnorm"), in: in, singular: atZero, mk: none(fixnorm.New()),
				def: each(func(_ []ref, x ref) ref { return x.scaled(1 / (norm2(x) + 1e-10)) })})
			for _, k := range []float64{1, 0.3} {
				out = append(out, zoo{prop: "N07", name: name(fmt.Sprintf("adanorm/scale%g", k)), in: in, singular: atZero,
					mk: mkT(func() *adanorm.Model { return adanorm.New[float32](k) }, func() *adanorm.Model { return adanorm.New[float64](k) },
						func(m *adanorm.Model) params { return nil }),
					def: func(_, xs, _, xs0 []ref) []ref {
						y := func(x ref) ref {
							m, s := meanStd(x)
							return x.plus(-m).scaled(1 / (s + 1e-10))
						}
						var out []ref
						for i := range xs { // the factor is treated as a constant
							out = append(out, had(y(xs[i]), y(xs0[i]).scaled(0.1).oneMinus().scaled(k)))
						}
						return out
					}})
			}
			bnParams := func(m *batchnorm.Model) params { return params{m.W, m.B} }
			stats := func(m *batchnorm.Model, d DT) *batchnorm.Model {
				d.set(m.Mean, d.rounds(genMixed(n, 3)))
				d.set(m.StdDev, d.rounds(genPos(n, 4)))
				return m
			}
			bn := mkT(func() *batchnorm.Model { return stats(batchnorm.New[float32](n), 32) }, func() *batchnorm.Model { return stats(batchnorm.New[float64](n), 64) }, bnParams)
			process := func(p, xs []ref, mean, std ref) (out []ref) {
				f := zipRef(p[0], std, func(w, s float64) float64 { return w / (s + 1e-5) })
				for _, x := range xs {
					out = append(out, addRef(had(subRef(x, mean), f), p[1]))
				}
				return
			}
			out = append(out, zoo{prop: "N07", name: name("batchnorm"), in: in, mk: bn,
				def: plain(func(p, xs []ref) []ref {
					return process(p, xs, colOf(genMixed(n, 3)...), colOf(genPos(n, 4)...))
				})})
			if l > 1 {
				out = append(out, zoo{prop: "N07", name: name("batchnorm-training"), in: in, mk: bn,
					singular: func(d DT, salt int, grad bool) bool {
						return d == 32 && (salt == sameInputs || l == 2) || atZero(d, salt, grad)
					}, // the difference of two examples has few digits
					run: func(m nn.Model, xs mats) mats { return m.(*batchnorm.Model).ForwardT(xs...) },
					def: plain(func(p, xs []ref) []ref {
						mean, std := batchStats(xs)
						return process(p, xs, mean, std)
					})})
			}
		}
	}
	return out
}

// batchStats are the statistics of a batch.
func batchStats(xs []ref) (mean, std ref) {
	n := float64(len(xs)) + 1e-5
	mean = xs[0]
	for _, x := range xs[1:] {
		mean = addRef(mean, x)
	}
	mean = mean.scaled(1 / n)
	std = newRef(mean.r, mean.c)
	for _, x := range xs {
		d := subRef(mean, x)
		std = addRef(std, had(d, d))
	}
	return mean, std.scaled(1 / n).apply(math.Sqrt)
}

// CRF.

// sequences returns all the sequences of n labels.
func sequences(n, labels int) [][]int {
	out := [][]int{nil}
	for i := 0; i < n; i++ {
		var next [][]int
		for _, s := range out {
			for l := 0; l < labels; l++ {
				next = append(next, append(append([]int(nil), s...), l))
			}
		}
		out = next
	}
	return out
}

// crfScore is the score of a sequence.
func crfScore(tr ref, xs []ref, seq []int) float64 {
	s, prev := 0.0, 0
	for i, l := range seq {
		s += xs[i].v[l] + tr.at(prev, l+1)
		prev = l + 1
	}
	return s + tr.at(prev, 0)
}

func crfLoss(tr ref, xs []ref, target []int) float64 {
	var all []float64
	for _, s := range sequences(len(xs), len(xs[0].v)) {
		all = append(all, crfScore(tr, xs, s))
	}
	return logSumExp(all) - crfScore(tr, xs, target)
}

// crfTable computes for every label the sum, in the sense of plus, of the
// scores of the sequences which end with it.
func crfTable(tr ref, xs []ref, plus func(vs []float64) float64) float64 {
	labels := len(xs[0].v)
	a, b := make([]float64, labels), make([]float64, labels)
	for l := range a {
		a[l] = tr.at(0, l+1) + xs[0].v[l]
	}
	terms := make([]float64, labels)
	for _, x := range xs[1:] {
		for l := range b {
			for k := range a {
				terms[k] = a[k] + tr.at(k+1, l+1)
			}
			b[l] = plus(terms) + x.v[l]
		}
		a, b = b, a
	}
	for k := range a {
		terms[k] = a[k] + tr.at(k+1, 0)
	}
	return plus(terms)
}

// crfLossDP is crfLoss for long sequences.
func crfLossDP(tr ref, xs []ref, target []int) float64 {
	return crfTable(tr, xs, logSumExp) - crfScore(tr, xs, target)
}

func zooCRF(lv level) []zoo {
	th := lv == thorough
	var out []zoo
	max := [2]int{3, 3}
	if th {
		max = [2]int{4, 4}
	}
	type size struct{ labels, n int }
	var sizes []size
	for labels := 1; labels <= max[0]; labels++ {
		for n := 1; n <= max[1]; n++ {
			sizes = append(sizes, size{labels, n})
		}
	}
	targets, loss := sequences, crfLoss
	if lv == large {
		sizes, loss = []size{{20, 51}, {1, 40}, {70, 3}, {3, 301}}, crfLossDP
		targets = func(n, labels int) [][]int {
			a, b := make([]int, n), make([]int, n)
			for i := range a {
				a[i], b[i] = (i*7+i/5)%labels, labels-1
			}
			return [][]int{a, b}
		}
	}
	for _, s := range sizes {
		labels, n := s.labels, s.n
		{
			for ti, target := range targets(n, labels) {
				if !th && ti%3 != 0 && ti > 8 {
					continue
				}
				z := zoo{prop: "N04", name: fmt.Sprintf("crf/labels%d/target%v", labels, target), in: seq(n, labels), noGrad: ti%5 != 0 && lv != large,
					mk: mkT(func() *crf.Model { return crf.New[float32](labels) }, func() *crf.Model { return crf.New[float64](labels) },
						func(m *crf.Model) params { return params{m.TransitionScores} }),
					run: func(m nn.Model, xs mats) mats { return mats{m.(*crf.Model).NegativeLogLoss(xs, target)} },
					def: plain(func(p, xs []ref) []ref { return []ref{one1(loss(p[0], xs, target))} })}
				if lv == large {
					z.mag = 100
				}
				out = append(out, z)
				big := z // scores whose exponentials overflow
				big.name, big.scale, big.noGrad, big.mag = big.name+"/large", 300, ti%4 != 0, 2000
				big.gen = func(n, salt int) []float64 {
					v := genMixed2(n, salt)
					for i := range v {
						v[i] *= 500
					}
					return v
				}
				out = append(out, big)
			}
		}
	}
	return out
}

// Other models.

func sguDef(p, xs []ref, act activation.Activation) []ref {
	h := len(xs[0].v) / 2
	var res, gates []ref
	for _, x := range xs {
		res = append(res, colOf(x.v[:h]...))
		gates = append(gates, layerNormDef(p[0], p[1], colOf(x.v[h:]...), 1e-12))
	}
	gates = conv1x1Def(p[2:4], gates)
	for i := range gates {
		gates[i] = had(actDefs[act](gates[i], nil), res[i])
	}
	return gates
}

func sguParams(m *sgu.Model) params { return params{m.Norm.W, m.Norm.B, m.Proj.W, m.Proj.B} }

func linParams(m nn.Model) params { return params{m.(*linear.Model).W, m.(*linear.Model).B} }

func zooOthers(lv level) []zoo {
	th := lv == thorough
	var out []zoo
	lens := []int{1, 3}
	if th {
		lens = []int{1, 2, 3, 5}
	}
	var aside func(n, salt int) []float64
	linears, ways, elements := [][2]int{{1, 1}, {2, 3}, {3, 2}, {5, 1}, {1, 4}, {9, 7}, {17, 2}, {2, 18}}, []int{1, 2, 3}, 4
	flats := [][][2]int{{{2, 3}}, {{1, 1}}, {{1, 3}, {3, 1}}, {{2, 2}, {3, 1}, {1, 2}}}
	if lv == large {
		lens, linears, ways, elements = []int{1, 41, 301}, [][2]int{{130, 70}, {300, 3}, {3, 300}, {2, 1}}, []int{40}, 300
		many := [][2]int{}
		aside = func(n, salt int) []float64 { // of the kinks
			v := genLong(n, salt)
			for i := range v {
				v[i] += 0.0032
			}
			return v
		}
		for i := 0; i < 40; i++ {
			many = append(many, sh{i%5 + 1, i%7 + 1})
		}
		flats = [][][2]int{{{40, 30}}, many}
	}
	for _, l := range lens {
		for _, s := range linears {
			i, o := s[0], s[1]
			if lv == large && (l == 301) != (i == 2) {
				continue
			}
			if l > 1 && i*o > 12 && lv == quick {
				continue
			}
			out = append(out, zoo{prop: "N10", name: fmt.Sprintf("linear/%d-%d/len%d", i, o, l), in: seq(l, i),
				mk: mkT(func() *linear.Model { return linear.New[float32](i, o) }, func() *linear.Model { return linear.New[float64](i, o) },
					func(m *linear.Model) params { return params{m.W, m.B} }),
				def: each(func(p []ref, x ref) ref { return affineRef(p[1], p[0], x) })})
			out = append(out, zoo{prop: "N10", name: fmt.Sprintf("sqrdist/%d-%d/len%d", i, o, l), in: seq(l, i),
				mk: mkT(func() *sqrdist.Model { return sqrdist.New[float32](i, o) }, func() *sqrdist.Model { return sqrdist.New[float64](i, o) },
					func(m *sqrdist.Model) params { return params{m.B} }),
				def: each(func(p []ref, x ref) ref {
					b := mulRef(p[0], x)
					return one1(had(b, b).sum())
				})})
		}
		if lv == large && l == 301 {
			ways, elements = []int{2}, 2
		}
		for _, n := range ways {
			for _, act := range []activation.Activation{activation.Tanh, activation.Identity, activation.ReLU, activation.Sigmoid} {
				out = append(out, zoo{prop: "N10", name: fmt.Sprintf("highway/%s/%d/len%d", actNames[act], n, l), in: seq(l, n),
					mk: mkT(func() *highway.Model { return highway.New[float32](n, act) }, func() *highway.Model { return highway.New[float64](n, act) },
						func(m *highway.Model) params { return params{m.WIn, m.BIn, m.WT, m.BT} }),
					def: each(func(p []ref, x ref) ref {
						g := affineRef(p[3], p[2], x).sig()
						h := actDefs[act](affineRef(p[1], p[0], x), nil)
						return addRef(had(g, h), had(g.oneMinus(), x))
					})})
			}
		}
		// activations
		for act := activation.Identity; act <= activation.SparseMax; act++ {
			var ps [][]float64
			for _, f := range paramFns {
				if f.name == actNames[act] {
					ps = f.params
				}
			}
			if ps == nil {
				ps = [][]float64{nil}
			}
			for pi, pv := range ps {
				out = append(out, zoo{prop: "N10", name: fmt.Sprintf("activation/%s/params%d/len%d", actNames[act], pi, l), in: seq(l, elements), keep: true,
					loose: map[bool]float64{true: 1e-4}[act == activation.GELU], gen: aside,
					singular: func(_ DT, salt int, grad bool) bool { // a negative λ
						return grad && act == activation.SoftShrink && pv[0] <= 0 && salt >= noFirst
					},
					mk: func(d DT) (nn.Model, []*nn.Param) {
						var ps params
						for _, v := range pv {
							ps = append(ps, nn.NewParam(d.scalar(v)))
						}
						return activation.New(act, ps...), ps
					},
					def: each(func(p []ref, x ref) ref { return actDefs[act](x, p) })})
			}
		}
		for _, shapes := range flats {
			if l > 1 {
				continue
			}
			out = append(out, zoo{prop: "N10", name: fmt.Sprintf("flatten/%v", shapes), in: shapes,
				mk:  func(DT) (nn.Model, []*nn.Param) { return flatten.New(), nil },
				def: plain(func(_, xs []ref) []ref { return []ref{concatRef(xs...)} })})
		}
	}
	// gated units
	lens3, halves, depths, mixedSizes := []int{1, 2, 3}, []int{2, 3}, []int{1, 2}, []int{2, 3}
	if lv == large {
		lens3, halves, depths, mixedSizes = []int{25, 131}, []int{33}, []int{5, 20}, []int{40}
	}
	for _, n := range lens3 {
		for _, h := range halves {
			for _, act := range []activation.Activation{activation.Identity, activation.Tanh} {
				conf := sgu.Config{Dim: 2 * h, DimSeq: n, InitEps: 1e-3, Activation: act}
				out = append(out, zoo{prop: "N10", name: fmt.Sprintf("sgu/%d/len%d/%s", 2*h, n, actNames[act]), in: seq(n, 2*h),
					mk:  mkT(func() *sgu.Model { return sgu.New[float32](conf) }, func() *sgu.Model { return sgu.New[float64](conf) }, sguParams),
					def: plain(func(p, xs []ref) []ref { return sguDef(p, xs, act) })})
			}
		}
	}
	for _, depth := range depths {
		for _, seqLen := range lens3 {
			if lv == large && depth > 5 && seqLen > 24 {
				continue
			}
			for l := 1; l <= seqLen; l++ {
				if lv == large && l != seqLen && l != seqLen/2 {
					continue
				}
				for _, act := range []activation.Activation{activation.Identity, activation.Tanh} {
					conf := gmlp.Config{Dim: 2, Depth: depth, SeqLen: seqLen, FFMult: 2, Activation: act}
					out = append(out, zoo{prop: "N10", name: fmt.Sprintf("gmlp/depth%d/seqlen%d/len%d/%s", depth, seqLen, l, actNames[act]), in: seq(l, 2), loose: 2e-3, gtol32: 5e-2, tol32: 1e-3,
						gen: genWide, singular: func(d DT, salt int, grad bool) bool { return d == 32 && grad && salt >= noFirst && salt < noParams },
						mk: mkT(func() *gmlp.Model { return gmlp.New[float32](conf) }, func() *gmlp.Model { return gmlp.New[float64](conf) },
							func(m *gmlp.Model) (ps params) {
								for _, layer := range m.Layers {
									pn := layer.(*gmlp.Residual).PreNorm
									ls := pn.Block.Layers
									ps = append(ps, pn.Norm.W, pn.Norm.B)
									ps = append(ps, linParams(ls[0])...)
									ps = append(ps, sguParams(ls[2].(*sgu.Model))...)
									ps = append(ps, linParams(ls[3])...)
								}
								return
							}),
						def: plain(func(p, xs []ref) []ref {
							xs = append([]ref(nil), xs...)
							for len(xs) < seqLen {
								xs = append(xs, newRef(2, 1))
							}
							for d := 0; d < depth; d++ {
								q := p[10*d:]
								var hs []ref
								for _, x := range xs {
									hs = append(hs, affineRef(q[3], q[2], layerNormDef(q[0], q[1], x, 1e-12)).apply(geluDef))
								}
								hs = sguDef(q[4:8], hs, act)
								ys := make([]ref, len(xs))
								for i := range xs {
									ys[i] = addRef(affineRef(q[9], q[8], hs[i]), xs[i])
								}
								xs = ys
							}
							return xs
						})})
				}
			}
		}
	}
	for _, n := range lens3 {
		for _, size := range mixedSizes {
			conf := mlpmixer.Config{InputSize: size, HiddenSizeTokenMixer: 2, HiddenSizeChannelMixer: 3, Channels: n, ActFunctionTokenMixer: activation.Tanh, ActFunctionChannelMixer: activation.Sigmoid, Eps: 1e-3}
			out = append(out, zoo{prop: "N10", name: fmt.Sprintf("mlpmixer/%d/channels%d", size, n), in: seq(n, size),
				mk: mkT(func() *mlpmixer.MixerBlock { return mlpmixer.New[float32](conf) }, func() *mlpmixer.MixerBlock { return mlpmixer.New[float64](conf) },
					func(m *mlpmixer.MixerBlock) (ps params) {
						ps = params{m.TokenLayerNorm.W, m.TokenLayerNorm.B, m.ChannelLayerNorm.W, m.ChannelLayerNorm.B}
						for _, f := range []*mlpmixer.FeedForward{m.TokenMixerFF, m.ChannelMixerFF} {
							ps = append(append(ps, linParams(f.Layers[0])...), linParams(f.Layers[2])...)
						}
						return
					}),
				def: plain(func(p, xs []ref) []ref {
					var norm []ref
					for _, x := range xs {
						norm = append(norm, layerNormDef(p[0], p[1], x, 1e-3))
					}
					cols := rowsRef(norm).t() // a row for each element of the inputs
					mid := make([]ref, len(xs))
					for i := range mid {
						mid[i] = xs[i].clone()
					}
					for r := 0; r < cols.r; r++ {
						x := colOf(cols.v[r*cols.c : (r+1)*cols.c]...)
						y := affineRef(p[7], p[6], affineRef(p[5], p[4], x).tanh())
						for i := range mid {
							mid[i].v[r] += y.v[i]
						}
					}
					var out []ref
					for _, x := range mid {
						y := affineRef(p[11], p[10], affineRef(p[9], p[8], layerNormDef(p[2], p[3], x, 1e-3)).sig())
						out = append(out, addRef(y, x))
					}
					return out
				})})
		}
	}
	return out
}

// genWide makes values which are far from each other.
func genWide(n, salt int) []float64 {
	out := make([]float64, n)
	for i := range out {
		v := 0.5 + 0.7*float64((i*3+salt)%4)
		if (i+salt)%2 == 0 {
			v = -v
		}
		out[i] = v
	}
	return out
}

// slstmDef is the recurrence of the sentence-state LSTM: at every step each
// word sees its neighbours and the sentence, and the sentence sees the words.
func slstmDef(p, xs []ref, steps int) []ref {
	startH, endH, init := p[37], p[38], p[39]
	n := len(xs)
	h, c, g := make([]ref, n), make([]ref, n), init
	for i := range h {
		h[i], c[i] = init, init
	}
	for t := 1; t < steps; t++ {
		nh, nc := make([]ref, n), make([]ref, n)
		for i := range xs {
			lh, lc, rh, rc := startH, startH, endH, endH
			if i > 0 {
				lh, lc = h[i-1], c[i-1]
			}
			if i < n-1 {
				rh, rc = h[i+1], c[i+1]
			}
			ctx := colOf(append(append(append([]float64(nil), lh.v...), h[i].v...), rh.v...)...)
			gate4 := func(k int) ref { // w, u, v, b
				q := p[4*k:]
				return addRef(addRef(affineRef(q[3], q[0], ctx), mulRef(q[1], xs[i])), mulRef(q[2], g))
			}
			in, lg, rg, fg, sg, og, u := gate4(0).sig(), gate4(1).sig(), gate4(2).sig(), gate4(3).sig(), gate4(4).sig(), gate4(5).sig(), gate4(6).tanh()
			nc[i] = addRef(addRef(addRef(had(lg, lc), had(fg, c[i])), addRef(had(rg, rc), had(sg, g))), had(in, u))
			nh[i] = had(og, nc[i].tanh())
		}
		gate3 := func(k int, x ref) ref { // w, u, b
			q := p[28+3*k:]
			return addRef(affineRef(q[2], q[0], g), mulRef(q[1], x)).sig()
		}
		avg := newRef(g.r, 1)
		for _, x := range h {
			avg = addRef(avg, x)
		}
		avg = avg.scaled(1 / float64(n))
		cg := had(gate3(0, avg), g)
		for i := range h {
			cg = addRef(cg, had(gate3(1, h[i]), c[i]))
		}
		h, c, g = nh, nc, had(gate3(2, avg), cg.tanh())
	}
	return h
}

// zooSLSTM are the sentence-state LSTMs.
func zooSLSTM(lv level) []zoo {
	th := lv == thorough
	var out []zoo
	lens, steps := []int{1, 2, 3}, []int{2, 3}
	if th {
		lens, steps = []int{1, 2, 3, 4, 5}, []int{2, 3, 4}
	}
	dims := [2]int{3, 2}
	if lv == large {
		lens, steps = []int{31, 151, 3}, []int{6, 2, 21}
	}
	for _, n := range lens {
		for _, s := range steps {
			if lv == large {
				if n == 31 != (s == 6) || n == 151 != (s == 2) {
					continue
				}
				dims = [2]int{3, 2}
				if n == 30 {
					dims = [2]int{11, 9}
				}
			}
			dims := dims
			if !th && n == 3 && s == 3 {
				continue
			}
			if th && n+s > 7 {
				continue
			}
			s := s
			conf := slstm.Config{InputSize: dims[0], OutputSize: dims[1], Steps: s}
			out = append(out, zoo{prop: "N02", name: fmt.Sprintf("slstm/len%d/steps%d", n, s), in: seq(n, dims[0]),
				def: plain(func(ps, xs []ref) []ref { return slstmDef(ps, xs, s) }),
				mk: mkT(func() *slstm.Model { return slstm.New[float32](conf) }, func() *slstm.Model { return slstm.New[float64](conf) },
					func(m *slstm.Model) (ps params) {
						for _, h := range []*slstm.HyperLinear4{m.InputGate, m.LeftCellGate, m.RightCellGate, m.CellGate, m.SentCellGate, m.OutputGate, m.InputActivation} {
							ps = append(ps, h.W, h.U, h.V, h.B)
						}
						for _, h := range []*slstm.HyperLinear3{m.NonLocalSentCellGate, m.NonLocalInputGate, m.NonLocalSentOutputGate} {
							ps = append(ps, h.W, h.U, h.B)
						}
						return append(ps, m.StartH, m.EndH, m.InitValue)
					})})
		}
	}
	return out
}

var _ = ag.Backward
