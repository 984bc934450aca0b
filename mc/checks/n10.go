package checks

import (
	"fmt"
	"math"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/activation"
	"github.com/nlpodyssey/spago/nn/convolution"
	"github.com/nlpodyssey/spago/nn/convolution/convolution1d"
	"github.com/nlpodyssey/spago/nn/convolution/convolution2d"
	"github.com/nlpodyssey/spago/nn/crf"
	"github.com/nlpodyssey/spago/nn/normalization/adanorm"
	"github.com/nlpodyssey/spago/nn/normalization/batchnorm"
	"github.com/nlpodyssey/spago/nn/normalization/layernorm"
	"github.com/nlpodyssey/spago/verifmc/lib"
)

func init() {
	Registry["N04"] = n04
	Registry["N06"] = n06
	Registry["N07"] = n07
	Registry["N10"] = func(t *lib.T) {
		t.Rule("linear, squared distance, highway, every activation with its parameters, flatten, gated and mixing networks x sizes x sequence lengths x {float32,float64} x value sets, run three times (once with forced synchronous execution); outputs are compared with the definition, whichever values require gradients, and gradients as for N08")
		checkValues(t, zooOthers(thorough))
		checkHistories(t, zooOthers(thorough))
		checkGrads(t, zooOthers(levelOf(t)))
		checkLarge(t, zooOthers(large))
	}
}

// ---- conditional random field

func n04(t *lib.T) {
	t.Rule("negative log-likelihood: labels x lengths x every target sequence x {float32,float64} x value sets of ordinary and large magnitude, compared with the enumeration of all the sequences of labels; decoding: every table of emission and transition scores over the stated alphabets (forbidden transitions included), the score of the decoded sequence compared with the greatest one of all the sequences; a few long sequences with many labels, compared with a table of sums and maxima which agrees with the enumeration on the small ones; and histories of decodings by one model whose transition scores are changed, decoded and used in training in between")
	checkValues(t, zooCRF(levelOf(t)))
	checkHistories(t, zooCRF(levelOf(t)))
	checkGrads(t, zooCRF(levelOf(t)))
	checkLarge(t, zooCRF(large))
	n04Viterbi(t)
	n04Large(t)
	for _, d := range dts {
		for _, way := range []string{"set", "replace", "elements", "update"} {
			for _, req := range []bool{false, true} {
				for _, order := range [][]int{{3, 3, 3}, {1, 4, 2, 3}, {4, 1, 2, 1}, {2, 2, 3, 3, 1, 1}} {
					t.Casef("decoding", true, func() error { return decodeHistory(d, way, req, order) }, "history/%d/%s/%v/%v", d, way, req, order)
				}
			}
		}
	}
}

// n04Viterbi enumerates the tables of scores.
func n04Viterbi(t *lib.T) {
	type space struct {
		labels, n int
		em, tr    []float64
	}
	inf := math.Inf(-1)
	spaces := []space{
		{1, 1, []float64{-1, 2}, []float64{0, 3}},
		{1, 3, []float64{-1, 2}, []float64{0, 3}},
		{2, 1, []float64{0, 1, -2}, []float64{0, 1}},
		{2, 2, []float64{0, 1}, []float64{0, 1}},
		{2, 2, []float64{0, 3}, []float64{inf, 1}},
		{2, 2, []float64{-1e30, 1e3}, []float64{-1000, -5}},
		{2, 3, []float64{0, 3}, []float64{0, 2}},
	}
	if t.Thorough() {
		spaces = append(spaces,
			space{2, 2, []float64{0, 1, 3}, []float64{0, 1, -2}},
			space{2, 3, []float64{0, 3}, []float64{inf, 1}},
			space{2, 4, []float64{0, 3}, []float64{0, 2}},
			space{3, 1, []float64{0, 1}, []float64{0, 2}},
			space{3, 2, []float64{0, 3}, []float64{-1, 1}},
		)
	}
	for si, s := range spaces {
		s := s
		seqs := sequences(s.n, s.labels)
		k := s.labels + 1
		// the tables, in chunks: the emissions of a chunk vary the fastest
		ne, nt := s.n*s.labels, k*k-1 // the score of (0, 0) is not used
		te, tt := pow(len(s.em), ne), pow(len(s.tr), nt)
		chunk := te
		for c := 0; c*64 < tt; c++ {
			c := c
			t.Casef("decoding", true, func() error {
				for ti := c * 64; ti < tt && ti < c*64+64; ti++ {
					tr := newRef(k, k)
					x := ti
					for i := 1; i < k*k; i++ {
						tr.v[i] = s.tr[x%len(s.tr)]
						x /= len(s.tr)
					}
					for ei := 0; ei < chunk; ei++ {
						xs := make([]ref, s.n)
						x := ei
						for i := range xs {
							xs[i] = newRef(s.labels, 1)
							for j := range xs[i].v {
								xs[i].v[j] = s.em[x%len(s.em)]
								x /= len(s.em)
							}
						}
						if err := decodeCase(dts[(ti+ei)%2], tr, xs, seqs); err != nil {
							return err
						}
					}
				}
				return nil
			}, "space%d/labels%d/len%d/%d", si, s.labels, s.n, c)
		}
	}
}

func maxOfAll(vs []float64) float64 {
	m := math.Inf(-1)
	for _, v := range vs {
		m = math.Max(m, v)
	}
	return m
}

// n04Large looks at long sequences and many labels.
func n04Large(t *lib.T) {
	// the reference for these agrees with the enumeration of the sequences
	for labels := 1; labels <= 3; labels++ {
		for n := 1; n <= 4; n++ {
			t.Casef("reference", true, func() error {
				tr := ref{labels + 1, labels + 1, genMixed((labels+1)*(labels+1), n)}
				var xs []ref
				for i := 0; i < n; i++ {
					xs = append(xs, colOf(genMixed2(labels, i)...))
				}
				best := math.Inf(-1)
				for _, s := range sequences(n, labels) {
					best = math.Max(best, crfScore(tr, xs, s))
					if a, b := crfLoss(tr, xs, s), crfLossDP(tr, xs, s); !lib.Close(a, b, 1e-12, 1e-12) {
						return errf("the references give %v and %v", a, b)
					}
				}
				if b := crfTable(tr, xs, maxOfAll); !lib.Close(best, b, 1e-12, 1e-12) {
					return errf("the references give %v and %v", best, b)
				}
				return nil
			}, "labels%d/len%d", labels, n)
		}
	}
	for _, s := range [][2]int{{20, 50}, {70, 9}, {2, 300}, {1, 70}, {9, 65}} {
		for salt := 0; salt < lib.Pick(t, 8, 60); salt++ {
			for _, d := range dts {
				t.Casef("decoding", true, func() error {
					k := s[0] + 1
					tr := ref{k, k, genLong(k*k, salt)}
					for i := range tr.v {
						if (i+salt)%7 == 3 && salt%3 == 1 {
							tr.v[i] = math.Inf(-1)
						}
						if salt%2 == 1 { // the rare ways are worth more
							tr.v[i] *= float64(i%(salt+5)) * 0.3
						}
						if math.IsNaN(tr.v[i]) {
							tr.v[i] = -100
						}
					}
					xs := make([]ref, s[1])
					for i := range xs {
						xs[i] = colOf(genLong(s[0], i*3+salt)...)
					}
					return decodeCase(d, tr, xs, nil)
				}, "large/labels%d/len%d/values%d/%d", s[0], s[1], salt, d)
			}
		}
	}
}

func pow(a, n int) int {
	p := 1
	for ; n > 0; n-- {
		p *= a
	}
	return p
}

func newCRF(d DT, labels int) *crf.Model {
	if d == 32 {
		return crf.New[float32](labels)
	}
	return crf.New[float64](labels)
}

// decodeHistory decodes several sequences with one model, whose scores change.
func decodeHistory(d DT, way string, req bool, order []int) error {
	const labels, k = 3, 4
	m := newCRF(d, labels)
	m.TransitionScores.SetRequiresGrad(req)
	var kept, copies [][]int
	for round, n := range order {
		salt := n*5 + round
		tr := ref{k, k, genMixed2(k*k, salt)}
		if round%2 == 1 { // another best sequence
			for i := range tr.v {
				tr.v[i] *= -2
			}
		}
		var xs []ref
		for i := 0; i < n; i++ {
			xs = append(xs, colOf(genMixed(labels, salt+i)...))
		}
		switch way {
		case "replace":
			m.TransitionScores.ReplaceValue(d.like(tr))
		case "elements":
			for i, v := range tr.v {
				m.TransitionScores.SetScalar(float.Interface(v), i/k, i%k)
			}
		case "update":
			now := d.like(refOf(m.TransitionScores))
			now.SubInPlace(d.like(tr))
			m.TransitionScores.SubInPlace(now)
			tr = refOf(m.TransitionScores)
		default:
			d.set(m.TransitionScores, tr.v)
		}
		got, err := decodeWith(m, d, tr, xs, sequences(n, labels))
		if err != nil {
			return tag(fmt.Sprintf("sequence %d", round), err)
		}
		kept, copies = append(kept, got), append(copies, append([]int(nil), got...))
	}
	if fmt.Sprint(kept) != fmt.Sprint(copies) {
		return errf("the sequences are %v in the end, and were %v", kept, copies)
	}
	return nil
}

func decodeCase(d DT, tr ref, xs []ref, seqs [][]int) error {
	m := newCRF(d, len(xs[0].v))
	d.set(m.TransitionScores, tr.v)
	_, err := decodeWith(m, d, tr, xs, seqs)
	return err
}

func decodeWith(m *crf.Model, d DT, tr ref, xs []ref, seqs [][]int) ([]int, error) {
	labels := len(xs[0].v)
	ins := make([]mat.Tensor, len(xs))
	for i, x := range xs {
		ins[i] = d.like(x)
	}
	got := m.Decode(ins)
	for i := range xs {
		xs[i] = xs[i].round(d)
	}
	trd := tr.round(d)
	best := math.Inf(-1)
	if seqs == nil {
		best = crfTable(trd, xs, maxOfAll)
	}
	for _, s := range seqs {
		best = math.Max(best, crfScore(trd, xs, s))
	}
	what := fmt.Sprintf("%d bits, transitions %v, emissions %v", d, tr.v, xs)
	if len(got) != len(xs) {
		return nil, errf("%s: decoded %v, expected %d labels", what, got, len(xs))
	}
	for _, l := range got {
		if l < 0 || l >= labels {
			return nil, errf("%s: decoded %v, with an unknown label", what, got)
		}
	}
	if math.IsInf(best, -1) {
		return got, nil // all the sequences are forbidden
	}
	if s := crfScore(trd, xs, got); !lib.Close(s, best, 1e-12, 1e-12) {
		return nil, errf("%s: decoded %v with score %v, the best one is %v", what, got, s, best)
	}
	return got, first(unchanged("emissions", ins, xs), unchanged("transitions", mats{m.TransitionScores}, []ref{trd}))
}

// ---- convolutions

func n06(t *lib.T) {
	t.Rule("two-dimensional and one-dimensional convolutions over every geometry up to the bound (kernel, input, strides) x channels x masks x depthwise x activations, pointwise convolutions and max pooling, x {float32,float64} x value sets, compared with the definition; which kernels require gradients, for every mask; configurations that are not valid, and every geometry up to the bound with strides or windows that do not match it")
	checkValues(t, zooConvolution(thorough))
	checkHistories(t, zooConvolution(thorough))
	checkGrads(t, zooConvolution(levelOf(t)))
	checkLarge(t, zooConvolution(large))
	max := lib.Pick(t, 3, 4)
	for in := 1; in <= max; in++ {
		for out := 1; out <= 3; out++ {
			for mask := 0; mask < 1<<in; mask++ {
				ms := make([]int, in)
				for i := range ms {
					ms[i] = mask >> i & 1
				}
				t.Casef("masks", true, func() error {
					m2 := convolution2d.New[float64](convolution2d.Config{KernelSizeX: 1, KernelSizeY: 1, XStride: 1, YStride: 1, InputChannels: in, OutputChannels: out, Mask: ms, Activation: activation.Identity})
					m1 := convolution1d.New[float64](convolution1d.Config{KernelSizeX: 1, KernelSizeY: 1, YStride: 1, InputChannels: in, OutputChannels: out, Mask: ms, Activation: activation.Identity})
					for what, ps := range map[string]params{"2d kernels": m2.K, "2d biases": m2.B, "1d kernels": m1.K, "1d biases": m1.B} {
						if len(ps) != in*out {
							return errf("%d %s, expected %d", len(ps), what, in*out)
						}
						for i, p := range ps {
							if w := ms[i%in] == 1; p.RequiresGrad() != w {
								return errf("%s: %d requires gradients: %v, expected %v", what, i, p.RequiresGrad(), w)
							}
						}
					}
					return nil
				}, "in%d/out%d/%v", in, out, ms)
			}
			t.Casef("invalid", true, func() error {
				for _, k := range []int{in - 1, in + 1} {
					if !lib.Panics(func() {
						convolution2d.New[float64](convolution2d.Config{KernelSizeX: 1, KernelSizeY: 1, XStride: 1, YStride: 1, InputChannels: in, OutputChannels: out, Mask: make([]int, k)})
					}) || !lib.Panics(func() {
						convolution1d.New[float64](convolution1d.Config{KernelSizeX: 1, KernelSizeY: 1, YStride: 1, InputChannels: in, OutputChannels: out, Mask: make([]int, k)})
					}) {
						return errf("a mask of %d elements for %d channels is accepted", k, in)
					}
				}
				if p := lib.Panics(func() {
					convolution2d.New[float64](convolution2d.Config{KernelSizeX: 1, KernelSizeY: 1, XStride: 1, YStride: 1, InputChannels: in, OutputChannels: out, DepthWise: true})
				}); p != (in != out) {
					return errf("2d depthwise with %d and %d channels: panic %v", in, out, p)
				}
				if p := lib.Panics(func() {
					convolution1d.New[float64](convolution1d.Config{KernelSizeX: 1, KernelSizeY: 1, YStride: 1, InputChannels: in, OutputChannels: out, DepthWise: true})
				}); p != (in != out) {
					return errf("1d depthwise with %d and %d channels: panic %v", in, out, p)
				}
				return nil
			}, "in%d/out%d", in, out)
		}
	}
	// geometries which do not match
	size := lib.Pick(t, 5, 7)
	for _, d := range dts {
		for xr := 1; xr <= size; xr++ {
			for xc := 1; xc <= size; xc++ {
				for wr := 1; wr <= size; wr++ {
					for wc := 1; wc <= xc; wc++ {
						t.Casef("refusals", true, func() error {
							x, w := d.g(xr, xc, genMixed(xr*xc, 0)), d.g(wr, wc, genMixed(wr*wc, 1))
							for sx := 1; sx <= 3; sx++ {
								for sy := 1; sy <= 3; sy++ {
									if wr > xr {
										continue
									}
									bad := (xr-wr)%sx != 0 || (xc-wc)%sy != 0
									if p := lib.Panics(func() { convolution.Conv2D(w, x, sx, sy).Value() }); p != bad {
										return errf("two-dimensional, strides %d and %d: panic %v, expected %v", sx, sy, p, bad)
									}
								}
								bad := wr != xr || (xc-wc)%sx != 0
								if p := lib.Panics(func() { convolution.Conv1D(w, x, sx).Value() }); p != bad {
									return errf("one-dimensional, stride %d: panic %v, expected %v", sx, p, bad)
								}
							}
							bad := xr%wr != 0 || xc%wc != 0
							panics := false
							forceSync(func() { panics = lib.Panics(func() { ag.MaxPooling(x, wr, wc) }) })
							if panics != bad {
								return errf("pooling: panic %v, expected %v", panics, bad)
							}
							return nil
						}, "%d/x%dx%d/w%dx%d", d, xr, xc, wr, wc)
					}
				}
			}
		}
	}
}

// ---- normalisations

func n07(t *lib.T) {
	t.Rule("layer, simple layer, root mean square, scale, fixed, adaptive and batch normalisation x sizes x numbers of inputs x {float32,float64} x value sets (of several magnitudes), compared with the definition; batch normalisation: every history, up to the depth, of training batches of several sizes and evaluations, for several momenta, with outputs and running statistics compared with a model after every step, and the gradients of all the steps at the end; gradients as for N08")
	zs := zooNormalization(thorough)
	for _, z := range zs {
		for _, k := range []float64{1e-3, 100} {
			w := z
			w.name = fmt.Sprintf("%s/inputs*%g", z.name, k)
			w.gen = func(n, salt int) []float64 {
				v := genMixed2(n, salt)
				for i := range v {
					v[i] *= k
				}
				return v
			}
			zs = append(zs, w)
		}
	}
	checkValues(t, zs)
	checkHistories(t, zs)
	checkGrads(t, zooNormalization(levelOf(t)))
	checkLarge(t, zooNormalization(large))
	n07Histories(t)
	for _, d := range dts {
		for _, way := range []string{"in place", "replaced"} {
			for _, kind := range []string{"layernorm", "adanorm"} {
				t.Casef("settings", true, func() error { return settings(d, kind, way) }, "%s/%s/%d", kind, way, d)
			}
		}
	}
}

// settings changes the constant of a layer between its uses, and compares
// each one with that of a layer made anew.
func settings(d DT, kind, way string) error {
	const n = 3
	mk := func(v float64) (nn.Model, *nn.Buffer, []*nn.Param) {
		switch {
		case kind == "layernorm" && d == 32:
			m := layernorm.New[float32](n, v)
			return m, m.Eps, []*nn.Param{m.W, m.B}
		case kind == "layernorm":
			m := layernorm.New[float64](n, v)
			return m, m.Eps, []*nn.Param{m.W, m.B}
		case d == 32:
			m := adanorm.New[float32](v)
			return m, m.Scale, nil
		default:
			m := adanorm.New[float64](v)
			return m, m.Scale, nil
		}
	}
	forward := func(m nn.Model, x mat.Tensor) mat.Tensor {
		if m, ok := m.(*layernorm.Model); ok {
			return m.Forward(x)[0]
		}
		return m.(*adanorm.Model).Forward(x)[0]
	}
	use := func(m nn.Model, params []*nn.Param, step int) (p Print, err error) {
		for i, q := range params {
			d.set(q, genMixed(n, i+step))
			q.ZeroGrad()
		}
		x := d.g(n, 1, genMixed2(n, step))
		y := forward(m, x)
		p.tensor("output", y)
		y.AccGrad(d.mk(n, 1, coefs(n, false)))
		err = ag.Backward(y)
		p.grads(x)
		p.grads(paramTensors(params)...)
		return p, err
	}
	m, buf, params := mk(0.5)
	for step, v := range []float64{0.5, 0.125, 2, 2, 0.25, 0.5} {
		if way == "replaced" {
			buf.Tensor = ag.StopGrad(d.mk(1, 1, []float64{v}))
		} else {
			d.set(buf.Value(), []float64{v})
		}
		got, err := use(m, params, step)
		if err != nil {
			return err
		}
		anew, _, ps := mk(v)
		want, err := use(anew, ps, step)
		if err != nil {
			return err
		}
		if err := got.Same(want); err != nil {
			return tag(fmt.Sprintf("step %d, with %v", step, v), err)
		}
		if buf.HasGrad() {
			return errf("the constant has gradients")
		}
	}
	return nil
}

func n07Histories(t *lib.T) {
	depth := lib.Pick(t, 5, 7)
	const n = 2
	for _, momentum := range []float64{0.9, 0.5, 0, 1} {
		for _, d := range dts {
			total := 0
			for l := 1; l <= depth; l++ {
				total = pow(4, l)
				for h := 0; h < total; h++ {
					ops := make([]int, l)
					x := h
					for i := range ops {
						ops[i] = x % 4
						x /= 4
					}
					t.Casef("statistics", true, func() error { return bnHistory(d, n, momentum, ops) }, "momentum%g/%d/%v", momentum, d, ops)
				}
			}
		}
	}
}

// bnHistory runs a history: 0 is an evaluation, k > 0 is a training step with
// a batch of k+1 (a single one, for 3).
func bnHistory(d DT, n int, momentum float64, ops []int) error {
	var m *batchnorm.Model
	if d == 32 {
		m = batchnorm.NewWithMomentum(n, float32(momentum))
	} else {
		m = batchnorm.NewWithMomentum(n, momentum)
	}
	momentum = d.round(momentum)
	w, b := colOf(d.rounds(genMixed(n, 1))...), colOf(d.rounds(genMixed(n, 2))...)
	d.set(m.W, w.v)
	d.set(m.B, b.v)
	mean, std := newRef(n, 1), newRef(n, 1)
	tol, abs := d.tol(1e-10, 1e-4), d.tol(1e-12, 1e-5)
	type past struct {
		y    mat.Tensor
		want ref
	}
	var outs []past
	var steps [][]mat.Tensor
	gw, gb, wmag := newRef(n, 1), newRef(n, 1), 1.0
	for step, op := range ops {
		k := []int{2, 2, 3, 1}[op]
		if k == 1 && d == 32 {
			k = 4 // the deviation of a single input is a rounding error
		}
		xs, ins := make([]ref, k), make([]mat.Tensor, k)
		for i := range xs {
			xs[i] = colOf(d.rounds(genMixed2(n, 3*step+5*i+op))...)
			ins[i] = d.like(xs[i])
		}
		um, us := mean, std
		var ys []mat.Tensor
		if op == 0 {
			ys = m.Forward(ins...)
		} else {
			ys = m.ForwardT(ins...)
			um, us = batchStats(xs)
			mean = addRef(mean.scaled(momentum), um.scaled(1-momentum))
			std = addRef(std.scaled(momentum), us.scaled(1-momentum))
		}
		steps = append(steps, ys)
		if len(ys) != k {
			return errf("step %d: %d outputs of %d inputs", step, len(ys), k)
		}
		for i, y := range ys {
			want := newRef(n, 1)
			mag := 1.0
			for e := range want.v {
				f := w.v[e] / (us.v[e] + 1e-5)
				want.v[e] = (xs[i].v[e]-um.v[e])*f + b.v[e]
				mag = math.Max(mag, math.Abs(f))
				g := (xs[i].v[e] - um.v[e]) / (us.v[e] + 1e-5)
				gw.v[e] += g
				gb.v[e]++
				wmag = math.Max(wmag, math.Abs(g))
			}
			if err := same(y, want, tol, abs*mag); err != nil {
				return tag(fmt.Sprintf("step %d, output %d", step, i), err)
			}
			outs = append(outs, past{y, refOf(y)})
		}
		if err := first(tag("running mean", same(m.Mean, mean, tol, abs)), tag("running deviation", same(m.StdDev, std, tol, abs)),
			tag("momentum", exactly(m.Momentum, one1(momentum))), unchanged("input", ins, xs),
			tag("scale", exactly(m.W, w)), tag("offset", exactly(m.B, b))); err != nil {
			return tag(fmt.Sprintf("after step %d", step), err)
		}
		if m.Mean.HasGrad() || m.StdDev.HasGrad() {
			return errf("the statistics have gradients")
		}
	}
	for i, o := range outs {
		if err := exactly(o.y, o.want); err != nil {
			return tag(fmt.Sprintf("output %d of the history has been changed", i), err)
		}
	}
	if len(outs) > 0 {
		// gradients of all the steps go to the parameters, and never to the statistics
		for _, o := range outs {
			o.y.AccGrad(o.y.Value().(mat.Matrix).OnesLike())
		}
		for _, ys := range steps { // the outputs of a step share their operands
			if err := ag.Backward(ys...); err != nil {
				return err
			}
		}
		if m.Mean.HasGrad() || m.StdDev.HasGrad() || m.Momentum.HasGrad() {
			return errf("the statistics have got gradients")
		}
		if !m.W.HasGrad() || !m.B.HasGrad() {
			return errf("the parameters have got no gradients")
		}
		if err := same(m.W.Grad(), gw, d.tol(1e-8, 1e-3), wmag*d.tol(1e-11, 1e-4)); err != nil {
			return tag("gradients of the scale", err)
		}
		if err := same(m.B.Grad(), gb, d.tol(1e-8, 1e-3), 0); err != nil {
			return tag("gradients of the offset", err)
		}
	}
	return nil
}
