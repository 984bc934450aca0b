package checks

import (
	"fmt"
	"math"
	"runtime"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/verifmc/lib"
)

// zoo is a model with its definition.
type zoo struct {
	prop string // the property which states the definition
	name string
	// mk makes the model, and lists its parameters in the order used by def.
	mk func(d DT) (nn.Model, []*nn.Param)
	in [][2]int // the shapes of the inputs
	// run runs the model; nil stands for Forward.
	run func(m nn.Model, xs []mat.Tensor) []mat.Tensor
	// def computes the outputs from parameters and inputs. What is detached is
	// computed from the second pair. Without it, gradients are compared with
	// the differences of the outputs of the model.
	def    func(ps, xs, ps0, xs0 []ref) []ref
	scale  float64 // of the parameters
	tol32  float64 // of the values
	gtol32 float64 // of the gradients
	loose  float64 // of the gradients
	noGrad bool    // excluded from the check of gradients
	gen    func(n, salt int) []float64
	mag    float64 // the magnitude of the intermediate values
	// singular tells where there are no derivatives, or where 32 bit numbers
	// do not suffice, among the special values.
	singular func(d DT, salt int, grad bool) bool
	keep     bool // the parameters keep the values they have been made with
	large    bool // there are too many values to try each of them
}

func (z zoo) forward(m nn.Model, xs []mat.Tensor) []mat.Tensor {
	if z.run != nil {
		return z.run(m, xs)
	}
	return m.(nn.StandardModel).Forward(xs...)
}

func (d DT) set(m mat.Tensor, vs []float64) {
	if d == 32 {
		mat.SetData[float32](m.Value(), conv[float32](vs))
		return
	}
	mat.SetData[float64](m.Value(), conv[float64](vs))
}

// values returns the values of the parameters and of the inputs.
func (z zoo) values(d DT, params []*nn.Param, salt int) (ps, xs []ref) {
	scale := z.scale
	if scale == 0 {
		scale = 0.4
	}
	for i, p := range params {
		if z.keep {
			ps = append(ps, refOf(p))
			continue
		}
		r, c := dims(p)
		v := genMixed(r*c, i+salt)
		if z.large {
			v = genLong(r*c, i+salt)
		}
		for k := range v {
			v[k] = d.round(v[k] * scale)
			if salt == noParams || salt == someParams && (k+i)%2 == 0 {
				v[k] = 0
			}
		}
		ps = append(ps, ref{r, c, v})
	}
	gen := z.gen
	if gen == nil {
		gen = genMixed2
	}
	for i, s := range z.in {
		n, k := s[0]*s[1], i+salt
		switch salt {
		case sameInputs:
			k = 1
		case tiedInputs:
			gen = genTied
		case tinyInputs:
			gen = func(n, salt int) []float64 {
				v := genMixed2(n, salt)
				for i := range v {
					v[i] *= 1e-3
				}
				return v
			}
		}
		v := gen(n, k)
		if salt == noInputs || salt == noFirst && i == 0 || salt == noLast && i == len(z.in)-1 {
			v = make([]float64, n)
		}
		xs = append(xs, ref{s[0], s[1], d.rounds(v)})
	}
	return ps, xs
}

// Special choices of values.
const (
	noFirst    = 100 + iota // the first input is zero
	noLast                  // the last one is
	noInputs                // all of them are
	sameInputs              // the inputs are all the same
	tiedInputs              // the inputs have equal elements
	tinyInputs              // the inputs are small
	noParams                // the parameters are zero
	someParams              // half of the parameters are zero
	lastSpecial
)

// salts returns the choices of values: n ordinary ones, and the special ones.
func salts(n int) []int {
	var out []int
	for i := 0; i < n; i++ {
		out = append(out, i)
	}
	for i := noFirst; i < lastSpecial; i++ {
		out = append(out, i)
	}
	return out
}

func unchanged(what string, ts []mat.Tensor, want []ref) error {
	for i, x := range ts {
		if err := exactly(x, want[i]); err != nil {
			return tag(fmt.Sprintf("%s %d has been changed", what, i), err)
		}
	}
	return nil
}

func paramTensors(ps []*nn.Param) []mat.Tensor {
	out := make([]mat.Tensor, len(ps))
	for i, p := range ps {
		out[i] = p
	}
	return out
}

// sync runs f with forced synchronous execution.
func forceSync(f func()) {
	ag.SetForceSyncExecution(true)
	defer ag.SetForceSyncExecution(false)
	f()
}

// late lets the goroutines run only when those which have started them wait,
// until the returned function is called.
func late() func() {
	n := runtime.GOMAXPROCS(1)
	return func() { runtime.GOMAXPROCS(n) }
}

// checkValues compares the outputs of the models with their definition.
func checkValues(t *lib.T, zs []zoo) {
	for _, z := range zs {
		z := z
		for _, d := range dts {
			for _, salt := range salts(lib.Pick(t, 3, 6)) {
				if z.singular != nil && z.singular(d, salt, false) {
					continue
				}
				t.Casef("definition", true, func() error { return z.value(d, salt) }, "%s/%d/values%d", z.name, d, salt)
			}
		}
	}
}

// checkHistories runs one model again and again, with other values of its
// parameters and of its inputs every time: it yields what a new model with
// these values yields, and so are the gradients.
func checkHistories(t *lib.T, zs []zoo) {
	for _, z := range zs {
		z := z
		for _, d := range dts {
			for _, way := range []string{"set", "replace", "elements", "same"} {
				for si, set := range [][2]bool{{false, false}, {true, false}, {false, true}, {true, true}} {
					t.Casef("histories", true, func() error { return z.history(d, way, set) }, "%s/%d/%s/%d", z.name, d, way, si)
				}
			}
		}
	}
}

func (z zoo) history(d DT, way string, set [2]bool) error {
	type result struct {
		ys, gs []ref
	}
	// run sets the values of the model, and runs it forth and back
	run := func(m nn.Model, params []*nn.Param, way string, salt int) ([]mat.Tensor, result, error) {
		var r result
		ps, xs := z.values(d, params, salt)
		if way == "same" {
			ps, _ = z.values(d, params, 0)
		}
		leaves := paramTensors(params)
		for i, p := range params {
			switch way {
			case "replace":
				p.ReplaceValue(d.like(ps[i]))
			case "elements":
				for k, v := range ps[i].v {
					p.SetScalar(float.Interface(v), k/ps[i].c, k%ps[i].c)
				}
			default:
				d.set(p, ps[i].v)
			}
			p.SetRequiresGrad(set[0])
		}
		ins := make([]mat.Tensor, len(xs))
		for i, x := range xs {
			m := d.like(x)
			m.SetRequiresGrad(set[1])
			ins[i] = m
			leaves = append(leaves, m)
		}
		ys := z.forward(m, ins)
		var roots []mat.Tensor
		for i, y := range ys {
			r.ys = append(r.ys, refOf(y))
			if !y.RequiresGrad() {
				continue
			}
			if !set[0] && !set[1] {
				return nil, r, errf("output %d requires gradients, although nothing else does", i)
			}
			n := len(r.ys[i].v)
			y.AccGrad(d.mk(r.ys[i].r, r.ys[i].c, d.rounds(coefs(n+i, false)[i:])))
			roots = append(roots, y)
		}
		if err := ag.Backward(roots...); err != nil {
			return nil, r, err
		}
		for i, l := range leaves {
			g := ref{}
			if l.HasGrad() {
				g = refOf(l.Grad())
			}
			r.gs = append(r.gs, g)
			if i < len(params) {
				l.ZeroGrad()
			}
		}
		return ys, r, nil
	}
	m, params := z.mk(d)
	salts := []int{0, 1, someParams, 0}
	var kept [][]mat.Tensor
	var results []result
	for step, salt := range salts {
		ys, got, err := run(m, params, way, salt)
		if err != nil {
			return tag(fmt.Sprintf("step %d", step), err)
		}
		fm, fparams := z.mk(d)
		fway := way
		if way != "same" {
			fway = "set"
		}
		_, want, err := run(fm, fparams, fway, salt)
		if err != nil {
			return tag(fmt.Sprintf("step %d, with a new model", step), err)
		}
		if len(got.ys) != len(want.ys) {
			return errf("step %d: %d outputs, %d of a new model", step, len(got.ys), len(want.ys))
		}
		for i := range got.ys {
			if err := lib.CloseSlices(got.ys[i].v, want.ys[i].v, 0, 0); err != nil {
				return tag(fmt.Sprintf("step %d: output %d, compared with a new model", step, i), err)
			}
		}
		for i := range got.gs { // summed up in any order
			if err := lib.CloseSlices(got.gs[i].v, want.gs[i].v, d.tol(1e-9, 1e-3), d.tol(1e-9, 1e-3)); err != nil {
				return tag(fmt.Sprintf("step %d: gradients of parameter or input %d, compared with a new model", step, i), err)
			}
		}
		kept, results = append(kept, ys), append(results, got)
		for k := range kept { // the earlier outputs stay
			for i, y := range kept[k] {
				if len(params) > 0 && way != "same" && aliased(y, params) {
					continue
				}
				if err := exactly(y, results[k].ys[i]); err != nil {
					return tag(fmt.Sprintf("output %d of step %d, after step %d", i, k, step), err)
				}
			}
		}
	}
	return nil
}

// aliased tells whether the output is one of the parameters.
func aliased(y mat.Tensor, params []*nn.Param) bool {
	for _, p := range params {
		if y == mat.Tensor(p) {
			return true
		}
	}
	return false
}

func (z zoo) value(d DT, salt int) error {
	m, params := z.mk(d)
	ps, xs := z.values(d, params, salt)
	for i, p := range params {
		d.set(p, ps[i].v)
	}
	ins := make([]mat.Tensor, len(xs))
	for i, x := range xs {
		ins[i] = d.like(x)
	}
	// whatever the first run leaves behind, it required all gradients
	require := func(set func(i int) bool) {
		for i, p := range params {
			p.SetRequiresGrad(set(i))
		}
		for i := range ins {
			ins[i].(mat.Matrix).SetRequiresGrad(set(len(ps) + i))
		}
	}
	require(func(int) bool { return true })
	var roots []mat.Tensor
	for _, y := range z.forward(m, ins) {
		if y.RequiresGrad() {
			r, c := dims(y)
			y.AccGrad(d.mk(r, c, d.rounds(coefs(r*c, false))))
			roots = append(roots, y)
		}
	}
	if err := ag.Backward(roots...); err != nil {
		return tag("backward", err)
	}
	for _, p := range params {
		p.ZeroGrad()
	}
	for i := range ins {
		ins[i].ZeroGrad()
	}
	require(func(i int) bool { return i < len(ps) })
	var first []ref
	for round := 0; round < 3; round++ {
		var ys []mat.Tensor
		restore := func() {}
		switch round {
		case 1:
			restore = late()
			ys = z.forward(m, ins)
		case 2:
			forceSync(func() { ys = z.forward(m, ins) })
		default:
			ys = z.forward(m, ins)
		}
		var got []ref
		for i, y := range ys {
			if y == nil {
				restore()
				return errf("output %d is nil", i)
			}
			got = append(got, refOf(y))
			if err := sameDT(y, d); err != nil {
				restore()
				return tag(fmt.Sprintf("output %d", i), err)
			}
		}
		restore()
		if round > 0 {
			if len(got) != len(first) {
				return errf("%d outputs, then %d", len(first), len(got))
			}
			for i := range got {
				if err := lib.CloseSlices(got[i].v, first[i].v, 0, 0); err != nil {
					return tag(fmt.Sprintf("run %d differs from the first one: output %d", round, i), err)
				}
			}
			continue
		}
		first = got
		if z.def == nil {
			continue
		}
		want := z.def(ps, xs, ps, xs)
		if len(want) != len(ys) {
			return errf("got %d outputs, expected %d", len(ys), len(want))
		}
		for i := range want {
			scale := math.Max(1e-9, z.mag)
			for _, v := range want[i].v {
				scale = math.Max(scale, math.Abs(v))
			}
			tol := 1e-4
			if z.tol32 != 0 {
				tol = z.tol32
			}
			if err := same(ys[i], want[i], d.tol(1e-9, tol), scale*d.tol(1e-10, 1e-5)); err != nil {
				return tag(fmt.Sprintf("output %d", i), err)
			}
		}
	}
	// the outputs do not depend on which values require gradients
	sets := subsets(len(ps)+len(xs), len(ps))
	if z.large {
		sets = append(sets[:4:4], sets[len(sets)-2:]...)
	}
	for si, set := range sets {
		some := false
		require(func(i int) bool { some = some || set[i]; return set[i] })
		ys := z.forward(m, ins)
		if len(ys) != len(first) {
			return errf("%d outputs, then %d with other values requiring gradients", len(first), len(ys))
		}
		for i, y := range ys {
			if err := exactly(y, first[i]); err != nil {
				return tag(fmt.Sprintf("with other values requiring gradients (subset %d): output %d", si, i), err)
			}
			if y.RequiresGrad() && !some {
				return errf("output %d requires gradients, although nothing else does", i)
			}
		}
	}
	return fst(unchanged("input", ins, xs), unchanged("parameter", paramTensors(params), ps))
}

func fst(errs ...error) error { return first(errs...) }

// The subsets of n values which require gradients.
func subsets(n, params int) [][]bool {
	mk := func(f func(i int) bool) []bool {
		out := make([]bool, n)
		for i := range out {
			out[i] = f(i)
		}
		return out
	}
	out := [][]bool{
		mk(func(i int) bool { return true }),
		mk(func(i int) bool { return false }),
		mk(func(i int) bool { return i < params }),
		mk(func(i int) bool { return i >= params }),
	}
	for k := 0; k < n; k++ {
		k := k
		out = append(out, mk(func(i int) bool { return i == k }), mk(func(i int) bool { return i != k }))
	}
	return out
}

type zooNum struct {
	grads, errs [][]float64
	coefs       [][]float64
	outs        int
	low, high   [][]float64 // the bounds of the derivatives at kinks
}

// numeric computes the derivatives of all the values.
func (z zoo) numeric(d DT, which int, salt int) (zooNum, error) {
	m, params := z.mk(64)
	_, dparams := z.mk(d)
	ps, xs := z.values(d, dparams, salt)
	fixed := append(append([]ref(nil), ps...), xs...)
	outputs := func(vs []ref) []ref {
		if z.def != nil {
			return z.def(vs[:len(ps)], vs[len(ps):], ps, xs)
		}
		for i, p := range params {
			DT(64).set(p, vs[i].v)
		}
		ins := make([]mat.Tensor, len(xs))
		for i := range ins {
			ins[i] = DT(64).like(vs[len(ps)+i])
		}
		var out []ref
		for _, y := range z.forward(m, ins) {
			out = append(out, refOf(y))
		}
		return out
	}
	ys := outputs(fixed)
	n := zooNum{outs: len(ys)}
	var gy []float64
	for i, y := range ys {
		c := d.rounds(coefs(len(y.v)+i, i%2 == 1)[i:])
		if !wanted(which, i, len(ys)) {
			c = make([]float64, len(y.v))
		}
		n.coefs = append(n.coefs, c)
		gy = append(gy, c...)
	}
	flatDef := func(vs []ref) ref {
		var out []float64
		for _, y := range outputs(vs) {
			out = append(out, y.v...)
		}
		return ref{len(out), 1, out}
	}
	for i := range fixed {
		if len(fixed[i].v) == 0 {
			n.grads, n.errs = append(n.grads, nil), append(n.errs, nil)
			n.low, n.high = append(n.low, nil), append(n.high, nil)
			continue
		}
		g, e := numericGrad(flatDef, fixed, []int{i}, gy)
		n.grads, n.errs = append(n.grads, g), append(n.errs, e)
		low, high := append([]float64(nil), g...), append([]float64(nil), g...)
		if salt >= noFirst {
			sides(flatDef, fixed, i, gy, low, high)
		}
		n.low, n.high = append(n.low, low), append(n.high, high)
	}
	return n, nil
}

// sides extends the range of the derivatives with the left and the right one,
// where they differ.
func sides(def func([]ref) ref, xs []ref, i int, gy, low, high []float64) {
	loss := func(k int, h float64) float64 {
		ys := append([]ref(nil), xs...)
		ys[i] = xs[i].clone()
		ys[i].v[k] += h
		s := 0.0
		for j, v := range def(ys).v {
			s += v * gy[j]
		}
		return s
	}
	scale := 0.0
	for _, v := range low {
		scale = math.Max(scale, math.Abs(v))
	}
	const h = 1e-6
	for k := range low {
		mid := loss(k, 0)
		l, r := (mid-loss(k, -h))/h, (loss(k, h)-mid)/h
		if math.Abs(l-r) > 1e-2*math.Max(scale, math.Max(math.Abs(l), math.Abs(r))) {
			low[k], high[k] = math.Min(low[k], math.Min(l, r)), math.Max(high[k], math.Max(l, r))
		}
	}
}

// wanted tells which outputs get gradients: all, the first one, the last one.
func wanted(which, i, n int) bool {
	return which == 0 || which == 1 && i == 0 || which == 2 && i == n-1
}

// checkGrads compares the gradients of parameters and inputs with the
// derivatives of the definition.
func checkGrads(t *lib.T, zs []zoo) {
	for _, z := range zs {
		z := z
		if z.noGrad {
			continue
		}
		_, params := z.mk(64)
		n := len(params) + len(z.in)
		nums := map[[3]int]*zooNum{}
		for _, d := range dts {
			for _, salt := range salts(lib.Pick(t, 1, 3)) {
				if z.singular != nil && z.singular(d, salt, true) {
					continue
				}
				for which := 0; which < 3; which++ {
					if salt >= noFirst && which > 0 {
						continue
					}
					num := func() (*zooNum, error) {
						k := [3]int{int(d), which, salt}
						if v, ok := nums[k]; ok {
							return v, nil
						}
						v, err := z.numeric(d, which, salt)
						if err != nil {
							return nil, err
						}
						nums[k] = &v
						return &v, nil
					}
					for si, set := range subsets(n, len(params)) {
						for _, mode := range []string{"leaf", "node", "sync", "graded", "late"} {
							if (mode == "sync" || mode == "graded" || mode == "late") && (si > 3 || which > 0) {
								continue
							}
							if mode == "node" && len(z.in) == 0 {
								continue
							}
							if salt >= noFirst && (mode != "leaf" || si > 3) {
								continue
							}
							t.Casef("gradients", si != 1, func() error {
								v, err := num()
								if err != nil {
									return err
								}
								return z.grad(d, mode, set, which, salt, v)
							}, "%s/%d/%s/outputs%d/subset%d/values%d", z.name, d, mode, which, si, salt)
						}
					}
				}
			}
		}
	}
}

func (z zoo) grad(d DT, mode string, set []bool, which, salt int, num *zooNum) error {
	if mode == "late" {
		defer late()()
	}
	m, params := z.mk(d)
	ps, xs := z.values(d, params, salt)
	leaves := paramTensors(params)
	for i, p := range params {
		d.set(p, ps[i].v)
		p.SetRequiresGrad(set[i])
	}
	ins := make([]mat.Tensor, len(xs))
	for i, x := range xs {
		leaf := d.like(x)
		leaf.SetRequiresGrad(set[len(ps)+i])
		leaves = append(leaves, leaf)
		ins[i] = leaf
		if mode == "node" {
			ins[i] = ag.NewOperator(&ident{leaf}).Run()
		}
	}
	before := 0.0
	if mode == "graded" {
		before = 0.75
		for i, l := range leaves {
			if !set[i] {
				continue
			}
			r, c := dims(l)
			g := newRef(r, c)
			for k := range g.v {
				g.v[k] = before
			}
			l.AccGrad(d.like(g))
		}
	}
	var ys []mat.Tensor
	if mode == "sync" {
		forceSync(func() { ys = z.forward(m, ins) })
	} else {
		ys = z.forward(m, ins)
	}
	if len(ys) != num.outs {
		return errf("got %d outputs, expected %d", len(ys), num.outs)
	}
	any := false
	for _, s := range set {
		any = any || s
	}
	var roots []mat.Tensor
	for i, y := range ys {
		if y.RequiresGrad() && !any {
			return errf("output %d requires gradients, while neither parameters nor inputs do", i)
		}
		if !y.RequiresGrad() || !wanted(which, i, len(ys)) {
			continue
		}
		r, c := dims(y)
		if len(num.coefs[i]) != r*c {
			return errf("output %d has shape %d×%d, expected %d values", i, r, c, len(num.coefs[i]))
		}
		y.AccGrad(d.mk(r, c, num.coefs[i]))
		roots = append(roots, y)
	}
	if err := ag.Backward(roots...); err != nil {
		return tag("backward", err)
	}
	if err := unchanged("value", leaves, append(append([]ref(nil), ps...), xs...)); err != nil {
		return err
	}
	for i, l := range leaves {
		name := fmt.Sprintf("parameter %d", i)
		if i >= len(ps) {
			name = fmt.Sprintf("input %d", i-len(ps))
		}
		if !set[i] {
			if l.HasGrad() {
				return errf("%s requires no gradients, but has got some", name)
			}
			continue
		}
		g := l.Grad()
		want, errs := num.grads[i], num.errs[i]
		if g == nil {
			for k, v := range want {
				if math.Abs(v) > 1e-7+10*errs[k] && !(num.low[i][k] <= 0 && num.high[i][k] >= 0) {
					return errf("%s has no gradients, expected %v", name, fmtVals(want))
				}
			}
			continue
		}
		lr, lc := dims(l)
		if r, c := dims(g); r != lr || c != lc {
			return errf("%s of shape %d×%d has gradients of shape %d×%d", name, lr, lc, r, c)
		}
		if err := sameDT(g, d); err != nil {
			return tag("gradients of "+name, err)
		}
		gs, scale := vals(g), 0.0
		for _, v := range want {
			scale = math.Max(scale, math.Abs(v))
		}
		for k := range gs {
			rel := d.tol(1e-6, 3e-3)
			if z.gtol32 != 0 && d == 32 {
				rel = z.gtol32
			}
			tol := math.Max(z.loose, rel)*math.Max(math.Abs(want[k]), 1e-2*scale) + d.tol(2e-8, 2e-4)*math.Max(1, scale) + 20*errs[k]
			if g := gs[k] - before; !(g >= num.low[i][k]-tol && g <= num.high[i][k]+tol) {
				return errf("gradient of %s, element %d: got %v, expected %v ± %v (all: %v, expected %v)", name, k, gs[k]-before, want[k], tol, fmtVals(gs), fmtVals(want))
			}
		}
	}
	return nil
}

// checkLarge compares the values and the gradients of large models, the
// latter along some directions and in some elements.
func checkLarge(t *lib.T, zs []zoo) {
	for _, z := range zs {
		z.large = true
		z.name = "large/" + z.name
		if z.gen == nil {
			z.gen = genLong
		}
		if z.scale == 0 {
			z.scale = 0.1
		}
		for _, d := range dts {
			for salt := 0; salt < lib.Pick(t, 1, 3); salt++ {
				t.Casef("definition", true, func() error { return z.value(d, salt) }, "%s/%d/values%d", z.name, d, salt)
				if z.noGrad || z.singular != nil && z.singular(d, salt, true) {
					continue
				}
				t.Casef("gradients", true, func() error { return z.gradLarge(d, salt) }, "%s/%d/values%d", z.name, d, salt)
			}
		}
	}
}

// direction is a change of the values of some leaves.
type direction struct {
	name  string
	leaf  int // or all of them: -1
	value func(leaf, k int) float64
}

func (z zoo) gradLarge(d DT, salt int) error {
	_, params := z.mk(d)
	ps, xs := z.values(d, params, salt)
	fixed := append(append([]ref(nil), ps...), xs...)
	// the leaves to look at on their own
	var looked []int
	seen := map[int]bool{}
	for i := range ps {
		looked, seen[i] = append(looked, i), true
	}
	if len(ps) > 40 {
		looked, seen = nil, map[int]bool{}
	}
	n := len(fixed)
	for _, i := range []int{0, 1, len(ps) - 1, len(ps), len(ps) + 1, len(ps) + len(xs)/2, n - 2, n - 1} {
		if i >= 0 && i < n && !seen[i] {
			looked, seen[i] = append(looked, i), true
		}
	}
	mixed := func(leaf, k int) float64 {
		if (leaf*7+k*5+k/3+leaf*k)%4 < 2 {
			return 1
		}
		return -0.5
	}
	dirs := []direction{{"of all", -1, mixed}, {"of all, uniform", -1, func(int, int) float64 { return 1 }}}
	for _, i := range looked {
		size := len(fixed[i].v)
		dirs = append(dirs, direction{fmt.Sprintf("of value %d", i), i, mixed})
		at := []int{0, size / 2, size - 1}
		if size > 64 {
			at = append(at, 64, size-5)
		}
		for _, e := range at {
			if size <= e || size < 3 && e > 0 {
				continue
			}
			dirs = append(dirs, direction{fmt.Sprintf("of value %d, element %d", i, e), i, func(_, k int) float64 {
				if k == e {
					return 1
				}
				return 0
			}})
		}
	}
	outs := 0
	var cs [][]float64
	loss := func(dir direction, h float64) (float64, float64) {
		vs := append([]ref(nil), fixed...)
		for i := range vs {
			if dir.leaf >= 0 && dir.leaf != i {
				continue
			}
			vs[i] = fixed[i].clone()
			for k := range vs[i].v {
				vs[i].v[k] += h * dir.value(i, k)
			}
		}
		ys := z.def(vs[:len(ps)], vs[len(ps):], ps, xs)
		if cs == nil {
			outs = len(ys)
			for i, y := range ys {
				cs = append(cs, d.rounds(coefs(len(y.v)+i%7, i%2 == 1)[i%7:]))
			}
		}
		s, a := 0.0, 0.0
		for i, y := range ys {
			for k, v := range y.v {
				s += v * cs[i][k]
				a += math.Abs(v * cs[i][k])
			}
		}
		return s, a
	}
	loss(dirs[0], 0)
	want, errs := make([]float64, len(dirs)), make([]float64, len(dirs))
	for k, dir := range dirs {
		const h = 1e-5
		up, a := loss(dir, h)
		down, b := loss(dir, -h)
		up2, _ := loss(dir, h/2)
		down2, _ := loss(dir, -h/2)
		d1, d2 := (up-down)/(2*h), (up2-down2)/h
		want[k], errs[k] = (4*d2-d1)/3, (a+b)*1e-15/h+math.Abs(d1-d2)
	}
	for mode, set := range subsets(n, len(ps))[:4] {
		if mode == 1 { // nothing
			continue
		}
		m, params := z.mk(d)
		leaves := paramTensors(params)
		for i, p := range params {
			d.set(p, ps[i].v)
			p.SetRequiresGrad(set[i])
		}
		ins := make([]mat.Tensor, len(xs))
		for i, x := range xs {
			leaf := d.like(x)
			leaf.SetRequiresGrad(set[len(ps)+i])
			ins[i] = leaf
			leaves = append(leaves, leaf)
		}
		ys := z.forward(m, ins)
		if len(ys) != outs {
			return errf("got %d outputs, expected %d", len(ys), outs)
		}
		var roots []mat.Tensor
		for i, y := range ys {
			if !y.RequiresGrad() {
				continue
			}
			r, c := dims(y)
			if len(cs[i]) != r*c {
				return errf("output %d has shape %d×%d, expected %d values", i, r, c, len(cs[i]))
			}
			y.AccGrad(d.mk(r, c, cs[i]))
			roots = append(roots, y)
		}
		if err := ag.Backward(roots...); err != nil {
			return tag("backward", err)
		}
		gs := make([][]float64, len(leaves))
		for i, l := range leaves {
			if g := l.Grad(); g != nil {
				if !set[i] {
					return errf("value %d requires no gradients, but has got some", i)
				}
				gs[i] = vals(g)
				if len(gs[i]) != len(fixed[i].v) {
					return errf("value %d of %d elements has %d gradients", i, len(fixed[i].v), len(gs[i]))
				}
			}
		}
		for k, dir := range dirs {
			if dir.leaf >= 0 && !set[dir.leaf] || dir.leaf < 0 && mode != 0 {
				continue
			}
			sum, abs, biggest := 0.0, 0.0, 0.0
			for i, g := range gs {
				if dir.leaf >= 0 && dir.leaf != i {
					continue
				}
				for e, v := range g {
					sum += v * dir.value(i, e)
					abs += math.Abs(v * dir.value(i, e))
					biggest = math.Max(biggest, math.Abs(v))
				}
			}
			rel := d.tol(1e-6, 3e-3)
			if z.gtol32 != 0 && d == 32 {
				rel = z.gtol32
			}
			rel = math.Max(rel, z.loose)
			tol := rel*math.Max(abs, 1e-2*biggest) + d.tol(2e-8, 2e-4)*math.Max(1, biggest) + 20*errs[k]
			if !(math.Abs(sum-want[k]) <= tol) {
				return errf("gradients required: %d; derivative %s: got %v, expected %v ± %v", mode, dir.name, sum, want[k], tol)
			}
		}
	}
	return nil
}

// Building blocks of the definitions.

func had(a, b ref) ref { return zipRef(a, b, func(x, y float64) float64 { return x * y }) }

func subRef(a, b ref) ref { return zipRef(a, b, func(x, y float64) float64 { return x - y }) }

func (m ref) scaled(k float64) ref { return m.apply(func(v float64) float64 { return v * k }) }

func (m ref) plus(k float64) ref { return m.apply(func(v float64) float64 { return v + k }) }

func (m ref) oneMinus() ref { return m.apply(func(v float64) float64 { return 1 - v }) }

func (m ref) sig() ref { return m.apply(sigmoid) }

func (m ref) tanh() ref { return m.apply(math.Tanh) }

func (m ref) mean() float64 { return m.sum() / float64(len(m.v)) }

// affineRef is b + w1 x1 + w2 x2...
func affineRef(b ref, wx ...ref) ref {
	y := b
	for i := 0; i < len(wx); i += 2 {
		y = addRef(y, mulRef(wx[i], wx[i+1]))
	}
	return y
}

func softmaxR(x ref) ref {
	max := maxOf(x)
	y := x.apply(func(v float64) float64 { return math.Exp(v - max) })
	return y.scaled(1 / y.sum())
}

func concatRef(xs ...ref) ref {
	var v []float64
	for _, x := range xs {
		v = append(v, x.v...)
	}
	return colOf(v...)
}

// seq returns n columns of size k.
func seq(n, k int) [][2]int {
	out := make([][2]int, n)
	for i := range out {
		out[i] = sh{k, 1}
	}
	return out
}

// mkT calls the generic constructor of a model.
func mkT[M nn.Model](f32, f64 func() M, params func(m M) []*nn.Param) func(d DT) (nn.Model, []*nn.Param) {
	return func(d DT) (nn.Model, []*nn.Param) {
		var m M
		if d == 32 {
			m = f32()
		} else {
			m = f64()
		}
		return m, params(m)
	}
}
