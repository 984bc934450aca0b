package checks

import (
	"fmt"
	"math"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/verifmc/lib"
)

// gop is a differentiable operator, with its definition.
type gop struct {
	name   string
	points [][]ref // the operands of each evaluation
	f      func(xs []mat.Tensor) mat.Tensor
	def    func(xs []ref) ref
	only64 bool
	tol32  float64
	loose  float64          // relative tolerance of the gradients, when they are documented as approximations
	unused func(i int) bool // the operand is ignored
	single bool             // no operand is given twice
	mag    float64          // the magnitude of what cancels out
	light  bool             // a large example: fewer kinds of operands
	probed bool             // a very large one: the gradients of some elements only
}

// noTwins excludes the same tensor for two operands.
func (o gop) noTwins() gop {
	o.single = true
	return o
}

// ident is an operator which returns its operand: it makes intermediate nodes.
type ident struct{ x mat.Tensor }

func (f *ident) Operands() []mat.Tensor { return []mat.Tensor{f.x} }

func (f *ident) Forward() (mat.Tensor, error) { return f.x.Value().(mat.Matrix).Clone(), nil }

func (f *ident) Backward(gy mat.Tensor) error {
	if f.x.RequiresGrad() {
		f.x.AccGrad(gy)
	}
	return nil
}

// coefs returns the gradients of the output: distinct, of both signs; the
// sparse ones contain zeros.
func coefs(n int, sparse bool) []float64 {
	out := make([]float64, n)
	for i := range out {
		v := 0.5 + float64((i*3)%7)*0.25
		if i%2 == 1 {
			v = -v
		}
		if sparse && i%3 != 0 {
			v = 0
		}
		out[i] = v
	}
	return out
}

// numeric returns the derivatives of sum(gy * def(xs)) with respect to the
// i-th operand, and the magnitude of the rounding errors.
func numericGrad(def func([]ref) ref, xs []ref, is []int, gy []float64) ([]float64, []float64) {
	n := len(xs[is[0]].v)
	all := make([]int, n)
	for k := range all {
		all[k] = k
	}
	return numericGradAt(def, xs, is, gy, all)
}

// probes returns some positions of a large operand.
func probes(n int) []int {
	var out []int
	seen := map[int]bool{}
	for _, k := range []int{0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 513, 1023, 1024, n / 4, n / 3, n/2 - 1, n / 2, n/2 + 1, n * 3 / 4, n - 17, n - 9, n - 8, n - 7, n - 6, n - 5, n - 4, n - 3, n - 2, n - 1} {
		if k >= 0 && k < n && !seen[k] {
			seen[k] = true
			out = append(out, k)
		}
	}
	return out
}

// numericGradAt does so for some elements; the others are NaN.
func numericGradAt(def func([]ref) ref, xs []ref, is []int, gy []float64, at []int) ([]float64, []float64) {
	loss := func(k int, h float64) (float64, float64) {
		ys := make([]ref, len(xs))
		copy(ys, xs)
		for _, i := range is {
			c := xs[i].clone()
			c.v[k] += h
			ys[i] = c
		}
		s, a := 0.0, 0.0
		for j, v := range def(ys).v {
			s += v * gy[j]
			a += math.Abs(v * gy[j])
		}
		return s, a
	}
	n := len(xs[is[0]].v)
	out, errs := make([]float64, n), make([]float64, n)
	for k := range out {
		out[k] = math.NaN()
	}
	for _, k := range at {
		h := 1e-5 * math.Max(1, math.Abs(xs[is[0]].v[k]))
		if a := math.Abs(xs[is[0]].v[k]); a > 0 && a < 0.01 {
			h = a * 1e-4
		}
		up, a := loss(k, h)
		down, b := loss(k, -h)
		// a second, smaller step, and Richardson's extrapolation
		up2, _ := loss(k, h/2)
		down2, _ := loss(k, -h/2)
		d1, d2 := (up-down)/(2*h), (up2-down2)/h
		out[k] = (4*d2 - d1) / 3
		errs[k] = (a+b)*1e-15/h + math.Abs(d1-d2)
	}
	return out, errs
}

// The kinds of gradients of the result: different from zero; with some zeros;
// only zeros (these must be propagated, too: whoever waits for them would wait
// forever otherwise).
const (
	gyDense = iota
	gySparse
	gyZeros
)

var gyKinds = []string{"sparse=false", "sparse=true", "zeros"}

// gradModes are the kinds of operand.
var gradModes = []string{"leaf", "param", "node", "graded"}

func (o gop) check(t *lib.T, group string) {
	for pi, p := range o.points {
		n := len(p)
		var masks []int
		if n <= 3 {
			for m := 0; m < 1<<n; m++ {
				masks = append(masks, m)
			}
		} else {
			masks = append(masks, 0, 1<<n-1)
			for i := 0; i < n; i++ {
				if n > 12 && i > 1 && i != n/2 && i < n-2 {
					continue
				}
				masks = append(masks, 1<<i, (1<<n-1)&^(1<<i))
			}
		}
		for _, d := range dts {
			if d == 32 && o.only64 {
				continue
			}
			for _, mode := range gradModes {
				if o.light && (mode == "param" || mode == "graded") {
					continue
				}
				for kind, kn := range gyKinds {
					if o.light && kind != gyDense || kind == gyZeros && mode == "param" {
						continue
					}
					for _, mask := range masks {
						if kind == gyZeros && mask == 0 {
							continue
						}
						t.Casef(group, mask != 0, func() error {
							return o.eval(d, mode, kind, subset(mask, n), p, nil)
						}, "%s/%d/%s/point%d/%s/%s/mask%b", o.name, d, shapesOf(p), pi, mode, kn, mask)
					}
				}
				// the same tensor for several operands
				for _, rep := range identifications(p) {
					if o.single {
						break
					}
					t.Casef(group, true, func() error {
						return o.eval(d, mode, gyDense, subset(-1, n), p, rep)
					}, "%s/%d/%s/point%d/%s/same%v", o.name, d, shapesOf(p), pi, mode, rep)
				}
			}
		}
	}
}

// identifications returns every way to give the same tensor for several
// operands (for more than five: to two of them, or to all of a shape): the
// tensor of each operand is that of the stated one.
func identifications(p []ref) [][]int {
	n := len(p)
	var out [][]int
	rep := make([]int, n)
	var rec func(i int, some bool)
	rec = func(i int, some bool) {
		if i == n {
			if some {
				out = append(out, append([]int(nil), rep...))
			}
			return
		}
		rep[i] = i
		rec(i+1, some)
		for j := 0; j < i; j++ {
			if rep[j] == j && p[i].r == p[j].r && p[i].c == p[j].c {
				rep[i] = j
				rec(i+1, true)
			}
		}
	}
	if n <= 5 {
		rec(0, false)
		return out
	}
	all := make([]int, n)
	for i := range p {
		all[i] = i
		if n > 12 && i > 1 && i != n/2 && i < n-2 {
			continue
		}
		for j := i - 1; j >= 0; j-- {
			if n > 12 && j > 1 && j != n/2 {
				continue
			}
			if p[i].r != p[j].r || p[i].c != p[j].c {
				continue
			}
			all[i] = all[j]
			two := make([]int, n)
			for k := range two {
				two[k] = k
			}
			two[i] = j
			out = append(out, two)
		}
	}
	if len(out) > 1 {
		out = append(out, all)
	}
	return out
}

func shapesOf(p []ref) string {
	s := ""
	for i, x := range p {
		if i > 0 {
			s += ","
		}
		s += fmt.Sprintf("%dx%d", x.r, x.c)
	}
	return s
}

// subset returns the members of a mask.
func subset(mask, n int) []bool {
	out := make([]bool, n)
	for i := range out {
		out[i] = mask>>i&1 == 1
	}
	return out
}

// manySets are sets of a great number of operands.
var manySets = []struct {
	name string
	has  func(i, n int) bool
}{
	{"none", func(i, n int) bool { return false }},
	{"all", func(i, n int) bool { return true }},
	{"first", func(i, n int) bool { return i == 0 }},
	{"last", func(i, n int) bool { return i == n-1 }},
	{"middle", func(i, n int) bool { return i == n/2 }},
	{"not-first", func(i, n int) bool { return i != 0 }},
	{"not-last", func(i, n int) bool { return i != n-1 }},
	{"odd", func(i, n int) bool { return i%2 == 1 }},
	{"first-half", func(i, n int) bool { return i < n/2 }},
	{"second-half", func(i, n int) bool { return i >= n/2 }},
	{"thirds", func(i, n int) bool { return i%3 == 0 }},
}

// checkMany is the check of an operator with a great number of operands.
func (o gop) checkMany(t *lib.T, group string) {
	for pi, p := range o.points {
		for _, d := range dts {
			for _, mode := range []string{"leaf", "node"} {
				for _, set := range manySets {
					req := make([]bool, len(p))
					for i := range req {
						req[i] = set.has(i, len(p))
					}
					t.Casef(group, set.name != "none", func() error {
						return o.eval(d, mode, gyDense, req, p, nil)
					}, "%s/%d/%d operands/point%d/%s/%s", o.name, d, len(p), pi, mode, set.name)
				}
				// every operand twice
				if !o.single {
					rep := make([]int, len(p))
					for i := range rep {
						rep[i] = i
						for j := 0; j < i; j++ {
							if rep[j] == j && p[i].r == p[j].r && p[i].c == p[j].c && (i+j)%4 == 3 {
								rep[i] = j
								break
							}
						}
					}
					t.Casef(group, true, func() error {
						return o.eval(d, mode, gyDense, subset(-1, len(p)), p, rep)
					}, "%s/%d/%d operands/point%d/%s/twice", o.name, d, len(p), pi, mode)
				}
			}
		}
	}
}

func (o gop) eval(d DT, mode string, kind int, req []bool, p []ref, rep []int) error {
	if mode == "node" && d == 64 {
		defer late()()
	}
	req = append([]bool(nil), req...)
	vs := make([]ref, len(p))
	for i := range p {
		vs[i] = p[i].round(d)
	}
	if rep == nil {
		rep = make([]int, len(p))
		for i := range p {
			rep[i] = i
		}
	}
	for i, j := range rep {
		if i != j {
			vs[i] = vs[j].clone()
		}
	}
	want := o.def(vs)
	leaves := make([]mat.Tensor, len(p)) // what collects the gradients
	xs := make([]mat.Tensor, len(p))
	before := make([]float64, len(p))
	for i, v := range vs {
		if j := rep[i]; i != j {
			leaves[i], xs[i] = leaves[j], xs[j]
			continue
		}
		m := d.like(v)
		if mode == "param" {
			q := nn.NewParam(m).WithGrad(req[i])
			leaves[i], xs[i] = q, q
			continue
		}
		m.SetRequiresGrad(req[i])
		leaves[i], xs[i] = m, m
		switch mode {
		case "node":
			xs[i] = ag.NewOperator(&ident{m}).Run()
		case "graded":
			if req[i] {
				before[i] = 0.75
				g := newRef(v.r, v.c)
				for k := range g.v {
					g.v[k] = 0.75
				}
				m.AccGrad(d.like(g))
			}
		}
	}
	y := o.f(xs)
	tol := 2e-5
	if o.tol32 != 0 {
		tol = o.tol32
	}
	scale := math.Max(1e-12, o.mag)
	for _, v := range want.v {
		scale = math.Max(scale, math.Abs(v))
	}
	if math.IsInf(scale, 0) || math.IsNaN(scale) {
		scale = 1
	}
	if err := same(y, want, d.tol(1e-10, tol), scale*d.tol(1e-12, 1e-6)); err != nil {
		return tag("value", err)
	}
	if err := sameDT(y, d); err != nil {
		return tag("value", err)
	}
	unused := func(i int) bool { // all the operands which this tensor is given for
		for j, k := range rep {
			if k == rep[i] && (o.unused == nil || !o.unused(j)) {
				return false
			}
		}
		return true
	}
	for i := range p {
		if unused(i) {
			req[i] = false
		}
	}
	some := false
	for _, b := range req {
		some = some || b
	}
	if got, w := y.RequiresGrad(), some; got != w {
		return errf("the result requires gradients: %v, expected %v", got, w)
	}
	if !some {
		return nil
	}
	result := refOf(y)
	gyv := d.rounds(coefs(len(want.v), kind == gySparse))
	if kind == gyZeros {
		gyv = make([]float64, len(want.v))
	}
	gy := d.mk(want.r, want.c, gyv)
	own := false
	for i := range xs {
		if xs[i] == y {
			own = true // the operator returns one of its operands
		}
	}
	y.AccGrad(gy)
	var err error
	if !responds(func() { err = ag.Backward(y) }) {
		return errf("the backward pass does not end")
	}
	if err != nil {
		return tag("backward", err)
	}
	if err := exactly(gy, ref{want.r, want.c, gyv}); err != nil {
		return tag("the gradients given to the result have been changed", err)
	}
	if !own {
		if err := exactly(y.Grad(), ref{want.r, want.c, gyv}); err != nil {
			return tag("the gradients of the result have been changed", err)
		}
		if err := exactly(y, result); err != nil {
			return tag("the result has been changed", err)
		}
		for i := range xs {
			if mode == "node" && req[i] && xs[i].HasGrad() && !leaves[i].HasGrad() {
				return errf("operand %d has gradients, but has not propagated them", i)
			}
			if mode == "node" && req[i] && leaves[i].HasGrad() {
				if err := exactly(xs[i].Grad(), refOf(leaves[i].Grad())); err != nil {
					return tag(fmt.Sprintf("gradients of operand %d, and of what it is made from", i), err)
				}
			}
		}
	}
	for i := range vs {
		if err := exactly(leaves[i], vs[i]); err != nil {
			return tag(fmt.Sprintf("operand %d has been changed", i), err)
		}
		if !req[i] {
			if leaves[i].HasGrad() && !unused(i) {
				return errf("operand %d requires no gradients, but has got some", i)
			}
			continue
		}
		if rep[i] != i {
			continue
		}
		var is []int
		for j, k := range rep {
			if k == i {
				is = append(is, j)
			}
		}
		var num, errs []float64
		if n := len(vs[i].v); o.probed && n > 100 {
			num, errs = numericGradAt(o.def, vs, is, gyv, probes(n))
		} else {
			num, errs = numericGrad(o.def, vs, is, gyv)
		}
		if own {
			num = append([]float64(nil), num...)
		}
		g := leaves[i].Grad()
		if g == nil {
			for k, v := range num {
				if math.Abs(v) > 1e-6+errs[k] {
					return errf("operand %d has no gradients, expected %v", i, fmtVals(num))
				}
			}
			continue
		}
		if r, c := dims(g); r != vs[i].r || c != vs[i].c {
			return errf("operand %d of shape %d×%d has gradients of shape %d×%d", i, vs[i].r, vs[i].c, r, c)
		}
		if err := sameDT(g, d); err != nil {
			return tag(fmt.Sprintf("gradients of operand %d", i), err)
		}
		gs := vals(g)
		gscale := 0.0
		for _, v := range num {
			if !math.IsNaN(v) {
				gscale = math.Max(gscale, math.Abs(v))
			}
		}
		for k := range gs {
			if math.IsNaN(num[k]) {
				if math.IsNaN(gs[k]) || math.IsInf(gs[k], 0) {
					return errf("gradient of operand %d, element %d: %v", i, k, gs[k])
				}
				continue // not probed
			}
			tol := math.Max(o.loose, d.tol(1e-6, 2e-3))*math.Max(math.Abs(num[k]), 1e-3*gscale) + d.tol(1e-8, 1e-4) + 10*errs[k]
			if d == 32 {
				tol += gscale * 1e-4
			}
			if !(math.Abs(gs[k]-before[i]-num[k]) <= tol) {
				return errf("gradient of operand %d, element %d: got %v, expected %v ± %v (all: %v, expected %v)", i, k, gs[k]-before[i], num[k], tol, fmtVals(gs), fmtVals(num))
			}
		}
	}
	return nil
}

// pts makes the points of an operator from the shapes of its operands, with
// several sets of values.
func pts(gens []func(n, salt int) []float64, shapes ...[][2]int) [][]ref {
	var out [][]ref
	for _, sh := range shapes {
		for salt := range gens {
			var p []ref
			for i, s := range sh {
				p = append(p, ref{s[0], s[1], gens[salt](s[0]*s[1], i)})
			}
			out = append(out, p)
		}
	}
	return out
}

// Values away from 0, ±0.5, ±1, ±2.5 and from each other.
func genMixed(n, salt int) []float64 {
	out := make([]float64, n)
	for i := range out {
		v := 0.13 + 0.37*float64((i*5+salt*3)%11) + 0.011*float64(i) + 0.0071*float64(salt)
		if (i+salt)%2 == 1 {
			v = -v
		}
		out[i] = v
	}
	return out
}

func genMixed2(n, salt int) []float64 {
	out := make([]float64, n)
	for i := range out {
		v := 0.29 + 0.43*float64((i*7+salt*5)%5) + 0.013*float64(i) + 0.0093*float64(salt)
		if (i*3+salt)%3 != 1 {
			v = -v
		}
		out[i] = v
	}
	return out
}

// genTied returns values with zeros and many equal ones; a single greatest one.
func genTied(n, salt int) []float64 {
	out := make([]float64, n)
	for i := range out {
		out[i] = -0.25 * float64((i+salt)%3)
	}
	out[(n/2+salt)%n] = 0.375
	return out
}

// genTied2 is similar, with positive values.
func genTied2(n, salt int) []float64 {
	out := genTied(n, salt+1)
	for i := range out {
		out[i] += 1.5
	}
	return out
}

// genZeros returns zeros only.
func genZeros(n, salt int) []float64 { return make([]float64, n) }

func genPos(n, salt int) []float64 {
	out := genMixed(n, salt)
	for i := range out {
		out[i] = math.Abs(out[i]) + 0.1
	}
	return out
}

func genSmall(n, salt int) []float64 {
	out := genMixed(n, salt)
	for i := range out {
		out[i] *= 0.2
	}
	return out
}

// large is a large example of an operator.
func (o gop) large(points [][]ref) gop {
	o.points, o.light = points, true
	return o
}

// huge is a very large example of an operator.
func (o gop) huge(points [][]ref) gop {
	o.points, o.light, o.probed = points, true, true
	return o
}

// genLong returns any number of ordinary values, all different.
func genLong(n, salt int) []float64 {
	base := genMixed(37, salt)
	out := make([]float64, n)
	for i := range out {
		out[i] = base[i%37] + 1e-4*float64(i/37)
	}
	return out
}

func genLongPos(n, salt int) []float64 {
	out := genLong(n, salt)
	for i := range out {
		out[i] = math.Abs(out[i]) + 0.1
	}
	return out
}

type gens = []func(n, salt int) []float64
type sh = [2]int
