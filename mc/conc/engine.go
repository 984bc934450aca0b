package conc

import (
	"fmt"
	"strings"
	"sync/atomic"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/gradfn"
	"github.com/nlpodyssey/spago/verifmc/lib"
)

func init() {
	Registry["E01"] = e01
	Registry["E02"] = e02
	Registry["E04"] = e04
}

// fn is a function of the user: a linear combination of the operands, which
// counts what happens to it.
type fn struct {
	ops       []mat.Tensor
	coef      []float64
	forwards  atomic.Int64
	backwards atomic.Int64
	running   *atomic.Int64 // forwards which are being executed, if not nil
	most      *atomic.Int64
	gys       [][]float64
}

func (f *fn) Operands() []mat.Tensor { return f.ops }

func (f *fn) Forward() (mat.Tensor, error) {
	f.forwards.Add(1)
	if f.running != nil {
		n := f.running.Add(1)
		for {
			m := f.most.Load()
			if n <= m || f.most.CompareAndSwap(m, n) {
				break
			}
		}
		defer f.running.Add(-1)
	}
	var out []float64
	for i, o := range f.ops {
		d := o.Value().Data().F64()
		if out == nil {
			out = make([]float64, len(d))
		}
		for k := range out {
			out[k] += f.coef[i] * d[k]
		}
	}
	return vec(out...), nil
}

func (f *fn) Backward(gy mat.Tensor) error {
	f.backwards.Add(1)
	g := gy.Data().F64()
	f.gys = append(f.gys, append([]float64(nil), g...))
	for i, o := range f.ops {
		if !o.RequiresGrad() {
			continue
		}
		d := make([]float64, len(g))
		for k := range d {
			d[k] = f.coef[i] * g[k]
		}
		o.AccGrad(vec(d...))
	}
	return nil
}

// gnode is an operator of a graph: its operands are leaves or earlier operators.
type gnode struct {
	kind byte // + * - user function
	a, b int
}

const leaves = 3 // x and y require gradients, z does not

// sim computes the values and the gradients of a graph, sequentially.
type sim struct {
	val, grad [][]float64
	req       []bool
	back      []int // backward evaluations of each node
}

func simulate(g []gnode) *sim {
	s := &sim{val: [][]float64{{2, 3}, {5, -7}, {-1, 4}}, req: []bool{true, true, false}}
	for _, n := range g {
		a, b := s.val[n.a], s.val[n.b]
		out := make([]float64, len(a))
		for i := range out {
			switch n.kind {
			case '+':
				out[i] = a[i] + b[i]
			case '-':
				out[i] = a[i] - b[i]
			case '*':
				out[i] = a[i] * b[i]
			case 'f':
				out[i] = 2*a[i] + 3*b[i]
			}
		}
		s.val = append(s.val, out)
		s.req = append(s.req, s.req[n.a] || s.req[n.b])
	}
	s.grad = make([][]float64, len(s.val))
	s.back = make([]int, len(s.val))
	return s
}

func (s *sim) acc(i int, g []float64) {
	if s.grad[i] == nil {
		s.grad[i] = make([]float64, len(g))
	}
	for k := range g {
		s.grad[i][k] += g[k]
	}
}

// backward propagates from the roots, whose gradients are set.
func (s *sim) backward(g []gnode, roots []int) {
	reach := make([]bool, len(s.val))
	for _, r := range roots {
		reach[r] = true
	}
	for k := len(g) - 1; k >= 0; k-- {
		i := k + leaves
		if !reach[i] || !s.req[i] || s.grad[i] == nil {
			continue
		}
		n := g[k]
		s.back[i]++
		ga, gb := make([]float64, 2), make([]float64, 2)
		for e, v := range s.grad[i] {
			switch n.kind {
			case '+':
				ga[e], gb[e] = v, v
			case '-':
				ga[e], gb[e] = v, -v
			case '*':
				ga[e], gb[e] = v*s.val[n.b][e], v*s.val[n.a][e]
			case 'f':
				ga[e], gb[e] = 2*v, 3*v
			}
		}
		for j, o := range []int{n.a, n.b} {
			if s.req[o] {
				s.acc(o, [][]float64{ga, gb}[j])
				reach[o] = true
			}
		}
	}
}

// build builds the real graph; async is a mask of the operators which run
// asynchronously.
func build(g []gnode, async uint) ([]mat.Tensor, []*fn) {
	nodes := []mat.Tensor{gvec(2, 3), gvec(5, -7), vec(-1, 4)}
	fs := make([]*fn, len(g))
	for k, n := range g {
		a, b := nodes[n.a], nodes[n.b]
		as := async>>uint(k)&1 == 1
		var f ag.AutoGradFunction
		switch n.kind {
		case '+':
			f = gradfn.NewAdd(a, b)
		case '-':
			f = gradfn.NewSub(a, b)
		case '*':
			f = gradfn.NewProd(a, b)
		case 'f':
			fs[k] = &fn{ops: []mat.Tensor{a, b}, coef: []float64{2, 3}}
			f = fs[k]
		}
		nodes = append(nodes, ag.NewOperator(f).Run(as))
	}
	return nodes, fs
}

func (n gnode) String() string { return fmt.Sprintf("%c%d%d", n.kind, n.a, n.b) }

func graphName(g []gnode) string {
	var p []string
	for _, n := range g {
		p = append(p, n.String())
	}
	return strings.Join(p, ".")
}

// graphs enumerates the graphs of n operators, up to the symmetry of the operands.
func graphs(n int, kinds string, f func([]gnode)) {
	var rec func(g []gnode)
	rec = func(g []gnode) {
		if len(g) == n {
			f(append([]gnode(nil), g...))
			return
		}
		top := leaves + len(g)
		for a := 0; a < top; a++ {
			for b := a; b < top; b++ {
				// keep the graphs connected: after the first operator, at least
				// one operand is an operator
				if len(g) > 0 && b < leaves {
					continue
				}
				rec(append(g, gnode{kinds[(a+b+len(g))%len(kinds)], a, b}))
			}
		}
	}
	rec(nil)
}

// e01: asynchronous forward evaluation is transparent.
func e01(t *lib.T) {
	t.Rule("every schedule (up to commutation of independent operations) of: graphs of 1-3 operators over 3 leaves with every mask of asynchronous operators, read by one or more goroutines; more operators than the limit of concurrency; graphs built concurrently over shared nodes; each execution is one of the real code; graphs with up to 70 (130 in the thorough tier) operands, consumers, readers or operators in a chain, for every schedule up to 1 (2) delays")
	t.Assume("the scheduler interleaves the goroutines at their synchronisation operations; the operations between two of them are atomic, which the race detector configuration justifies: it reports every pair of conflicting accesses which is not ordered by these operations")
	if Config == "big" {
		e01Wide(t)
		return
	}
	for n := 1; n <= lib.Pick(t, 2, 3); n++ {
		graphs(n, "+*f-", func(g []gnode) {
			for mask := uint(0); mask < 1<<uint(n); mask++ {
				mask := mask
				scenario(t, "forward", fmt.Sprintf("%s/async=%b", graphName(g), mask), func() error {
					nodes, fs := build(g, mask)
					return checkForward(g, nodes, fs)
				})
			}
		})
	}
	// several readers of the same nodes
	for _, g := range [][]gnode{{{'f', 0, 1}}, {{'+', 0, 1}, {'f', 3, 2}}, {{'f', 0, 2}, {'*', 3, 3}}, {{'+', 0, 1}, {'*', 3, 0}, {'f', 3, 4}}} {
		for mask := uint(1); mask < 1<<uint(len(g)); mask++ {
			if t.Tier == "quick" && len(g) == 3 && mask != 7 {
				continue
			}
			for readers := 1; readers <= lib.Pick(t, 2, 3); readers++ {
				g, mask, readers := g, mask, readers
				scenario(t, "readers", fmt.Sprintf("%s/async=%b/%d", graphName(g), mask, readers), func() error {
					nodes, fs := build(g, mask)
					s := simulate(g)
					errs := make([]error, readers)
					var rs []func()
					for r := 0; r < readers; r++ {
						r := r
						rs = append(rs, func() {
							last := nodes[len(nodes)-1]
							if last.RequiresGrad() != s.req[len(nodes)-1] {
								errs[r] = fmt.Errorf("RequiresGrad is %v", !s.req[len(nodes)-1])
							}
							errs[r] = first(errs[r], expect("value", data(last), s.val[len(nodes)-1]))
							if o, ok := last.(*ag.Operator); ok && len(o.Operands()) != 2 {
								errs[r] = first(errs[r], fmt.Errorf("%d operands", len(o.Operands())))
							}
						})
					}
					all(rs...)
					return first(append(errs, checkForward(g, nodes, fs))...)
				})
			}
		}
	}
	// every accessor waits for the value, whichever comes first
	for _, a := range accessors {
		for _, b := range accessors {
			for _, async := range []bool{false, true} {
				a, b, async := a, b, async
				if a.name > b.name {
					continue
				}
				scenario(t, "accessors", fmt.Sprintf("%s+%s/async=%v", a.name, b.name, async), func() error {
					f := &fn{ops: []mat.Tensor{gvec(2, 3), vec(5, -7)}, coef: []float64{2, 3}}
					o := ag.NewOperator(f).Run(async)
					var ea, eb error
					if a.changes || b.changes {
						ea, eb = a.f(o), nil
						if ea == nil && !a.changes {
							eb = b.f(o)
						}
					} else {
						all(func() { ea = a.f(o) }, func() { eb = b.f(o) })
					}
					if f.forwards.Load() != 1 {
						return fmt.Errorf("%d evaluations", f.forwards.Load())
					}
					return first(ea, eb)
				})
			}
		}
	}
	// goroutines which build graphs over shared operators
	for _, k := range []int{2, 3} {
		for _, async := range []bool{false, true} {
			k, async := k, async
			if k == 3 && !t.Thorough() {
				continue
			}
			scenario(t, "builders", fmt.Sprintf("%d/async=%v", k, async), func() error {
				x, y := gvec(2, 3), gvec(5, -7)
				shared := ag.NewOperator(gradfn.NewProd[mat.Tensor](x, y)).Run(async)
				out := make([]mat.Tensor, k)
				var bs []func()
				for i := 0; i < k; i++ {
					i := i
					bs = append(bs, func() {
						out[i] = ag.NewOperator(gradfn.NewAdd[mat.Tensor](shared, x)).Run(async)
						out[i].RequiresGrad()
					})
				}
				all(bs...)
				for i := range out {
					if err := expect("value", data(out[i]), []float64{12, -18}); err != nil {
						return err
					}
					if !out[i].RequiresGrad() {
						return fmt.Errorf("the result does not require gradients")
					}
				}
				return nil
			})
		}
	}
	// more asynchronous operators than the limit: all of them complete, and
	// at most the limit run at once
	for _, wide := range []bool{false, true} {
		for n := 2; n <= lib.Pick(t, 3, 4); n++ {
			wide, n := wide, n
			scenario(t, "limit", fmt.Sprintf("wide=%v/%d", wide, n), func() error {
				var running, most atomic.Int64
				x := gvec(1, 2)
				var prev mat.Tensor = x
				var out []mat.Tensor
				for i := 0; i < n; i++ {
					in := prev
					if wide {
						in = x
					}
					prev = ag.NewOperator(&fn{ops: []mat.Tensor{in}, coef: []float64{2}, running: &running, most: &most}).Run(true)
					out = append(out, prev)
				}
				f := 1.0
				for i := range out {
					if !wide || i == 0 {
						f *= 2
					}
					if err := expect("value", data(out[i]), []float64{f, 2 * f}); err != nil {
						return err
					}
				}
				if m := most.Load(); m > int64(limit()) {
					return fmt.Errorf("%d functions were evaluated at once, the limit is %d", m, limit())
				}
				return nil
			})
		}
	}
	// the debugging switch
	for mask := uint(0); mask < 4; mask++ {
		mask := mask
		scenario(t, "forced-sync", fmt.Sprintf("async=%b", mask), func() error {
			ag.SetForceSyncExecution(true)
			defer ag.SetForceSyncExecution(false)
			g := []gnode{{'+', 0, 1}, {'f', 3, 0}}
			nodes, fs := build(g, mask)
			if n := fs[1].forwards.Load(); n != 1 {
				return fmt.Errorf("the function has been evaluated %d times when Run returned", n)
			}
			return checkForward(g, nodes, fs)
		})
	}
	// the switch may change at any time: whatever is being evaluated goes on
	for _, n := range []int{1, 2} {
		for mask := uint(0); mask < 1<<n; mask++ {
			for forced := uint(0); forced < 2<<n; forced++ {
				n, mask, forced := n, mask, forced
				scenario(t, "forced-sync", fmt.Sprintf("%d/async=%b/forced=%b", n, mask, forced), func() error {
					defer ag.SetForceSyncExecution(false)
					g := []gnode{{'f', 0, 1}, {'f', 3, 0}}[:n]
					nodes := []mat.Tensor{gvec(2, 3), gvec(5, -7), vec(-1, 4)}
					fs := make([]*fn, n)
					for k, node := range g {
						force := forced>>uint(k)&1 == 1
						ag.SetForceSyncExecution(force)
						fs[k] = &fn{ops: []mat.Tensor{nodes[node.a], nodes[node.b]}, coef: []float64{2, 3}}
						nodes = append(nodes, ag.NewOperator(fs[k]).Run(mask>>uint(k)&1 == 1))
						if force && fs[k].forwards.Load() != 1 {
							return fmt.Errorf("the function has been evaluated %d times when Run returned", fs[k].forwards.Load())
						}
					}
					ag.SetForceSyncExecution(forced>>uint(n)&1 == 1)
					return checkForward(g, nodes, fs)
				})
			}
		}
	}
}

// accessors are the ways to look at an operator, which yields (19, -15).
var accessors = []struct {
	name    string
	changes bool
	f       func(o *ag.Operator) error
}{
	{"At", false, func(o *ag.Operator) error {
		return expect("At", []float64{o.At(0).Item().F64(), o.At(1).Item().F64()}, []float64{19, -15})
	}},
	{"Data", false, func(o *ag.Operator) error { return expect("Data", o.Data().F64(), []float64{19, -15}) }},
	{"Dims", false, func(o *ag.Operator) error { return expect("Dims", []float64{float64(o.Dims())}, []float64{2}) }},
	{"HasGrad", false, func(o *ag.Operator) error {
		if o.HasGrad() {
			return fmt.Errorf("gradients before any backward pass")
		}
		return nil
	}},
	{"Grad", false, func(o *ag.Operator) error {
		if g := o.Grad(); g != nil {
			return fmt.Errorf("gradients before any backward pass: %v", g)
		}
		return nil
	}},
	{"RequiresGrad", false, func(o *ag.Operator) error {
		if !o.RequiresGrad() || !o.Value().RequiresGrad() {
			return fmt.Errorf("the operator or its value requires no gradients")
		}
		return nil
	}},
	{"Shape", false, func(o *ag.Operator) error {
		s := o.Shape()
		if len(s) != 2 {
			return fmt.Errorf("shape %v", s)
		}
		return expect("Shape", []float64{float64(s[0]), float64(s[1])}, []float64{2, 1})
	}},
	{"Size", false, func(o *ag.Operator) error { return expect("Size", []float64{float64(o.Size())}, []float64{2}) }},
	{"Value", false, func(o *ag.Operator) error { return expect("Value", data(o), []float64{19, -15}) }},
	{"AccGrad", true, func(o *ag.Operator) error {
		o.RequiresGrad()
		o.AccGrad(vec(1, 2))
		o.AccGrad(vec(1, 2))
		if !o.HasGrad() {
			return fmt.Errorf("no gradients after AccGrad")
		}
		return expect("gradients", grad(o), []float64{2, 4})
	}},
	{"SetAt", true, func(o *ag.Operator) error {
		o.SetAt(vec(4), 1)
		return expect("values", data(o), []float64{19, 4})
	}},
	{"ZeroGrad", true, func(o *ag.Operator) error {
		o.ZeroGrad()
		if o.HasGrad() {
			return fmt.Errorf("gradients after ZeroGrad")
		}
		return nil
	}},
}

func checkForward(g []gnode, nodes []mat.Tensor, fs []*fn) error {
	s := simulate(g)
	for i := len(nodes) - 1; i >= 0; i-- {
		if err := expect(fmt.Sprintf("value of node %d", i), data(nodes[i]), s.val[i]); err != nil {
			return err
		}
		if nodes[i].RequiresGrad() != s.req[i] {
			return fmt.Errorf("RequiresGrad of node %d is %v", i, nodes[i].RequiresGrad())
		}
		if nodes[i].HasGrad() {
			return fmt.Errorf("node %d has gradients", i)
		}
	}
	for k, f := range fs {
		if f != nil && f.forwards.Load() != 1 {
			return fmt.Errorf("the function of operator %d has been evaluated %d times", k, f.forwards.Load())
		}
	}
	return nil
}

// e02: the gradients do not depend on the schedule of the backward pass.
func e02(t *lib.T) {
	t.Rule("every schedule (up to commutation) of Backward on graphs of 1-2 operators (3 in the thorough tier) over 3 leaves, for synchronous and asynchronous forwards, from the last operator and from all of them, run twice; and on chains, diamonds, fans, multiplications and affine functions; gradients are compared with a sequential reference, and each function's backward must run exactly once per pass with its total gradient; operators with up to 70 (130) operands, consumers and roots, and chains of them, for every schedule up to 1 (2) delays")
	t.Assume("the values are small integers, so that floating point addition is exact and the sum of the contributions does not depend on their order")
	if Config == "big" {
		e02Wide(t)
		return
	}
	one := func(g []gnode, mask uint, roots []int, twice bool) func() error {
		return func() error {
			nodes, fs := build(g, mask)
			s := simulate(g)
			rounds := 1
			if twice {
				rounds = 2
			}
			for round := 0; round < rounds; round++ {
				var rs []mat.Tensor
				for k, r := range roots {
					gr := []float64{float64(k + 1), -1}
					nodes[r].AccGrad(vec(gr...))
					s.acc(r, gr)
					rs = append(rs, nodes[r])
				}
				if err := ag.Backward(rs...); err != nil {
					return err
				}
				s.backward(g, roots)
				if err := checkGrads(nodes, s); err != nil {
					return fmt.Errorf("round %d: %w", round, err)
				}
				for k, f := range fs {
					if f == nil {
						continue
					}
					if n := int(f.backwards.Load()); n != s.back[k+leaves] {
						return fmt.Errorf("round %d: the backward function of operator %d has run %d times in all, expected %d", round, k, n, s.back[k+leaves])
					}
					if n := len(f.gys); n > 0 {
						if err := expect("gradient passed to the function", f.gys[n-1], s.grad[k+leaves]); err != nil {
							return err
						}
					}
				}
			}
			return nil
		}
	}
	for n := 1; n <= lib.Pick(t, 2, 3); n++ {
		n := n
		graphs(n, "*f+-", func(g []gnode) {
			masks := []uint{0, 1<<uint(n) - 1}
			for _, mask := range masks {
				last := []int{leaves + n - 1}
				scenario(t, "backward", fmt.Sprintf("%s/async=%b/last", graphName(g), mask), one(g, mask, last, false))
				if n > 1 && n < 3 && mask == 0 {
					var every []int
					for i := 0; i < n; i++ {
						every = append(every, leaves+i)
					}
					scenario(t, "backward", fmt.Sprintf("%s/async=%b/every", graphName(g), mask), one(g, mask, every, false))
				}
				if n < 3 && mask == 0 {
					scenario(t, "backward", fmt.Sprintf("%s/async=%b/twice", graphName(g), mask), one(g, mask, last, true))
				}
			}
		})
	}
	special := []struct {
		name  string
		g     []gnode
		roots []int
	}{
		{"chain", []gnode{{'f', 0, 2}, {'f', 3, 2}, {'f', 4, 2}}, []int{5}},
		{"diamond", []gnode{{'f', 0, 1}, {'+', 3, 0}, {'-', 3, 1}, {'*', 4, 5}}, []int{6}},
		{"two-roots", []gnode{{'f', 0, 1}, {'+', 3, 0}, {'f', 3, 1}}, []int{4, 5}},
		{"square", []gnode{{'f', 0, 1}, {'*', 3, 3}}, []int{4}},
		{"root-inside", []gnode{{'f', 0, 1}, {'+', 3, 0}}, []int{3, 4}},
		{"constant-branch", []gnode{{'f', 2, 2}, {'*', 3, 0}}, []int{4}},
	}
	for _, sp := range special {
		for _, mask := range []uint{0, 15} {
			scenario(t, "shapes", fmt.Sprintf("%s/async=%b", sp.name, mask), one(sp.g, mask&(1<<uint(len(sp.g))-1), sp.roots, false))
		}
	}
	// a root given more than once
	scenario(t, "roots", "duplicate", func() error {
		x := gvec(3)
		y := ag.Prod(x, x)
		if err := ag.Backward(y, y); err != nil {
			return err
		}
		return expect("gradient", grad(x), []float64{6})
	})
	// functions with goroutines of their own
	mx := func(r, c int, vs ...float64) mat.Matrix {
		return mat.NewDense[float64](mat.WithShape(r, c), mat.WithBacking(vs), mat.WithGrad(true))
	}
	for _, shared := range []bool{false, true} {
		shared := shared
		scenario(t, "inner", fmt.Sprintf("mul/shared=%v", shared), func() error {
			w := mx(2, 2, 1, 2, 3, 4)
			x := mx(2, 2, 5, 6, 7, 8)
			if shared {
				x = w
			}
			y := ag.Mul(w, x)
			y.AccGrad(mat.NewDense[float64](mat.WithShape(2, 2), mat.WithBacking([]float64{1, 0, 0, 1})))
			if err := ag.Backward(y); err != nil {
				return err
			}
			if shared {
				return expect("gradient", grad(w), []float64{2, 6, 4, 8})
			}
			return first(expect("gradient of w", grad(w), []float64{5, 7, 6, 8}), expect("gradient of x", grad(x), []float64{1, 3, 2, 4}))
		})
		scenario(t, "inner", fmt.Sprintf("mult/shared=%v", shared), func() error {
			if shared {
				w := mx(2, 1, 3, 4)
				if err := ag.Backward(ag.MulT(w, w)); err != nil {
					return err
				}
				return expect("gradient", grad(w), []float64{6, 8})
			}
			w := mx(2, 2, 1, 2, 3, 4)
			x := mx(2, 1, 5, 6)
			y := ag.MulT(w, x)
			y.AccGrad(mx(2, 1, 1, 2))
			if err := ag.Backward(y); err != nil {
				return err
			}
			return first(expect("gradient of w", grad(w), []float64{5, 10, 6, 12}), expect("gradient of x", grad(x), []float64{5, 11}))
		})
		scenario(t, "inner", fmt.Sprintf("affine/shared=%v", shared), func() error {
			b, w, x := mx(2, 1, 1, 1), mx(2, 2, 1, 2, 3, 4), mx(2, 1, 5, 6)
			u, v := mx(2, 2, 1, 0, 0, 1), mx(2, 1, 7, 8)
			if shared {
				u, v = w, x
			}
			y := ag.Affine(b, w, x, u, v)
			y.AccGrad(mx(2, 1, 1, 2))
			if err := ag.Backward(y); err != nil {
				return err
			}
			if err := expect("gradient of b", grad(b), []float64{1, 2}); err != nil {
				return err
			}
			if shared {
				return first(expect("gradient of w", grad(w), []float64{10, 12, 20, 24}), expect("gradient of x", grad(x), []float64{14, 20}))
			}
			return first(
				expect("gradient of w", grad(w), []float64{5, 6, 10, 12}), expect("gradient of x", grad(x), []float64{7, 10}),
				expect("gradient of u", grad(u), []float64{7, 8, 14, 16}), expect("gradient of v", grad(v), []float64{1, 2}))
		})
	}
}

// many is a function of many operands: the sum of them, the i-th one i+1 times.
type many struct {
	xs        []mat.Tensor
	forwards  atomic.Int64
	backwards atomic.Int64
	gy        []float64
}

func (f *many) Operands() []mat.Tensor { return f.xs }

func (f *many) Forward() (mat.Tensor, error) {
	f.forwards.Add(1)
	sum := 0.0
	for i, x := range f.xs {
		sum += float64(i+1) * data(x)[0]
	}
	return vec(sum), nil
}

func (f *many) Backward(gy mat.Tensor) error {
	f.backwards.Add(1)
	f.gy = data(gy)
	for i, x := range f.xs {
		if x.RequiresGrad() {
			x.AccGrad(vec(float64(i+1) * f.gy[0]))
		}
	}
	return nil
}

// e01Wide: operators with many operands, many consumers and many readers.
func e01Wide(t *lib.T) {
	for _, n := range lib.Pick(t, []int{5, 17, 40, 70}, []int{5, 9, 17, 33, 65, 130}) {
		n := n
		for _, readers := range []int{1, 3, n} {
			readers := readers
			for _, shape := range []string{"fan", "chain", "join", "pyramid"} {
				shape := shape
				wide(t, "wide", fmt.Sprintf("%s/%d/readers=%d", shape, n, readers), func() error {
					leaf := gvec(2)
					nodes, values := []mat.Tensor{leaf}, []float64{2}
					var fs []*many
					op := func(is ...int) {
						f := &many{}
						v := 0.0
						for k, i := range is {
							f.xs = append(f.xs, nodes[i])
							v += float64(k+1) * values[i]
						}
						fs = append(fs, f)
						nodes, values = append(nodes, ag.NewOperator(f).Run(true)), append(values, v)
					}
					for i := 0; i < n; i++ {
						switch shape {
						case "fan":
							op(0)
						case "chain":
							op(i)
						case "join":
							op(0, i)
						case "pyramid":
							op(i/2, 0, i/2)
						}
					}
					var is []int
					for i := range nodes {
						is = append(is, i)
					}
					if shape == "fan" || shape == "join" {
						op(is...)
					}
					errs := make([]error, readers)
					var rs []func()
					for r := 0; r < readers; r++ {
						r := r
						rs = append(rs, func() {
							i := len(nodes) - 1 - r%len(nodes)
							errs[r] = expect(fmt.Sprintf("value of node %d", i), data(nodes[i]), []float64{values[i]})
						})
					}
					all(rs...)
					for i, x := range nodes {
						errs = append(errs, expect(fmt.Sprintf("value of node %d", i), data(x), []float64{values[i]}))
					}
					for i, f := range fs {
						if c := f.forwards.Load(); c != 1 {
							errs = append(errs, fmt.Errorf("the forward function of operator %d has run %d times", i+1, c))
						}
					}
					return first(errs...)
				})
			}
		}
	}
}

// e02Wide: operators with many operands and many consumers, long chains.
func e02Wide(t *lib.T) {
	run := func(async bool, mk func(op func(xs ...mat.Tensor) int, node func(i int) mat.Tensor) []int) func() error {
		return func() error {
			leaf := gvec(2)
			nodes := []mat.Tensor{leaf}
			fs := []*many{nil}
			op := func(xs ...mat.Tensor) int {
				f := &many{xs: xs}
				fs = append(fs, f)
				nodes = append(nodes, ag.NewOperator(f).Run(async))
				return len(nodes) - 1
			}
			roots := mk(op, func(i int) mat.Tensor { return nodes[i] })
			index := map[mat.Tensor]int{}
			for i, n := range nodes {
				index[n] = i
			}
			// values and gradients in order
			values, grads := make([]float64, len(nodes)), make([]float64, len(nodes))
			reached := make([]bool, len(nodes))
			values[0] = 2
			for i := 1; i < len(nodes); i++ {
				for k, x := range fs[i].xs {
					values[i] += float64(k+1) * values[index[x]]
				}
			}
			var rs []mat.Tensor
			for _, r := range roots {
				rs = append(rs, nodes[r])
				grads[r]++
				reached[r] = true
			}
			for i := len(nodes) - 1; i > 0; i-- {
				if !reached[i] {
					continue
				}
				for k, x := range fs[i].xs {
					grads[index[x]] += float64(k+1) * grads[i]
					reached[index[x]] = true
				}
			}
			if err := ag.Backward(rs...); err != nil {
				return err
			}
			for i, n := range nodes {
				if err := expect(fmt.Sprintf("value of node %d", i), data(n), []float64{values[i]}); err != nil {
					return err
				}
				if !reached[i] {
					if n.HasGrad() {
						return fmt.Errorf("node %d has gradients", i)
					}
					continue
				}
				if err := expect(fmt.Sprintf("gradient of node %d", i), grad(n), []float64{grads[i]}); err != nil {
					return err
				}
				if i == 0 {
					continue
				}
				if n := fs[i].backwards.Load(); n != 1 {
					return fmt.Errorf("the backward function of operator %d has run %d times", i, n)
				}
				if err := expect(fmt.Sprintf("gradient given to operator %d", i), fs[i].gy, []float64{grads[i]}); err != nil {
					return err
				}
			}
			return nil
		}
	}
	type opf = func(xs ...mat.Tensor) int
	type nodef = func(i int) mat.Tensor
	for _, n := range lib.Pick(t, []int{5, 17, 40, 70}, []int{5, 9, 17, 33, 65, 130}) {
		n := n
		for _, async := range []bool{false, true} {
			async := async
			name := func(s string) string { return fmt.Sprintf("%s/%d/async=%v", s, n, async) }
			// one operator over many leaves, consumed by several others
			repeat := func(x mat.Tensor) (xs []mat.Tensor) {
				for i := 0; i < n; i++ {
					xs = append(xs, x)
				}
				return xs
			}
			wide(t, "wide", name("operands"), run(async, func(op opf, node nodef) []int {
				w := op(repeat(node(0))...)
				a := op(node(w))
				b := op(node(w), node(a))
				c := op(node(w))
				return []int{op(node(a), node(c), node(b))}
			}))
			wide(t, "wide", name("nested"), run(async, func(op opf, node nodef) []int {
				var xs []mat.Tensor
				for i := 0; i < n; i++ {
					xs = append(xs, node(op(node(0))))
				}
				a := op(xs...)
				b := op(append(xs[1:len(xs):len(xs)], node(a))...)
				c := op(append([]mat.Tensor{node(a)}, xs...)...)
				return []int{op(node(b), node(a), node(c))}
			}))
			wide(t, "wide", name("consumers"), run(async, func(op opf, node nodef) []int {
				x := op(node(0))
				var xs []mat.Tensor
				for i := 0; i < n; i++ {
					xs = append(xs, node(op(node(x))))
				}
				return []int{op(xs...)}
			}))
			wide(t, "wide", name("roots"), run(async, func(op opf, node nodef) (roots []int) {
				x := op(node(0))
				for i := 0; i < n; i++ {
					roots = append(roots, op(node(x)))
				}
				return roots
			}))
			wide(t, "wide", name("chain"), run(async, func(op opf, node nodef) []int {
				x := 0
				for i := 0; i < n; i++ {
					x = op(node(x))
				}
				return []int{x}
			}))
			wide(t, "wide", name("ladder"), run(async, func(op opf, node nodef) []int {
				x, y := op(node(0)), op(node(0))
				for i := 0; i < n && i < 16; i++ {
					x, y = op(node(y)), op(node(x), node(y))
				}
				return []int{op(node(y), node(x))}
			}))
		}
	}
}

func checkGrads(nodes []mat.Tensor, s *sim) error {
	for i, n := range nodes {
		if s.grad[i] == nil {
			if n.HasGrad() {
				return fmt.Errorf("node %d has gradients", i)
			}
			continue
		}
		if err := expect(fmt.Sprintf("gradient of node %d", i), grad(n), s.grad[i]); err != nil {
			return err
		}
	}
	return nil
}

// e04: concurrent training over shared parameters loses nothing.
func e04(t *lib.T) {
	t.Rule("every schedule (up to commutation) of 2-3 goroutines which each build a graph over shared leaves or operators and run Backward, and of 2-3 goroutines with sequences of 1-2 of AccGrad, ZeroGrad, HasGrad, Grad on one matrix; no contribution to the gradients is lost or counted twice")
	t.Assume("the values are small integers, so that the sum of the contributions does not depend on their order")
	for workers := 2; workers <= lib.Pick(t, 2, 3); workers++ {
		for depth := 1; depth <= 2; depth++ {
			for _, async := range []bool{false, true} {
				workers, depth, async := workers, depth, async
				scenario(t, "examples", fmt.Sprintf("%d/depth=%d/async=%v", workers, depth, async), func() error {
					w := gvec(2, 3)
					want := []float64{0, 0}
					errs := make([]error, workers)
					var fs []func()
					for k := 0; k < workers; k++ {
						k := k
						v := float64(k + 1)
						fs = append(fs, func() {
							var y mat.Tensor = ag.NewOperator(gradfn.NewProd[mat.Tensor](w, vec(v, -v))).Run(async)
							for d := 1; d < depth; d++ {
								y = ag.NewOperator(gradfn.NewAdd[mat.Tensor](y, w)).Run(async)
							}
							y.AccGrad(vec(1, 10))
							errs[k] = ag.Backward(y)
						})
						want[0] += v + float64(depth-1)
						want[1] += 10 * (-v + float64(depth-1))
					}
					all(fs...)
					if err := first(errs...); err != nil {
						return err
					}
					return expect("gradient", grad(w), want)
				})
			}
		}
	}
	// a linear layer: the backward functions have goroutines of their own
	scenario(t, "examples", "affine", func() error {
		w := mat.NewDense[float64](mat.WithShape(1, 2), mat.WithBacking([]float64{1, 2}), mat.WithGrad(true))
		b := gvec(1)
		errs := make([]error, 2)
		run := func(k int) func() {
			return func() {
				y := ag.Affine(b, w, vec(float64(k+1), 3))
				errs[k] = ag.Backward(y)
			}
		}
		all(run(0), run(1))
		return first(errs[0], errs[1], expect("gradient of w", grad(w), []float64{3, 6}), expect("gradient of b", grad(b), []float64{2}))
	})
	// the operations over the gradients of a matrix, against all the sequential orders
	opNames := []string{"acc1", "acc10", "zero", "has", "grad"}
	apply := func(o int, m mat.Matrix) string {
		switch o {
		case 0:
			m.AccGrad(vec(1))
		case 1:
			m.AccGrad(vec(10))
		case 2:
			m.ZeroGrad()
		case 3:
			return fmt.Sprint(m.HasGrad())
		case 4:
			g := m.Grad()
			return fmt.Sprint(g == nil)
		}
		return ""
	}
	model := func(o int, g *float64, has *bool) string {
		switch o {
		case 0:
			*g, *has = *g+1, true
		case 1:
			*g, *has = *g+10, true
		case 2:
			*g, *has = 0, false
		case 3:
			return fmt.Sprint(*has)
		case 4:
			return fmt.Sprint(!*has)
		}
		return ""
	}
	prog := func(name string, p [][]int) {
		// the outcomes of the sequential orders
		legal := map[string]bool{}
		pos := make([]int, len(p))
		res := make([][]string, len(p))
		var rec func(g float64, has bool)
		rec = func(g float64, has bool) {
			done := true
			for k := range p {
				if pos[k] == len(p[k]) {
					continue
				}
				done = false
				g2, h2 := g, has
				r := model(p[k][pos[k]], &g2, &h2)
				pos[k]++
				res[k] = append(res[k], r)
				rec(g2, h2)
				pos[k]--
				res[k] = res[k][:len(res[k])-1]
			}
			if done {
				legal[fmt.Sprint(res, has, g)] = true
			}
		}
		rec(0, false)
		scenario(t, "operations", name, func() error {
			m := vec(7)
			out := make([][]string, len(p))
			var fs []func()
			for k := range p {
				k := k
				fs = append(fs, func() {
					for _, o := range p[k] {
						out[k] = append(out[k], apply(o, m))
					}
				})
			}
			all(fs...)
			g := 0.0
			if m.HasGrad() {
				g = grad(m)[0]
			}
			if o := fmt.Sprint(out, m.HasGrad(), g); !legal[o] {
				return fmt.Errorf("outcome %s, which no sequential order has", o)
			}
			return nil
		})
	}
	n := len(opNames)
	for a := 0; a < n; a++ {
		for b := a; b < n; b++ {
			prog(opNames[a]+"|"+opNames[b], [][]int{{a}, {b}})
			for c := 0; c < n; c++ {
				if c >= b {
					prog(opNames[a]+"|"+opNames[b]+"|"+opNames[c], [][]int{{a}, {b}, {c}})
				}
				prog(opNames[a]+","+opNames[b]+"|"+opNames[c], [][]int{{a, b}, {c}})
				if b != a {
					prog(opNames[b]+","+opNames[a]+"|"+opNames[c], [][]int{{b, a}, {c}})
				}
				for d := c; d < n; d++ {
					prog(opNames[a]+","+opNames[b]+"|"+opNames[c]+","+opNames[d], [][]int{{a, b}, {c, d}})
				}
			}
		}
	}
}
