package checks

import (
	"fmt"
	"sync/atomic"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/verifmc/lib"
)

func init() { Registry["E03"] = e03 }

// The values of a graph: x is a matrix and p a parameter which require
// gradients, z requires none, b is a buffer, sx blocks the gradients of x, o1
// is an operator, s1 blocks its gradients, o2 is another operator.
const (
	vX = iota
	vP
	vZ
	vB
	vSX
	vO1
	vS1
	vO2
	nVals
)

var valNames = []string{"x", "p", "z", "b", "sx", "o1", "s1", "o2"}

type eop struct {
	kind byte // + - * n(eg) f(user function)
	a, b int
}

func (o eop) String() string {
	if o.kind == 'n' {
		return "n(" + valNames[o.a] + ")"
	}
	return fmt.Sprintf("%c(%s,%s)", o.kind, valNames[o.a], valNames[o.b])
}

type userFn struct {
	a, b  mat.Tensor
	calls int64
	gy    []float64
}

func (f *userFn) Operands() []mat.Tensor { return []mat.Tensor{f.a, f.b} }

func (f *userFn) Forward() (mat.Tensor, error) {
	return f.a.Value().(mat.Matrix).ProdScalar(2).Add(f.b.Value().(mat.Matrix).ProdScalar(3)), nil
}

func (f *userFn) Backward(gy mat.Tensor) error {
	atomic.AddInt64(&f.calls, 1)
	f.gy = vals(gy)
	if f.a.RequiresGrad() {
		f.a.AccGrad(gy.(mat.Matrix).ProdScalar(2))
	}
	if f.b.RequiresGrad() {
		f.b.AccGrad(gy.(mat.Matrix).ProdScalar(3))
	}
	return nil
}

// eaction is a step of a history.
type eaction struct {
	kind byte // B(ackward) A(ccGrad) Z(eroGrad)
	on   []int
}

func (a eaction) String() string {
	s := string(a.kind)
	for _, o := range a.on {
		s += " " + valNames[o]
	}
	return s
}

type emodel struct {
	ops   [2]eop
	n     int // number of operators
	val   [nVals][]float64
	grad  [nVals][]float64
	req   [nVals]bool
	calls [2]int
	last  [2][]float64
}

func opIndex(i int) int {
	switch i {
	case vO1:
		return 0
	case vO2:
		return 1
	}
	return -1
}

func newModel(size int, ops []eop) *emodel {
	m := &emodel{n: len(ops)}
	base := [nVals][]float64{{2, 3}, {5, -7}, {-1, 4}, {3, 6}, {2, 3}}
	for i := range base[:vO1] {
		m.val[i] = base[i][:size]
	}
	m.req[vX], m.req[vP] = true, true
	set := func(i int, o eop) {
		a, b := m.val[o.a], m.val[o.b]
		out := make([]float64, size)
		for k := range out {
			switch o.kind {
			case '+':
				out[k] = a[k] + b[k]
			case '-':
				out[k] = a[k] - b[k]
			case '*':
				out[k] = a[k] * b[k]
			case 'n':
				out[k] = -a[k]
			case 'f':
				out[k] = 2*a[k] + 3*b[k]
			}
		}
		m.val[i] = out
		m.req[i] = m.req[o.a] || (o.kind != 'n' && m.req[o.b])
	}
	copy(m.ops[:], ops)
	set(vO1, ops[0])
	m.val[vS1] = m.val[vO1]
	if len(ops) > 1 {
		set(vO2, ops[1])
	}
	return m
}

func (m *emodel) acc(i int, g []float64) {
	if m.grad[i] == nil {
		m.grad[i] = make([]float64, len(g))
	}
	for k := range g {
		m.grad[i][k] += g[k]
	}
}

// backward returns false if the pass is refused.
func (m *emodel) backward(roots []int) bool {
	for _, r := range roots {
		if opIndex(r) >= 0 && len(m.val[r]) != 1 && m.grad[r] == nil {
			return false
		}
	}
	var reach [nVals]bool
	for _, r := range roots {
		if opIndex(r) < 0 {
			continue
		}
		if m.grad[r] == nil {
			m.acc(r, []float64{1})
		}
		reach[r] = m.req[r]
	}
	for _, i := range []int{vO2, vO1} {
		if !reach[i] {
			continue
		}
		o := m.ops[opIndex(i)]
		g := append([]float64(nil), m.grad[i]...)
		m.calls[opIndex(i)]++
		m.last[opIndex(i)] = g
		ga, gb := make([]float64, len(g)), make([]float64, len(g))
		for k, v := range g {
			switch o.kind {
			case '+':
				ga[k], gb[k] = v, v
			case '-':
				ga[k], gb[k] = v, -v
			case '*':
				ga[k], gb[k] = v*m.val[o.b][k], v*m.val[o.a][k]
			case 'n':
				ga[k] = -v
			case 'f':
				ga[k], gb[k] = 2*v, 3*v
			}
		}
		if m.req[o.a] {
			m.acc(o.a, ga)
			reach[o.a] = true
		}
		if o.kind != 'n' && m.req[o.b] {
			m.acc(o.b, gb)
			reach[o.b] = true
		}
	}
	return true
}

func ehistory(d DT, size int, ops []eop, acts []eaction) error {
	m := newModel(size, ops)
	var real [nVals]mat.Tensor
	mk := func(i int) mat.Matrix { return d.mk(size, 1, m.val[i]) }
	x := mk(vX)
	x.SetRequiresGrad(true)
	real[vX] = x
	real[vP] = nn.NewParam(mk(vP))
	real[vZ] = mk(vZ)
	real[vB] = nn.Buf(mk(vB))
	real[vSX] = ag.StopGrad(x)
	var fs [2]*userFn
	for k, o := range ops {
		i := []int{vO1, vO2}[k]
		a, b := real[o.a], real[o.b]
		switch o.kind {
		case '+':
			real[i] = ag.Add(a, b)
		case '-':
			real[i] = ag.Sub(a, b)
		case '*':
			real[i] = ag.Prod(a, b)
		case 'n':
			real[i] = ag.Neg(a)
		case 'f':
			fs[k] = &userFn{a: a, b: b}
			real[i] = ag.NewOperator(fs[k]).Run(k == 0)
		}
		if k == 0 {
			real[vS1] = ag.StopGrad(real[vO1])
		}
	}
	check := func(step string) error {
		for i, r := range real {
			if r == nil {
				continue
			}
			if err := exactly(r, ref{size, 1, m.val[i]}); err != nil {
				return errf("%s: the value of %s: %v", step, valNames[i], err)
			}
			if r.RequiresGrad() != m.req[i] {
				return errf("%s: %s requires gradients: %v", step, valNames[i], r.RequiresGrad())
			}
			g := r.Grad()
			if r.HasGrad() != (m.grad[i] != nil) || (g != nil) != (m.grad[i] != nil) {
				return errf("%s: %s has gradients: %v (%v), expected %v", step, valNames[i], r.HasGrad(), g, m.grad[i])
			}
			if g != nil {
				if err := exactly(g, ref{size, 1, m.grad[i]}); err != nil {
					return errf("%s: the gradients of %s: %v", step, valNames[i], err)
				}
			}
		}
		for k, f := range fs {
			if f == nil {
				continue
			}
			if int(f.calls) != m.calls[k] {
				return errf("%s: the backward function of operator %d ran %d times, expected %d", step, k+1, f.calls, m.calls[k])
			}
			if m.calls[k] > 0 {
				if err := lib.CloseSlices(f.gy, m.last[k], 0, 0); err != nil {
					return errf("%s: the gradient given to the backward function of operator %d: %v", step, k+1, err)
				}
			}
		}
		return nil
	}
	for s, a := range acts {
		switch a.kind {
		case 'B':
			var roots []mat.Tensor
			for _, r := range a.on {
				roots = append(roots, real[r])
			}
			ok := m.backward(a.on)
			// a refusal may be an error or a panic
			var err error
			panicked := lib.Panics(func() { err = ag.Backward(roots...) })
			if ok && (panicked || err != nil) {
				return errf("step %d (%v): backward failed: %v (panic: %v)", s, a, err, panicked)
			}
			if !ok && !panicked && err == nil {
				return errf("step %d (%v): backward without output gradients is not refused", s, a)
			}
		case 'A':
			g := []float64{float64(s + 1), -2}[:size]
			real[a.on[0]].AccGrad(d.mk(size, 1, g))
			if a.on[0] != vSX && a.on[0] != vS1 && a.on[0] != vB {
				m.acc(a.on[0], g)
			}
		case 'Z':
			real[a.on[0]].ZeroGrad()
			if a.on[0] != vSX && a.on[0] != vS1 && a.on[0] != vB {
				m.grad[a.on[0]] = nil
			}
		}
		if err := check(fmt.Sprintf("after step %d (%v)", s, a)); err != nil {
			return err
		}
	}
	return nil
}

func e03(t *lib.T) {
	depth := lib.Pick(t, 3, 4)
	t.Rule("every graph of one or two operators (sums, differences, products, negations and user functions) over a matrix, a parameter, a value without gradients, a buffer and detached values × scalars and vectors × every history of up to %d of: Backward from any operator, from both in any order, from one given twice, from a leaf; AccGrad and ZeroGrad on any value, detached ones included; all values, gradients and evaluations of backward functions are compared with a sequential model after every step; functions which report an error, at every place of a chain, evaluated in processes of their own: the error ends the process and no result is seen; non-trivial: at least one accepted backward pass", depth)
	t.Assume("a root which requires no gradients keeps the output gradient which is given to it, or which is implied for scalars")
	failures(t)
	type graph struct {
		ops []eop
	}
	var graphs []graph
	firsts := []eop{
		{'+', vX, vP}, {'+', vX, vX}, {'+', vZ, vP}, {'+', vSX, vX}, {'+', vZ, vZ}, {'+', vB, vX},
		{'*', vX, vP}, {'*', vX, vX}, {'*', vX, vZ}, {'*', vSX, vX}, {'*', vSX, vZ}, {'*', vP, vB},
		{'-', vX, vP}, {'-', vP, vP}, {'n', vX, vX}, {'n', vSX, vSX},
		{'f', vX, vP}, {'f', vP, vX}, {'f', vX, vX}, {'f', vZ, vX}, {'f', vX, vSX}, {'f', vB, vZ},
	}
	for _, f := range firsts {
		graphs = append(graphs, graph{[]eop{f}})
		for _, k := range "+*-f" {
			if !t.Thorough() && k == '-' {
				continue
			}
			for _, a := range []int{vO1, vX, vZ, vS1} {
				for _, b := range []int{vO1, vP, vX} {
					if a != vO1 && b != vO1 && a != vS1 {
						continue
					}
					graphs = append(graphs, graph{[]eop{f, {byte(k), a, b}}})
				}
			}
		}
		graphs = append(graphs, graph{[]eop{f, {'n', vO1, vO1}}})
	}
	for _, g := range graphs {
		acts := []eaction{{'B', []int{vO1}}, {'B', []int{vO1, vO1}}, {'A', []int{vX}}, {'A', []int{vO1}}, {'Z', []int{vX}}, {'Z', []int{vO1}}, {'Z', []int{vP}}}
		if len(g.ops) > 1 {
			acts = append(acts, eaction{'B', []int{vO2}}, eaction{'B', []int{vO2, vO1}}, eaction{'B', []int{vO1, vO2}}, eaction{'B', []int{vO2, vO2}}, eaction{'A', []int{vO2}}, eaction{'Z', []int{vO2}})
		} else {
			acts = append(acts, eaction{'B', []int{vX}}, eaction{'B', []int{vX, vO1}}, eaction{'B', nil}, eaction{'A', []int{vSX}}, eaction{'Z', []int{vSX}}, eaction{'A', []int{vS1}}, eaction{'A', []int{vB}}, eaction{'Z', []int{vS1}}, eaction{'A', []int{vZ}}, eaction{'A', []int{vP}})
		}
		for _, size := range []int{1, 2} {
			hist := make([]eaction, 0, depth)
			var rec func()
			rec = func() {
				if len(hist) > 0 && hist[len(hist)-1].kind == 'B' {
					h := append([]eaction(nil), hist...)
					d := dts[len(h)%2] // the type alternates with the length
					if t.Mine() {
						t.Res.States += int64(len(h))
						t.Res.Transitions += int64(len(h))
						t.Res.Traces++
						t.Run("histories", fmt.Sprintf("%v/size%d/%v", g.ops, size, h), len(h) > 1, func() error { return ehistory(d, size, g.ops, h) })
					}
				}
				if len(hist) == depth {
					return
				}
				for _, a := range acts {
					hist = append(hist, a)
					rec()
					hist = hist[:len(hist)-1]
				}
			}
			rec()
		}
	}
}
