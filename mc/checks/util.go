// Package checks holds the explorations which drive the exported API of the
// real code over bounded spaces of inputs, histories and faults.
package checks

import (
	"fmt"
	"math"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
	"github.com/nlpodyssey/spago/verifmc/lib"
)

// Registry maps the properties to their explorations.
var Registry = map[string]func(*lib.T){}

// Scratch is a directory which belongs to this process only.
var Scratch string

// Config is the name of the configuration which is being explored.
var Config string

// DT is a data type, 32 or 64.
type DT int

var dts = []DT{64, 32}

// round rounds v to the precision of the type.
func (d DT) round(v float64) float64 {
	if d == 32 {
		return float64(float32(v))
	}
	return v
}

func (d DT) rounds(vs []float64) []float64 {
	out := make([]float64, len(vs))
	for i, v := range vs {
		out[i] = d.round(v)
	}
	return out
}

// tol returns a 64 bit and a 32 bit tolerance.
func (d DT) tol(t64, t32 float64) float64 {
	if d == 32 {
		return t32
	}
	return t64
}

func conv[T float.DType](vs []float64) []T {
	out := make([]T, len(vs))
	for i, v := range vs {
		out[i] = T(v)
	}
	return out
}

// mk makes a matrix.
func (d DT) mk(r, c int, vs []float64, opts ...mat.OptionsFunc) mat.Matrix {
	if d == 32 {
		return mat.NewDense[float32](append([]mat.OptionsFunc{mat.WithShape(r, c), mat.WithBacking(conv[float32](vs))}, opts...)...)
	}
	return mat.NewDense[float64](append([]mat.OptionsFunc{mat.WithShape(r, c), mat.WithBacking(conv[float64](vs))}, opts...)...)
}

// g makes a matrix which requires gradients.
func (d DT) g(r, c int, vs []float64) mat.Matrix { return d.mk(r, c, vs, mat.WithGrad(true)) }

// scalar makes a 1×1 matrix.
func (d DT) scalar(v float64) mat.Matrix { return d.mk(1, 1, []float64{v}) }

const guardValue = 12345.5

// guarded makes a matrix whose backing data has an offset (so that it might be
// not aligned) and is surrounded by guards; check reports whether the guards
// have been overwritten.
func (d DT) guarded(r, c int, vs []float64, off int) (m mat.Matrix, check func() error) {
	if d == 32 {
		return guardedT[float32](r, c, vs, off)
	}
	return guardedT[float64](r, c, vs, off)
}

func guardedT[T float.DType](r, c int, vs []float64, off int) (mat.Matrix, func() error) {
	n := len(vs)
	buf := make([]T, off+n+16)
	for i := range buf {
		buf[i] = guardValue
	}
	for i, v := range vs {
		buf[off+i] = T(v)
	}
	m := mat.NewDense[T](mat.WithShape(r, c), mat.WithBacking(buf[off:off+n:off+n]))
	return m, func() error {
		for i := range buf {
			if (i < off || i >= off+n) && buf[i] != guardValue {
				return fmt.Errorf("memory outside of the matrix has been overwritten, at offset %d of %d elements", i-off, n)
			}
		}
		return nil
	}
}

// vals returns a copy of the values of a tensor.
func vals(t mat.Tensor) []float64 {
	src := t.Value().Data().F64()
	out := make([]float64, len(src))
	copy(out, src)
	return out
}

func dims(t mat.Tensor) (int, int) {
	s := t.Value().Shape()
	return s[0], s[1]
}

// ref is the model of a matrix.
type ref struct {
	r, c int
	v    []float64
}

func newRef(r, c int) ref { return ref{r, c, make([]float64, r*c)} }

func (m ref) clone() ref { return ref{m.r, m.c, append([]float64(nil), m.v...)} }

func (m ref) at(i, j int) float64 { return m.v[i*m.c+j] }

func (m ref) round(d DT) ref { return ref{m.r, m.c, d.rounds(m.v)} }

func (m ref) apply(f func(float64) float64) ref {
	o := m.clone()
	for i, v := range o.v {
		o.v[i] = f(v)
	}
	return o
}

func (m ref) t() ref {
	o := newRef(m.c, m.r)
	for i := 0; i < m.r; i++ {
		for j := 0; j < m.c; j++ {
			o.v[j*m.r+i] = m.at(i, j)
		}
	}
	return o
}

func mulRef(a, b ref) ref {
	o := newRef(a.r, b.c)
	for i := 0; i < a.r; i++ {
		for j := 0; j < b.c; j++ {
			s := 0.0
			for k := 0; k < a.c; k++ {
				s += a.at(i, k) * b.at(k, j)
			}
			o.v[i*b.c+j] = s
		}
	}
	return o
}

func zipRef(a, b ref, f func(x, y float64) float64) ref {
	o := a.clone()
	for i := range o.v {
		o.v[i] = f(a.v[i], b.v[i])
	}
	return o
}

func (m ref) sum() float64 {
	s := 0.0
	for _, v := range m.v {
		s += v
	}
	return s
}

func (m ref) nonZeros() int {
	n := 0
	for _, v := range m.v {
		if v != 0 {
			n++
		}
	}
	return n
}

func (m ref) absSum() float64 {
	s := 0.0
	for _, v := range m.v {
		s += math.Abs(v)
	}
	return s
}

// like makes the matrix of a model.
func (d DT) like(m ref) mat.Matrix { return d.mk(m.r, m.c, m.v) }

// refOf returns the model of a tensor.
func refOf(t mat.Tensor) ref {
	r, c := dims(t)
	return ref{r, c, vals(t)}
}

// same compares a tensor with its model.
func same(got mat.Tensor, want ref, rel, abs float64) error {
	if got == nil {
		return fmt.Errorf("got nil, expected a %d×%d matrix", want.r, want.c)
	}
	s := got.Value().Shape()
	if len(s) != 2 || s[0] != want.r || s[1] != want.c {
		return fmt.Errorf("got shape %v, expected [%d %d]", s, want.r, want.c)
	}
	if got.Value().Size() != want.r*want.c {
		return fmt.Errorf("size %d of shape %v", got.Value().Size(), s)
	}
	return lib.CloseSlices(vals(got), want.v, rel, abs)
}

// exactly is same without tolerance (but -0 equals 0).
func exactly(got mat.Tensor, want ref) error { return same(got, want, 0, 0) }

// sameDT checks the data type of a matrix.
func sameDT(m mat.Tensor, d DT) error {
	bits := m.Value().Data().BitSize()
	if bits != int(d) {
		return fmt.Errorf("got %d bit values, expected %d", bits, int(d))
	}
	return nil
}

// ramp returns distinct values, of both signs, which are exact in both types.
func ramp(n int) []float64 {
	out := make([]float64, n)
	for i := range out {
		v := float64(i+1) * 0.25
		if i%3 == 1 {
			v = -v
		}
		out[i] = v
	}
	return out
}

// ramp2 is another ramp, without zeros.
func ramp2(n int) []float64 {
	out := make([]float64, n)
	for i := range out {
		v := 0.5 + float64((i*7)%11)*0.125
		if i%2 == 1 {
			v = -v
		}
		out[i] = v
	}
	return out
}

// positive returns distinct positive values.
func positive(n int) []float64 {
	out := make([]float64, n)
	for i := range out {
		out[i] = 0.125 + float64((i*5)%17)*0.375 + float64(i)/64
	}
	return out
}

func rampRef(r, c int) ref { return ref{r, c, ramp(r * c)} }

// shapes returns all the shapes up to the given sizes, and some larger ones.
func shapes(max int, zero bool, extra ...[2]int) [][2]int {
	var out [][2]int
	from := 1
	if zero {
		from = 0
	}
	for r := from; r <= max; r++ {
		for c := from; c <= max; c++ {
			out = append(out, [2]int{r, c})
		}
	}
	return append(out, extra...)
}

func errf(format string, args ...any) error { return fmt.Errorf(format, args...) }

// first returns the first error.
func first(errs ...error) error {
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}

// tag adds a context to an error.
func tag(what string, err error) error {
	if err == nil {
		return nil
	}
	return fmt.Errorf("%s: %w", what, err)
}

func fmtVals(x []float64) string {
	if len(x) > 40 {
		return fmt.Sprintf("%v... (%d values)", x[:40], len(x))
	}
	return fmt.Sprint(x)
}
