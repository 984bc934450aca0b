package checks

import (
	"fmt"
	"math"
	"strings"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
	"github.com/nlpodyssey/spago/nn/activation"
	"github.com/nlpodyssey/spago/verifmc/lib"
)

func init() { Registry["M07"] = m07 }

// m07Values are the numbers: exact in both precisions or not, beyond the range
// of 32 bits, special.
var m07Values = []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 1 + 1.0/(1<<30), 16777217, 1e39, -1e300, 1e-46, 1e-300, math.MaxFloat32, math.SmallestNonzeroFloat32, math.Inf(1), math.Inf(-1), math.NaN()}

func hexBits(v float64) string { return fmt.Sprintf("%x", math.Float64bits(v)) }

// sameNumber compares bit by bit, but for NaN.
func sameNumber(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || math.IsNaN(a) && math.IsNaN(b)
}

func (d DT) number(v float64) float.Float {
	if d == 32 {
		return float.Interface(float32(v))
	}
	return float.Interface(v)
}

func (d DT) list(vs []float64) float.Slice {
	if d == 32 {
		return float.Make(conv[float32](vs)...)
	}
	return float.Make(vs...)
}

// m07Lists enumerates the lists of up to n numbers.
func m07Lists(values []float64, n int) [][]float64 {
	out := [][]float64{{}}
	level := out
	for i := 0; i < n; i++ {
		var next [][]float64
		for _, l := range level {
			for _, v := range values {
				next = append(next, append(append([]float64(nil), l...), v))
			}
		}
		out = append(out, next...)
		level = next
	}
	return out
}

func m07(t *lib.T) {
	n := lib.Pick(t, 2, 3)
	t.Rule("numbers of an alphabet (exact in 32 bits or not, beyond their range, subnormal, infinite, NaN, zeros of both signs) x {float32,float64}: both precisions, size, printed form; lists: every pair of lists of up to %d of these numbers x precision of each, and lists of up to 40 numbers which differ at each position, by less or more than the tolerance, and of up to 10001 at some of them: conversions, length, equality and comparison within tolerances; matrices: every pair of shapes up to 3x3 and differences at each position; predicates of shapes up to 4x4; the scalar functions at every number and pair of numbers; the names of the activations", n)
	for _, d := range dts {
		for i, v := range m07Values {
			t.Casef("number", true, func() error { return m07Number(d, v) }, "%d/%d/%g", d, i, v)
		}
	}
	lists := m07Lists(m07Values, 2)
	if t.Thorough() {
		lists = append(lists, m07Lists(m07Values[3:9], 3)...)
	}
	deltas := []float64{0, 1e-9, 0.05, 1, 1e30, math.Inf(1)}
	for i, a := range lists {
		for _, da := range dts {
			t.Casef("lists", len(a) > 0, func() error {
				if err := m07List(da, a); err != nil {
					return err
				}
				for _, b := range lists {
					for _, db := range dts {
						if err := m07Pair(da, db, a, b, deltas); err != nil {
							return tag(fmt.Sprintf("%v (%d) and %v (%d)", a, da, b, db), err)
						}
					}
				}
				return nil
			}, "%d/%d", da, i)
		}
	}
	for _, da := range dts {
		for _, db := range dts {
			for l := 1; l <= lib.Pick(t, 40, 80); l++ {
				t.Casef("long", true, func() error {
					a := genMixed(l, l)
					if err := m07Pair(da, db, a, a, deltas); err != nil {
						return err
					}
					for k := 0; k < l; k++ {
						for _, e := range []float64{0.01, 0.1, 5, math.NaN(), math.Inf(1)} {
							b := append([]float64(nil), a...)
							b[k] += e
							if err := first(m07Pair(da, db, a, b, deltas), m07Pair(db, da, b, a, deltas)); err != nil {
								return tag(fmt.Sprintf("difference of %g at %d", e, k), err)
							}
						}
					}
					return m07Pair(da, db, a, a[:l-1], deltas)
				}, "%d/%d/%d", da, db, l)
			}
		}
	}
	for _, da := range dts {
		for _, db := range dts {
			for _, l := range []int{64, 65, 100, 129, 256, 257, 1000, 1025, 4097, 10001} {
				t.Casef("huge", true, func() error {
					a := genLong(l, l)
					if err := fst(m07List(da, a), m07Pair(da, db, a, a, deltas)); err != nil {
						return err
					}
					for _, k := range probes(l) {
						for _, e := range []float64{0.01, 5, math.NaN()} {
							b := append([]float64(nil), a...)
							b[k] += e
							if err := m07Pair(da, db, a, b, deltas); err != nil {
								return tag(fmt.Sprintf("difference of %g at %d", e, k), err)
							}
						}
					}
					return m07Pair(da, db, a, a[:l-1], deltas)
				}, "%d/%d/%d", da, db, l)
			}
		}
	}
	for r := 0; r <= 4; r++ {
		for c := 0; c <= 4; c++ {
			for _, d := range dts {
				t.Casef("matrices", true, func() error { return m07Matrix(d, r, c) }, "%d/%dx%d", d, r, c)
			}
		}
	}
	for i, v := range m07Values {
		t.Casef("functions", true, func() error {
			return first(m07Functions[float64](v), m07Functions[float32](float32(v)))
		}, "%d/%g", i, v)
	}
	t.Casef("constants", true, func() error {
		switch {
		case mat.SmallestNonzero[float32]() != math.SmallestNonzeroFloat32, mat.SmallestNonzero[float64]() != math.SmallestNonzeroFloat64:
			return errf("SmallestNonzero")
		case mat.Pi[float32]() != math.Pi, mat.Pi[float64]() != math.Pi:
			return errf("Pi")
		case !math.IsInf(mat.Inf[float64](1), 1), !math.IsInf(float64(mat.Inf[float32](-1)), -1), !math.IsInf(mat.Inf[float64](0), 1), !math.IsNaN(mat.NaN[float64]()), mat.NaN[float32]() == mat.NaN[float32]():
			return errf("Inf or NaN")
		}
		return nil
	}, "all")
	m07Names(t)
}

func m07Number(d DT, v float64) error {
	v = d.round(v)
	f := d.number(v)
	if f.BitSize() != int(d) {
		return errf("BitSize is %d", f.BitSize())
	}
	if !sameNumber(f.F64(), v) {
		return errf("F64 is %g, expected %g", f.F64(), v)
	}
	if !sameNumber(float64(f.F32()), float64(float32(v))) {
		return errf("F32 is %g, expected %g", f.F32(), float32(v))
	}
	if !sameNumber(float.ValueOf[float64](f), v) || !sameNumber(float64(float.ValueOf[float32](f)), float64(float32(v))) {
		return errf("ValueOf yields %g and %g", float.ValueOf[float64](f), float.ValueOf[float32](f))
	}
	want := fmt.Sprint(v)
	if d == 32 {
		want = fmt.Sprint(float32(v))
	}
	if s := fmt.Sprint(f); s != want {
		return errf("printed as %q, expected %q", s, want)
	}
	// as the only element of a matrix
	m := d.scalar(v)
	if i := m.Item(); !sameNumber(i.F64(), v) || i.BitSize() != int(d) {
		return errf("Item is %v of %d bits", i, i.BitSize())
	}
	return nil
}

func m07List(d DT, vs []float64) error {
	l := d.list(vs)
	if l.Len() != len(vs) || l.BitSize() != int(d) {
		return errf("%d elements of %d bits", l.Len(), l.BitSize())
	}
	f64, f32 := l.F64(), l.F32()
	g64, g32 := float.SliceValueOf[float64](l), float.SliceValueOf[float32](l)
	// compared with itself, and as the elements of a matrix
	equal, near := true, true
	for _, v := range vs {
		v = d.round(v)
		equal = equal && v == v
		near = near && v == v
	}
	if l.Equals(l) != equal || l.InDelta(l, 0.5) != near {
		return errf("compared with itself: equal %v, within 0.5 %v", l.Equals(l), l.InDelta(l, 0.5))
	}
	if len(vs) > 0 {
		m := d.mk(len(vs), 1, vs)
		for name, o := range map[string]mat.Matrix{"itself": m, "its clone": m.Clone()} {
			if mat.Equal(m, o) != equal || mat.InDelta(m, o, 0.5) != near {
				return errf("a matrix compared with %s: equal %v, within 0.5 %v", name, mat.Equal(m, o), mat.InDelta(m, o, 0.5))
			}
		}
	}
	if len(f64) != len(vs) || len(f32) != len(vs) || len(g64) != len(vs) || len(g32) != len(vs) {
		return errf("%d, %d, %d and %d elements, expected %d", len(f64), len(f32), len(g64), len(g32), len(vs))
	}
	for i, v := range vs {
		v = d.round(v)
		w := float64(float32(v))
		if !sameNumber(f64[i], v) || !sameNumber(g64[i], v) {
			return errf("element %d in 64 bits: %s, expected %s", i, hexBits(f64[i]), hexBits(v))
		}
		if !sameNumber(float64(f32[i]), w) || !sameNumber(float64(g32[i]), w) {
			return errf("element %d in 32 bits: %g, expected %g", i, f32[i], w)
		}
	}
	return nil
}

// m07Pair compares two lists.
func m07Pair(da, db DT, a, b []float64, deltas []float64) error {
	equal, dist, nan := len(a) == len(b), 0.0, false
	for i := 0; equal && i < len(a) || i < len(a) && len(a) == len(b); i++ {
		x, y := da.round(a[i]), da.round(db.round(b[i]))
		if x != y {
			equal = false
			d := math.Abs(x - y)
			if da == 32 {
				d = math.Abs(float64(float32(x) - float32(y)))
			}
			nan = nan || math.IsNaN(d)
			dist = math.Max(dist, d)
		}
	}
	la, lb := da.list(a), db.list(b)
	if got := la.Equals(lb); got != equal {
		return errf("Equals is %v", got)
	}
	for _, delta := range deltas {
		want := len(a) == len(b) && !nan && dist <= delta
		if got := la.InDelta(lb, delta); got != want {
			return errf("InDelta %g is %v", delta, got)
		}
	}
	return nil
}

func m07Matrix(d DT, r, c int) error {
	vs := genMixed(r*c, 1)
	m := d.mk(r, c, vs)
	if got := mat.IsVector(m); got != (r == 1 || c == 1) {
		return errf("IsVector is %v", got)
	}
	if got := mat.IsScalar(m); got != (r*c == 1) {
		return errf("IsScalar is %v", got)
	}
	if m.Dims() != 2 || m.Size() != r*c || m.Data().Len() != r*c || m.Data().BitSize() != int(d) {
		return errf("%d dimensions, %d elements, %d elements of %d bits", m.Dims(), m.Size(), m.Data().Len(), m.Data().BitSize())
	}
	for _, p := range []struct {
		what string
		vs   []float64
	}{{"Data in 64 bits", mat.Data[float64](m)}, {"F64", m.Data().F64()}} {
		if err := lib.CloseSlices(p.vs, d.rounds(vs), 0, 0); err != nil {
			return tag(p.what, err)
		}
	}
	if got := mat.Data[float32](m); len(got) != r*c || r*c > 0 && got[r*c-1] != float32(vs[r*c-1]) {
		return errf("Data in 32 bits: %v", got)
	}
	for r2 := 0; r2 <= 4; r2++ {
		for c2 := 0; c2 <= 4; c2++ {
			for _, d2 := range dts {
				o := d2.mk(r2, c2, genMixed(r2*c2, 1))
				same := r == r2 && c == c2
				if got := mat.SameDims(m, o); got != same {
					return errf("SameDims with %d×%d is %v", r2, c2, got)
				}
				exact := same && (d2 == d || d == 32 || r*c == 0)
				if got := mat.Equal(m, o); got != exact {
					return errf("Equal to the %d bit matrix %d×%d is %v", d2, r2, c2, got)
				}
				if got := mat.InDelta(m, o, 1e-6); got != same {
					return errf("InDelta of the %d bit matrix %d×%d is %v", d2, r2, c2, got)
				}
				if !same {
					continue
				}
				for k := 0; k < r*c; k++ {
					ws := append([]float64(nil), vs...)
					ws[k] += 0.25
					o := d2.mk(r, c, ws)
					if mat.Equal(m, o) || mat.InDelta(m, o, 0.24) || !mat.InDelta(m, o, 0.26) {
						return errf("a difference of 0.25 at element %d: equal %v, within 0.24 %v, within 0.26 %v", k, mat.Equal(m, o), mat.InDelta(m, o, 0.24), mat.InDelta(m, o, 0.26))
					}
				}
			}
		}
	}
	return nil
}

// m07Functions are the scalar functions of both types.
func m07Functions[T float.DType](x T) error {
	v := float64(x)
	for _, f := range []struct {
		name string
		f    func(T) T
		def  func(float64) float64
	}{
		{"Cos", mat.Cos[T], math.Cos}, {"Sin", mat.Sin[T], math.Sin}, {"Cosh", mat.Cosh[T], math.Cosh}, {"Sinh", mat.Sinh[T], math.Sinh},
		{"Exp", mat.Exp[T], math.Exp}, {"Abs", mat.Abs[T], math.Abs}, {"Sqrt", mat.Sqrt[T], math.Sqrt}, {"Log", mat.Log[T], math.Log},
		{"Tan", mat.Tan[T], math.Tan}, {"Tanh", mat.Tanh[T], math.Tanh},
		{"Ceil", mat.Ceil[T], math.Ceil}, {"Floor", mat.Floor[T], math.Floor}, {"Round", mat.Round[T], math.Round},
	} {
		got, want := float64(f.f(x)), float64(T(f.def(v)))
		if !sameNumber(got, want) && !(math.Abs(got-want) <= 4e-7*math.Abs(want)) {
			return errf("%s(%g) is %g, expected %g", f.name, v, got, want)
		}
	}
	for _, s := range []int{-1, 0, 1} {
		if mat.IsInf(x, s) != math.IsInf(v, s) {
			return errf("IsInf(%g, %d) is %v", v, s, mat.IsInf(x, s))
		}
	}
	for _, w := range append([]float64{2, -3, 0.5}, m07Values...) {
		y := T(w)
		if got, want := float64(mat.Max(x, y)), math.Max(v, float64(y)); !sameNumber(got, want) {
			return errf("Max(%g, %g) is %g", x, y, got)
		}
		got, want := float64(mat.Pow(x, y)), float64(T(math.Pow(v, float64(y))))
		if !sameNumber(got, want) && !(math.Abs(got-want) <= 4e-7*math.Abs(want)) {
			return errf("Pow(%g, %g) is %g, expected %g", x, y, got, want)
		}
	}
	return nil
}

// m07Names: the names of the activations.
func m07Names(t *lib.T) {
	for act := activation.Identity; act <= activation.SparseMax; act++ {
		name := actNames[act]
		t.Casef("names", true, func() error {
			for _, s := range []string{name, strings.ToLower(name)} {
				if got, err := activation.ParseActivation(s); err != nil || got != act {
					return errf("%q is parsed as %d, %v", s, got, err)
				}
				if got := activation.MustParseActivation(s); got != act {
					return errf("%q is parsed as %d", s, got)
				}
			}
			for _, s := range []string{"", " " + name, name + " ", name + "x", name[1:], name[:len(name)-1]} {
				known := false
				for _, n := range actNames {
					known = known || s == n || s == strings.ToLower(n)
				}
				if known {
					continue
				}
				if got, err := activation.ParseActivation(s); err == nil {
					return errf("%q is parsed as %d", s, got)
				}
				if !lib.Panics(func() { activation.MustParseActivation(s) }) {
					return errf("%q is accepted", s)
				}
			}
			return nil
		}, "%s", name)
	}
}
