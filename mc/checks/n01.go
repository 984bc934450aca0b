package checks

import (
	"context"
	"fmt"
	"sync"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/verifmc/lib"
)

func init() { Registry["N01"] = n01 }

// A structure of models is built together with the list of what a visit has to
// find in it.
type found struct {
	param *nn.Param
	model nn.Model // with what is in it
	in    []found
	any   bool // in is visited in any order (it comes from a map)
	// the parameters come from a custom traversal, which is not explored
	// further, but reported after its parameters
	custom bool
}

type leafModel struct {
	nn.Module
	W *nn.Param
	B *nn.Param
}

type customModel struct {
	nn.Module
	Hidden *nn.Param // not visited
	ps     []*nn.Param
}

func (m *customModel) TraverseParams(f func(*nn.Param)) {
	for _, p := range m.ps {
		f(p)
	}
}

// customPart is not a model.
type customPart struct {
	Hidden *nn.Param
	ps     []*nn.Param
}

func (m *customPart) TraverseParams(f func(*nn.Param)) {
	for _, p := range m.ps {
		f(p)
	}
}

// box has all the kinds of members.
type box struct {
	nn.Module
	Name   string
	P      *nn.Param
	hidden *nn.Param
	M      nn.Model
	Ptr    *box
	Leaf   leafModel
	Part   *customPart
	PS     []*nn.Param
	N      int
	MS     []nn.Model
	Arr    [2]*nn.Param
	ArrM   [2]*leafModel
	Leaves []leafModel
	PMap   map[string]*nn.Param
	MMap   map[int]nn.Model
	Any    any
	T      mat.Tensor
	SM     *sync.Map
	Fs     []float64
	Buf    *nn.Buffer
	Custom *customModel
	Bad    map[float64]*nn.Param // keys of another kind
	Q      *nn.Param
}

// note is neither a model nor a parameter.
type note struct{ Text string }

func newP() *nn.Param { return nn.NewParam(DT(64).scalar(1)) }

func pf(p *nn.Param) found { return found{param: p} }

func newLeaf() (*leafModel, found) {
	m := &leafModel{W: newP(), B: newP()}
	return m, found{model: m, in: []found{pf(m.W), pf(m.B)}}
}

func newCustom(n int) (*customModel, found) {
	m := &customModel{Hidden: newP()}
	f := found{model: m, custom: true}
	for i := 0; i < n; i++ {
		p := newP()
		m.ps = append(m.ps, p)
		f.in = append(f.in, pf(p))
	}
	return m, f
}

func newPart(n int) (*customPart, []found) {
	m := &customPart{Hidden: newP()}
	var f []found
	for i := 0; i < n; i++ {
		p := newP()
		m.ps = append(m.ps, p)
		f = append(f, pf(p))
	}
	return m, f
}

// A variant fills a member of a box. The found values are in the order of the
// members: the position of the variant tells it.
type variant struct {
	name string
	pos  int
	fill func(b *box, depth int) []found
}

// sub makes a model for a member.
func subModels(depth int) []struct {
	name string
	mk   func() (nn.Model, found)
} {
	type S = struct {
		name string
		mk   func() (nn.Model, found)
	}
	out := []S{
		{"leaf", func() (nn.Model, found) { return newLeaf() }},
		{"value", func() (nn.Model, found) {
			l, f := newLeaf()
			f.model = *l
			return *l, f
		}},
		{"halfleaf", func() (nn.Model, found) {
			m := &leafModel{B: newP()}
			return m, found{model: m, in: []found{pf(m.B)}}
		}},
		{"custom", func() (nn.Model, found) { return newCustom(2) }},
	}
	if depth > 0 {
		for _, v := range variants(depth - 1) {
			v := v
			out = append(out, S{"box(" + v.name + ")", func() (nn.Model, found) {
				b, in := newBox([]variant{v}, depth-1)
				return b, found{model: b, in: in}
			}})
		}
	}
	return out
}

var nilLeaf *leafModel

func variants(depth int) []variant {
	out := []variant{
		{"P", 1, func(b *box, _ int) []found { b.P = newP(); return []found{pf(b.P)} }},
		{"hidden", 2, func(b *box, _ int) []found { b.hidden = newP(); return nil }},
		{"Leaf", 5, func(b *box, _ int) []found {
			b.Leaf.B = newP()
			b.Leaf.W = newP()
			return []found{pf(b.Leaf.W), pf(b.Leaf.B)}
		}},
		{"Part", 6, func(b *box, _ int) (f []found) { b.Part, f = newPart(2); return }},
		{"PS", 7, func(b *box, _ int) []found {
			b.PS = []*nn.Param{nil, newP(), newP(), nil, newP()}
			return []found{pf(b.PS[1]), pf(b.PS[2]), pf(b.PS[4])}
		}},
		{"PSempty", 7, func(b *box, _ int) []found { b.PS = []*nn.Param{}; return nil }},
		{"Arr", 10, func(b *box, _ int) []found {
			b.Arr[0], b.Arr[1] = newP(), newP()
			return []found{pf(b.Arr[0]), pf(b.Arr[1])}
		}},
		{"Arr1", 10, func(b *box, _ int) []found { b.Arr[1] = newP(); return []found{pf(b.Arr[1])} }},
		{"ArrM", 11, func(b *box, _ int) []found {
			m, f := newLeaf()
			b.ArrM[1] = m
			return []found{f}
		}},
		{"Leaves", 12, func(b *box, _ int) []found {
			m, f := newLeaf()
			n, g := newLeaf()
			b.Leaves = []leafModel{*m, *n}
			f.model, g.model = *m, *n
			return []found{f, g}
		}},
		{"PMap", 13, func(b *box, _ int) []found {
			b.PMap = map[string]*nn.Param{"a": newP(), "b": newP(), "c": nil}
			return []found{{any: true, in: []found{pf(b.PMap["a"]), pf(b.PMap["b"])}}}
		}},
		{"MMap", 14, func(b *box, _ int) []found {
			m, f := newLeaf()
			n, g := newCustom(1)
			b.MMap = map[int]nn.Model{3: m, -1: n, 7: nil}
			return []found{{any: true, in: []found{f, g}}}
		}},
		{"Any=P", 15, func(b *box, _ int) []found { p := newP(); b.Any = p; return []found{pf(p)} }},
		{"Any=slice", 15, func(b *box, _ int) []found {
			p, q := newP(), newP()
			b.Any = []*nn.Param{p, q}
			return []found{pf(p), pf(q)}
		}},
		{"Any=map", 15, func(b *box, _ int) []found {
			p, q := newP(), newP()
			b.Any = map[string]any{"x": p, "y": q}
			return []found{{any: true, in: []found{pf(p), pf(q)}}}
		}},
		{"Any=part", 15, func(b *box, _ int) []found {
			p, f := newPart(1)
			b.Any = p
			return f
		}},
		{"Any=nil leaf", 15, func(b *box, _ int) []found { b.Any = nilLeaf; return nil }},
		{"Any=others", 15, func(b *box, _ int) []found { b.Any = []any{1, "x"}; return nil }},
		{"Any=struct", 15, func(b *box, _ int) []found { b.Any = struct{ X, Y int }{}; return nil }},
		{"T=P", 16, func(b *box, _ int) []found { p := newP(); b.T = p; return []found{pf(p)} }},
		{"T=matrix", 16, func(b *box, _ int) []found { b.T = DT(64).scalar(2); return nil }},
		{"SM", 17, func(b *box, _ int) []found {
			b.SM = &sync.Map{}
			p := newP()
			m, f := newLeaf()
			b.SM.Store("p", p)
			b.SM.Store(4, m)
			return []found{{any: true, in: []found{pf(p), f}}}
		}},
		{"SM=mixed", 17, func(b *box, _ int) []found {
			b.SM = &sync.Map{}
			var f []found
			for i := 0; i < 9; i++ {
				switch i % 3 {
				case 0:
					b.SM.Store(i, &note{"x"})
				case 1:
					p := newP()
					b.SM.Store(fmt.Sprint(i), p)
					f = append(f, pf(p))
				case 2:
					b.SM.Store(i, i)
				}
			}
			return []found{{any: true, in: f}}
		}},
		{"Any=mixed slice", 15, func(b *box, _ int) []found {
			p, q := newP(), newP()
			m, f := newLeaf()
			b.Any = []any{&note{"x"}, p, 3, note{"y"}, nil, m, "z", nilLeaf, q}
			return []found{pf(p), f, pf(q)}
		}},
		{"Any=mixed map", 15, func(b *box, _ int) []found {
			p, q := newP(), newP()
			m, f := newLeaf()
			b.Any = map[int]any{0: &note{"x"}, 1: p, 2: 3, 3: note{"y"}, 4: nil, 5: m, 6: "z", 7: nilLeaf, 8: q}
			return []found{{any: true, in: []found{pf(p), f, pf(q)}}}
		}},
		{"Any=tensors", 15, func(b *box, _ int) []found {
			p, q := newP(), newP()
			b.Any = []mat.Tensor{DT(64).scalar(1), p, nn.Buf(DT(64).scalar(3)), q, DT(32).scalar(1)}
			return []found{pf(p), pf(q)}
		}},
		{"Fs", 18, func(b *box, _ int) []found { b.Fs = []float64{1, 2}; return nil }},
		{"Buf", 19, func(b *box, _ int) []found { b.Buf = nn.Buf(DT(64).scalar(3)); return nil }},
		{"Custom", 20, func(b *box, _ int) []found {
			m, f := newCustom(2)
			b.Custom = m
			return []found{f}
		}},
		{"Custom0", 20, func(b *box, _ int) []found {
			m, f := newCustom(0)
			b.Custom = m
			return []found{f}
		}},
		{"Q", 22, func(b *box, _ int) []found { b.Q = newP(); return []found{pf(b.Q)} }},
	}
	for _, s := range subModels(depth) {
		s := s
		out = append(out,
			variant{"M=" + s.name, 3, func(b *box, _ int) []found {
				m, f := s.mk()
				b.M = m
				return []found{f}
			}},
			variant{"MS=" + s.name, 9, func(b *box, _ int) []found {
				m, f := s.mk()
				n, g := newLeaf()
				b.MS = []nn.Model{nil, m, n, nilLeaf, m}
				return []found{f, g, f}
			}},
		)
	}
	if depth > 0 {
		for _, v := range variants(depth - 1) {
			v := v
			out = append(out, variant{"Ptr(" + v.name + ")", 4, func(b *box, _ int) []found {
				c, in := newBox([]variant{v}, depth-1)
				b.Ptr = c
				return []found{{model: c, in: in}}
			}})
		}
	}
	return out
}

// manyVariants have many members, some of which are empty or of other kinds.
func manyVariants() (out []variant) {
	for _, n := range []int{33, 70, 130, 300, 1100} {
		n := n
		add := func(name string, pos int, fill func(b *box) []found) {
			out = append(out, variant{fmt.Sprintf("%s*%d", name, n), pos, func(b *box, _ int) []found { return fill(b) }})
		}
		add("PS", 7, func(b *box) (f []found) {
			for i := 0; i < n; i++ {
				if i%3 == 0 {
					b.PS = append(b.PS, nil)
					continue
				}
				p := newP()
				b.PS = append(b.PS, p)
				f = append(f, pf(p))
			}
			return f
		})
		add("Any=mixed", 15, func(b *box) (f []found) {
			var l []any
			for i := 0; i < n; i++ {
				switch i % 5 {
				case 0:
					l = append(l, &note{"x"})
				case 1:
					p := newP()
					l = append(l, p)
					f = append(f, pf(p))
				case 2:
					l = append(l, nn.Buf(DT(64).scalar(3)))
				case 3:
					m, g := newLeaf()
					l = append(l, m)
					f = append(f, g)
				case 4:
					l = append(l, nilLeaf)
				}
			}
			b.Any = l
			return f
		})
		add("MS", 9, func(b *box) (f []found) {
			for i := 0; i < n; i++ {
				if i%4 == 0 {
					b.MS = append(b.MS, nil)
					continue
				}
				m, g := newLeaf()
				b.MS = append(b.MS, m)
				f = append(f, g)
			}
			return f
		})
		if n > 300 {
			continue
		}
		add("PMap", 13, func(b *box) []found {
			b.PMap = map[string]*nn.Param{}
			f := found{any: true}
			for i := 0; i < n; i++ {
				if i%4 == 0 {
					b.PMap[fmt.Sprint(i)] = nil
					continue
				}
				p := newP()
				b.PMap[fmt.Sprint(i)] = p
				f.in = append(f.in, pf(p))
			}
			return []found{f}
		})
		add("MMap", 14, func(b *box) []found {
			b.MMap = map[int]nn.Model{}
			f := found{any: true}
			for i := 0; i < n; i++ {
				if i%4 == 0 {
					b.MMap[i] = nilLeaf
					continue
				}
				m, g := newLeaf()
				b.MMap[i] = m
				f.in = append(f.in, g)
			}
			return []found{f}
		})
		add("SM", 17, func(b *box) []found {
			b.SM = &sync.Map{}
			f := found{any: true}
			for i := 0; i < n; i++ {
				if i%4 == 0 {
					b.SM.Store(i, i)
					continue
				}
				p := newP()
				b.SM.Store(i, p)
				f.in = append(f.in, pf(p))
			}
			return []found{f}
		})
		add("deep", 4, func(b *box) (f []found) {
			c := &b.Ptr
			var models []*box
			for i := 0; i < n; i++ {
				*c = &box{Q: newP()}
				if i%2 == 0 {
					(*c).P = newP()
				}
				models = append(models, *c)
				c = &(*c).Ptr
			}
			var in []found
			for i := n - 1; i >= 0; i-- {
				m := models[i]
				var g []found
				if m.P != nil {
					g = append(g, pf(m.P))
				}
				g = append(g, in...)
				g = append(g, found{model: m.Leaf}, pf(m.Q))
				in = []found{{model: m, in: g}}
			}
			return in
		})
	}
	return out
}

// newBox fills a box; the embedded leaf is always there.
func newBox(vs []variant, depth int) (*box, []found) {
	b := &box{Name: "box", N: 3}
	at := map[int][]found{}
	for _, v := range vs {
		at[v.pos] = v.fill(b, depth)
	}
	leaf := found{model: b.Leaf, in: at[5]}
	at[5] = []found{leaf}
	var out []found
	for pos := 0; pos <= 22; pos++ {
		out = append(out, at[pos]...)
	}
	return b, out
}

// match consumes the visited items which correspond to the expected ones.
func matchParams(want []found, got []*nn.Param, strict bool) ([]*nn.Param, error) {
	for _, f := range want {
		switch {
		case f.param != nil:
			if len(got) == 0 {
				return nil, errf("a parameter has not been visited")
			}
			if got[0] != f.param {
				return nil, errf("a parameter has been visited out of order, or in place of another one")
			}
			got = got[1:]
		case f.any:
			rest := append([]found(nil), f.in...)
			for len(rest) > 0 {
				ok := false
				for i, r := range rest {
					if g, err := matchParams([]found{r}, got, strict); err == nil && (len(g) < len(got) || countParams(r, strict) == 0) {
						got, ok = g, true
						rest = append(append([]found(nil), rest[:i]...), rest[i+1:]...)
						break
					}
				}
				if !ok {
					return nil, errf("a member of a map has not been visited")
				}
			}
		default:
			if strict {
				continue
			}
			var err error
			if got, err = matchParams(f.in, got, strict); err != nil {
				return nil, err
			}
		}
	}
	return got, nil
}

func countParams(f found, strict bool) int {
	if f.param != nil {
		return 1
	}
	if f.model != nil && strict {
		return 0
	}
	n := 0
	for _, g := range f.in {
		n += countParams(g, strict)
	}
	return n
}

func matchModels(want []found, got []nn.Model) ([]nn.Model, error) {
	for _, f := range want {
		switch {
		case f.param != nil:
		case f.any:
			rest := append([]found(nil), f.in...)
			for len(rest) > 0 {
				ok := false
				for i, r := range rest {
					if g, err := matchModels([]found{r}, got); err == nil {
						got, ok = g, true
						rest = append(append([]found(nil), rest[:i]...), rest[i+1:]...)
						break
					}
				}
				if !ok {
					return nil, errf("a model in a map has not been visited")
				}
			}
		default:
			if len(got) == 0 {
				return nil, errf("a model has not been visited")
			}
			if got[0] != f.model {
				return nil, errf("a model (%T) has been visited in place of another one (%T)", got[0], f.model)
			}
			got = got[1:]
			if f.custom {
				continue
			}
			var err error
			if got, err = matchModels(f.in, got); err != nil {
				return nil, err
			}
		}
	}
	return got, nil
}

func allParams(fs []found) []*nn.Param {
	var out []*nn.Param
	for _, f := range fs {
		if f.param != nil {
			out = append(out, f.param)
		}
		out = append(out, allParams(f.in)...)
	}
	return out
}

func n01(t *lib.T) {
	t.Rule("every model structure of the family (a model with any one, and any two, of the members: parameters, models by value, pointer and interface, slices, arrays, maps with string and integer keys, concurrent maps, custom traversals, empty and nil members, members of other types (also among others in a slice or map) and unexported ones; sub-models nested up to the depth, each with any member), the visit of the parameters, the strict visit, the application of a function, the stream (to the end and cancelled at every point) and the reset of gradients compared with the list made while building the structure")
	t.Assume("nested slices, pointers to pointers and structures which are not models are not part of the documented structure of a model; their parameters are not claimed to be visited")
	check := func(vs []variant, depth int) error {
		b, want := newBox(vs, depth)
		return visits(b, want)
	}
	depth := 1
	all := variants(depth)
	flat := variants(0)
	for _, v := range variants(lib.Pick(t, 2, 3)) {
		t.Casef("single", true, func() error { return check([]variant{v}, 3) }, "%s", v.name)
	}
	for i, v := range all {
		others := flat
		if t.Thorough() {
			others = all[i+1:]
		}
		for _, w := range others {
			if v.pos == w.pos {
				continue
			}
			t.Casef("pairs", true, func() error { return check([]variant{v, w}, depth) }, "%s+%s", v.name, w.name)
		}
	}
	if t.Thorough() {
		for i, v := range flat {
			for j, w := range flat[:i] {
				for _, x := range flat[:j] {
					if v.pos == w.pos || v.pos == x.pos || w.pos == x.pos {
						continue
					}
					t.Casef("triples", true, func() error { return check([]variant{v, w, x}, 0) }, "%s+%s+%s", v.name, w.name, x.name)
				}
			}
		}
	}
	// many members
	for _, n := range []int{17, 65, 130, 300} {
		many := []variant{
			{"PS", 7, func(b *box, _ int) (f []found) {
				for i := 0; i < n; i++ {
					p := newP()
					b.PS = append(b.PS, p)
					f = append(f, pf(p))
				}
				return
			}},
			{"MS", 9, func(b *box, _ int) (f []found) {
				for i := 0; i < n; i++ {
					m, g := newLeaf()
					b.MS = append(b.MS, m)
					f = append(f, g)
				}
				return
			}},
			{"PMap", 13, func(b *box, _ int) (f []found) {
				b.PMap = map[string]*nn.Param{}
				for i := 0; i < n; i++ {
					p := newP()
					b.PMap[fmt.Sprint(i)] = p
					f = append(f, pf(p))
				}
				return []found{{any: true, in: f}}
			}},
			{"MMap", 14, func(b *box, _ int) (f []found) {
				b.MMap = map[int]nn.Model{}
				for i := 0; i < n; i++ {
					m, g := newLeaf()
					b.MMap[i*3-7] = m
					f = append(f, g)
				}
				return []found{{any: true, in: f}}
			}},
			{"SM", 17, func(b *box, _ int) (f []found) {
				b.SM = &sync.Map{}
				for i := 0; i < n; i++ {
					p := newP()
					b.SM.Store(i, p)
					f = append(f, pf(p))
				}
				return []found{{any: true, in: f}}
			}},
			{"Part", 6, func(b *box, _ int) (f []found) { b.Part, f = newPart(n); return }},
			{"Custom", 20, func(b *box, _ int) []found {
				m, f := newCustom(n)
				b.Custom = m
				return []found{f}
			}},
		}
		for _, v := range many {
			t.Casef("many", true, func() error { return check([]variant{v}, 0) }, "%s/%d", v.name, n)
		}
		// nested again and again
		t.Casef("deep", true, func() error {
			b, in := newBox([]variant{flat[0]}, 0)
			for i := 0; i < n; i++ {
				inner, innerIn := b, in
				b, in = newBox([]variant{{"Ptr", 4, func(b *box, _ int) []found {
					b.Ptr = inner
					return []found{{model: inner, in: innerIn}}
				}}}, 0)
			}
			return visits(b, in)
		}, "%d", n)
	}
	for _, v := range manyVariants() {
		t.Casef("many", true, func() error { return check([]variant{v}, 0) }, "mixed/%s", v.name)
	}
	// roots of other kinds
	t.Case("roots", "leaf", true, func() error {
		m, f := newLeaf()
		return visits(m, f.in)
	})
	t.Case("roots", "value", true, func() error {
		m, f := newLeaf()
		return visits(*m, f.in)
	})
	t.Case("roots", "half", true, func() error {
		m := &leafModel{B: newP()}
		return visits(m, []found{pf(m.B)})
	})
	t.Case("roots", "custom", true, func() error {
		m, f := newCustom(3)
		var got []*nn.Param
		nn.ForEachParam(m, func(p *nn.Param) { got = append(got, p) })
		if rest, err := matchParams(f.in, got, false); err != nil || len(rest) > 0 {
			return errf("custom traversal: %v, %d left", err, len(rest))
		}
		got = nil
		nn.ForEachParamStrict(m, func(p *nn.Param) { got = append(got, p) })
		if rest, err := matchParams(f.in, got, true); err != nil || len(rest) > 0 {
			return errf("strict custom traversal: %v, %d left", err, len(rest))
		}
		n := 0
		nn.Apply(m, func(x nn.Model) {
			if x == m {
				n++
			}
		})
		if n != 1 {
			return errf("the function has been applied %d times", n)
		}
		return nil
	})
}

func visits(m nn.Model, want []found) error {
	var got, strict []*nn.Param
	nn.ForEachParam(m, func(p *nn.Param) { got = append(got, p) })
	if rest, err := matchParams(want, got, false); err != nil {
		return tag("visit of the parameters", err)
	} else if len(rest) > 0 {
		return errf("visit of the parameters: %d more than expected", len(rest))
	}
	nn.ForEachParamStrict(m, func(p *nn.Param) { strict = append(strict, p) })
	if rest, err := matchParams(want, strict, true); err != nil {
		return tag("strict visit", err)
	} else if len(rest) > 0 {
		return errf("strict visit: %d parameters more than expected", len(rest))
	}
	var models []nn.Model
	nn.Apply(m, func(x nn.Model) { models = append(models, x) })
	root := found{model: m, in: want}
	if rest, err := matchModels([]found{root}, models); err != nil {
		return tag("application", err)
	} else if len(rest) > 0 {
		return errf("application: %d models more than expected", len(rest))
	}
	// streams
	for take := 0; take <= len(got); take++ {
		ctx, cancel := context.WithCancel(context.Background())
		ch := nn.Parameters(m)(ctx)
		var ps []*nn.Param
		for len(ps) < take {
			p, ok := <-ch
			if !ok {
				cancel()
				return errf("the stream is closed after %d parameters of %d", len(ps), len(got))
			}
			ps = append(ps, p)
		}
		if take == len(got) {
			if _, ok := <-ch; ok {
				cancel()
				return errf("the stream has more than %d parameters", len(got))
			}
			if rest, err := matchParams(want, ps, false); err != nil || len(rest) > 0 {
				cancel()
				return errf("stream of parameters: %v, %d more", err, len(rest))
			}
		}
		cancel()
		n := 0
		for range ch { // closed at the end
			n++
		}
		if n > len(got)-take {
			return errf("the stream has given %d parameters after the first %d", n, take)
		}
	}
	// gradients
	ps := allParams(want)
	for _, p := range ps {
		p.AccGrad(DT(64).scalar(1))
	}
	nn.ZeroGrad(m)
	for i, p := range ps {
		if p.HasGrad() {
			return errf("the gradient of parameter %d of %d has not been reset", i, len(ps))
		}
		if v := vals(p); fmt.Sprint(v) != "[1]" {
			return errf("the value of a parameter is %v", v)
		}
	}
	return nil
}
