package checks

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"sort"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/embedding"
	"github.com/nlpodyssey/spago/verifmc/lib"
)

func init() { Registry["N05"] = n05 }

const embSize, embDim = 3, 2

// emb is a table with its model.
type emb struct {
	d     DT
	m     *embedding.Model
	held  []*embedding.Embedding // looked up at the beginning
	vals  [embSize][]float64
	grads [embSize][]float64 // nil: none
	own   [embSize]bool      // the gradients were all given to the row itself
	outer *embHolder
}

// embHolder is a model with a table.
type embHolder struct {
	nn.Module
	Name  string
	Table *embedding.Model
	Other *nn.Param
}

func (e *emb) acc(i int, g []float64) {
	e.own[i] = false
	if e.grads[i] == nil {
		e.grads[i] = make([]float64, embDim)
	}
	for k := range g {
		e.grads[i][k] += g[k]
	}
}

func newEmb(d DT) *emb {
	e := &emb{d: d}
	if d == 32 {
		e.m = embedding.New[float32](embSize, embDim)
	} else {
		e.m = embedding.New[float64](embSize, embDim)
	}
	for i := range e.vals {
		e.vals[i] = []float64{float64(i) + 0.5, -float64(i) * 2}
		d.set(e.m.Weights[i], e.vals[i])
	}
	e.hold()
	return e
}

func (e *emb) hold() {
	e.held = nil
	for i := 0; i < embSize; i++ {
		h, err := e.m.Embedding(i)
		if err != nil {
			panic(err)
		}
		e.held = append(e.held, h)
	}
	e.outer = &embHolder{Table: e.m, Other: nn.NewParam(e.d.scalar(1))}
}

type embOp struct {
	name string
	f    func(e *emb) error
}

func embOps(th bool) []embOp {
	var out []embOp
	add := func(name string, f func(e *emb) error) { out = append(out, embOp{name, f}) }
	vec := func(e *emb, v ...float64) mat.Matrix { return e.d.mk(embDim, 1, v) }
	for i := 0; i < 2; i++ {
		i := i
		add(fmt.Sprintf("acc%d", i), func(e *emb) error {
			xs, err := e.m.Encode([]int{i})
			if err != nil {
				return err
			}
			xs[0].AccGrad(vec(e, 1, 0.5))
			e.acc(i, []float64{1, 0.5})
			return nil
		})
		add(fmt.Sprintf("zero%d", i), func(e *emb) error {
			x, err := e.m.Embedding(i)
			if err != nil {
				return err
			}
			x.ZeroGrad()
			e.grads[i] = nil
			return nil
		})
		add(fmt.Sprintf("row-zero%d", i), func(e *emb) error {
			e.m.Weights[i].ZeroGrad()
			e.grads[i] = nil
			return nil
		})
	}
	add("held-acc1", func(e *emb) error {
		e.held[1].AccGrad(vec(e, 0.25, 4))
		e.acc(1, []float64{0.25, 4})
		return nil
	})
	add("held-acc2", func(e *emb) error {
		e.held[2].AccGrad(vec(e, 2, 2))
		e.acc(2, []float64{2, 2})
		return nil
	})
	add("row-acc1", func(e *emb) error {
		own := e.grads[1] == nil || e.own[1]
		e.m.Weights[1].AccGrad(vec(e, -1, 8))
		e.acc(1, []float64{-1, 8})
		e.own[1] = own
		return nil
	})
	add("graph", func(e *emb) error { // 0 and 2, the latter twice
		xs := e.m.MustEncode([]int{2, 0, 2})
		y := ag.Add(ag.Prod(xs[0], xs[1]), xs[2])
		y.AccGrad(vec(e, 1, 1))
		if err := ag.Backward(y); err != nil {
			return err
		}
		g0, g2 := make([]float64, embDim), make([]float64, embDim)
		for k := range g0 {
			g0[k], g2[k] = e.vals[2][k], e.vals[0][k]+1
		}
		e.acc(0, g0)
		e.acc(2, g2)
		return nil
	})
	add("zero", func(e *emb) error {
		e.m.ZeroGrad()
		for i := range e.grads {
			if e.own[i] && e.m.Weights[i].HasGrad() {
				continue // not visited
			}
			e.grads[i] = nil
		}
		return nil
	})
	add("zero-params", func(e *emb) error {
		nn.ZeroGrad(e.outer)
		for i := range e.grads {
			if e.own[i] && e.m.Weights[i].HasGrad() {
				continue // not visited
			}
			e.grads[i] = nil
		}
		return nil
	})
	add("step", func(e *emb) error { // of an optimizer
		nn.ForEachParam(e.outer, func(p *nn.Param) {
			if p.HasGrad() {
				p.SubInPlace(p.Grad().(mat.Matrix))
				p.ZeroGrad()
			}
		})
		for i, g := range e.grads {
			if e.own[i] && e.m.Weights[i].HasGrad() {
				continue // not visited
			}
			for k := range g {
				e.vals[i] = append([]float64(nil), e.vals[i]...)
				e.vals[i][k] -= g[k]
			}
			e.grads[i] = nil
		}
		return nil
	})
	add("invalid", func(e *emb) error {
		for _, bad := range [][]int{{-1}, {embSize}, {0, embSize}, {1, -1, 0}} {
			if xs, err := e.m.Encode(bad); err == nil || xs != nil {
				return errf("Encode(%v) gives %v, %v", bad, xs, err)
			}
			if x, err := e.m.Embedding(bad[len(bad)-1]); len(bad) == 1 && (err == nil || x != nil) {
				return errf("Embedding(%d) gives %v, %v", bad[0], x, err)
			}
		}
		return nil
	})
	add("set1", func(e *emb) error {
		e.vals[1] = []float64{e.vals[1][0] + 1, 7}
		e.d.set(e.m.Weights[1], e.vals[1])
		return nil
	})
	add("replace0", func(e *emb) error { // a new value, without gradients
		e.vals[0] = []float64{e.vals[0][1] + 2, 3}
		e.m.Weights[0].ReplaceValue(e.d.mk(embDim, 1, e.vals[0], mat.WithGrad(true)))
		e.grads[0] = nil
		return nil
	})
	add("reload", func(e *emb) error { // dump and load
		var buf bytes.Buffer
		if err := gob.NewEncoder(&buf).Encode(e.m); err != nil {
			return err
		}
		m := new(embedding.Model)
		if err := gob.NewDecoder(&buf).Decode(m); err != nil {
			return err
		}
		e.m = m
		e.grads = [embSize][]float64{}
		e.hold()
		return nil
	})
	if th {
		add("encode-all", func(e *emb) error {
			xs, err := e.m.Encode([]int{0, 1, 2, 1})
			if err != nil {
				return err
			}
			for i, k := range []int{0, 1, 2, 1} {
				if err := exactly(xs[i], ref{embDim, 1, e.vals[k]}); err != nil {
					return tag("Encode", err)
				}
			}
			return nil
		})
		add("count", func(e *emb) error { e.m.CountEmbedWithGrad(); return nil })
	}
	return out
}

func (e *emb) compare() error {
	// The gradients of a row which was given all of them itself, none of
	// them through an embedding, need not be reported.
	var want, all []int
	for i, g := range e.grads {
		if g == nil {
			e.own[i] = false
			continue
		}
		all = append(all, i)
		if !e.own[i] {
			want = append(want, i)
		}
	}
	c := e.m.CountEmbedWithGrad()
	if c != len(want) && c != len(all) {
		return errf("%d embeddings with gradients are counted, expected %d", c, len(want))
	}
	if c == len(all) {
		want = all
	}
	for _, m := range []nn.Model{e.m, e.outer} {
		var got []int
		var other int
		nn.ForEachParam(m, func(p *nn.Param) {
			for i, w := range e.m.Weights {
				if p == w {
					got = append(got, i)
					return
				}
			}
			other++
		})
		sort.Ints(got)
		if fmt.Sprint(got) != fmt.Sprint(want) || other > 1 || m == nn.Model(e.m) && other > 0 {
			return errf("the traversal of %T visits the rows %v (and %d other parameters), expected %v", m, got, other, want)
		}
	}
	if e.m.Size != embSize || e.m.Dim != embDim || len(e.m.Weights) != embSize {
		return errf("the size of the table is %d×%d", e.m.Size, e.m.Dim)
	}
	xs, err := e.m.Encode([]int{0, 1, 2})
	if err != nil {
		return err
	}
	for i := range e.vals {
		x, err := e.m.Embedding(i)
		if err != nil {
			return err
		}
		for what, y := range map[string]mat.Tensor{"embedding": x, "encoding": xs[i], "row": e.m.Weights[i], "embedding looked up before": e.held[i]} {
			if err := exactly(y, ref{embDim, 1, e.vals[i]}); err != nil {
				return tag(fmt.Sprintf("%s %d", what, i), err)
			}
			if err := sameDT(y, e.d); err != nil {
				return err
			}
			if !y.RequiresGrad() {
				return errf("%s %d requires no gradients", what, i)
			}
			if y.HasGrad() != (e.grads[i] != nil) {
				return errf("%s %d has gradients: %v, expected %v", what, i, y.HasGrad(), e.grads[i])
			}
			if e.grads[i] != nil {
				if err := exactly(y.Grad(), ref{embDim, 1, e.grads[i]}); err != nil {
					return tag(fmt.Sprintf("gradient of %s %d", what, i), err)
				}
			}
		}
	}
	return nil
}

func n05(t *lib.T) {
	ops := embOps(t.Thorough())
	depth := lib.Pick(t, 4, 5)
	t.Rule("every history of up to %d of %d operations on a table (accumulation through new and old look-ups and through graphs, resets of a row, of the table and of all the parameters, optimisation steps, changed and replaced rows, invalid indices, dump and load), each step compared with a model: values and gradients of every row through every way to look them up, count of rows with gradients, parameters which are visited, alone and within another model; rounds of look-ups, gradients, steps and resets in tables of up to 3000 rows", depth, len(ops))
	hist := make([]int, 0, depth)
	var rec func()
	rec = func() {
		if len(hist) == depth {
			h := append([]int(nil), hist...)
			d := dts[(h[0]+h[1]+h[2])%2]
			if !t.Mine() {
				return
			}
			var names string
			for _, k := range h {
				names += "/" + ops[k].name
			}
			t.Run("histories", fmt.Sprintf("%d%s", d, names), true, func() error {
				e := newEmb(d)
				for step, k := range h {
					if err := ops[k].f(e); err != nil {
						return tag(fmt.Sprintf("step %d (%s)", step, ops[k].name), err)
					}
					t.Res.Transitions++
					// (the model of the steps which are common to histories is compared once)
					if step == len(h)-1 || allZero(h[step+1:]) {
						if err := e.compare(); err != nil {
							return tag(fmt.Sprintf("after step %d (%s)", step, ops[k].name), err)
						}
					}
				}
				t.Res.Traces++
				return nil
			})
			return
		}
		for k := range ops {
			hist = append(hist, k)
			rec()
			hist = hist[:len(hist)-1]
		}
	}
	rec()
	for _, size := range []int{70, 600, 3000} {
		for _, dim := range []int{1, 20} {
			for _, d := range dts {
				t.Casef("large", true, func() error { return n05Large(d, size, dim) }, "%d/%dx%d", d, size, dim)
			}
		}
	}
}

// n05Large goes through rounds of look-ups in a large table.
func n05Large(d DT, size, dim int) error {
	var m *embedding.Model
	if d == 32 {
		m = embedding.New[float32](size, dim)
	} else {
		m = embedding.New[float64](size, dim)
	}
	vals := make([][]float64, size)
	for i := range vals {
		vals[i] = make([]float64, dim)
		for k := range vals[i] {
			vals[i][k] = float64((i*7+k*3)%64) - 16
		}
		d.set(m.Weights[i], vals[i])
	}
	for round := 0; round < 3; round++ {
		var keys []int
		counts := map[int]int{}
		for k := 0; k < size; k++ {
			i := (k*k + k*5 + round) % size
			keys = append(keys, i)
			counts[i]++
		}
		for _, pos := range []int{0, 1, size / 2, size - 2, size - 1} {
			for _, wrong := range []int{-1, size, -size, size + pos} {
				bad := append([]int(nil), keys...)
				bad[pos] = wrong
				if xs, err := m.Encode(bad); err == nil || xs != nil {
					return errf("no error for the list of %d keys with %d at position %d", len(bad), wrong, pos)
				}
			}
		}
		xs, err := m.Encode(keys)
		if err != nil {
			return err
		}
		if len(xs) != len(keys) {
			return errf("%d embeddings for %d keys", len(xs), len(keys))
		}
		for k, x := range xs {
			if err := exactly(x, ref{dim, 1, vals[keys[k]]}); err != nil {
				return tag(fmt.Sprintf("embedding %d of the list", k), err)
			}
		}
		y := ag.Sum(xs...)
		gy := make([]float64, dim)
		for k := range gy {
			gy[k] = float64(k%3) - 0.5
		}
		y.AccGrad(d.mk(dim, 1, gy))
		if err := ag.Backward(y); err != nil {
			return err
		}
		if c := m.CountEmbedWithGrad(); c != len(counts) {
			return errf("%d embeddings with gradients are counted, expected %d", c, len(counts))
		}
		visited := 0
		nn.ForEachParam(m, func(p *nn.Param) { visited++ })
		if visited != len(counts) {
			return errf("%d rows are visited, expected %d", visited, len(counts))
		}
		for i := range vals {
			w := m.Weights[i]
			if w.HasGrad() != (counts[i] > 0) {
				return errf("row %d has gradients: %v, expected %v", i, w.HasGrad(), counts[i] > 0)
			}
			if counts[i] == 0 {
				continue
			}
			g := make([]float64, dim)
			for k := range g {
				g[k] = gy[k] * float64(counts[i])
			}
			if err := exactly(w.Grad(), ref{dim, 1, g}); err != nil {
				return tag(fmt.Sprintf("gradient of row %d", i), err)
			}
			if round == 1 {
				for k := range g {
					vals[i][k] -= g[k]
				}
			}
		}
		if round == 1 { // a step of an optimizer
			nn.ForEachParam(m, func(p *nn.Param) {
				p.SubInPlace(p.Grad().(mat.Matrix))
			})
		}
		if round == 0 {
			m.ZeroGrad()
		} else {
			nn.ZeroGrad(m)
		}
		if c := m.CountEmbedWithGrad(); c != 0 {
			return errf("after the reset %d embeddings with gradients are counted", c)
		}
		for i, w := range m.Weights {
			if w.HasGrad() {
				return errf("row %d has gradients after the reset", i)
			}
			if err := exactly(w, ref{dim, 1, vals[i]}); err != nil {
				return tag(fmt.Sprintf("row %d", i), err)
			}
		}
	}
	return nil
}

func allZero(h []int) bool {
	for _, k := range h {
		if k != 0 {
			return false
		}
	}
	return true
}
