package checks

import (
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn/attention/selfattention"
	"github.com/nlpodyssey/spago/verifmc/lib"
)

func init() {
	Registry["N02"] = func(t *lib.T) {
		t.Rule("every recurrent network (simple, GRU, LSTM, LSTM with refined gates) x sizes x sequence lengths x with and without an initial state x processed at once and step by step with the state handed over, every tree of continuations from the states of earlier steps; every bidirectional network (LSTM, GRU, networks of different kinds, two layers) x every merge x sizes x lengths; the sentence-state LSTM x lengths x steps; each x {float32,float64} x asynchronous and synchronous execution, run three times; outputs are compared with the equations, whichever values require gradients, and gradients as for N08")
		zs := append(append(append(zooRecurrent(thorough), zooBranches(thorough)...), zooBirnn(thorough)...), zooSLSTM(thorough)...)
		checkValues(t, zs)
		checkHistories(t, zs)
		checkGrads(t, zooBranches(levelOf(t)))
		checkGrads(t, append(append(zooRecurrent(levelOf(t)), zooBirnn(levelOf(t))...), zooSLSTM(levelOf(t))...))
		for _, zs := range [][]zoo{zooRecurrent(large), zooBranches(large), zooBirnn(large), zooSLSTM(large)} {
			checkLarge(t, zs)
		}
	}
	Registry["N03"] = func(t *lib.T) {
		t.Rule("scaled dot-product attention for every number of queries and keys up to the bound, causal or not; self-attention over every split of a sequence into calls which hand over the cache, every tree of continuations from the caches of earlier calls, causal or not; cross-attention with the keys computed once over every split of the queries; several heads; outputs, weights and caches are compared with the definition, whichever values require gradients, and gradients as for N08")
		for has := 0; has < 4; has++ {
			t.Casef("cache", true, func() error {
				var c selfattention.Cache
				for i := range c {
					if has>>i&1 == 1 {
						c[i] = mat.NewDense[float64](mat.WithShape(1, 1))
					}
				}
				if got := c.HasValues(); got != (has == 3) {
					return errf("values in the cache: %v", got)
				}
				return nil
			}, "cache%d", has)
		}
		checkValues(t, zooAttention(thorough))
		checkHistories(t, zooAttention(thorough))
		checkGrads(t, zooAttention(levelOf(t)))
		checkLarge(t, zooAttention(large))
	}
	Registry["N08"] = n08
}

func n08(t *lib.T) {
	t.Rule("every model of the library x configurations x sequence lengths x {float32,float64} x every subset of the stated family of parameters and inputs which require gradients (all, none, parameters, inputs, each one, all but each one) x gradients given to all the outputs, the first, or the last x inputs which are leaves or operators, leaves with gradients, synchronous execution; gradients are compared with central differences of the definitions")
	t.Assume("derivatives are not compared at the kinks of the functions")
	for _, zs := range [][]zoo{zooRecurrent(levelOf(t)), zooBirnn(levelOf(t)), zooAttention(levelOf(t)), zooConvolution(levelOf(t)), zooNormalization(levelOf(t)), zooCRF(levelOf(t)), zooOthers(levelOf(t)), zooSLSTM(levelOf(t))} {
		checkGrads(t, zs)
	}
}
