package conc

import (
	"fmt"

	"github.com/nlpodyssey/spago/verifmc/checks"
	"github.com/nlpodyssey/spago/verifmc/lib"
)

func init() { Registry["E05"] = e05 }

// e05: uses which have nothing to do with each other do not interfere.
func e05(t *lib.T) {
	t.Rule("two goroutines do the same kind of thing at the same time, each with values of its own or with values which both only read (or whose gradients both accumulate): every differentiable function and its gradient, every matrix operation, every model (its own, and one which both share: frozen, for inference, or training), its dump and its traversals, every optimizer, loss, initializer, random generator, text and binary form, table of embeddings; the two alone, or after one which has been done before. Each must obtain exactly what it obtains when nothing else happens, sums of shared gradients up to rounding. Explored: all the orders of the synchronizing operations of the two goroutines, and of those which they start (locks, atomics, channels, pools, maps), and the data races of each execution")
	t.Assume("the orders of operations within the goroutines of one use are those of E01 and E02, and not varied here; a shared trained model with many parameters is explored up to one preemption, as the notes tell")
	for _, u := range checks.Independents(t.Thorough()) {
		u := u
		families, small = true, u.Group == "training"
		for _, warm := range []bool{false, true} {
			name := u.Name
			if warm {
				if name += "/warm"; small {
					continue
				}
			}
			scenario(t, u.Group, name, func() error { return together(u, warm) })
		}
	}
}

// together compares two uses at the same time with the same uses alone, which
// come before (so that there is something to be reused) or after.
func together(u checks.Use, warm bool) error {
	const n = 2
	got, want, errs := make([]checks.Print, n), make([]checks.Print, n), make([]error, n)
	var end, endAlone checks.Print
	concurrently := func() error {
		uses, after := u.Make(n)
		var fs []func()
		for i := range uses {
			i := i
			fs = append(fs, func() { got[i], errs[i] = uses[i]() })
		}
		all(fs...)
		end = after()
		return first(errs...)
	}
	alone := func() error {
		uses, after := u.Make(n)
		all(func() {
			for i := range uses {
				want[i], errs[i] = uses[i]()
			}
		})
		endAlone = after()
		return first(errs...)
	}
	order := []func() error{concurrently, alone}
	if warm {
		order = []func() error{alone, concurrently}
	}
	for _, f := range order {
		if err := f(); err != nil {
			return err
		}
	}
	for i := range got {
		if err := got[i].Same(want[i]); err != nil {
			return fmt.Errorf("goroutine %d: %v", i, err)
		}
	}
	if err := end.Same(endAlone); err != nil {
		return fmt.Errorf("in the end: %v", err)
	}
	return nil
}
