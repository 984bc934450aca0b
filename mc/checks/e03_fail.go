package checks

import (
	"errors"
	"fmt"
	"os"
	"os/exec"
	"strings"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/verifmc/lib"
)

// Child runs the part of a check which is expected to end the process; it
// tells whether there is one.
func Child() bool {
	mode := os.Getenv("VERIF_CHILD")
	if mode == "" {
		return false
	}
	p := strings.Split(mode, "/") // async, failing function, of how many, where
	async := p[0] == "async"
	var at, n int
	fmt.Sscan(p[1], &at)
	fmt.Sscan(p[2], &n)
	x := mat.Tensor(mat.NewDense[float64](mat.WithBacking([]float64{1, 2}), mat.WithGrad(true)))
	y := x
	for i := 0; i < n; i++ {
		f := &failing{x: y}
		if i == at {
			f.forward, f.backward = p[3] == "forward", p[3] == "backward"
		}
		y = ag.NewOperator(f).Run(async)
	}
	s := ag.ReduceSum(y)

	fmt.Println("value", s.Value().Item().F64())
	if err := ag.Backward(s); err != nil {
		fmt.Println("error", err)
		os.Exit(4)
	}
	fmt.Println("gradients", x.Grad().Data().F64())
	return true
}

type failing struct {
	x                 mat.Tensor
	forward, backward bool
}

func (f *failing) Operands() []mat.Tensor { return []mat.Tensor{f.x} }

func (f *failing) Forward() (mat.Tensor, error) {
	v := f.x.Value().(mat.Matrix).Clone()
	if f.forward {
		return v, errors.New("failure of a function 4711")
	}
	return v, nil
}

func (f *failing) Backward(gy mat.Tensor) error {
	if f.backward {
		f.x.AccGrad(gy)
		return errors.New("failure of a function 4711")
	}
	f.x.AccGrad(gy)
	return nil
}

// failures decides that the error of a function is never lost.
func failures(t *lib.T) {
	for _, mode := range []string{"sync", "async"} {
		for n := 1; n <= lib.Pick(t, 2, 3); n++ {
			for at := -1; at < n; at++ {
				for _, where := range []string{"forward", "backward"} {
					if at < 0 && where == "backward" {
						continue
					}
					t.Casef("failures", at >= 0, func() error {
						cmd := exec.Command(os.Args[0])
						cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_CHILD=%s/%d/%d/%s", mode, at, n, where))
						out, err := cmd.CombinedOutput()
						s := string(out)
						if at < 0 {
							if err != nil || !strings.Contains(s, "value 3\n") || !strings.Contains(s, "gradients [1 1]\n") {
								return errf("without failures: %v: %s", err, s)
							}
							return nil
						}
						var exit *exec.ExitError
						if err == nil {
							return errf("the error of a function is lost: %s", s)
						}
						if !errors.As(err, &exit) {
							return err
						}
						if !strings.Contains(s, "failure of a function 4711") {
							return errf("the error of the function is not reported (%v): %s", err, s)
						}
						if strings.Contains(s, "gradients") || where == "forward" && strings.Contains(s, "value") {
							return errf("results in spite of the error of a function: %s", s)
						}
						return nil
					}, "%s/%d/%d/%s", mode, at, n, where)
				}
			}
		}
	}
}
