// Command conc runs one shard of an exploration of schedules. It is built with
// the overlay of cmd/instr.
package main

import (
	"flag"
	"fmt"
	"os"
	"time"

	"github.com/nlpodyssey/spago/verifmc/conc"
	"github.com/nlpodyssey/spago/verifmc/lib"
)

func main() {
	prop := flag.String("p", "", "property")
	tier := flag.String("tier", "quick", "tier")
	shard := flag.Int("shard", 0, "shard")
	n := flag.Int("n", 1, "number of shards")
	out := flag.String("out", "", "output file")
	crumb := flag.String("crumb", "", "file for the current case")
	only := flag.String("only", "", "only this case")
	budget := flag.Duration("budget", 10*time.Minute, "time budget")
	flag.StringVar(&conc.Scratch, "scratch", "", "scratch directory")
	flag.StringVar(&conc.Config, "config", "", "name of the configuration")
	flag.Parse()

	f, ok := conc.Registry[*prop]
	if !ok {
		fmt.Fprintf(os.Stderr, "VERIF-INTERNAL: unknown property %q\n", *prop)
		os.Exit(3)
	}
	t := lib.New(*prop, *tier, *shard, *n, *budget, *crumb)
	t.Only = *only
	conc.Setup(t)
	f(t)
	conc.Finish(t)
	if *out != "" {
		if err := t.Write(*out); err != nil {
			fmt.Fprintf(os.Stderr, "VERIF-INTERNAL: %v\n", err)
			os.Exit(3)
		}
	} else {
		fmt.Printf("%d evaluations, %d failures\n", t.Res.Evaluations, t.Res.NumFailures)
		for _, x := range t.Res.Failures {
			fmt.Println("FAIL", x.Key, x.Msg)
		}
	}
}
