// Command selftest runs the self test of the explorer.
package main

import (
	"fmt"
	"os"
	"time"

	"github.com/nlpodyssey/spago/verifmc/vsched/selftest"
)

func main() {
	t := time.Now()
	r := selftest.Run(len(os.Args) > 1)
	fmt.Println(r, time.Since(t))
	if r.Err != nil {
		os.Exit(1)
	}
}
