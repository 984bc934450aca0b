//go:build !vsbig

package vsched

// The limits of an execution.
const (
	setWords   = 1
	maxThreads = 64 * setWords
	maxSteps   = 6000
	maxPends   = 1 << 16
	maxAddrs   = 512
)
