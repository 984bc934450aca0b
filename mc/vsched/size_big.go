//go:build vsbig

package vsched

// The limits of an execution.
const (
	setWords   = 16
	maxThreads = 64 * setWords
	maxSteps   = 60000
	maxPends   = 1 << 23
	maxAddrs   = 1 << 13
)
