package checks

import (
	"sync/atomic"
	"time"
)

// patience is how long to wait for a call which takes microseconds.
var patience atomic.Int64

func init() { patience.Store(int64(20 * time.Second)) }

// responds tells whether f returns (or panics, as does responds then).
func responds(f func()) bool {
	done := make(chan any, 2)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	late := new(int)
	timer := time.AfterFunc(time.Duration(patience.Load()), func() { done <- late })
	defer timer.Stop()
	switch p := <-done; p {
	case nil:
		return true
	case any(late):
		patience.Store(int64(100 * time.Millisecond)) // there is a violation already
		return false
	default:
		panic(p)
	}
}
