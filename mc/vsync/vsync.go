// Package vsync replaces sync in the instrumented code.
package vsync

import (
	"github.com/nlpodyssey/spago/verifmc/vsched"
)

type (
	Mutex     = vsched.Mutex
	RWMutex   = vsched.RWMutex
	WaitGroup = vsched.WaitGroup
	Once      = vsched.Once
	Cond      = vsched.Cond
	Locker    = vsched.Locker
	Map       = vsched.Map
	Pool      = vsched.Pool
)

func NewCond(l Locker) *Cond { return vsched.NewCond(l) }

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}
