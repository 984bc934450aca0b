// Package lib is the small kernel shared by all the checks: it enumerates
// cases, runs the ones which belong to this shard, and records what was
// covered and what failed.
package lib

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"
)

// T is the state of one run (one shard) of a check.
type T struct {
	Prop  string
	Tier  string
	Shard int
	N     int
	Only  string // run only the case with this key (replay)

	deadline time.Time
	crumb    []byte

	Res Result
	idx int64

	distinct map[uint64]struct{}
}

// Result is what a shard reports to the supervisor.
type Result struct {
	Evaluations int64             `json:"evaluations"`
	Nontrivial  int64             `json:"nontrivial"`
	States      int64             `json:"states"`
	Transitions int64             `json:"transitions"`
	Traces      int64             `json:"traces"`
	Skipped     int64             `json:"skipped"`
	Failures    []Failure         `json:"failures"`
	NumFailures int64             `json:"num_failures"`
	Samples     []string          `json:"samples"`
	Groups      map[string]int64  `json:"groups"`
	Notes       map[string]string `json:"notes"`
	Rule        string            `json:"rule"`
	Assumptions []string          `json:"assumptions"`
	Done        bool              `json:"done"`
}

// Failure is one violated case.
type Failure struct {
	Key string `json:"key"`
	Msg string `json:"msg"`
}

// New returns a new run.
func New(prop, tier string, shard, n int, budget time.Duration, crumbFile string) *T {
	t := &T{Prop: prop, Tier: tier, Shard: shard, N: n, deadline: time.Now().Add(budget), distinct: map[uint64]struct{}{}}
	t.Res.Groups = map[string]int64{}
	t.Res.Notes = map[string]string{}
	if crumbFile != "" {
		f, err := os.OpenFile(crumbFile, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
		if err == nil {
			_ = f.Truncate(8192)
			if b, err := syscall.Mmap(int(f.Fd()), 0, 8192, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED); err == nil {
				t.crumb = b
			}
			f.Close()
		}
	}
	return t
}

// Thorough reports whether the deep exploration is requested.
func (t *T) Thorough() bool { return t.Tier == "thorough" }

// Pick returns q in the quick tier and th in the thorough one.
func Pick[A any](t *T, q, th A) A {
	if t.Thorough() {
		return th
	}
	return q
}

// Mine consumes one index of the enumeration, and reports whether it belongs
// to this shard.
func (t *T) Mine() bool {
	t.idx++
	return int(t.idx%int64(t.N)) == t.Shard
}

// Expired reports whether the time budget is over.
func (t *T) Expired() bool { return time.Now().After(t.deadline) }

// Crumb remembers what is being executed, for the supervisor.
func (t *T) Crumb(key string) {
	if t.crumb == nil {
		return
	}
	n := copy(t.crumb[8:8190], key)
	t.crumb[8+n] = 0
	// a counter, so that the supervisor can see the progress
	c := uint64(t.crumb[0]) | uint64(t.crumb[1])<<8 | uint64(t.crumb[2])<<16 | uint64(t.crumb[3])<<24
	c++
	t.crumb[0], t.crumb[1], t.crumb[2], t.crumb[3] = byte(c), byte(c>>8), byte(c>>16), byte(c>>24)
}

// Case is one point of the enumeration.
//
// The group is the part of the enumeration the case belongs to, the key
// identifies it within the property, and nontrivial tells whether it counts as
// such by the rule of the check. A returned error, or a panic, is a violation.
func (t *T) Case(group, key string, nontrivial bool, f func() error) {
	if !t.Mine() {
		return
	}
	t.Run(group, key, nontrivial, f)
}

// Casef is Case with a lazily computed key.
func (t *T) Casef(group string, nontrivial bool, f func() error, format string, args ...any) {
	if !t.Mine() {
		return
	}
	t.Run(group, fmt.Sprintf(format, args...), nontrivial, f)
}

// Run executes a case of this shard.
func (t *T) Run(group, key string, nontrivial bool, f func() error) {
	key = group + "/" + key
	if t.Only != "" && t.Only != key {
		return
	}
	if t.Res.Evaluations%64 == 0 && t.Expired() {
		t.Res.Skipped++
		return
	}
	t.Crumb(key)
	t.Res.Evaluations++
	t.Res.Groups[group]++
	if nontrivial {
		h := fnv.New64a()
		h.Write([]byte(key))
		s := h.Sum64()
		if len(t.distinct) >= 3_000_000 {
			// the count of the distinct cases stops here
		} else if _, ok := t.distinct[s]; !ok {
			t.distinct[s] = struct{}{}
			t.Res.Nontrivial++
		}
	}
	if t.Res.Groups[group] <= 2 && len(t.Res.Samples) < 60 {
		t.Res.Samples = append(t.Res.Samples, key)
	}
	if err := Guard(f); err != nil {
		t.Fail(key, err.Error())
	}
}

// Guard runs f, and turns a panic into an error.
func Guard(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(string(debug.Stack())))
		}
	}()
	return f()
}

// Panics reports whether f panics.
func Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			p = true
		}
	}()
	f()
	return false
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// Fail records a violation.
func (t *T) Fail(key, msg string) {
	t.Res.NumFailures++
	if len(t.Res.Failures) < 400 {
		t.Res.Failures = append(t.Res.Failures, Failure{key, msg})
	}
}

// Write saves the result.
func (t *T) Write(file string) error {
	t.Res.Done = true
	b, err := json.Marshal(t.Res)
	if err != nil {
		return err
	}
	return os.WriteFile(file, b, 0o644)
}

// Rule describes the enumeration for the evidence file.
func (t *T) Rule(format string, args ...any) { t.Res.Rule = fmt.Sprintf(format, args...) }

// Assume records an assumption for the evidence file.
func (t *T) Assume(s string) { t.Res.Assumptions = append(t.Res.Assumptions, s) }

// Close reports whether two values are the same, within the tolerances.
func Close(a, b, rel, abs float64) bool {
	if math.IsNaN(a) || math.IsNaN(b) {
		return math.IsNaN(a) && math.IsNaN(b)
	}
	if math.IsInf(a, 0) || math.IsInf(b, 0) {
		return a == b
	}
	d := math.Abs(a - b)
	return d <= abs || d <= rel*math.Max(math.Abs(a), math.Abs(b))
}

// CloseSlices compares two slices.
func CloseSlices(got, want []float64, rel, abs float64) error {
	if len(got) != len(want) {
		return fmt.Errorf("%d elements, expected %d", len(got), len(want))
	}
	for i := range got {
		if !Close(got[i], want[i], rel, abs) {
			return fmt.Errorf("element %d: got %v, expected %v (all: got %v, expected %v)", i, got[i], want[i], short(got), short(want))
		}
	}
	return nil
}

func short(x []float64) []float64 {
	if len(x) > 24 {
		return x[:24]
	}
	return x
}

// EqInts compares two int slices.
func EqInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Keys returns the sorted keys of a map.
func Keys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
