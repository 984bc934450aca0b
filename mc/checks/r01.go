package checks

import (
	"fmt"
	"math"
	"math/bits"
	"sort"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat/rand"
	"github.com/nlpodyssey/spago/verifmc/lib"
)

func init() { Registry["R01"] = r01 }

// pcg is the reference model of the documented generator, PCG XSL RR 128/64.
type pcg struct{ hi, lo uint64 }

func newPCG(seed uint64) *pcg { return &pcg{seed, seed} }

func (p *pcg) next() uint64 {
	// multiplier 47026247687942121848144207491837523525 and increment
	// 117397592171526113268558934119004209487, in 64 bit halves
	const mh, ml = 0x2360ed051fc65da4, 0x4385df649fccf645
	const ih, il = 0x5851f42d4c957f2d, 0x14057b7ef767814f
	h, l := bits.Mul64(p.lo, ml)
	h += p.hi*ml + p.lo*mh
	var c uint64
	p.lo, c = bits.Add64(l, il, 0)
	p.hi, _ = bits.Add64(h, ih, c)
	return bits.RotateLeft64(p.hi^p.lo, -int(p.hi>>58))
}

// draw is a kind of draw: it reports what has been drawn, or an error if it is
// out of the documented range.
type draw struct {
	name string
	f    func(r *rand.LockedRand) (string, error)
}

func rdraw(name string, f func(r *rand.LockedRand) (string, error)) draw { return draw{name, f} }

func inRange(ok bool, v any, what string) (string, error) {
	if !ok {
		return "", errf("%v is out of the range of %s", v, what)
	}
	return fmt.Sprint(v), nil
}

func readN(k int) draw {
	return rdraw(fmt.Sprintf("Read%d", k), func(r *rand.LockedRand) (string, error) {
		b := make([]byte, k+2)
		b[k], b[k+1] = 77, 78
		n, err := r.Read(b[:k])
		if n != k || err != nil || b[k] != 77 || b[k+1] != 78 {
			return "", errf("Read of %d bytes: %d, %v", k, n, err)
		}
		return fmt.Sprint(b[:k]), nil
	})
}

func isPerm(p []int) bool {
	q := append([]int(nil), p...)
	sort.Ints(q)
	for i, v := range q {
		if i != v {
			return false
		}
	}
	return true
}

func draws(th bool) []draw {
	out := []draw{
		rdraw("Uint64", func(r *rand.LockedRand) (string, error) { return fmt.Sprint(r.Uint64()), nil }),
		rdraw("Uint32", func(r *rand.LockedRand) (string, error) { return fmt.Sprint(r.Uint32()), nil }),
		rdraw("Int63", func(r *rand.LockedRand) (string, error) { v := r.Int63(); return inRange(v >= 0, v, "Int63") }),
		rdraw("Int31", func(r *rand.LockedRand) (string, error) { v := r.Int31(); return inRange(v >= 0, v, "Int31") }),
		rdraw("Int", func(r *rand.LockedRand) (string, error) { v := r.Int(); return inRange(v >= 0, v, "Int") }),
		rdraw("TwoInt63", func(r *rand.LockedRand) (string, error) {
			a, b := r.TwoInt63()
			return inRange(a >= 0 && b >= 0, []int64{a, b}, "TwoInt63")
		}),
		rdraw("Float64", func(r *rand.LockedRand) (string, error) {
			v := r.Float64()
			return inRange(v >= 0 && v < 1, v, "Float64")
		}),
		rdraw("Float32", func(r *rand.LockedRand) (string, error) {
			v := r.Float32()
			return inRange(v >= 0 && v < 1, v, "Float32")
		}),
		rdraw("NormFloat64", func(r *rand.LockedRand) (string, error) {
			v := r.NormFloat64()
			return inRange(math.Abs(v) < 12, v, "NormFloat64")
		}),
		rdraw("Intn7", func(r *rand.LockedRand) (string, error) {
			v := r.Intn(7)
			return inRange(v >= 0 && v < 7, v, "Intn(7)")
		}),
		rdraw("Int31n5", func(r *rand.LockedRand) (string, error) {
			v := r.Int31n(5)
			return inRange(v >= 0 && v < 5, v, "Int31n(5)")
		}),
		rdraw("Int63n1e18", func(r *rand.LockedRand) (string, error) {
			v := r.Int63n(1e18)
			return inRange(v >= 0 && v < 1e18, v, "Int63n(1e18)")
		}),
		rdraw("Uint64n1<<40", func(r *rand.LockedRand) (string, error) {
			v := r.Uint64n(1 << 40)
			return inRange(v < 1<<40, v, "Uint64n(1<<40)")
		}),
		rdraw("Perm5", func(r *rand.LockedRand) (string, error) {
			p := r.Perm(5)
			return inRange(len(p) == 5 && isPerm(p), p, "Perm(5)")
		}),
		rdraw("Shuffle6", func(r *rand.LockedRand) (string, error) {
			p := []int{0, 1, 2, 3, 4, 5}
			r.Shuffle(6, func(i, j int) { p[i], p[j] = p[j], p[i] })
			return inRange(isPerm(p), p, "Shuffle(6)")
		}),
		readN(0), readN(1), readN(3), readN(8), readN(13),
	}
	if th {
		out = append(out, readN(2), readN(5), readN(7), readN(16),
			rdraw("Perm0", func(r *rand.LockedRand) (string, error) { p := r.Perm(0); return inRange(len(p) == 0, p, "Perm(0)") }),
			rdraw("Intn8", func(r *rand.LockedRand) (string, error) {
				v := r.Intn(8)
				return inRange(v >= 0 && v < 8, v, "Intn(8)")
			}))
	}
	return out
}

func r01(t *lib.T) {
	t.Rule("every history of draws (of every kind) up to the depth from several seeds, run on two generators, then reseeded and followed by every history up to a depth, compared with a new generator; every way to split a read of bytes; the raw sequence compared with a model of the documented generator (PCG XSL RR 128/64); bounded draws for every bound of the stated families: range, all the values reached, and no bias for bounds which do not divide 2^64; the global generator of the graphs; every kind of draw before and after every kind of refused request")
	t.Assume("that bounded draws are unbiased is decided from the frequencies over fixed seeds")
	ds := draws(t.Thorough())
	seeds := []uint64{0, 1, 42, 1 << 63, math.MaxUint64, 12345}

	run := func(r *rand.LockedRand, hist []int) ([]string, error) {
		var out []string
		for _, k := range hist {
			v, err := ds[k].f(r)
			if err != nil {
				return nil, err
			}
			out = append(out, v)
		}
		return out, nil
	}
	nameOf := func(hist []int) string {
		s := ""
		for i, k := range hist {
			if i > 0 {
				s += ","
			}
			s += ds[k].name
		}
		return s
	}
	var hists func(depth int) [][]int
	hists = func(depth int) [][]int {
		out := [][]int{nil}
		if depth == 0 {
			return out
		}
		for _, h := range hists(depth - 1) {
			if len(h) == depth-1 {
				for k := range ds {
					out = append(out, append(append([]int(nil), h...), k))
				}
			}
			if len(h) > 0 {
				out = append(out, h)
			}
		}
		return out
	}
	before := hists(2)
	after := hists(lib.Pick(t, 1, 2))
	for _, h := range before {
		for si, seed := range seeds {
			t.Casef("reseeding", true, func() error {
				for _, suffix := range after {
					a, other := rand.NewLockedRand(seed), rand.NewLockedRand(seed+1)
					b := rand.NewLockedRand(seed)
					va, err := run(a, h)
					if err != nil {
						return err
					}
					if _, err := run(other, suffix); err != nil { // generators are independent
						return err
					}
					vb, err := run(b, h)
					if err != nil {
						return err
					}
					if fmt.Sprint(va) != fmt.Sprint(vb) {
						return errf("two generators with seed %d give %v and %v", seed, va, vb)
					}
					seed2 := seeds[(si+len(suffix))%len(seeds)]
					a.Seed(seed2)
					va, err = run(a, suffix)
					if err != nil {
						return err
					}
					vb, err = run(rand.NewLockedRand(seed2), suffix)
					if err != nil {
						return err
					}
					if fmt.Sprint(va) != fmt.Sprint(vb) {
						return errf("after %s and Seed(%d), %s gives %v, a new generator gives %v", nameOf(h), seed2, nameOf(suffix), va, vb)
					}
					// the rest of the sequence
					c, e := rand.NewLockedRand(seed), rand.NewLockedRand(seed)
					run(c, h)
					run(e, h)
					vc, err := run(c, suffix)
					if err != nil {
						return err
					}
					ve, _ := run(e, suffix)
					if fmt.Sprint(vc) != fmt.Sprint(ve) {
						return errf("after %s, %s gives %v and %v", nameOf(h), nameOf(suffix), vc, ve)
					}
				}
				return nil
			}, "seed%d/%s", seed, nameOf(h))
		}
	}
	// the raw sequence, and the draws documented as parts of it
	for _, seed := range append(seeds, 2, 3, 7, 1<<32, 1<<62+5, 99) {
		t.Casef("sequence", true, func() error {
			r, m := rand.NewLockedRand(seed), newPCG(seed)
			for i := 0; i < 3000; i++ {
				if got, want := r.Uint64(), m.next(); got != want {
					return errf("number %d of the sequence: %d, expected %d", i, got, want)
				}
			}
			r, q := rand.NewLockedRand(seed), rand.NewLockedRand(seed)
			for i := 0; i < 300; i++ {
				a, b := r.TwoInt63()
				if c, d := q.Int63(), q.Int63(); a != c || b != d {
					return errf("TwoInt63 gives %d, %d, two draws give %d, %d", a, b, c, d)
				}
			}
			return nil
		}, "seed%d", seed)
		// reads
		t.Casef("reads", true, func() error {
			const total = 24
			whole := make([]byte, total)
			rand.NewLockedRand(seed).Read(whole)
			for _, parts := range cuts(total, 3) {
				r := rand.NewLockedRand(seed)
				var got []byte
				for _, k := range parts {
					b := make([]byte, k)
					if n, err := r.Read(b); n != k || err != nil {
						return errf("Read of %d bytes: %d, %v", k, n, err)
					}
					got = append(got, b...)
				}
				if string(got) != string(whole) {
					return errf("reads of %v bytes give %v, one read gives %v", parts, got, whole)
				}
			}
			return nil
		}, "seed%d", seed)
	}
	r01Bounds(t, seeds)
	r01Refused(t, ds, seeds[:3])
	// the global generator
	for _, h := range before {
		t.Casef("global", true, func() error {
			for _, seed := range seeds[:3] {
				r := ag.ManualSeed(seed)
				if r != ag.Rand() {
					return errf("ManualSeed returns another generator")
				}
				va, err := run(ag.Rand(), h)
				if err != nil {
					return err
				}
				vb, err := run(rand.NewLockedRand(seed), h)
				if err != nil {
					return err
				}
				if fmt.Sprint(va) != fmt.Sprint(vb) {
					return errf("after ManualSeed(%d), %s gives %v, a generator with that seed gives %v", seed, nameOf(h), va, vb)
				}
			}
			if ag.Seed() != ag.Rand() {
				return errf("Seed returns another generator")
			}
			return nil
		}, "%s", nameOf(h))
	}
}

// cuts returns the ways to split n in up to k parts.
func cuts(n, k int) [][]int {
	out := [][]int{{n}}
	if k == 1 {
		return out
	}
	for a := 0; a <= n; a++ {
		for _, rest := range cuts(n-a, k-1) {
			out = append(out, append([]int{a}, rest...))
		}
	}
	return out
}

func r01Bounds(t *lib.T, seeds []uint64) {
	type bounded struct {
		name string
		f    func(r *rand.LockedRand, n uint64) (uint64, bool) // and whether it is not negative
		max  uint64
	}
	fns := []bounded{
		{"Uint64n", func(r *rand.LockedRand, n uint64) (uint64, bool) { return r.Uint64n(n), true }, math.MaxUint64},
		{"Int63n", func(r *rand.LockedRand, n uint64) (uint64, bool) { v := r.Int63n(int64(n)); return uint64(v), v >= 0 }, math.MaxInt64},
		{"Intn", func(r *rand.LockedRand, n uint64) (uint64, bool) { v := r.Intn(int(n)); return uint64(v), v >= 0 }, math.MaxInt64},
		{"Int31n", func(r *rand.LockedRand, n uint64) (uint64, bool) { v := r.Int31n(int32(n)); return uint64(v), v >= 0 }, math.MaxInt32},
	}
	var bounds []uint64
	for n := uint64(1); n <= uint64(lib.Pick(t, 40, 300)); n++ {
		bounds = append(bounds, n)
	}
	for s := 6; s < 64; s++ {
		for d := -1; d <= 1; d++ {
			bounds = append(bounds, uint64(1)<<s+uint64(d), uint64(3)<<(s-1)+uint64(d))
		}
	}
	bounds = append(bounds, math.MaxUint64, math.MaxUint64-1, math.MaxInt64)
	for _, f := range fns {
		for _, n := range bounds {
			if n > f.max || n == 0 {
				continue
			}
			t.Casef("bounds", n > 1, func() error {
				for _, seed := range seeds {
					r := rand.NewLockedRand(seed)
					seen := map[uint64]bool{}
					low, third, count := 0, 0, 4000
					if n < 64 {
						count = int(n) * 200
					}
					for i := 0; i < count; i++ {
						v, ok := f.f(r, n)
						if !ok || v >= n {
							return errf("%s(%d) gives %d", f.name, n, v)
						}
						if n < 64 {
							seen[v] = true
						}
						if v < n/2 {
							low++
						}
						if v < n/3*2 {
							third++
						}
					}
					if n < 64 && len(seen) != int(n) {
						return errf("%s(%d) gives only %d values in %d draws", f.name, n, len(seen), count)
					}
					if n > 1000 {
						for what, c := range map[string][2]float64{"half": {float64(low) / float64(count), 0.5}, "first two thirds": {float64(third) / float64(count), 2.0 / 3}} {
							if math.Abs(c[0]-c[1]) > 0.045 {
								return errf("%s(%d): a fraction %v of the draws is in the %s, expected %v", f.name, n, c[0], what, c[1])
							}
						}
					}
				}
				return nil
			}, "%s/%d", f.name, n)
		}
		t.Casef("bounds", true, func() error {
			if !lib.Panics(func() { f.f(rand.NewLockedRand(1), 0) }) {
				return errf("%s(0) does not panic", f.name)
			}
			return nil
		}, "%s/0", f.name)
	}
	for _, n := range []int{256, 257, 1000, 4097, 70000} {
		t.Casef("permutations", true, func() error {
			p := rand.NewLockedRand(seeds[1]).Perm(n)
			if len(p) != n || !isPerm(p) {
				return errf("Perm(%d) gives no permutation", n)
			}
			for part := 0; part < 4; part++ { // the parts are mixed
				low := 0
				for _, v := range p[n*part/4 : n*(part+1)/4] {
					if v < n/2 {
						low++
					}
				}
				if err := evenly(fmt.Sprintf("small numbers in part %d", part), low, n/4, 0.5); err != nil {
					return err
				}
			}
			q := make([]int, n)
			for i := range q {
				q[i] = i
			}
			if s := rand.ShuffleInPlace(q, rand.NewLockedRand(seeds[1])); len(s) != n || !isPerm(s) {
				return errf("ShuffleInPlace of %d elements gives no permutation", n)
			}
			b, whole := make([]byte, n), make([]byte, n)
			r := rand.NewLockedRand(seeds[2])
			r.Read(whole)
			r = rand.NewLockedRand(seeds[2])
			for at := 0; at < n; at += 129 {
				r.Read(b[at:min(n, at+129)])
			}
			if string(b) != string(whole) {
				return errf("reads of 129 bytes give other bytes than one of %d", n)
			}
			return nil
		}, "large/%d", n)
	}
	for n := 0; n <= lib.Pick(t, 40, 200); n++ {
		t.Casef("permutations", n > 1, func() error {
			for seed := uint64(0); seed < 20; seed++ {
				p := rand.NewLockedRand(seed).Perm(n)
				if len(p) != n || !isPerm(p) {
					return errf("Perm(%d) gives %v", n, p)
				}
				q := make([]int, n)
				for i := range q {
					q[i] = i
				}
				if s := rand.ShuffleInPlace(q, rand.NewLockedRand(seed)); len(s) != n || !isPerm(s) || n > 0 && &s[0] != &q[0] {
					return errf("ShuffleInPlace of %d elements gives %v", n, s)
				}
				if s := rand.ShuffleInPlace(q, nil); len(s) != n || !isPerm(s) {
					return errf("ShuffleInPlace of %d elements gives %v", n, s)
				}
			}
			return nil
		}, "%d", n)
	}
	for n := 2; n <= 4; n++ {
		for _, kind := range []string{"Perm", "Shuffle"} {
			t.Casef("permutations", true, func() error {
				seen, fact := map[string]int{}, 1
				for i := 2; i <= n; i++ {
					fact *= i
				}
				r := rand.NewLockedRand(5)
				for i := 0; i < fact*100; i++ {
					var p []int
					if kind == "Perm" {
						p = r.Perm(n)
					} else {
						for k := 0; k < n; k++ {
							p = append(p, k)
						}
						r.Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
					}
					seen[fmt.Sprint(p)]++
				}
				if len(seen) != fact {
					return errf("%d permutations of %d", len(seen), fact)
				}
				for p, c := range seen {
					if c < 50 || c > 160 {
						return errf("permutation %s has been drawn %d times of %d", p, c, fact*100)
					}
				}
				return nil
			}, "all/%s/%d", kind, n)
		}
	}
	// moments
	for _, seed := range seeds {
		t.Casef("moments", true, func() error {
			r := rand.NewLockedRand(seed)
			const n = 20000
			check := func(what string, f func() float64, mean, sd float64) error {
				s, q := 0.0, 0.0
				for i := 0; i < n; i++ {
					v := f()
					s += v
					q += v * v
				}
				m := s / n
				v := math.Sqrt(q/n - m*m)
				if math.Abs(m-mean) > 0.04*sd || math.Abs(v-sd) > 0.03*sd {
					return errf("%s has mean %v and deviation %v, expected %v and %v", what, m, v, mean, sd)
				}
				return nil
			}
			return first(
				check("Float64", r.Float64, 0.5, math.Sqrt(1.0/12)),
				check("Float32", func() float64 { return float64(r.Float32()) }, 0.5, math.Sqrt(1.0/12)),
				check("NormFloat64", r.NormFloat64, 0, 1),
				check("Int63", func() float64 { return float64(r.Int63()) / (1 << 63) }, 0.5, math.Sqrt(1.0/12)),
				check("Int31", func() float64 { return float64(r.Int31()) / (1 << 31) }, 0.5, math.Sqrt(1.0/12)),
				check("Uint32", func() float64 { return float64(r.Uint32()) / (1 << 32) }, 0.5, math.Sqrt(1.0/12)),
				check("Int", func() float64 { return float64(r.Int()) / (1 << 63) }, 0.5, math.Sqrt(1.0/12)),
				check("Float", func() float64 { return rand.Float[float64]() }, 0.5, math.Sqrt(1.0/12)),
				check("Float", func() float64 { return float64(rand.Float[float32]()) }, 0.5, math.Sqrt(1.0/12)),
			)
		}, "seed%d", seed)
	}
}

// r01Refused checks that a request which is refused leaves the generator
// usable, and the sequence as it would have been.
func r01Refused(t *lib.T, ds []draw, seeds []uint64) {
	type request struct {
		name string
		f    func(r *rand.LockedRand)
		same bool // nothing has been drawn
	}
	requests := []request{
		{"Uint64n0", func(r *rand.LockedRand) { r.Uint64n(0) }, true},
		{"Int63n0", func(r *rand.LockedRand) { r.Int63n(0) }, true},
		{"Int63n-5", func(r *rand.LockedRand) { r.Int63n(-5) }, true},
		{"Int31n0", func(r *rand.LockedRand) { r.Int31n(0) }, true},
		{"Int31n-1", func(r *rand.LockedRand) { r.Int31n(-1) }, true},
		{"Intn0", func(r *rand.LockedRand) { r.Intn(0) }, true},
		{"Intn-7", func(r *rand.LockedRand) { r.Intn(-7) }, true},
		{"Perm-1", func(r *rand.LockedRand) { r.Perm(-1) }, true},
		{"Shuffle-1", func(r *rand.LockedRand) { r.Shuffle(-1, func(int, int) {}) }, true},
		{"Shuffle", func(r *rand.LockedRand) { r.Shuffle(4, func(int, int) { panic("no") }) }, false},
	}
	for _, q := range requests {
		for k, d := range ds {
			t.Casef("refused", true, func() error {
				for _, seed := range seeds {
					r, other := rand.NewLockedRand(seed), rand.NewLockedRand(seed)
					for _, g := range []*rand.LockedRand{r, other} {
						if _, err := d.f(g); err != nil {
							return err
						}
					}
					if !lib.Panics(func() { q.f(r) }) {
						return errf("%s does not panic", q.name)
					}
					for _, e := range []draw{d, ds[(k+1)%len(ds)]} {
						var got, want string
						var err error
						if !responds(func() { got, err = e.f(r) }) {
							return errf("after %s has panicked, %s does not return: the generator stays locked", q.name, e.name)
						}
						if err != nil {
							return err
						}
						if want, err = e.f(other); err != nil {
							return err
						}
						if q.same && got != want {
							return errf("after %s has been refused, %s gives %s; otherwise it gives %s", q.name, e.name, got, want)
						}
					}
				}
				return nil
			}, "%s/%s", q.name, d.name)
		}
	}
}
