package checks

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"math"
	"syscall"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
	"github.com/nlpodyssey/spago/verifmc/lib"
)

func init() { Registry["S01"] = s01 }

// binMatrix is a matrix which can be marshaled.
type binMatrix interface {
	mat.Matrix
	MarshalBinary() ([]byte, error)
	UnmarshalBinary([]byte) error
}

// bitsOf returns the representation of the values.
func bitsOf(m mat.Tensor) []uint64 {
	d := m.Value().Data()
	var out []uint64
	if d.BitSize() == 32 {
		for _, v := range d.F32() {
			out = append(out, uint64(math.Float32bits(v)))
		}
		return out
	}
	for _, v := range d.F64() {
		out = append(out, math.Float64bits(v))
	}
	return out
}

func eqBits(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// specials returns values whose representation is easily lost.
func specials[T float.DType]() []T {
	var zero T
	if _, ok := any(zero).(float32); ok {
		var out []T
		for _, b := range []uint32{0, 1 << 31, 1, 0x807fffff, 0x7f7fffff, 0xff7fffff, 0x7f800000, 0xff800000, 0x7fc00000, 0x7fc12345, 0xffc00001, 0x3f800001, 0x4b7fffff, 0x33000001} {
			out = append(out, T(any(math.Float32frombits(b)).(float32)))
		}
		return out
	}
	var out []T
	for _, b := range []uint64{0, 1 << 63, 1, 1<<63 + 12345, 0x7fefffffffffffff, 0xffefffffffffffff, 0x7ff << 52, 0xfff << 52, 0x7ff8 << 48, 0x7ff8000000012345, 0xfff8000000000001, 0x3ff0000000000001, 0x433fffffffffffff, 0x3e60000000000001} {
		out = append(out, T(any(math.Float64frombits(b)).(float64)))
	}
	return out
}

func newOf[T float.DType]() binMatrix { return mat.NewDense[T](mat.WithShape(0, 0)) }

// sameMatrix compares shape, representation and flag.
func sameMatrix(got, want mat.Matrix) error {
	gr, gc := dims(got)
	wr, wc := dims(want)
	if gr != wr || gc != wc {
		return errf("got shape %d×%d, expected %d×%d", gr, gc, wr, wc)
	}
	if got.Size() != gr*gc {
		return errf("%d elements of shape %d×%d", got.Size(), gr, gc)
	}
	if !eqBits(bitsOf(got), bitsOf(want)) {
		return errf("got values %v, expected %v", fmtVals(vals(got)), fmtVals(vals(want)))
	}
	if got.RequiresGrad() != want.RequiresGrad() {
		return errf("requires gradients: %v, expected %v", got.RequiresGrad(), want.RequiresGrad())
	}
	if a, b := got.Data().BitSize(), want.Data().BitSize(); a != b {
		return errf("%d bit values, expected %d", a, b)
	}
	return nil
}

func s01(t *lib.T) {
	// malformed data which makes the process allocate without bounds is an
	// error of the process, and not of the sandbox
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 3 << 30, Max: 3 << 30})
	t.Rule("every shape up to the bound (empty ones included) x {float32,float64} x {ordinary values, every special representation at every position} x requires gradients or not: marshaled and unmarshaled into new and used matrices from every alignment, alone, as the interface and in lists through gob; every pair of shapes encoded and decoded one after the other, the earlier results being kept; for every encoded matrix of the stated shapes, every truncation, every bit flip of every byte and several values of every byte: an error which leaves the target unchanged, or a consistent matrix (the same one, for truncations); every pair of data types")
	s01Type[float64](t)
	s01Type[float32](t)
	for _, s := range shapes(3, true) {
		t.Casef("types", true, func() error {
			for _, d := range dts {
				src := d.mk(s[0], s[1], ramp(s[0]*s[1])).(binMatrix)
				data, err := src.MarshalBinary()
				if err != nil {
					return err
				}
				dst := (96 - d).mk(1, 2, []float64{5, 6}).(binMatrix)
				if err := dst.UnmarshalBinary(data); err == nil {
					return errf("%d bit values have been read as %d bit ones", d, 96-d)
				}
				if err := exactly(dst, ref{1, 2, []float64{5, 6}}); err != nil {
					return tag("the failed call has changed the matrix", err)
				}
			}
			return nil
		}, "%v", s)
	}
}

func s01Type[T float.DType](t *lib.T) {
	var zero T
	name := fmt.Sprintf("%T", zero)
	mk := func(r, c int, vs []T, rg bool) binMatrix {
		return mat.NewDense[T](mat.WithShape(r, c), mat.WithBacking(append([]T{}, vs...)), mat.WithGrad(rg))
	}
	round := func(src binMatrix) error {
		data, err := src.MarshalBinary()
		if err != nil {
			return err
		}
		orig := append([]byte(nil), data...)
		again, err := src.MarshalBinary()
		if err != nil || !bytes.Equal(again, orig) {
			return errf("the second encoding is different (%v)", err)
		}
		want := src.Clone()
		want.SetRequiresGrad(src.RequiresGrad())
		if err := sameMatrix(src, want); err != nil {
			return tag("the encoding has changed the matrix", err)
		}
		for off := 0; off < 9; off++ {
			buf := make([]byte, off+len(orig)+7)
			for i := range buf {
				buf[i] = 0xa5
			}
			copy(buf[off:], orig)
			for _, dst := range []binMatrix{newOf[T](), new(mat.Dense[T]), mk(2, 3, make([]T, 6), !src.RequiresGrad())} {
				if err := dst.UnmarshalBinary(buf[off : off+len(orig)]); err != nil {
					return tag(fmt.Sprintf("offset %d", off), err)
				}
				if !bytes.Equal(buf[off:off+len(orig)], orig) {
					return errf("the data have been changed")
				}
				if err := sameMatrix(dst, want); err != nil {
					return tag(fmt.Sprintf("offset %d", off), err)
				}
				if dst.HasGrad() {
					return errf("the decoded matrix has gradients")
				}
				for i := range buf { // the data are not retained
					buf[i] ^= 0xff
				}
				err := sameMatrix(dst, want)
				for i := range buf {
					buf[i] ^= 0xff
				}
				if err != nil {
					return tag("after changing the data", err)
				}
				if dst.Size() > 0 { // and not written
					dst.AddScalarInPlace(1)
					dst.Zeros()
					if !bytes.Equal(buf[off:off+len(orig)], orig) {
						return errf("changing the decoded matrix changes the data")
					}
				}
			}
		}
		// the encoding is not retained either
		for i := range data {
			data[i] ^= 0xff
		}
		if err := sameMatrix(src, want); err != nil {
			return tag("after changing the encoding", err)
		}
		return gobRound(src, want)
	}
	max := lib.Pick(t, 5, 8)
	for _, s := range shapes(max, true, sh{1, 17}, sh{17, 1}, sh{33, 3}, sh{3, 33}, sh{64, 65}, sh{1, 512}, sh{513, 1}, sh{1, 4097}, sh{9000, 1}, sh{257, 300}, sh{1, 70000}) {
		for _, rg := range []bool{false, true} {
			t.Casef("roundtrip", s[0]*s[1] > 0, func() error {
				return round(mk(s[0], s[1], conv[T](ramp(s[0]*s[1])), rg))
			}, "%s/%v/%v", name, s, rg)
		}
	}
	sp := specials[T]()
	for _, s := range [][2]int{{1, 1}, {1, 2}, {2, 1}, {2, 2}, {3, 1}, {1, 5}, {2, 3}} {
		n := s[0] * s[1]
		for pos := 0; pos < n; pos++ {
			for k, v := range sp {
				t.Casef("specials", true, func() error {
					vs := conv[T](ramp(n))
					vs[pos] = v
					return round(mk(s[0], s[1], vs, k%2 == 0))
				}, "%s/%v/position%d/value%d", name, s, pos, k)
			}
		}
	}
	t.Case("specials", name+"/all", true, func() error { return round(mk(len(sp), 1, sp, true)) })
	// what is encoded and decoded stays as it is, whatever follows
	for _, a := range shapes(2, true, sh{9, 17}, sh{40, 40}) {
		for _, b := range shapes(2, true, sh{9, 17}, sh{40, 40}) {
			t.Casef("sequences", a[0]*a[1] > 0 && b[0]*b[1] > 0, func() error {
				first, second := mk(a[0], a[1], conv[T](ramp(a[0]*a[1])), true), mk(b[0], b[1], make([]T, b[0]*b[1]), false)
				encoded, err := first.MarshalBinary()
				if err != nil {
					return err
				}
				kept := append([]byte(nil), encoded...)
				decoded := newOf[T]()
				if err := decoded.UnmarshalBinary(encoded); err != nil {
					return err
				}
				for i := 0; i < 2; i++ {
					other, err := second.MarshalBinary()
					if err != nil {
						return err
					}
					if !bytes.Equal(encoded, kept) {
						return errf("encoding another matrix changes the first encoding")
					}
					another := newOf[T]()
					if err := another.UnmarshalBinary(other); err != nil {
						return err
					}
					another.Zeros()
					for i := range other {
						other[i] = 0xff
					}
					if err := sameMatrix(decoded, first); err != nil {
						return tag("decoding another matrix", err)
					}
				}
				return nil
			}, "%s/%v/%v", name, a, b)
		}
	}
	// lists
	for _, n := range []int{0, 1, 2, 3, 40} {
		for _, mask := range []int{0, 1, 5} {
			t.Casef("lists", n > 0, func() error {
				var ms []mat.Matrix
				for i := 0; i < n; i++ {
					ms = append(ms, mk(i, i+1, conv[T](ramp(i*(i+1))), mask>>i&1 == 1))
				}
				var buf bytes.Buffer
				if err := gob.NewEncoder(&buf).Encode(ms); err != nil {
					return err
				}
				var got []mat.Matrix
				if err := gob.NewDecoder(&buf).Decode(&got); err != nil {
					return err
				}
				if len(got) != len(ms) {
					return errf("%d matrices, expected %d", len(got), len(ms))
				}
				for i := range ms {
					if err := sameMatrix(got[i], ms[i]); err != nil {
						return tag(fmt.Sprintf("matrix %d", i), err)
					}
				}
				return nil
			}, "%s/%d/%d", name, n, mask)
		}
	}
	// malformed data
	malformed := [][2]int{{1, 1}, {2, 2}, {0, 3}, {1, 3}}
	if t.Thorough() {
		malformed = append(malformed, sh{3, 1}, sh{5, 2}, sh{0, 0}, sh{2, 7}, sh{16, 1})
	}
	for _, s := range malformed {
		for _, rg := range []bool{false, true} {
			src := mk(s[0], s[1], conv[T](ramp(s[0]*s[1])), rg)
			data, err := src.MarshalBinary()
			if err != nil {
				t.Fail("malformed", err.Error())
				continue
			}
			try := func(bad []byte, same bool) error {
				// the data are at the end of the allocated memory
				old := mk(1, 2, []T{5, 6}, true)
				err := old.UnmarshalBinary(bad)
				if err != nil {
					if e := sameMatrix(old, mk(1, 2, []T{5, 6}, true)); e != nil {
						return tag("the failed call has changed the matrix", e)
					}
					return nil
				}
				if same {
					return tag("truncated data have been accepted", sameMatrix(old, src))
				}
				r, c := dims(old)
				if r < 0 || c < 0 || old.Size() != r*c || len(vals(old)) != r*c {
					return errf("malformed data give a matrix %d×%d of %d elements", r, c, len(vals(old)))
				}
				return nil
			}
			for n := 0; n < len(data); n++ {
				t.Casef("truncations", true, func() error {
					return first(try(append([]byte(nil), data[:n]...), true), try(data[:n:n], true))
				}, "%s/%v/%v/%d", name, s, rg, n)
			}
			for i := range data {
				t.Casef("mutations", true, func() error {
					for b := 0; b < 256; b++ {
						if byte(b) == data[i] {
							continue
						}
						bad := append([]byte(nil), data...)
						bad[i] = byte(b)
						if err := try(bad, false); err != nil {
							return tag(fmt.Sprintf("byte %d changed from %d to %d", i, data[i], b), err)
						}
						if t.Thorough() { // and truncated
							for _, n := range []int{4, 8, len(data) / 2, len(data) - 1, len(data) - 4, len(data) - 8} {
								if n >= 0 && n < len(data) {
									if err := try(append([]byte(nil), bad[:n]...), false); err != nil {
										return tag(fmt.Sprintf("byte %d changed from %d to %d, %d bytes", i, data[i], b, n), err)
									}
								}
							}
						}
					}
					return nil
				}, "%s/%v/%v/byte%d", name, s, rg, i)
			}
		}
	}
}

func gobRound(src binMatrix, want mat.Matrix) error {
	var buf bytes.Buffer
	var asMatrix mat.Matrix = src
	if err := gob.NewEncoder(&buf).Encode(&asMatrix); err != nil {
		return err
	}
	var got mat.Matrix
	if err := gob.NewDecoder(&buf).Decode(&got); err != nil {
		return err
	}
	if err := sameMatrix(got, want); err != nil {
		return tag("gob", err)
	}
	buf.Reset()
	var asTensor mat.Tensor = src
	if err := gob.NewEncoder(&buf).Encode(&asTensor); err != nil {
		return err
	}
	var gt mat.Tensor
	if err := gob.NewDecoder(&buf).Decode(&gt); err != nil {
		return err
	}
	return tag("gob of a tensor", sameMatrix(gt.Value().(mat.Matrix), want))
}
