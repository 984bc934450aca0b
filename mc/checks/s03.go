package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"testing/iotest"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/birnn"
	"github.com/nlpodyssey/spago/nn/embedding"
	"github.com/nlpodyssey/spago/nn/linear"
	"github.com/nlpodyssey/spago/nn/recurrent/lstm"
	"github.com/nlpodyssey/spago/verifmc/lib"
)

func init() { Registry["S03"] = s03 }

var errFault = errors.New("injected fault")

// faultyWriter accepts limit bytes, and then fails in the given way.
type faultyWriter struct {
	buf   bytes.Buffer
	limit int
	mode  string
	once  bool
	fired bool
}

func (w *faultyWriter) Write(p []byte) (int, error) {
	room := w.limit - w.buf.Len()
	if w.fired {
		if w.once { // it recovers, but what has been refused is lost
			return w.buf.Write(p)
		}
		room = 0
	}
	if len(p) <= room {
		return w.buf.Write(p)
	}
	w.fired = true
	switch w.mode {
	case "partial": // what fits is written
		w.buf.Write(p[:room])
		return room, errFault
	case "none": // nothing is written
		return 0, errFault
	case "short": // no error, against the contract of writers
		w.buf.Write(p[:room])
		return room, nil
	}
	panic(w.mode)
}

// faultyReader gives n bytes, in parts, and then fails.
type faultyReader struct {
	data  []byte
	n     int
	part  int
	err   error
	with  bool // the error comes with the last data
	empty bool // reads without data in between
	flip  bool
}

func (r *faultyReader) Read(p []byte) (int, error) {
	if r.empty {
		r.flip = !r.flip
		if r.flip {
			return 0, nil
		}
	}
	k := len(p)
	if r.part > 0 && k > r.part {
		k = r.part
	}
	if k > r.n {
		k = r.n
	}
	copy(p, r.data[:k])
	r.data, r.n = r.data[k:], r.n-k
	if r.n == 0 && (k == 0 || r.with) {
		return k, r.err
	}
	return k, nil
}

// stored is an object with the ways to save and load it.
type stored struct {
	name string
	data []byte
	dump func(w io.Writer) error
	load func(r io.Reader) error // and compare
	file func(path string) error
	from func(path string) error
}

func storedOf[A any](name string, a A, cmp func(a, b A) error) stored {
	return stored{
		name: name,
		dump: func(w io.Writer) error { return nn.Dump(a, w) },
		load: func(r io.Reader) error {
			b, err := nn.Load[A](r)
			if err != nil {
				return err
			}
			return differs(cmp(a, b))
		},
		file: func(path string) error { return nn.DumpToFile(a, path) },
		from: func(path string) error {
			b, err := nn.LoadFromFile[A](path)
			if err != nil {
				return err
			}
			return differs(cmp(a, b))
		},
	}
}

// different is the error of what has been loaded without errors.
type different struct{ error }

func differs(err error) error {
	if err == nil {
		return nil
	}
	return different{err}
}

// mustLoad wants the same object.
func mustLoad(err error) error { return err }

// mustFail wants an error of the library.
func mustFail(what string, err error) error {
	if err == nil {
		return errf("%s: no error, and a complete object", what)
	}
	if d, ok := err.(different); ok {
		return errf("%s: no error, but another object: %v", what, d.error)
	}
	return nil
}

func s03Objects(th bool) []stored {
	fill := func(m nn.Model) {
		for i, p := range paramsOf(m) {
			r, c := dims(p)
			d := DT(p.Data().BitSize())
			d.set(p, d.rounds(genMixed2(r*c, i)))
		}
	}
	cmpModels := func(a, b nn.Model) error { return sameParams(a, b) }
	out := []stored{
		storedOf("param32", nn.NewParam(DT(32).mk(2, 3, ramp(6))), func(a, b *nn.Param) error { return sameMatrix(b, a) }),
		storedOf("buffer", nn.Buf(DT(64).mk(1, 2, ramp(2))), func(a, b *nn.Buffer) error { return sameTensors([]mat.Tensor{b}, []mat.Tensor{a}) }),
		storedOf("matrices", []mat.Matrix{DT(32).mk(1, 2, ramp(2)), DT(64).g(3, 1, ramp(3))}, func(a, b []mat.Matrix) error {
			if len(a) != len(b) {
				return errf("%d matrices", len(b))
			}
			return first(sameMatrix(b[0], a[0]), sameMatrix(b[1], a[1]))
		}),
	}
	lin := linear.New[float64](3, 2)
	fill(lin)
	out = append(out, storedOf("linear", lin, func(a, b *linear.Model) error { return cmpModels(a, b) }))
	// longer than the buffers
	big := birnn.New(lstm.New[float32](8, 8), lstm.New[float32](8, 8), birnn.Sum)
	fill(big)
	out = append(out, storedOf("bilstm", &saved{Model: big, Tail: nn.NewParam(DT(64).scalar(2))}, func(a, b *saved) error { return cmpModels(a, b) }))
	emb := embedding.New[float32](9, 3)
	for i, w := range emb.Weights {
		DT(32).set(w, ramp2(4)[:3])
		w.AddScalarInPlace(float64(i))
	}
	out = append(out, storedOf("table", emb, func(a, b *embedding.Model) error {
		if len(a.Weights) != len(b.Weights) || a.Size != b.Size || a.Dim != b.Dim {
			return errf("a table of %d (%d) rows of size %d", len(b.Weights), b.Size, b.Dim)
		}
		for i := range a.Weights {
			if err := sameMatrix(b.Weights[i], a.Weights[i]); err != nil {
				return err
			}
		}
		return nil
	}))
	if th {
		huge := linear.New[float64](70, 40)
		fill(huge)
		out = append(out, storedOf("linear-70-40", huge, func(a, b *linear.Model) error { return cmpModels(a, b) }))
	}
	for i := range out {
		var buf bytes.Buffer
		if err := out[i].dump(&buf); err != nil {
			panic(err)
		}
		out[i].data = buf.Bytes()
	}
	return out
}

func openFiles() (int, error) {
	fs, err := os.ReadDir("/proc/self/fd")
	return len(fs), err
}

// noLeak checks that f leaves no open files.
func noLeak(f func() error) error {
	before, err := openFiles()
	if err != nil {
		return err
	}
	if err := f(); err != nil {
		return err
	}
	after, err := openFiles()
	if err != nil {
		return err
	}
	if after > before {
		return errf("%d files are left open", after-before)
	}
	return nil
}

func s03(t *lib.T) {
	t.Rule("every stated object (parameter, buffer, list of matrices, models shorter and longer than the buffers, table) x writers which fail at every byte (partially, at once, or with a short count; for good or once) x readers which end or fail at every byte (with the last data or after it) x readers which give every number of bytes up to the bound, also with empty reads; files truncated at every byte, missing, directories, a full device, files whose closing fails after loading and after saving (the system is made to refuse it), overwritten longer files, objects which cannot be encoded; an error, or the same object, with all the files closed")
	t.Assume("what is left of a file whose writing failed is not stated")
	t.Case("files", "closing/load", true, func() error { return closingFails(Scratch, "load") })
	t.Case("files", "closing/dump", true, func() error { return closingFails(Scratch, "dump") })
	n := 0
	for _, o := range s03Objects(t.Thorough()) {
		o := o
		size := len(o.data)
		// the enumeration of the faults
		for k := 0; k <= size; k++ {
			k := k
			t.Casef("writers", k < size, func() error {
				for _, mode := range []string{"partial", "none", "short"} {
					for _, once := range []bool{false, true} {
						w := &faultyWriter{limit: k, mode: mode, once: once}
						err := o.dump(w)
						what := fmt.Sprintf("writer which fails (%s, once: %v) after %d of %d bytes", mode, once, k, size)
						if k == size {
							if err != nil {
								return tag(what, err)
							}
							if !bytes.Equal(w.buf.Bytes(), o.data) {
								return errf("%s: other data", what)
							}
							continue
						}
						if err == nil {
							return errf("%s: no error", what)
						}
						if mode != "short" && !errors.Is(err, errFault) {
							return errf("%s: another error: %v", what, err)
						}
						if !once && !bytes.HasPrefix(o.data, w.buf.Bytes()) {
							return errf("%s: what has been written is not the beginning of the data", what)
						}
					}
				}
				return nil
			}, "%s/%d", o.name, k)
			t.Casef("readers", k < size, func() error {
				for _, fault := range []error{io.EOF, errFault, io.ErrUnexpectedEOF} {
					for _, with := range []bool{false, true} {
						for _, part := range []int{0, 1, 3} {
							r := &faultyReader{data: o.data, n: k, part: part, err: fault, with: with}
							err := o.load(r)
							what := fmt.Sprintf("reader which gives %d of %d bytes, in parts of %d, and then %v (with data: %v)", k, size, part, fault, with)
							if k < size {
								if err := mustFail(what, err); err != nil {
									return err
								}
							} else if err != nil {
								return tag(what, err)
							}
						}
					}
				}
				return nil
			}, "%s/%d", o.name, k)
			n++
			path := filepath.Join(Scratch, fmt.Sprintf("s03-%d", n))
			t.Casef("truncated files", k < size, func() error {
				defer os.Remove(path)
				if err := os.WriteFile(path, o.data[:k], 0o600); err != nil {
					return err
				}
				return noLeak(func() error {
					err := o.from(path)
					if k < size {
						return mustFail(fmt.Sprintf("file truncated at %d of %d bytes", k, size), err)
					}
					return err
				})
			}, "%s/%d", o.name, k)
		}
		max := lib.Pick(t, 300, 6000)
		for part := 1; part <= max && part <= size+1; part++ {
			part := part
			t.Casef("parts", true, func() error {
				for _, empty := range []bool{false, true} {
					for _, with := range []bool{false, true} {
						for _, extra := range []int{0, 1, 5000} { // what follows is not read as a part of the object
							data := append(append([]byte(nil), o.data...), bytes.Repeat([]byte{0xff}, extra)...)
							r := &faultyReader{data: data, n: len(data), part: part, err: io.EOF, with: with, empty: empty}
							if err := o.load(r); err != nil {
								return tag(fmt.Sprintf("parts of %d bytes (empty reads: %v, end with data: %v, %d bytes follow)", part, empty, with, extra), err)
							}
						}
					}
				}
				return nil
			}, "%s/%d", o.name, part)
		}
		t.Case("readers", o.name+"/kinds", true, func() error {
			for name, r := range map[string]io.Reader{
				"bytes":   bytes.NewReader(o.data),
				"buffer":  bytes.NewBuffer(append([]byte(nil), o.data...)),
				"half":    iotest.HalfReader(bytes.NewReader(o.data)),
				"one":     iotest.OneByteReader(bytes.NewReader(o.data)),
				"dataerr": iotest.DataErrReader(bytes.NewReader(o.data)),
			} {
				if err := o.load(r); err != nil {
					return tag(name, err)
				}
			}
			return mustFail("timeout", o.load(iotest.TimeoutReader(iotest.OneByteReader(bytes.NewReader(o.data)))))
		})
		s03Files(t, o)
	}
}

func s03Files(t *lib.T, o stored) {
	dir := filepath.Join(Scratch, "s03-"+o.name)
	for _, old := range []int{-1, 0, 1, len(o.data) - 1, len(o.data), len(o.data) + 1, 3*len(o.data) + 10000} {
		old := old
		t.Casef("files", true, func() error {
			if err := os.MkdirAll(dir, 0o700); err != nil {
				return err
			}
			defer os.RemoveAll(dir)
			path := filepath.Join(dir, "model.bin")
			return noLeak(func() error {
				for round := 0; round < 2; round++ {
					if old >= 0 {
						if err := os.WriteFile(path, bytes.Repeat([]byte{7}, old), 0o600); err != nil {
							return err
						}
					}
					if err := o.file(path); err != nil {
						return tag("DumpToFile", err)
					}
					data, err := os.ReadFile(path)
					if err != nil {
						return err
					}
					if !bytes.Equal(data, o.data) {
						return errf("the file has %d bytes, which differ from the %d bytes of Dump", len(data), len(o.data))
					}
					if err := o.from(path); err != nil {
						return tag("LoadFromFile", err)
					}
					again, err := os.ReadFile(path)
					if err != nil || !bytes.Equal(again, data) {
						return errf("loading has changed the file (%v)", err)
					}
				}
				return nil
			})
		}, "%s/overwritten%d", o.name, old)
	}
	t.Casef("files", true, func() error {
		if err := os.MkdirAll(dir, 0o700); err != nil {
			return err
		}
		defer os.RemoveAll(dir)
		return noLeak(func() error {
			missing := filepath.Join(dir, "no", "model.bin")
			if err := o.file(missing); err == nil {
				return errf("DumpToFile into a missing directory: no error")
			}
			if err := o.file(dir); err == nil {
				return errf("DumpToFile over a directory: no error")
			}
			if err := mustFail("a missing file", o.from(missing)); err != nil {
				return err
			}
			if err := mustFail("a directory", o.from(dir)); err != nil {
				return err
			}
			if err := mustFail("a missing file of a directory", o.from(filepath.Join(dir, "model.bin"))); err != nil {
				return err
			}
			if fs, err := os.ReadDir(dir); err != nil || len(fs) > 0 {
				return errf("loading from a missing file leaves %v (%v)", fs, err)
			}
			if fi, err := os.Stat("/dev/full"); err == nil && fi.Mode()&os.ModeCharDevice != 0 {
				if err := o.file("/dev/full"); err == nil {
					return errf("DumpToFile to a full device: no error")
				}
			}
			// what cannot be encoded
			path := filepath.Join(dir, "bad.bin")
			if err := nn.DumpToFile(struct{ C chan int }{make(chan int)}, path); err == nil {
				return errf("DumpToFile of a channel: no error")
			}
			if err := nn.DumpToFile(&saved{Model: &unregistered{}}, path); err == nil {
				return errf("DumpToFile of a type which is not registered: no error")
			}
			if err := nn.Dump(&saved{Model: &unregistered{}}, io.Discard); err == nil {
				return errf("Dump of a type which is not registered: no error")
			}
			// another type
			good := filepath.Join(dir, "good.bin")
			if err := o.file(good); err != nil {
				return err
			}
			if _, err := nn.LoadFromFile[[]string](good); err == nil {
				return errf("LoadFromFile of another type: no error")
			}
			return o.from(good)
		})
	}, "%s/faults", o.name)
}

// unregistered is a model which gob does not know.
type unregistered struct{ nn.Module }
