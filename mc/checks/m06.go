package checks

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/nlpodyssey/spago/verifmc/lib"
)

func init() { Registry["M06"] = m06 }

func m06(t *lib.T) {
	alphabet := []float64{0, math.Copysign(0, -1), 1, -2.5, 0.1, 1e-9, 123456789.125, math.Inf(-1), math.NaN()}
	shapesOf := [][2]int{{1, 1}, {1, 2}, {2, 1}, {2, 2}, {3, 1}, {1, 3}}
	if t.Thorough() {
		shapesOf = append(shapesOf, [2]int{1, 4}, [2]int{4, 1})
	}
	t.Rule("every matrix of the shapes %v with elements of %v, empty matrices, and larger ones (up to 1000 rows or columns) with elements of distinct widths x {float32,float64} x verbs v f F e E g G x b x widths {none,1,8,12} x precisions {none,0,2,9}: one bracketed row per row, one field per element with the digits of the verb, rows of the same number of characters, decimal points in one column, and %%v read back as the very same number", shapesOf, alphabet)
	verbs := []rune("vfFeEgGxb")
	flags := []string{""}
	for _, w := range []string{"", "1", "8", "12"} {
		for _, p := range []string{"", ".0", ".2", ".9"} {
			if w+p != "" {
				flags = append(flags, w+p)
			}
		}
	}
	check := func(d DT, r, c int, vs []float64) error {
		vs = d.rounds(vs)
		m := d.mk(r, c, vs)
		for _, verb := range verbs {
			for _, fl := range flags {
				format := "%" + fl + string(verb)
				s := fmt.Sprintf(format, m)
				if err := printed(d, s, verb, fl, r, c, vs); err != nil {
					return errf("%s of %d×%d %v printed\n%s\n%v", format, r, c, vs, s, err)
				}
				if s2 := fmt.Sprintf(format, m); s2 != s {
					return errf("%s printed the second time\n%s", format, s2)
				}
			}
		}
		for _, format := range []string{"%+v", "%#v"} {
			s := fmt.Sprintf(format, m)
			if strings.Contains(s, "PANIC") {
				return errf("%s of %v: %s", format, vs, s)
			}
		}
		return exactly(m, ref{r, c, vs})
	}
	for _, d := range dts {
		d := d
		for _, sh := range shapesOf {
			r, c := sh[0], sh[1]
			n := r * c
			total := 1
			for i := 0; i < n; i++ {
				total *= len(alphabet)
			}
			for k := 0; k < total; k++ {
				k := k
				t.Casef("values", true, func() error {
					vs := make([]float64, n)
					for i, x := 0, k; i < n; i, x = i+1, x/len(alphabet) {
						vs[i] = alphabet[x%len(alphabet)]
					}
					return check(d, r, c, vs)
				}, "%d/%dx%d/%d", d, r, c, k)
			}
		}
		for _, sh := range [][2]int{{100, 3}, {3, 100}, {1, 1000}, {1000, 1}, {17, 70}, {70, 17}, {33, 33}} {
			r, c := sh[0], sh[1]
			for shift := 0; shift < 4; shift++ {
				t.Casef("large", true, func() error {
					vs := genLong(r*c, shift)
					k := (r*c - 1) / (1 << shift) // a wide one somewhere
					vs[k], vs[r*c/2] = -1e20, 1e-7
					return check(d, r, c, vs)
				}, "%d/%dx%d/%d", d, r, c, shift)
			}
		}
		max := lib.Pick(t, 6, 9)
		for r := 0; r <= max; r++ {
			for c := 0; c <= max; c++ {
				r, c := r, c
				for shift := 0; shift < 4; shift++ {
					shift := shift
					t.Casef("shapes", r*c > 0, func() error {
						vs := make([]float64, r*c)
						for i := range vs {
							vs[i] = []float64{1.5, -12.25, 100, 1e10, 1e-5, 7, 1.0 / 3, -1e20, 65536.0625, math.Inf(1), -math.MaxFloat32, math.SmallestNonzeroFloat32}[(i*(shift+1)+shift)%12]
						}
						return check(d, r, c, vs)
					}, "%d/%dx%d/%d", d, r, c, shift)
				}
			}
		}
	}
}

// printed checks what has been printed for a matrix.
func printed(d DT, s string, verb rune, fl string, r, c int, vs []float64) error {
	if r*c == 0 {
		if s != "[]" {
			return errf("expected [] for an empty matrix")
		}
		return nil
	}
	lines := strings.Split(s, "\n")
	if len(lines) != r {
		return errf("%d lines, expected %d", len(lines), r)
	}
	prec := -1
	if i := strings.IndexByte(fl, '.'); i >= 0 {
		prec, _ = strconv.Atoi(fl[i+1:])
	}
	sv := verb
	switch verb {
	case 'v':
		sv = 'g'
	case 'F':
		sv = 'f'
	}
	bits := int(d)
	width := -1
	points := make([]int, c)
	for j := range points {
		points[j] = -1
	}
	for i, line := range lines {
		l, rb := "⎢", "⎥"
		switch {
		case r == 1:
			l, rb = "[", "]"
		case i == 0:
			l, rb = "⎡", "⎤"
		case i == r-1:
			l, rb = "⎣", "⎦"
		}
		if !strings.HasPrefix(line, l) || !strings.HasSuffix(line, rb) {
			return errf("line %d has other brackets", i)
		}
		if n := utf8.RuneCountInString(line); width >= 0 && n != width {
			return errf("line %d is %d characters wide, expected %d", i, n, width)
		} else {
			width = n
		}
		body := line[len(l) : len(line)-len(rb)]
		pos := 0
		for j := 0; j < c; j++ {
			start := pos
			for pos < len(body) && body[pos] == ' ' {
				pos++
			}
			end := pos
			for end < len(body) && body[end] != ' ' {
				end++
			}
			if j > 0 && pos == start {
				return errf("line %d: no space before field %d", i, j)
			}
			field := body[pos:end]
			v := vs[i*c+j]
			if want := strconv.FormatFloat(v, byte(sv), prec, bits); field != want {
				return errf("line %d, field %d: %q, expected %q", i, j, field, want)
			}
			if verb == 'v' && prec < 0 {
				back, err := strconv.ParseFloat(field, bits)
				if err != nil || math.Float64bits(back) != math.Float64bits(v) && !(math.IsNaN(back) && math.IsNaN(v)) {
					return errf("line %d, field %d: %q is read back as %v, expected %v", i, j, field, back, v)
				}
			}
			if p := strings.IndexByte(field, '.'); p >= 0 {
				if points[j] >= 0 && points[j] != pos+p {
					return errf("line %d, field %d: the decimal point is in column %d, expected %d", i, j, pos+p, points[j])
				}
				points[j] = pos + p
			}
			pos = end
		}
		if strings.TrimSpace(body[pos:]) != "" {
			return errf("line %d has more fields than %d", i, c)
		}
	}
	return nil
}
