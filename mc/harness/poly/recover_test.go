package polycommit

import (
	"fmt"
	"math/bits"
	"strconv"
	"strings"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	. "verif.local/vs/alg"
	"verif.local/vs/ex"
)

// zeros is the product of (x - w^i) over the missing indices.
func zeros(missing []uint64, n int) []Num {
	w := Root(Log2(n))
	p := []Num{I(1)}
	for _, m := range missing {
		r := Pow(w, int(m))
		nx := make([]Num, len(p)+1)
		for i := range nx {
			nx[i] = I(0)
		}
		for i := range p {
			nx[i+1] = Add(nx[i+1], p[i])
			nx[i] = Sub(nx[i], Mul(p[i], r))
		}
		p = nx
	}
	return p
}

// subsets enumerates sets of missing indices: "mask/LO/HI" all the bit masks in a range,
// "run" all cyclic intervals of a length, "stride" arithmetic progressions, "end" ...
func subsets(n int, kind string, yield func(m []uint64)) {
	f := strings.Split(kind, "/")
	at := func(i int) int { v, _ := strconv.Atoi(f[i]); return v }
	switch f[0] {
	case "mask":
		for x := at(1); x < at(2); x++ {
			var m []uint64
			for i := 0; i < n; i++ {
				if x>>i&1 == 1 {
					m = append(m, uint64(i))
				}
			}
			yield(m)
		}
	case "run": // LEN/STEP: cyclic intervals of a length, starting at the multiples of step
		for s := 0; s < n; s += at(2) {
			m := make([]uint64, 0, n)
			in := make([]bool, n)
			for i := 0; i < at(1); i++ {
				in[(s+i)%n] = true
			}
			for i := range in {
				if in[i] {
					m = append(m, uint64(i))
				}
			}
			yield(m)
		}
	case "stride": // LEN: the first of the indices in steps of an odd number
		for st := 1; st < n; st += 2 {
			in := make([]bool, n)
			for i := 0; i < at(1); i++ {
				in[i*st%n] = true
			}
			var m []uint64
			for i := range in {
				if in[i] {
					m = append(m, uint64(i))
				}
			}
			yield(m)
		}
	case "res": // residues modulo a power of two, by mask
		mod, mask := at(1), at(2)
		var m []uint64
		for i := 0; i < n; i++ {
			if mask>>(i%mod)&1 == 1 {
				m = append(m, uint64(i))
			}
		}
		yield(m)
	}
}

// patterns lists the kinds of subsets of a length.
func patterns(n int, tier string) []string {
	var l []string
	if n <= 8 || n == 16 && tier == "thorough" {
		step := 64
		if n == 16 {
			step = 256
		}
		for x := 0; x < 1<<n; x += step {
			hi := x + step
			if hi > 1<<n {
				hi = 1 << n
			}
			l = append(l, fmt.Sprintf("mask/%d/%d", x, hi))
		}
		return l
	}
	lens := map[int]bool{}
	lengths := func(vs ...int) {
		for _, v := range vs {
			if v >= 0 && v <= n && !lens[v] {
				lens[v] = true
				l = append(l, fmt.Sprintf("run/%d/%d", v, map[bool]int{true: 1, false: n/4 + 1}[n <= 32]))
				if n <= 32 {
					l = append(l, fmt.Sprintf("stride/%d", v))
				}
			}
		}
	}
	if n <= 64 {
		for i := 0; i <= n; i++ {
			lengths(i)
		}
	} else {
		for _, b := range []int{0, 4, 63, 126, 189, 252, 252 + 63, 504, 4 * 252, n / 4, n / 2, 3 * n / 4, n} {
			for d := -2; d <= 2; d++ {
				lengths(b + d)
			}
		}
		if tier == "thorough" {
			for i := 0; i <= n; i += 7 {
				lengths(i)
			}
		}
	}
	for mask := 1; mask < 15; mask++ {
		l = append(l, fmt.Sprintf("res/4/%d", mask))
	}
	if n <= 128 {
		for mask := 1; mask < 255; mask++ {
			l = append(l, fmt.Sprintf("res/8/%d", mask))
		}
	}
	return l
}

func genPatterns(maxq, maxt int) func(tier string, yield func(string) bool) {
	return func(tier string, yield func(string) bool) {
		for k := 1; k <= maxScale(tier, maxq, maxt); k++ {
			for _, pt := range patterns(1<<k, tier) {
				ss := []int{k, k + 2}
				if k > 6 {
					ss = []int{k}
				}
				for _, s := range ss {
					if !yield(fmt.Sprintf("%d %d %s", s, 1<<k, pt)) {
						return
					}
				}
			}
		}
	}
}

// recovers runs a recovery for every polynomial that the known samples determine.
func recovers(c *Cases, p Plan, tag string, f func(fs *FFTSettings, s []*bls.Fr) ([]bls.Fr, error)) {
	s, n := p.N(0), p.N(1)
	w := Root(Log2(n))
	subsets(n, p[2], func(m []uint64) {
		known := n - len(m)
		if known == 0 || !c.Ok() {
			return
		}
		ks := []int{known}
		if known > 1 {
			ks = append(ks, 1, known/2)
		}
		for i, d := range ks {
			pl := make([]Num, d)
			for j := range pl {
				pl[j] = Pow(I(int64(5+2*i)), j*j+1)
			}
			if i == 1 {
				pl[0] = I(0) // all samples zero
			}
			data := Dft(pl, w, n)
			smp := make([]*bls.Fr, n)
			show := make([]Num, n)
			for j := range data {
				x := fr(data[j])
				smp[j], show[j] = &x, data[j]
			}
			for _, j := range m {
				smp[j], show[j] = nil, nil
			}
			in := fmt.Sprint("degree ", d-1, " missing ", m, " of ", n, " settings ", s)
			if n <= 8 {
				in += " samples " + Strp(show)
			}
			c.Add(tag, p[0], p[1], fmt.Sprint(m), fmt.Sprint(d))
			c.Guard(in, func() {
				out, err := f(setting(s), smp)
				if err != nil {
					c.Fail("no recovery: "+errText(err), in)
				} else if !Same(nms(out), data) {
					c.Fail("wrong recovery", in)
				}
				for j := range smp {
					if (smp[j] == nil) != (show[j] == nil) || smp[j] != nil && !Eq(nm(smp[j]), show[j]) {
						c.Fail("the recovery changed the samples", in)
					}
				}
			})
		}
		// one more sample than the polynomial needs, and one of them wrong
		if known < 2 || n > 64 {
			return
		}
		pl := make([]Num, known-1)
		for j := range pl {
			pl[j] = Pow(I(11), j+1)
		}
		data := Dft(pl, w, n)
		for bad := 0; bad < n; bad++ {
			smp := make([]*bls.Fr, n)
			for j := range data {
				x := fr(data[j])
				smp[j] = &x
			}
			for _, j := range m {
				smp[j] = nil
			}
			if smp[bad] == nil {
				continue
			}
			x := fr(Add(data[bad], I(1)))
			smp[bad] = &x
			in := fmt.Sprint("index ", bad, " wrong, missing ", m, " of ", n)
			c.Guard(in, func() {
				out, err := f(setting(s), smp)
				if err != nil {
					return
				}
				for j := range smp {
					if smp[j] != nil && !Eq(nm(&out[j]), nm(smp[j])) {
						c.Fail("a recovery that contradicts the samples", in)
					}
				}
			})
			if bad%3 == 2 {
				break
			}
		}
	})
}

func errText(err error) string {
	s := err.Error()
	if i := strings.IndexByte(s, ','); i > 0 {
		s = s[:i]
	}
	return s
}

func init() {
	ex.Register("C22", func() *ex.Check {
		return &ex.Check{ID: "C22", Spaces: []ex.Space{
			{Name: "zeropoly", Rule: "length x settings x every set of missing indices (all of them up to length 8, 16 thorough; structured ones beyond, across the sizes where the algorithm changes): the polynomial is the product of the missing linear factors and its evaluations vanish exactly there",
				Gen: genPatterns(10, 11),
				Run: Run(func(p Plan, c *Cases) {
					s, n := p.N(0), p.N(1)
					fs := setting(s)
					subsets(n, p[2], func(m []uint64) {
						if len(m) == n || !c.Ok() {
							return
						}
						c.Add("zeropoly", p[0], p[1], fmt.Sprint(m))
						in := fmt.Sprint("missing ", m, " of ", n, " settings ", s)
						c.Guard(in, func() {
							mm := append([]uint64{}, m...)
							ev, pl := fs.ZeroPolyViaMultiplication(mm, uint64(n))
							if len(ev) != n || len(pl) != n {
								c.Fail("wrong lengths", in)
								return
							}
							if n <= 256 {
								want := zeros(m, n)
								for len(want) < n {
									want = append(want, I(0))
								}
								if !Same(nms(pl), want) {
									c.Fail("wrong polynomial", in)
								}
								if n <= 128 && !Same(nms(ev), Dft(want, Root(Log2(n)), n)) {
									c.Fail("wrong evaluations", in)
								}
							}
							miss := map[int]bool{}
							for _, i := range m {
								miss[int(i)] = true
							}
							for i := range ev {
								if (nm(&ev[i]).Sign() == 0) != miss[i] {
									c.Fail("the evaluations do not vanish exactly at the missing indices", in)
								}
							}
							if n > 256 {
								// monic of the right degree with these zeros: the product
								for i := range pl {
									v := nm(&pl[i])
									if i == len(m) && !Eq(v, I(1)) || i > len(m) && v.Sign() != 0 {
										c.Fail("wrong degree", in)
									}
								}
								x := Root(Log2(n) + 1) // a point outside the domain
								e1 := I(1)
								for _, i := range m {
									e1 = Mul(e1, Sub(x, Pow(Root(Log2(n)), int(i))))
								}
								if !Eq(Eval(nms(pl), x), e1) {
									c.Fail("wrong polynomial", in)
								}
							}
						})
					})
				})},
			{Name: "samples", Rule: "length x settings x every set of missing indices (as above) x polynomials of every number of coefficients class the known samples determine: recovered completely; with a wrong sample, an error or nothing that contradicts a sample",
				Gen: genPatterns(8, 10),
				Run: Run(func(p Plan, c *Cases) {
					recovers(c, p, "samples", func(fs *FFTSettings, s []*bls.Fr) ([]bls.Fr, error) {
						return fs.RecoverPolyFromSamples(s, fs.ZeroPolyViaMultiplication)
					})
				})},
			{Name: "erasure", Rule: "the same for the other recovery algorithm",
				Gen: genPatterns(7, 9),
				Run: Run(func(p Plan, c *Cases) {
					recovers(c, p, "erasure", func(fs *FFTSettings, s []*bls.Fr) ([]bls.Fr, error) {
						return fs.ErasureCodeRecover(s)
					})
				})},
			{Name: "extension", Rule: "length x settings x every vector of the families: the even values and their extension are the evaluations of one polynomial whose upper coefficients are zero",
				Gen: func(tier string, yield func(string) bool) {
					for k := 1; k <= maxScale(tier, 6, 8); k++ {
						for _, f := range Families(1<<k, tier) {
							for _, s := range []int{k + 1, k + 3} {
								if !yield(fmt.Sprintf("%d %d %s", s, 1<<k, f)) {
									return
								}
							}
						}
					}
				},
				Run: Run(func(p Plan, c *Cases) {
					s, n := p.N(0), p.N(1)
					fs := setting(s)
					k := bits.Len(uint(n)) - 1
					w2 := Root(k + 1)
					Vectors(n, p[2], func(v []Num) {
						if !c.Ok() {
							return
						}
						c.Add("extension", p[0], Str(v))
						// the polynomial with these coefficients, on the double domain
						ev := Dft(v, w2, 2*n)
						even, odd := make([]Num, n), make([]Num, n)
						for i := range even {
							even[i], odd[i] = ev[2*i], ev[2*i+1]
						}
						c.Guard(Str(v), func() {
							x := frs(even)
							fs.DASFFTExtension(x)
							if !Same(nms(x), odd) {
								c.Fail("wrong extension", "coefficients "+Str(v), "settings "+p[0])
							}
						})
					})
				})},
			{Name: "shift", Rule: "length x every vector of the families: shifting and unshifting are the scalings of the argument, inverse to each other",
				Gen: func(tier string, yield func(string) bool) {
					for k := 0; k <= maxScale(tier, 5, 7); k++ {
						for _, f := range Families(1<<k, "quick") {
							if !yield(fmt.Sprintf("%d %s", 1<<k, f)) {
								return
							}
						}
					}
				},
				Run: Run(func(p Plan, c *Cases) {
					fs := setting(3)
					i5 := Inv(I(5))
					Vectors(p.N(0), p[1], func(v []Num) {
						c.Add("shift", Str(v))
						x := frs(v)
						fs.ShiftPoly(x)
						for i := range x {
							if !Eq(nm(&x[i]), Mul(v[i], Pow(i5, i))) {
								c.Fail("wrong shift", Str(v))
							}
						}
						fs.UnshiftPoly(x)
						if !Same(nms(x), v) {
							c.Fail("unshifting does not undo shifting", Str(v))
						}
					})
				})},
		}}
	})
}
