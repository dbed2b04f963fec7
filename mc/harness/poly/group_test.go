//go:build !bignum_pure && !bignum_hol256

package polycommit

import (
	"fmt"
	"math/big"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	. "verif.local/vs/alg"
	"verif.local/vs/ex"
)

func g1(e Num) (p bls.G1Point) {
	f := fr(new(big.Int).Mod(e, Q))
	bls.MulG1(&p, &bls.GenG1, &f)
	return
}

func g1s(e []Num) []bls.G1Point {
	o := make([]bls.G1Point, len(e))
	for i := range e {
		o[i] = g1(e[i])
	}
	return o
}

func g1eq(p *bls.G1Point, e Num) bool { w := g1(e); return bls.EqualG1(p, &w) }

func g1same(p []bls.G1Point, e []Num) int {
	if len(p) != len(e) {
		return 0
	}
	for i := range p {
		if !g1eq(&p[i], e[i]) {
			return i
		}
	}
	return -1
}

var kzgs = map[string]*KZGSettings{}

// kz is a setup of n powers of the secret, with a domain of scale s.
func kz(secret Num, s, n int) *KZGSettings {
	k := fmt.Sprint(secret, " ", s, " ", n)
	if kzgs[k] == nil {
		s1, s2 := GenerateTestingSetup(secret.String(), uint64(n))
		kzgs[k] = NewKZGSettings(setting(s), s1, s2)
	}
	return kzgs[k]
}

var secrets = []Num{I(2), I(-5), Edges[15], func() Num {
	x, _ := new(big.Int).SetString("1927409816240961209460912649124", 10)
	return x
}()}

func upTo(max, n int) int {
	if n < max {
		return n
	}
	return max
}

func init() {
	ex.Register("C21g", func() *ex.Check {
		return &ex.Check{ID: "C21g", Spaces: []ex.Space{
			{Name: "fftg1", Rule: "scale of the settings x length x direction x every vector of the families, in the exponent: the transform of the points is the transform of the exponents; lengths that are no power of two or too large give an error",
				Gen: func(tier string, yield func(string) bool) {
					for s := 0; s <= maxScale(tier, 6, 8); s++ {
						for n := 1; n <= 2<<s; n++ {
							if n&(n-1) != 0 {
								if n < 16 && !yield(fmt.Sprintf("%d %d 0 dense", s, n)) {
									return
								}
								continue
							}
							for _, f := range Families(n, "quick") {
								for d := 0; d < 2; d++ {
									if !yield(fmt.Sprintf("%d %d %d %s", s, n, d, f)) {
										return
									}
								}
							}
						}
					}
				},
				Run: Run(func(p Plan, c *Cases) {
					s, n, d := p.N(0), p.N(1), p.N(2)
					fs := setting(s)
					okay := n&(n-1) == 0 && n <= 1<<s
					w, il := Root(Log2(n)), I(1)
					if d == 1 {
						w, il = Inv(w), Inv(I(int64(n)))
					}
					Vectors(n, p[3], func(v []Num) {
						if !c.Ok() {
							return
						}
						c.Add("fftg1", p[0], p[2], Str(v))
						c.Guard(Str(v), func() {
							in := g1s(v)
							out, err := fs.FFTG1(in, d == 1)
							if (err == nil) != okay {
								c.Fail("wrong verdict on the length", fmt.Sprint(n, " ", err))
							}
							if err != nil {
								return
							}
							want := Dft(v, w, n)
							for i := range want {
								want[i] = Mul(want[i], il)
							}
							if i := g1same(out, want); i >= 0 {
								c.Fail("wrong transform", Str(v), fmt.Sprint("index ", i))
							}
							if i := g1same(in, v); i >= 0 {
								c.Fail("the transform changed its input", Str(v))
							}
						})
					})
				})},
			{Name: "bitorderg1", Rule: "every power of two up to 2^10: reordering of points",
				Gen: func(tier string, yield func(string) bool) {
					for s := 1; s <= 10; s++ {
						if !yield(fmt.Sprint(s)) {
							return
						}
					}
				},
				Run: Run(func(p Plan, c *Cases) {
					s := p.N(0)
					n := 1 << s
					e := make([]Num, n)
					r := make([]Num, n)
					for i := range e {
						e[i], r[i] = I(int64(i)), I(int64(Rev(i, s)))
						c.Add("bitorderg1", p[0], fmt.Sprint(i))
					}
					v := g1s(e)
					reverseBitOrderG1(v)
					if i := g1same(v, r); i >= 0 {
						c.Fail("wrong bit reversal", fmt.Sprint("length ", n, " index ", i))
					}
				})},
		}}
	})
	ex.Register("C19", func() *ex.Check {
		return &ex.Check{ID: "C19", Spaces: []ex.Space{
			{Name: "open", Rule: "secret x degree x every polynomial of the families x point: commitment and proof are those of the definition, the proof verifies for the value, and for no other value, point, commitment or proof of the alphabet",
				Gen: func(tier string, yield func(string) bool) {
					for sec := range secrets {
						for n := 1; n <= maxScale(tier, 9, 17); n++ {
							fams := []string{"basis", "dense"}
							if n <= 3 {
								fams = append(fams, "words")
							} else if n <= 5 {
								fams = append(fams, "trits")
							}
							for _, f := range fams {
								for x := range points {
									if !yield(fmt.Sprintf("%d %d %s %d", sec, n, f, x)) {
										return
									}
								}
							}
						}
					}
				},
				Run: Run(func(p Plan, c *Cases) {
					sec, n, xi := secrets[p.N(0)], p.N(1), p.N(3)
					ks := kz(sec, 5, upTo(32, 2*n+2))
					x := points[xi]
					if xi == len(points)-1 {
						x = sec
					}
					Vectors(n, p[2], func(v []Num) {
						if !c.Ok() {
							return
						}
						c.Add("open", p[0], x.String(), Str(v))
						in := "secret " + sec.String() + " point " + x.String() + " polynomial " + Str(v)
						c.Guard(in, func() {
							cf := frs(v)
							com := ks.CommitToPoly(cf)
							y := Eval(v, x)
							if !g1eq(com, Eval(v, sec)) {
								c.Fail("wrong commitment", in)
							}
							if u := ks.CommitToPolyUnoptimized(cf); !bls.EqualG1(u, com) {
								c.Fail("the two ways to commit differ", in)
							}
							fx, fy := fr(x), fr(y)
							pr := ks.ComputeProofSingle(cf, fx)
							quot, _ := DivXn(v, 1, x)
							if !g1eq(pr, Eval(quot, sec)) {
								c.Fail("wrong proof", in)
							}
							if !Same(nms(cf), v) || !Eq(nm(&fx), x) {
								c.Fail("the prover changed its input", in)
							}
							if !ks.CheckProofSingle(com, pr, &fx, &fy) {
								c.Fail("a correct proof is rejected", in)
							}
							for _, dy := range []Num{I(1), I(-1), Edges[16]} {
								y2 := fr(Add(y, dy))
								if ks.CheckProofSingle(com, pr, &fx, &y2) {
									c.Fail("a proof is accepted for another value", in)
								}
								c2 := g1(Add(Eval(v, sec), dy))
								if ks.CheckProofSingle(&c2, pr, &fx, &fy) {
									c.Fail("a proof is accepted for another commitment", in)
								}
								p2 := g1(Add(Eval(quot, sec), dy))
								if !Eq(x, sec) && ks.CheckProofSingle(com, &p2, &fx, &fy) {
									c.Fail("another proof is accepted", in)
								}
							}
						})
					})
				})},
			{Name: "verify", Rule: "secret x commitment x proof x point x value, each over an alphabet of exponents: accepted exactly when commitment - value = proof * (secret - point)",
				Gen: func(tier string, yield func(string) bool) {
					for s := range secrets {
						for a := range alpha(tier) {
							for b := range alpha(tier) {
								if !yield(fmt.Sprintf("%d %d %d", s, a, b)) {
									return
								}
							}
						}
					}
				},
				Run: Run(func(p Plan, c *Cases) {
					al := alpha(ex.Tier())
					sec, a, b := secrets[p.N(0)], al[p.N(1)], al[p.N(2)]
					ks := kz(sec, 1, 2)
					com, pr := g1(a), g1(b)
					xs := append(append([]Num{}, al...), sec, Add(sec, I(1)), Sub(sec, I(1)))
					for _, x := range xs {
						fit := Sub(a, Mul(b, Sub(sec, x)))
						for _, y := range append([]Num{fit, Add(fit, I(1)), Sub(I(0), fit)}, al...) {
							c.Add("verify", p[0], p[1], p[2], x.String(), y.String())
							fx, fy := fr(x), fr(y)
							if got, want := ks.CheckProofSingle(&com, &pr, &fx, &fy), Eq(y, fit); got != want {
								c.Fail(fmt.Sprintf("verdict %v instead of %v", got, want), fmt.Sprint("secret ", sec, " commitment ", a, " proof ", b, " point ", x, " value ", y))
							}
						}
					}
				})},
			{Name: "evalform", Rule: "length x every vector of the families: committing to evaluations with the transformed setup is committing to the coefficients",
				Gen: func(tier string, yield func(string) bool) {
					for k := 0; k <= maxScale(tier, 5, 7); k++ {
						for _, f := range Families(1<<k, "quick") {
							if !yield(fmt.Sprintf("%d %s", k, f)) {
								return
							}
						}
					}
				},
				Run: Run(func(p Plan, c *Cases) {
					k := p.N(0)
					n := 1 << k
					sec := secrets[3]
					ks := kz(sec, k, n)
					var ifft []bls.G1Point
					c.Guard("setup", func() {
						var err error
						if ifft, err = ks.FFTG1(ks.SecretG1, true); err != nil {
							c.Fail("error: " + err.Error())
						}
					})
					Vectors(n, p[1], func(v []Num) {
						if !c.Ok() {
							return
						}
						c.Add("evalform", p[0], Str(v))
						c.Guard(Str(v), func() {
							ev := Dft(v, Root(k), n)
							if !g1eq(CommitToEvalPoly(ifft, frs(ev)), Eval(v, sec)) {
								c.Fail("wrong commitment to evaluations", Str(v))
							}
						})
					})
				})},
		}}
	})
	ex.Register("C20", func() *ex.Check {
		return &ex.Check{ID: "C20", Spaces: []ex.Space{
			{Name: "multi", Rule: "secret x coset size x degree x every polynomial of the families x point: the proof is the quotient's commitment and verifies for the values on the coset, for no other values, coset or proof",
				Gen: func(tier string, yield func(string) bool) {
					for sec := range secrets {
						for k := 0; k <= maxScale(tier, 3, 4); k++ {
							for l := 1; l <= 3<<k+1; l++ {
								fams := []string{"basis", "dense"}
								if l <= 3 {
									fams = append(fams, "words")
								}
								for _, f := range fams {
									for x := range upoints {
										if !yield(fmt.Sprintf("%d %d %d %s %d", sec, k, l, f, x)) {
											return
										}
									}
								}
							}
						}
						for k := maxScale(tier, 3, 4) + 1; k <= 5; k++ { // larger cosets, some lengths
							for _, l := range []int{1, 1<<k - 1, 1 << k, 1<<k + 1, 2<<k - 1} {
								for x := range upoints {
									if !yield(fmt.Sprintf("%d %d %d dense %d", sec, k, l, x)) {
										return
									}
								}
							}
						}
						for k := 6; k <= maxScale(tier, 7, 8) && sec == 2; k++ { // the largest ones
							for _, l := range []int{1, 1<<k - 1, 1<<k + 1, 2<<k - 1} {
								if !yield(fmt.Sprintf("%d %d %d dense %d", sec, k, l, len(upoints)-1)) {
									return
								}
							}
						}
					}
				},
				Run: Run(func(p Plan, c *Cases) {
					sec, k, l, x := secrets[p.N(0)], p.N(1), p.N(2), upoints[p.N(4)]
					n := 1 << k
					ks := kz(sec, 5, 64)
					if k > 5 {
						ks = kz(sec, 8, 512)
					}
					bx := new(big.Int).SetUint64(x)
					w := Root(k)
					Vectors(l, p[3], func(v []Num) {
						if !c.Ok() {
							return
						}
						c.Add("multi", p[0], p[1], p[4], Str(v))
						in := fmt.Sprint("secret ", sec, " coset of ", n, " at ", x, " polynomial ", Str(v))
						c.Guard(in, func() {
							cf := frs(v)
							pr := ks.ComputeProofMulti(cf, x, uint64(n))
							quot, _ := DivXn(v, n, Pow(bx, n))
							if !g1eq(pr, Eval(quot, sec)) {
								c.Fail("wrong proof", in)
							}
							if !Same(nms(cf), v) {
								c.Fail("the prover changed its input", in)
							}
							ys := make([]Num, n)
							z := bx
							for i := range ys {
								ys[i] = Eval(v, z)
								z = Mul(z, w)
							}
							com := g1(Eval(v, sec))
							fx := fr(bx)
							fy := frs(ys)
							if !ks.CheckProofMulti(&com, pr, &fx, fy) {
								c.Fail("a correct proof is rejected", in)
							}
							if !Same(nms(fy), ys) {
								c.Fail("the verifier changed its input", in)
							}
							for i := 0; i < n; i++ {
								if n > 32 && i > 1 && i != n/2-1 && i != n/2 && i != n-1 {
									continue
								}
								y2 := append([]Num{}, ys...)
								y2[i] = Add(y2[i], I(1))
								if !Eq(Pow(sec, n), Pow(bx, n)) && ks.CheckProofMulti(&com, pr, &fx, frs(y2)) {
									c.Fail("a proof is accepted for other values", in)
								}
							}
							c2, p2 := g1(Add(Eval(v, sec), I(1))), g1(Add(Eval(quot, sec), I(1)))
							if ks.CheckProofMulti(&c2, pr, &fx, fy) || !Eq(Pow(sec, n), Pow(bx, n)) && ks.CheckProofMulti(&com, &p2, &fx, fy) {
								c.Fail("a proof is accepted for another commitment, or another proof is", in)
							}
						})
					})
				})},
			{Name: "verifymulti", Rule: "secret x coset size x commitment x proof x point x values over alphabets of exponents: accepted exactly when commitment - interpolation(secret) = proof * (secret^n - point^n)",
				Gen: func(tier string, yield func(string) bool) {
					for s := range secrets {
						for k := 0; k <= 2; k++ {
							for b := range alpha(tier) {
								for x := range alpha(tier) {
									if !yield(fmt.Sprintf("%d %d %d %d", s, k, b, x)) {
										return
									}
								}
							}
						}
					}
				},
				Run: Run(func(p Plan, c *Cases) {
					al := alpha(ex.Tier())
					sec, k, b, x := secrets[p.N(0)], p.N(1), al[p.N(2)], al[p.N(3)]
					if x.Sign() == 0 {
						x = Add(sec, I(3))
					}
					n := 1 << k
					ks := kz(sec, 5, 64)
					pr, fx := g1(b), fr(x)
					iw := Inv(Root(k))
					fam := "basis"
					if k <= 1 {
						fam = "words"
					}
					Vectors(n, fam, func(ys []Num) {
						if !c.Ok() {
							return
						}
						co := Dft(ys, iw, n)
						for i := range co {
							co[i] = Mul(Mul(co[i], Inv(I(int64(n)))), Inv(Pow(x, i)))
						}
						fit := Add(Eval(co, sec), Mul(b, Sub(Pow(sec, n), Pow(x, n))))
						in := fmt.Sprint("secret ", sec, " coset of ", n, " at ", x, " proof ", b, " values ", Str(ys))
						c.Guard(in, func() {
							for _, a := range []Num{fit, Add(fit, I(1)), I(0), I(1)} {
								c.Add("verifymulti", p[0], p[1], p[2], x.String(), Str(ys), a.String())
								com := g1(a)
								if got, want := ks.CheckProofMulti(&com, &pr, &fx, frs(ys)), Eq(a, fit); got != want {
									c.Fail(fmt.Sprintf("verdict %v instead of %v", got, want), in, "commitment "+a.String())
								}
							}
						})
					})
				})},
			{Name: "fk20", Rule: "size x every polynomial of the families: the proofs made all at once (whole domain, twice the domain, reordered) are those of the definition at every point",
				Gen: func(tier string, yield func(string) bool) {
					for k := 0; k <= maxScale(tier, 5, 7); k++ {
						for _, f := range Families(1<<k, "quick") {
							if !yield(fmt.Sprintf("%d %s", k, f)) {
								return
							}
						}
					}
				},
				Run: Run(func(p Plan, c *Cases) {
					k := p.N(0)
					n := 1 << k
					sec := secrets[3]
					ks := kz(sec, k+1, 2*n)
					fk := NewFK20SingleSettings(ks, uint64(2*n))
					Vectors(n, p[1], func(v []Num) {
						if !c.Ok() {
							return
						}
						c.Add("fk20", p[0], Str(v))
						c.Guard(Str(v), func() {
							cf := frs(v)
							want := quots(v, 1, n, sec)
							if i := g1same(fk.FK20Single(cf), want); i >= 0 {
								c.Fail("wrong proofs (whole domain)", Str(v), fmt.Sprint("index ", i))
							}
							want = quots(v, 1, 2*n, sec)
							ext := append(frs(v), make([]bls.Fr, n)...)
							if i := g1same(fk.FK20SingleDAOptimized(ext), want); i >= 0 {
								c.Fail("wrong proofs (extended domain)", Str(v), fmt.Sprint("index ", i))
							}
							r := make([]Num, 2*n)
							for i := range r {
								r[i] = want[Rev(i, k+1)]
							}
							if i := g1same(fk.DAUsingFK20(cf), r); i >= 0 {
								c.Fail("wrong proofs (data availability)", Str(v), fmt.Sprint("index ", i))
							}
							if !Same(nms(cf), v) {
								c.Fail("the prover changed its input", Str(v))
							}
						})
					})
				})},
			{Name: "fk20multi", Rule: "size x chunk length x every polynomial of the families: the chunk proofs made all at once are those of the definition on every coset",
				Gen: func(tier string, yield func(string) bool) {
					for k := 0; k <= maxScale(tier, 5, 6); k++ {
						for l := 0; l <= k; l++ {
							for _, f := range Families(1<<k, "quick") {
								if !yield(fmt.Sprintf("%d %d %s", k, l, f)) {
									return
								}
							}
						}
					}
				},
				Run: Run(func(p Plan, c *Cases) {
					k, l := p.N(0), p.N(1)
					n, ch := 1<<k, 1<<l
					sec := secrets[3]
					ks := kz(sec, k+1, 2*n)
					fk := NewFK20MultiSettings(ks, uint64(2*n), uint64(ch))
					Vectors(n, p[2], func(v []Num) {
						if !c.Ok() {
							return
						}
						c.Add("fk20multi", p[0], p[1], Str(v))
						in := fmt.Sprint("chunks of ", ch, " polynomial ", Str(v))
						c.Guard(in, func() {
							cf := frs(v)
							want := quots(v, ch, 2*n/ch, sec)
							r := make([]Num, len(want))
							for i := range r {
								r[i] = want[Rev(i, k+1-l)]
							}
							if i := g1same(fk.DAUsingFK20Multi(cf), r); i >= 0 {
								c.Fail("wrong proofs (data availability)", in, fmt.Sprint("index ", i))
							}
							ext := append(frs(v), make([]bls.Fr, n)...)
							if i := g1same(fk.FK20MultiDAOptimized(ext), want); i >= 0 {
								c.Fail("wrong proofs (extended domain)", in, fmt.Sprint("index ", i))
							}
							if i := g1same(fk.FK20Multi(cf), quots(v, ch, n/ch, sec)); i >= 0 {
								c.Fail("wrong proofs (whole domain)", in, fmt.Sprint("index ", i))
							}
							if !Same(nms(cf), v) {
								c.Fail("the prover changed its input", in)
							}
						})
					})
				})},
		}}
	})
}

// quots are the exponents of the proofs for m cosets of ch points; the n-th powers of the
// points are the powers of the primitive m-th root.
func quots(v []Num, ch, m int, sec Num) []Num {
	o := make([]Num, m)
	w, a := Root(Log2(m)), I(1)
	for i := range o {
		qu, _ := DivXn(v, ch, a)
		o[i] = Eval(qu, sec)
		a = Mul(a, w)
	}
	return o
}

var points = append([]Num{I(0), I(1), I(-1), I(2), I(3), I(7), Edges[10], Edges[18]}, I(0) /* the secret */)

var upoints = []uint64{1, 2, 3, 17, 5431, 1<<63 - 1, 1<<64 - 1}

func alpha(tier string) []Num {
	a := []Num{I(0), I(1), I(-1), I(2), I(-5), Edges[15]}
	if tier == "thorough" {
		a = append(a, Edges[10:18]...)
	}
	return a
}
