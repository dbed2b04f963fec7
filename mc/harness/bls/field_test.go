package bls

import (
	"fmt"
	"math/big"

	. "verif.local/vs/alg"
	"verif.local/vs/ex"
)

// elements are the edge values and some in between.
var elements = func() []Num {
	e := append([]Num{}, Edges...)
	for i := 1; i < 6; i++ {
		e = append(e, Pow(I(7), 97*i), Inv(I(int64(i+2))))
	}
	return append(e, Root(32), Root(1), I(-3))
}()

func each(tier string, n int, yield func(string) bool) {
	for i := 0; i < n; i++ {
		if !yield(fmt.Sprint(i)) {
			return
		}
	}
}

// wide are the 32-byte strings around every boundary.
func wide() []Num {
	var l []Num
	for k := uint(0); k <= 256; k++ {
		p := new(big.Int).Lsh(big.NewInt(1), k)
		for d := int64(-1); d <= 1; d++ {
			l = append(l, new(big.Int).Add(p, big.NewInt(d)))
		}
		for d := int64(-1); d <= 1; d++ { // and around the modulus
			x := new(big.Int).Lsh(big.NewInt(d), k)
			l = append(l, new(big.Int).Add(Q, x), new(big.Int).Sub(x.Add(x, Q), big.NewInt(1)))
		}
	}
	var o []Num
	for _, x := range l {
		if x.Sign() >= 0 && x.BitLen() <= 256 {
			o = append(o, x)
		}
	}
	return o
}

func little(x Num) (b [32]byte) {
	x.FillBytes(b[:])
	for i := 0; i < 16; i++ {
		b[i], b[31-i] = b[31-i], b[i]
	}
	return
}

func init() {
	ex.Register("C23", func() *ex.Check {
		return &ex.Check{ID: "C23", Spaces: []ex.Space{
			{Name: "arithmetic", Rule: "every pair of edge elements x operation x the result in a place of its own, of the first, of the second operand or of both: the modular result, operands otherwise unchanged",
				Gen: func(tier string, yield func(string) bool) { each(tier, len(elements), yield) },
				Run: Run(func(p Plan, c *Cases) {
					a := elements[p.N(0)]
					for _, b := range elements {
						type op struct {
							name string
							f    func(d, x, y *Fr)
							want Num
						}
						ops := []op{{"add", AddModFr, Add(a, b)}, {"sub", SubModFr, Sub(a, b)}, {"mul", MulModFr, Mul(a, b)}}
						if b.Sign() != 0 {
							ops = append(ops, op{"div", DivModFr, Mul(a, Inv(b))}, op{"inv", func(d, x, y *Fr) { InvModFr(d, y) }, Inv(b)})
						}
						ops = append(ops, op{"copy", func(d, x, y *Fr) { CopyFr(d, y) }, b})
						for _, o := range ops {
							at := fmt.Sprint(o.name, " ", a, " ", b)
							c.Add(at)
							c.Guard(at, func() {
								x, y := fr(a), fr(b)
								var d Fr
								o.f(&d, &x, &y)
								if !Eq(nm(&d), o.want) || !Eq(nm(&x), a) || !Eq(nm(&y), b) {
									c.Fail("wrong result", at, fmt.Sprint(nm(&d)), fmt.Sprint(o.want))
								}
								w := fr(o.want)
								if !EqualFr(&d, &w) || EqualZero(&d) != (o.want.Sign() == 0) || EqualOne(&d) != (o.want.Cmp(I(1)) == 0) {
									c.Fail("a result does not equal itself", at)
								}
								x, y = fr(a), fr(b)
								o.f(&x, &x, &y)
								if !Eq(nm(&x), o.want) || !Eq(nm(&y), b) {
									c.Fail("wrong result in place of the first operand", at)
								}
								x, y = fr(a), fr(b)
								o.f(&y, &x, &y)
								if !Eq(nm(&y), o.want) || !Eq(nm(&x), a) {
									c.Fail("wrong result in place of the second operand", at)
								}
								if Eq(a, b) {
									x = fr(a)
									o.f(&x, &x, &x)
									if !Eq(nm(&x), o.want) {
										c.Fail("wrong result in place of both operands", at)
									}
								}
							})
						}
						x, y := fr(a), fr(b)
						if EqualFr(&x, &y) != Eq(a, b) {
							c.Fail("wrong comparison", fmt.Sprint(a, " ", b))
						}
						CopyFr(&x, &y)
						AddModFr(&y, &y, &ONE)
						if !Eq(nm(&x), b) {
							c.Fail("a copy changes with its original", fmt.Sprint(b))
						}
					}
				})},
			{Name: "encoding", Rule: "32-byte strings around every power of two and around the modulus with every bit changed: accepted exactly below the modulus and given back; small numbers; decimals",
				Gen: func(tier string, yield func(string) bool) { each(tier, len(wide()), yield) },
				Run: Run(func(p Plan, c *Cases) {
					x := wide()[p.N(0)]
					at := x.String()
					c.Add(at)
					c.Guard(at, func() {
						valid := x.Cmp(Q) < 0
						if ValidFr(little(x)) != valid {
							c.Fail("wrong verdict on the range", at)
						}
						d := fr(I(12345))
						if FrFrom32(&d, little(x)) != valid {
							c.Fail("wrong verdict on the encoding", at)
						}
						want := x
						if !valid {
							want = I(12345)
						}
						if !Eq(nm(&d), want) || FrTo32(&d) != little(want) {
							c.Fail("wrong element from its encoding", at, nm(&d).String())
						}
						if x.IsUint64() {
							AsFr(&d, x.Uint64())
							if !Eq(nm(&d), x) {
								c.Fail("wrong element from a number", at, nm(&d).String())
							}
						}
						if valid {
							SetFr(&d, x.String())
							if !Eq(nm(&d), x) || FrStr(&d) != x.String() || d.String() != x.String() {
								c.Fail("wrong element from its decimals", at, FrStr(&d))
							}
						}
					})
				})},
			{Name: "polynomials", Rule: "length x families of coefficients x edge points: the value by the rule of Horner; linear combinations of numbers and polynomials",
				Gen: func(tier string, yield func(string) bool) {
					for n := 1; n <= 12; n++ {
						for _, f := range []string{"basis", "dense", "words"} {
							if f == "words" && n > 3 {
								continue
							}
							if !yield(fmt.Sprintf("%d %s", n, f)) {
								return
							}
						}
					}
				},
				Run: Run(func(p Plan, c *Cases) {
					n := p.N(0)
					Vectors(n, p[1], func(v []Num) {
						if !c.Ok() {
							return
						}
						for _, x := range elements {
							at := fmt.Sprint(Str(v), " at ", x)
							c.Add(at)
							c.Guard(at, func() {
								var y, z Fr
								in, f := frs(v), fr(x)
								EvalPolyAt(&y, in, &f)
								EvalPolyAtUnoptimized(&z, in, &f)
								if w := Eval(v, x); !Eq(nm(&y), w) || !Eq(nm(&z), w) {
									c.Fail("wrong value", at, nm(&y).String(), nm(&z).String())
								}
								if !Same(nms(in), v) || !Eq(nm(&f), x) {
									c.Fail("evaluation changed its input", at)
								}
								EvalPolyAt(&f, in, &f)
								if !Eq(nm(&f), Eval(v, x)) {
									c.Fail("wrong value in place of the point", at)
								}
							})
						}
						w := append(append([]Num{}, v[1:]...), v[0])
						c.Guard(Str(v), func() {
							s := I(0)
							for i := range v {
								s = Add(s, Mul(v[i], w[i]))
							}
							r := LinCombFr(frs(v), frs(w))
							if !Eq(nm(&r), s) {
								c.Fail("wrong linear combination", Str(v))
							}
							for kk := 0; kk < 9; kk++ {
								k := kk%3 + 1
								var rows [][]Fr
								want := make([]Num, n)
								for i := range want {
									want[i] = I(0)
								}
								sc := [][]Num{{I(-1), Edges[15], I(3)}, {I(0), I(1), I(-1)}, {I(1), I(0), I(2)}}[kk/3][:k]
								for j := 0; j < k; j++ {
									row := append(append([]Num{}, v[j%n:]...), v[:j%n]...)
									rows = append(rows, frs(row))
									for i := range want {
										want[i] = Add(want[i], Mul(sc[j], row[i]))
									}
								}
								got, err := PolyLinComb(rows, frs(sc), n)
								if err != nil || !Same(nms(got), want) {
									c.Fail("wrong linear combination of polynomials", Str(v), fmt.Sprint(err))
								}
								if _, err := PolyLinComb(rows, frs(sc), n+1); err == nil {
									c.Fail("combined polynomials of another length", Str(v))
								}
								if _, err := PolyLinComb(rows, frs(sc)[:k-1], n); err == nil {
									c.Fail("combined polynomials with too few scalars", Str(v))
								}
							}
							got, err := PolyLinComb(nil, nil, n)
							if err != nil || len(got) != n {
								c.Fail("wrong combination of no polynomials", fmt.Sprint(err))
							}
						})
					})
				})},
			{Name: "values", Rule: "polynomials given by their values on a domain of up to 16 (64) points, strides of a larger domain, edge points outside: the value of the interpolating polynomial",
				Gen: func(tier string, yield func(string) bool) {
					max := 4
					if tier == "thorough" {
						max = 6
					}
					for s := 0; s <= max; s++ {
						for k := 0; k <= s; k++ {
							for _, f := range Families(1<<k, "quick") {
								if f != "pairs" && f != "bits" && !yield(fmt.Sprintf("%d %d %s", s, k, f)) {
									return
								}
							}
						}
					}
				},
				Run: Run(func(p Plan, c *Cases) {
					s, k := p.N(0), p.N(1)
					roots := make([]Fr, 1<<s)
					for i := range roots {
						roots[i] = fr(Pow(Root(s), i))
					}
					w := Root(k)
					Vectors(1<<k, p[2], func(v []Num) {
						if !c.Ok() {
							return
						}
						vals := frs(Dft(v, w, 1<<k))
						for _, x := range elements {
							if Pow(x, 1<<k).Cmp(I(1)) == 0 { // a point of the domain
								continue
							}
							at := fmt.Sprint(s, " ", Str(v), " at ", x)
							c.Add(at)
							c.Guard(at, func() {
								var y Fr
								f := fr(x)
								EvaluatePolyInEvaluationForm(&y, vals, &f, roots, uint8(s-k))
								if !Eq(nm(&y), Eval(v, x)) {
									c.Fail("wrong value", at, nm(&y).String())
								}
							})
						}
					})
				})},
			{Name: "inverses", Rule: "vectors of non-zero edge elements of every length up to 40 and at every position: all inverses; powers of edge elements by edge exponents",
				Gen: func(tier string, yield func(string) bool) { each(tier, len(elements), yield) },
				Run: Run(func(p Plan, c *Cases) {
					e := elements[p.N(0)]
					for n := 0; n <= 40 && e.Sign() != 0; n++ {
						var v []Num
						for i := 0; len(v) < n; i++ {
							if x := elements[(p.N(0)+i)%len(elements)]; x.Sign() != 0 {
								v = append(v, x)
							}
						}
						at := fmt.Sprint(p[0], " ", n)
						c.Add("batch", at)
						c.Guard(at, func() {
							in := frs(v)
							BatchInvModFr(in)
							for i := range v {
								if !Eq(nm(&in[i]), Inv(v[i])) {
									c.Fail("wrong inverse in a batch", Str(v), fmt.Sprint(i))
								}
							}
						})
					}
					for _, x := range append(wide(), I(3), I(10)) {
						at := fmt.Sprint(e, " to the ", x)
						c.Add(at)
						c.Guard(at, func() {
							f := fr(e)
							var d Fr
							ExpModFr(&d, &f, x)
							if !Eq(nm(&d), new(big.Int).Exp(e, x, Q)) || !Eq(nm(&f), e) {
								c.Fail("wrong power", at, nm(&d).String())
							}
						})
					}
				})},
			{Name: "constants", Rule: "the roots of unity of all 32 scales and the named constants; random elements",
				Gen: func(tier string, yield func(string) bool) { each(tier, 32, yield) },
				Run: Run(func(p Plan, c *Cases) {
					k := p.N(0)
					c.Add(p[0])
					if len(Scale2RootOfUnity) != 32 || !Eq(nm(&Scale2RootOfUnity[k]), Root(k)) {
						c.Fail("wrong root of unity", p[0])
					}
					h := new(big.Int).Rsh(Q, 1)
					for i, x := range []struct {
						f *Fr
						v Num
					}{{&ZERO, I(0)}, {&ONE, I(1)}, {&TWO, I(2)}, {&MODULUS_MINUS1, I(-1)}, {&MODULUS_MINUS2, I(-2)}, {&MODULUS_MINUS1_DIV2, h}, {&INVERSE_TWO, Inv(I(2))}} {
						if !Eq(nm(x.f), x.v) {
							c.Fail("wrong constant", fmt.Sprint(i))
						}
					}
					if m, _ := new(big.Int).SetString(ModulusStr, 10); !Eq(m, Q) {
						c.Fail("wrong modulus")
					}
					for s := 1; s < 64; s++ {
						if !IsPowerOfTwo(1<<s) || IsPowerOfTwo(1<<s+1) || s > 1 && IsPowerOfTwo(1<<s-1) || IsPowerOfTwo(1<<63|1<<s) != (s == 63) {
							c.Fail("wrong verdict on a power of two", fmt.Sprint(s))
						}
					}
					a, b := RandomFr(), RandomFr()
					if EqualFr(a, b) || EqualZero(a) || nm(a).Cmp(Q) >= 0 {
						c.Fail("random elements are not random", a.String())
					}
				})},
		}}
	})
}
