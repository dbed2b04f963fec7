//go:build !bignum_pure && !bignum_hol256

package bls

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"

	. "verif.local/vs/alg"
	"verif.local/vs/ex"
)

func exps() []Num {
	return append(append([]Num{}, Edges...), I(3), I(7), Inv(I(3)), Root(5), I(-3))
}

func mul1(e Num) (p G1Point) { f := fr(e); MulG1(&p, &GenG1, &f); return }
func mul2(e Num) (p G2Point) { f := fr(e); MulG2(&p, &GenG2, &f); return }

// ref1 is the reference encoding of a multiple of the generator.
func ref1(e Num) []byte { return Gen1.Mul(e).Compressed(48) }
func ref2(e Num) []byte { return Gen2.Mul(e).Compressed(96) }

func zero1(p *G1Point) bool { return EqualG1(p, &ZeroG1) }

func init() {
	ex.Register("C25", func() *ex.Check {
		return &ex.Check{ID: "C25", Spaces: []ex.Space{
			{Name: "multiples", Rule: "edge exponents and all up to 40 in both groups: the standard encoding of the multiple, computed by affine formulas, and back; decimals and text",
				Gen: func(tier string, yield func(string) bool) { each(tier, len(exps())+41, yield) },
				Run: Run(func(p Plan, c *Cases) {
					e := I(int64(p.N(0) - len(exps())))
					if p.N(0) < len(exps()) {
						e = exps()[p.N(0)]
					}
					at := e.String()
					c.Add(at)
					c.Guard(at, func() {
						a, b := mul1(e), mul2(e)
						ca, cb := ToCompressedG1(&a), ToCompressedG2(&b)
						if !bytes.Equal(ca, ref1(e)) || !bytes.Equal(cb, ref2(e)) {
							c.Fail("wrong encoding of a multiple of the generator", at, hex.EncodeToString(ca), hex.EncodeToString(cb))
						}
						a2, err1 := FromCompressedG1(ca)
						b2, err2 := FromCompressedG2(cb)
						if err1 != nil || err2 != nil || !EqualG1(a2, &a) || !EqualG2(b2, &b) {
							c.Fail("an encoded point does not come back", at, fmt.Sprint(err1, err2))
							return
						}
						t1, err1 := a.MarshalText()
						t2, err2 := b.MarshalText()
						var a3 G1Point
						var b3 G2Point
						err3, err4 := a3.UnmarshalText(t1), b3.UnmarshalText(t2)
						if err1 != nil || err2 != nil || err3 != nil || err4 != nil || !EqualG1(&a3, &a) || !EqualG2(&b3, &b) || string(t1) != hex.EncodeToString(ca) || string(t2) != hex.EncodeToString(cb) {
							c.Fail("a point written as text does not come back", at)
						}
						// the same point computed otherwise has the same encoding and string
						x, y := mul1(Sub(e, I(1))), mul2(Sub(e, I(1)))
						AddG1(&x, &x, &GenG1)
						AddG2(&y, &y, &GenG2)
						if !bytes.Equal(ToCompressedG1(&x), ca) || !bytes.Equal(ToCompressedG2(&y), cb) || !EqualG1(&x, &a) || !EqualG2(&y, &b) {
							c.Fail("a point computed in two ways has two encodings", at)
						}
						if e.Sign() != 0 && (StrG1(&x) != StrG1(&a) || StrG2(&y) != StrG2(&b) || a.String() != StrG1(&a) || b.String() != StrG2(&b)) {
							c.Fail("a point computed in two ways has two strings", at)
						}
					})
				})},
			{Name: "arithmetic", Rule: "every pair of edge exponents x operation x the result in a place of its own or of either operand: the exponent of the result; operands otherwise unchanged; equality exactly for equal exponents",
				Gen: func(tier string, yield func(string) bool) { each(tier, len(exps()), yield) },
				Run: Run(func(p Plan, c *Cases) {
					a := exps()[p.N(0)]
					for i, b := range exps() {
						at := fmt.Sprint(a, " ", b)
						c.Add(at)
						c.Guard(at, func() {
							type op1 struct {
								name string
								f    func(d, x, y *G1Point)
								want Num
							}
							fb := fr(b)
							for _, o := range []op1{{"add", AddG1, Add(a, b)}, {"sub", SubG1, Sub(a, b)}, {"copy", func(d, x, y *G1Point) { CopyG1(d, y) }, b},
								{"mul", func(d, x, y *G1Point) { MulG1(d, x, &fb) }, Mul(a, b)},
								{"neg", func(d, x, y *G1Point) { z := *x; NegG1(&z); CopyG1(d, &z) }, Sub(I(0), a)},
								{"clear", func(d, x, y *G1Point) { ClearG1(d) }, I(0)}} {
								want := mul1(o.want)
								x, y := mul1(a), mul1(b)
								x0, y0 := mul1(a), mul1(b)
								var d G1Point
								o.f(&d, &x, &y)
								if !EqualG1(&d, &want) || !EqualG1(&x, &x0) || !EqualG1(&y, &y0) || zero1(&d) != (o.want.Sign() == 0) {
									c.Fail("wrong "+o.name+" in the first group", at)
								}
								o.f(&x, &x, &y)
								if !EqualG1(&x, &want) || !EqualG1(&y, &y0) {
									c.Fail("wrong "+o.name+" in the first group in place", at)
								}
								x = mul1(a)
								o.f(&y, &x, &y)
								if !EqualG1(&y, &want) || !EqualG1(&x, &x0) {
									c.Fail("wrong "+o.name+" in the first group in place of the second", at)
								}
							}
							x, y := mul1(a), mul1(b)
							if EqualG1(&x, &y) != Eq(a, b) {
								c.Fail("wrong comparison in the first group", at)
							}
							if !Eq(nm(&fb), b) {
								c.Fail("a multiplication changed its scalar", at)
							}
							if i%3 != p.N(0)%3 {
								return // a third of the pairs in the second group
							}
							type op2 struct {
								name string
								f    func(d, x, y *G2Point)
								want Num
							}
							for _, o := range []op2{{"add", AddG2, Add(a, b)}, {"sub", SubG2, Sub(a, b)}, {"copy", func(d, x, y *G2Point) { CopyG2(d, y) }, b},
								{"mul", func(d, x, y *G2Point) { MulG2(d, x, &fb) }, Mul(a, b)},
								{"neg", func(d, x, y *G2Point) { z := *x; NegG2(&z); CopyG2(d, &z) }, Sub(I(0), a)},
								{"clear", func(d, x, y *G2Point) { ClearG2(d) }, I(0)}} {
								want := mul2(o.want)
								x, y := mul2(a), mul2(b)
								x0, y0 := mul2(a), mul2(b)
								var d G2Point
								o.f(&d, &x, &y)
								if !EqualG2(&d, &want) || !EqualG2(&x, &x0) || !EqualG2(&y, &y0) || EqualG2(&d, &ZeroG2) != (o.want.Sign() == 0) {
									c.Fail("wrong "+o.name+" in the second group", at)
								}
								o.f(&x, &x, &y)
								if !EqualG2(&x, &want) || !EqualG2(&y, &y0) {
									c.Fail("wrong "+o.name+" in the second group in place", at)
								}
								x = mul2(a)
								o.f(&y, &x, &y)
								if !EqualG2(&y, &want) || !EqualG2(&x, &x0) {
									c.Fail("wrong "+o.name+" in the second group in place of the second", at)
								}
							}
							u, v := mul2(a), mul2(b)
							if EqualG2(&u, &v) != Eq(a, b) {
								c.Fail("wrong comparison in the second group", at)
							}
						})
					}
				})},
			{Name: "combinations", Rule: "length up to 40 x families of factors and exponents: the exponent of the linear combination; points and factors unchanged; different lengths refused",
				Gen: func(tier string, yield func(string) bool) {
					for n := 1; n <= 40; n++ {
						if n > 10 && n%5 != 0 && n&(n-1) != 0 {
							continue
						}
						for _, f := range []string{"basis", "dense", "words"} {
							if f == "words" && n > 2 || f == "basis" && n > 10 {
								continue
							}
							if !yield(fmt.Sprintf("%d %s", n, f)) {
								return
							}
						}
					}
				},
				Run: Run(func(p Plan, c *Cases) {
					n := p.N(0)
					first := true
					Vectors(n, p[1], func(v []Num) {
						if !c.Ok() {
							return
						}
						for turn := 0; turn < 2; turn++ {
							w := make([]Num, n)
							for i := range w {
								w[i] = exps()[(i*5+turn)%len(exps())]
							}
							at := fmt.Sprint(Str(v), " by ", Str(w))
							c.Add(at)
							c.Guard(at, func() {
								pts := make([]G1Point, n)
								s := I(0)
								for i := range w {
									pts[i] = mul1(w[i])
									s = Add(s, Mul(v[i], w[i]))
								}
								f := frs(v)
								got, want := LinCombG1(pts, f), mul1(s)
								if !EqualG1(got, &want) || !bytes.Equal(ToCompressedG1(got), ToCompressedG1(&want)) {
									c.Fail("wrong linear combination", at)
								}
								for i := range w {
									x := mul1(w[i])
									if first && (!EqualG1(&x, &pts[i]) || !Eq(nm(&f[i]), v[i])) {
										c.Fail("a linear combination changed its input", at)
									}
								}
							})
						}
						first = false
					})
				})},
			{Name: "pairings", Rule: "every pair of pairs of small and edge exponents: the pairings are the same exactly if the products of the exponents are",
				Gen: func(tier string, yield func(string) bool) {
					for i := 0; i < 7; i++ {
						for j := 0; j < 7; j++ {
							if !yield(fmt.Sprintf("%d %d", i, j)) {
								return
							}
						}
					}
				},
				Run: Run(func(p Plan, c *Cases) {
					al := []Num{I(0), I(1), I(-1), I(2), Inv(I(2)), Edges[15], Inv(Edges[15])}
					a, b := al[p.N(0)], al[p.N(1)]
					for _, x := range al {
						for _, y := range al {
							at := fmt.Sprint(a, " ", b, " ", x, " ", y)
							c.Add(at)
							c.Guard(at, func() {
								a1, a2, b1, b2 := mul1(a), mul2(b), mul1(x), mul2(y)
								for again := 0; again < 2; again++ {
									if PairingsVerify(&a1, &a2, &b1, &b2) != Eq(Mul(a, b), Mul(x, y)) {
										c.Fail("wrong verdict of the pairings", at)
									}
								}
							})
						}
					}
				})},
			{Name: "invalid", Rule: "encodings of every length, with every combination of flag bits, coordinates beyond the field, off the curve or outside the group: refused with an error; every changed byte gives an error or another point",
				Gen: func(tier string, yield func(string) bool) {
					for _, k := range []string{"length", "flags", "range", "curve", "bytes", "text"} {
						for g := 1; g <= 2; g++ {
							if !yield(fmt.Sprint(k, " ", g)) {
								return
							}
						}
					}
				},
				Run: Run(func(p Plan, c *Cases) {
					size := 48 * p.N(1)
					// decode gives what a decoded point is encoded to again, nil if it is refused
					decode := func(b []byte) (out []byte) {
						at := hex.EncodeToString(b)
						c.Add(p[1], at)
						in := append([]byte{}, b...)
						c.Guard(at, func() {
							if p.N(1) == 1 {
								if x, err := FromCompressedG1(b); err == nil {
									out = ToCompressedG1(x)
								}
							} else if x, err := FromCompressedG2(b); err == nil {
								out = ToCompressedG2(x)
							}
						})
						if !bytes.Equal(in, b) {
							c.Fail("decoding changed its input", at)
						}
						return
					}
					ref := ref1
					if p.N(1) == 2 {
						ref = ref2
					}
					refused := func(b []byte) {
						if o := decode(b); o != nil {
							c.Fail("accepted bytes that encode no point", hex.EncodeToString(b), hex.EncodeToString(o))
						}
					}
					switch p[0] {
					case "length":
						full := append(ref(I(5)), ref(I(6))...)
						for n := 0; n < size; n++ {
							refused(full[:n])
						}
						refused(nil)
					case "flags":
						for _, e := range []Num{I(0), I(1), I(2), Edges[15]} {
							for f := 0; f < 8; f++ {
								b := ref(e)
								b[0] = b[0]&0x1f | byte(f<<5)
								o := decode(b)
								switch {
								case f == 4 || f == 5: // one of the two points of the coordinate
									neg := ref(Sub(I(0), e))
									if e.Sign() != 0 && !bytes.Equal(o, b) || e.Sign() == 0 && o != nil && !bytes.Equal(o, b) || e.Sign() != 0 && !bytes.Equal(b, ref(e)) && !bytes.Equal(b, neg) {
										c.Fail("wrong point from an encoding", hex.EncodeToString(b), hex.EncodeToString(o))
									}
								case f == 6 && e.Sign() == 0:
									if !bytes.Equal(o, b) {
										c.Fail("the point at infinity is refused", hex.EncodeToString(b))
									}
								case f < 4:
									if o != nil {
										c.Fail("accepted an encoding that is not compressed", hex.EncodeToString(b))
									}
								}
							}
						}
					case "range":
						for d := int64(0); d < 40; d++ {
							x := new(big.Int).Add(P, big.NewInt(d))
							if x.BitLen() > 381 {
								break
							}
							for at := 0; at < size; at += 48 {
								b := make([]byte, size)
								x.FillBytes(b[at : at+48])
								for _, s := range []byte{0x80, 0xa0} {
									b[0] = b[0]&0x1f | s
									refused(b)
								}
							}
						}
					case "curve":
						if size == 96 {
							return
						}
						in, off := 0, 0
						for x := int64(0); x < 60; x++ {
							q, on := Lift1(big.NewInt(x))
							var b []byte
							if on {
								b = q.Compressed(48)
								if !q.Mul(Q).Inf {
									in++ // on the curve and not in the group
									refused(b)
								}
							} else {
								off++
								b = make([]byte, 48)
								b[0], b[47] = 0x80, byte(x)
								refused(b)
							}
						}
						if in == 0 || off == 0 {
							c.Fail("no such point")
						}
					case "bytes":
						for _, e := range []Num{I(1), I(7), Edges[20]} {
							for i := 0; i < size; i++ {
								for _, m := range []byte{1, 0x10, 0x80, 0xff} {
									b := ref(e)
									b[i] ^= m
									if o := decode(b); o != nil && bytes.Equal(o, ref(e)) {
										c.Fail("other bytes decode to the same point", hex.EncodeToString(b))
									}
								}
							}
						}
					case "text":
						for i := 0; i <= 2*size+1; i++ {
							t := []byte(hex.EncodeToString(ref(I(9))) + "00")
							if i < 2*size {
								t = t[:2*size]
								t[i] = 'x'
							} else {
								t = t[:i-2]
							}
							c.Add(p[1], string(t))
							c.Guard(string(t), func() {
								x, y := mul1(I(3)), mul2(I(3))
								x0, y0 := mul1(I(3)), mul2(I(3))
								err := x.UnmarshalText(t)
								if size == 96 {
									err = y.UnmarshalText(t)
								}
								if err == nil || !EqualG1(&x, &x0) || !EqualG2(&y, &y0) {
									c.Fail("accepted a text that is no point", string(t))
								}
							})
						}
					}
				})},
		}}
	})
}
