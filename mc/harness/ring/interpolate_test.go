package polyring

import (
	"fmt"
	"strconv"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	. "verif.local/vs/alg"
	"verif.local/vs/ex"
)

// through checks that the polynomial has the right length and goes through the points.
func through(c *Cases, deg int, xs, ys []Num, more int) {
	c.Add("points", Str(xs), Str(ys), strconv.Itoa(more))
	at := Str(xs) + " -> " + Str(ys)
	c.Guard(at, func() {
		x, y := frs(xs), frs(ys)
		for i := 0; i < more; i++ { // more points than the degree needs
			x = append(x, fr(I(int64(100+i))))
			y = append(y, fr(I(int64(7*i+1))))
		}
		got := nms(LagrangeInterpolate(deg, x, y))
		if len(got) != deg+1 {
			c.Fail("wrong number of coefficients", at, Str(got))
			return
		}
		for i := range xs {
			if !Eq(Eval(got, xs[i]), ys[i]) {
				c.Fail("the interpolated polynomial misses a point", at, Str(got))
			}
		}
		if !Same(nms(x[:len(xs)]), xs) || !Same(nms(y[:len(ys)]), ys) {
			c.Fail("interpolation changed its input", at)
		}
	})
}

// values is a family of right hand sides.
func values(n int, yield func(v []Num)) {
	fam := []string{"basis", "dense"}
	if n <= 2 {
		fam = append(fam, "words")
	} else if n == 3 {
		fam = append(fam, "trits")
	}
	for _, f := range fam {
		Vectors(n, f, yield)
	}
}

func init() {
	ex.Register("C18", func() *ex.Check {
		return &ex.Check{ID: "C18", Spaces: []ex.Space{
			{Name: "points", Rule: "degree x every ordered tuple of distinct points of an alphabet with edge values x families of values x points in excess: the polynomial of that length through the points",
				Gen: func(tier string, yield func(string) bool) {
					max := 3
					if tier == "thorough" {
						max = 5
					}
					for d := 0; d <= max; d++ {
						for f := range Points {
							for more := 0; more < 3; more++ {
								if !yield(fmt.Sprintf("%d %d %d", d, f, more)) {
									return
								}
							}
						}
					}
				},
				Run: Run(func(p Plan, c *Cases) {
					d := p.N(0)
					Tuples(len(Points), d+1, func(t []int) {
						if t[0] != p.N(1) {
							return
						}
						if d >= 3 {
							if c.Ok() {
								Vectors(d+1, "dense", func(v []Num) { through(c, d, Pick(Points, t), v, p.N(2)) })
							}
							return
						}
						values(d+1, func(v []Num) {
							if c.Ok() {
								through(c, d, Pick(Points, t), v, p.N(2))
							}
						})
					})
				})},
			{Name: "indices", Rule: "committees of 3F+1, F up to 3 (4): every set of 2F+1 and of F+1 member indices x families of values",
				Gen: func(tier string, yield func(string) bool) {
					max := 3
					if tier == "thorough" {
						max = 4
					}
					for f := 1; f <= max; f++ {
						for _, d := range []int{f, 2 * f} {
							for lo := 1; lo+d <= 3*f+1; lo++ {
								if !yield(fmt.Sprintf("%d %d %d", f, d, lo)) {
									return
								}
							}
						}
					}
				},
				Run: Run(func(p Plan, c *Cases) {
					d := p.N(1)
					Subsets(3*p.N(0)+1, d+1, func(t []int) {
						if t[0]+1 != p.N(2) {
							return
						}
						xs := make([]Num, len(t))
						for i := range t {
							xs[i] = I(int64(t[i] + 1))
						}
						Vectors(d+1, "dense", func(v []Num) {
							if c.Ok() {
								through(c, d, xs, v, 0)
							}
						})
					})
				})},
			{Name: "degrees", Rule: "every degree up to 40 (128) through consecutive points, with dense values",
				Gen: func(tier string, yield func(string) bool) {
					max := 40
					if tier == "thorough" {
						max = 128
					}
					for d := 0; d <= max; d++ {
						if !yield(fmt.Sprint(d)) {
							return
						}
					}
				},
				Run: Run(func(p Plan, c *Cases) {
					d := p.N(0)
					for first := 0; first < 2; first++ {
						xs := make([]Num, d+1)
						for i := range xs {
							xs[i] = I(int64(i + first))
						}
						Vectors(d+1, "dense", func(v []Num) {
							if c.Ok() {
								through(c, d, xs, v, 0)
							}
						})
					}
				})},
			{Name: "random", Rule: "every degree up to 64: a random polynomial has that many coefficients, below the modulus, and two of them differ",
				Gen: func(tier string, yield func(string) bool) {
					for d := 0; d <= 64; d++ {
						if !yield(fmt.Sprint(d)) {
							return
						}
					}
				},
				Run: Run(func(p Plan, c *Cases) {
					a, b := NewRandPoly(p.N(0)), NewRandPoly(p.N(0))
					c.Add("random", p[0])
					seen := map[string]bool{}
					for _, x := range append(append([]bls.Fr{}, a...), b...) {
						x := x
						v := nm(&x)
						if v.Cmp(Q) >= 0 || seen[v.String()] {
							c.Fail("the coefficients are not random field elements", v.String())
						}
						seen[v.String()] = true
					}
					if len(a) != p.N(0)+1 {
						c.Fail("wrong number of coefficients", fmt.Sprint(len(a)))
					}
				})},
		}}
	})
}
