package party

import (
	"fmt"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	. "verif.local/vs/alg"
	"verif.local/vs/ex"
)

// isLagrange checks that the coefficients extrapolate every monomial up to the degree.
func isLagrange(c *Cases, at string, xs []Num, target Num, l []Num) {
	if len(l) != len(xs) {
		c.Fail("wrong number of Lagrange coefficients", at)
		return
	}
	for k := range xs {
		s := I(0)
		for i := range xs {
			s = Add(s, Mul(l[i], Pow(xs[i], k)))
		}
		if !Eq(s, Pow(target, k)) {
			c.Fail("wrong Lagrange coefficients", at, Str(l))
			return
		}
	}
}

func members(n int) []Num {
	v := make([]Num, n)
	for i := range v {
		v[i] = I(int64(i + 1))
	}
	return v
}

var parties = map[int]*HonestParty{}

func member(f int) *HonestParty {
	if parties[f] == nil {
		parties[f] = NewHonestParty(0, uint32(3*f+1), uint32(f), 0, nil, nil, nil, nil, nil, nil)
	}
	return parties[f]
}

func exponents(n int, yield func(v []Num)) {
	Vectors(n, "basis", yield)
	Vectors(n, "dense", yield)
}

func coefficients(c *Cases, xs []Num, target Num) {
	at := fmt.Sprint(Str(xs), " at ", target)
	c.Add("coefficients", at)
	c.Guard(at, func() {
		l := make([]bls.Fr, len(xs))
		x := frs(xs)
		GetLagrangeCoefficients(uint32(len(xs)-1), x, fr(target), l)
		isLagrange(c, at, xs, target, nms(l))
		if !Same(nms(x), xs) {
			c.Fail("the indices were changed", at)
		}
	})
}

func init() {
	ex.Register("C18g", func() *ex.Check {
		return &ex.Check{ID: "C18g", Spaces: []ex.Space{
			{Name: "coefficients", Rule: "degree x every ordered tuple of distinct indices of an alphabet with edge values x every target of the alphabet: the coefficients extrapolate every polynomial of the degree",
				Gen: func(tier string, yield func(string) bool) {
					max := 3
					if tier == "thorough" {
						max = 5
					}
					for d := 0; d <= max; d++ {
						for f := range Points {
							if !yield(fmt.Sprintf("%d %d", d, f)) {
								return
							}
						}
					}
				},
				Run: Run(func(p Plan, c *Cases) {
					Tuples(len(Points), p.N(0)+1, func(t []int) {
						if t[0] == p.N(1) {
							for _, x := range Points {
								if c.Ok() {
									coefficients(c, Pick(Points, t), x)
								}
							}
						}
					})
				})},
			{Name: "indices", Rule: "committees of 3F+1, F up to 3 (4): every set of 2F+1 or F+1 member indices x every target from 0 to 3F+1",
				Gen: func(tier string, yield func(string) bool) {
					max := 3
					if tier == "thorough" {
						max = 4
					}
					for f := 1; f <= max; f++ {
						for _, d := range []int{f, 2 * f} {
							for lo := 1; lo+d <= 3*f+1; lo++ {
								if !yield(fmt.Sprintf("%d %d %d", f, d, lo)) {
									return
								}
							}
						}
					}
				},
				Run: Run(func(p Plan, c *Cases) {
					n := 3*p.N(0) + 1
					Subsets(n, p.N(1)+1, func(t []int) {
						if t[0]+1 != p.N(2) {
							return
						}
						for x := 0; x <= n; x++ {
							if c.Ok() {
								coefficients(c, Pick(members(n), t), I(int64(x)))
							}
						}
					})
				})},
			{Name: "table", Rule: "committees of 3F+1, F up to 5 (8): the coefficients a member computes in advance for every index",
				Gen: func(tier string, yield func(string) bool) {
					max := 5
					if tier == "thorough" {
						max = 8
					}
					for f := 1; f <= max; f++ {
						if !yield(fmt.Sprint(f)) {
							return
						}
					}
				},
				Run: Run(func(p Plan, c *Cases) {
					f := p.N(0)
					t := member(f).LagrangeCoefficients
					if len(t) != 3*f+2 {
						c.Fail("wrong number of precomputed targets", fmt.Sprint(len(t)))
						return
					}
					for i := range t {
						at := fmt.Sprintf("F=%d target %d", f, i)
						c.Add("table", at)
						isLagrange(c, at, members(2*f+1), I(int64(i)), nms(t[i]))
					}
				})},
			{Name: "elements", Rule: "committees of 3F+1, F up to 3 (4) x degree x every target x families of exponents: the element interpolated from the first members' elements has the extrapolated exponent",
				Gen: func(tier string, yield func(string) bool) {
					max := 3
					if tier == "thorough" {
						max = 4
					}
					for f := 1; f <= max; f++ {
						for d := 0; d <= 2*f; d++ {
							for t := 0; t <= 3*f+1; t++ {
								if !yield(fmt.Sprintf("%d %d %d", f, d, t)) {
									return
								}
							}
						}
					}
				},
				Run: Run(func(p Plan, c *Cases) {
					f, d, t := p.N(0), p.N(1), p.N(2)
					exponents(d+1, func(v []Num) {
						if !c.Ok() {
							return
						}
						at := fmt.Sprintf("F=%d degree %d target %d of %s", f, d, t, Str(v))
						c.Add("elements", at)
						c.Guard(at, func() {
							l := g1s(v)
							got := member(f).InterpolateComOrWit(uint32(d), uint32(t), l)
							if !g1eq(&got, Lagrange(members(d+1), v, I(int64(t)))) {
								c.Fail("wrong interpolated element", at)
							}
							for i := range v {
								if !g1eq(&l[i], v[i]) {
									c.Fail("interpolation changed its input", at)
								}
							}
						})
					})
				})},
			{Name: "known", Rule: "committees of 3F+1, F up to 2 (3) x every set (for F=1 in every order) of 2F+1 known member indices x every target x families of exponents: the extrapolated exponent",
				Gen: func(tier string, yield func(string) bool) {
					max := 2
					if tier == "thorough" {
						max = 3
					}
					for f := 1; f <= max; f++ {
						for i := 0; i < 3*f+1; i++ {
							for t := 0; t <= 3*f+1; t++ {
								if !yield(fmt.Sprintf("%d %d %d", f, i, t)) {
									return
								}
							}
						}
					}
				},
				Run: Run(func(p Plan, c *Cases) {
					f, first, t := p.N(0), p.N(1), p.N(2)
					list := Subsets
					if f == 1 {
						list = Tuples
					}
					list(3*f+1, 2*f+1, func(s []int) {
						if s[0] != first {
							return
						}
						xs := Pick(members(3*f+1), s)
						exponents(len(xs), func(v []Num) {
							if !c.Ok() {
								return
							}
							at := fmt.Sprintf("F=%d indices %s target %d of %s", f, Str(xs), t, Str(v))
							c.Add("known", at)
							c.Guard(at, func() {
								got := member(f).InterpolateComOrWitByKnownIndexes(uint32(2*f), uint32(t), frs(xs), g1s(v))
								if !g1eq(&got, Lagrange(xs, v, I(int64(t)))) {
									c.Fail("wrong interpolated element", at)
								}
							})
						})
					})
				})},
		}}
	})
}
