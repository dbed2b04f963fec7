package polycommit

import (
	"fmt"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	. "verif.local/vs/alg"
	"verif.local/vs/ex"
)

func clone(v []bls.Fr) []bls.Fr {
	o := make([]bls.Fr, len(v))
	for i := range v {
		bls.CopyFr(&o[i], &v[i])
	}
	return o
}

var settings = map[int]*FFTSettings{}

func setting(s int) *FFTSettings {
	if settings[s] == nil {
		settings[s] = NewFFTSettings(uint8(s))
	}
	return settings[s]
}

func maxScale(tier string, Q, t int) int {
	if tier == "thorough" {
		return t
	}
	return Q
}

func init() {
	ex.Register("C21", func() *ex.Check {
		return &ex.Check{ID: "C21", Spaces: []ex.Space{
			{Name: "domain", Rule: "every scale of the settings: the domain is the powers of the primitive root, forwards and backwards",
				Gen: func(tier string, yield func(string) bool) {
					for s := 0; s <= maxScale(tier, 12, 16); s++ {
						if !yield(fmt.Sprint(s)) {
							return
						}
					}
				},
				Run: Run(func(p Plan, c *Cases) {
					s := p.N(0)
					n := 1 << s
					fs := NewFFTSettings(uint8(s))
					if fs.MaxWidth != uint64(n) || len(fs.ExpandedRootsOfUnity) != n+1 && s > 0 || len(fs.ReverseRootsOfUnity) != len(fs.ExpandedRootsOfUnity) {
						c.Fail("domain has the wrong size", fmt.Sprint(fs.MaxWidth, len(fs.ExpandedRootsOfUnity)))
						return
					}
					w, x := Root(s), I(1)
					for i := 0; i <= n; i++ {
						c.Add("domain", p[0], fmt.Sprint(i))
						if !Eq(nm(&fs.ExpandedRootsOfUnity[i]), x) || !Eq(nm(&fs.ReverseRootsOfUnity[len(fs.ReverseRootsOfUnity)-1-i]), x) {
							c.Fail("wrong root of unity", fmt.Sprint("scale ", s, " index ", i))
						}
						x = Mul(x, w)
					}
				})},
			{Name: "fft", Rule: "scale of the settings x length x direction x every vector of the families: the transform is the evaluation at the powers of the root (or its inverse), whole vectors compared; the input is left alone",
				Gen: func(tier string, yield func(string) bool) {
					for s := 0; s <= maxScale(tier, 8, 10); s++ {
						for k := 0; k <= s; k++ {
							for _, f := range Families(1<<k, tier) {
								if 1<<k > 64 && f == "basis" && k != s {
									continue
								}
								for d := 0; d < 2; d++ {
									if !yield(fmt.Sprintf("%d %d %d %s", s, 1<<k, d, f)) {
										return
									}
								}
							}
						}
					}
				},
				Run: Run(func(p Plan, c *Cases) {
					s, n, d := p.N(0), p.N(1), p.N(2)
					fs := setting(s)
					w, il := Root(Log2(n)), I(1)
					if d == 1 {
						w, il = Inv(w), Inv(I(int64(n)))
					}
					Vectors(n, p[3], func(v []Num) {
						if !c.Ok() {
							return
						}
						c.Add("fft", p[0], p[2], Str(v))
						want := Dft(v, w, n)
						for i := range want {
							want[i] = Mul(want[i], il)
						}
						in := frs(v)
						c.Guard(Str(v), func() {
							out, err := fs.FFT(in, d == 1)
							if err != nil {
								c.Fail("error: "+err.Error(), Str(v))
							} else if !Same(nms(out), want) {
								c.Fail("wrong transform", Str(v), Str(nms(out)), Str(want))
							} else if !Same(nms(in), v) {
								c.Fail("the transform changed its input", Str(v))
							}
							if n <= 32 {
								o2 := make([]bls.Fr, n)
								if err := fs.InplaceFFT(in, o2, d == 1); err != nil || !Same(nms(o2), want) {
									c.Fail("wrong transform in place", Str(v), Str(nms(o2)), Str(want), fmt.Sprint(err))
								}
								back, err := fs.FFT(out, d != 1)
								if err != nil || !Same(nms(back), v) {
									c.Fail("the inverse transform does not give the vector back", Str(v))
								}
							}
						})
					})
				})},
			{Name: "lengths", Rule: "scale of the settings x every length up to twice its width: padded with zeros to a power of two when it fits, an error otherwise",
				Gen: func(tier string, yield func(string) bool) {
					for s := 0; s <= maxScale(tier, 5, 6); s++ {
						for n := 1; n <= 2<<s; n++ {
							if !yield(fmt.Sprintf("%d %d", s, n)) {
								return
							}
						}
					}
				},
				Run: Run(func(p Plan, c *Cases) {
					s, n := p.N(0), p.N(1)
					fs := setting(s)
					Vectors(n, "dense", func(v []Num) {
						c.Guard(Str(v), func() {
							for d := 0; d < 2; d++ {
								c.Add("lengths", p[0], fmt.Sprint(d), Str(v))
								in := frs(v)
								out, err := fs.FFT(in, d == 1)
								o2 := make([]bls.Fr, n)
								err2 := fs.InplaceFFT(in, o2, d == 1)
								pow2 := n&(n-1) == 0
								if (err2 == nil) != (pow2 && n <= 1<<s) {
									c.Fail("wrong verdict on the length in place", Str(v), fmt.Sprint(err2))
								}
								if n > 1<<s {
									if err == nil {
										c.Fail("more values than the domain has, and no error", Str(v))
									}
									continue
								}
								m := 1
								for m < n {
									m *= 2
								}
								w, il := Root(Log2(m)), I(1)
								if d == 1 {
									w, il = Inv(w), Inv(I(int64(m)))
								}
								want := Dft(v, w, m)
								for i := range want {
									want[i] = Mul(want[i], il)
								}
								if err != nil || !Same(nms(out), want) {
									c.Fail("wrong transform", Str(v), Str(nms(out)), Str(want))
								}
							}
						})
					})
				})},
			{Name: "bitorder", Rule: "every power of two up to 2^12 (2^18): the reordering is the bit reversal of the index, for every element",
				Gen: func(tier string, yield func(string) bool) {
					for s := 1; s <= maxScale(tier, 12, 18); s++ {
						if !yield(fmt.Sprint(s)) {
							return
						}
					}
				},
				Run: Run(func(p Plan, c *Cases) {
					s := p.N(0)
					n := 1 << s
					vals := make([]bls.Fr, n)
					ptrs := make([]*bls.Fr, n)
					for i := range vals {
						bls.AsFr(&vals[i], uint64(i))
						ptrs[i] = new(bls.Fr)
						bls.AsFr(ptrs[i], uint64(i))
					}
					reverseBitOrderFr(vals)
					reverseBitOrderFrPtr(ptrs)
					for i := range vals {
						c.Add("bitorder", p[0], fmt.Sprint(i))
						w := I(int64(Rev(i, s)))
						if !Eq(nm(&vals[i]), w) || !Eq(nm(ptrs[i]), w) || reverseBitsLimited(uint32(n), uint32(i)) != uint32(Rev(i, s)) {
							c.Fail("wrong bit reversal", fmt.Sprint("length ", n, " index ", i))
						}
					}
				})},
		}}
	})
}
