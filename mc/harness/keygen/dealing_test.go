package party

import (
	"fmt"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"google.golang.org/protobuf/proto"
	. "verif.local/vs/alg"
	"verif.local/vs/ex"
)

func init() {
	ex.Register("C17g", func() *ex.Check {
		return &ex.Check{ID: "C17g", Spaces: []ex.Space{
			{Name: "dealing", Rule: "F up to 3 (5) x families of exponents for the group elements and values of a dealing: decoding what was encoded gives every element and value back, each in its place",
				Gen: func(tier string, yield func(string) bool) {
					max := 3
					if tier == "thorough" {
						max = 5
					}
					for f := 1; f <= max; f++ {
						for _, fam := range []string{"basis", "dense"} {
							if !yield(fmt.Sprintf("%d %s", f, fam)) {
								return
							}
						}
					}
				},
				Run: Run(func(p Plan, c *Cases) {
					f := p.N(0)
					n := 2*f + 1
					enc := func(e Num) []byte { x := g1(e); return bls.ToCompressedG1(&x) }
					same := func(b []byte, e Num) bool {
						x, err := bls.FromCompressedG1(b)
						return err == nil && g1eq(x, e)
					}
					Vectors(6*n+1, p[1], func(v []Num) {
						if !c.Ok() {
							return
						}
						at := fmt.Sprint("F=", f, " ", Str(v))
						c.Add("dealing", at)
						c.Guard(at, func() {
							el := func(k, j int) Num { return v[1+k*n+j-1] }
							in := &protobuf.Pi{Gs: enc(v[0]), PiContents: []*protobuf.PiContent{{}}}
							values, witnesses := make([]bls.Fr, n+1), make([]bls.G1Point, n+1)
							for j := 1; j <= n; j++ {
								in.PiContents = append(in.PiContents, &protobuf.PiContent{J: uint32(j), CBj: enc(el(0, j)), CZj: enc(el(1, j)), WZ0: enc(el(2, j)), GFj: enc(el(3, j))})
								values[j], witnesses[j] = fr(el(4, j)), g1(el(5, j))
							}
							var pi, copied, again, recopied Pi
							for _, x := range []*Pi{&pi, &copied, &again, &recopied} {
								x.Init(uint32(f))
							}
							pi.SetFromVSSMessage(in, uint32(f))
							copied.Set(&pi, uint32(f))
							// places that held another dealing
							old := &protobuf.Pi{Gs: enc(I(11)), PiContents: []*protobuf.PiContent{{}}}
							for j := 1; j <= n; j++ {
								old.PiContents = append(old.PiContents, &protobuf.PiContent{J: uint32(j), CBj: enc(I(12)), CZj: enc(I(13)), WZ0: enc(I(14)), GFj: enc(I(15))})
							}
							again.SetFromVSSMessage(old, uint32(f))
							recopied.Set(&again, uint32(f))
							again.SetFromVSSMessage(in, uint32(f))
							recopied.Set(&pi, uint32(f))
							for i, x := range []*Pi{&pi, &copied, &again, &recopied} {
								var m protobuf.VSSSend
								if err := proto.Unmarshal(EncapsulateVSSSend(x, values, witnesses, uint32(f)), &m); err != nil {
									c.Fail("a dealing cannot be decoded", at, err.Error())
									return
								}
								if len(m.BijList) != n+1 || len(m.WBijList) != n+1 || m.Pi == nil || len(m.Pi.PiContents) != n+1 {
									c.Fail("a decoded dealing has another size", at)
									return
								}
								ok := same(m.Pi.Gs, v[0])
								for j := 1; j <= n; j++ {
									q := m.Pi.PiContents[j]
									ok = ok && q.J == uint32(j) && same(q.CBj, el(0, j)) && same(q.CZj, el(1, j)) && same(q.WZ0, el(2, j)) && same(q.GFj, el(3, j))
									var b [32]byte
									copy(b[:], m.BijList[j])
									var y bls.Fr
									ok = ok && len(m.BijList[j]) == 32 && bls.FrFrom32(&y, b) && Eq(nm(&y), el(4, j)) && same(m.WBijList[j], el(5, j))
								}
								if !ok {
									c.Fail("a decoded dealing differs from the one encoded", at, fmt.Sprint(i))
								}
							}
						})
					})
				})},
		}}
	})
}
