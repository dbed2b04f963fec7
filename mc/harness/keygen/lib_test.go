package party

import (
	"math/big"
	"testing"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	. "verif.local/vs/alg"
	"verif.local/vs/ex"
)

func TestMain(m *testing.M) { ex.Main(m) }

func fr(a Num) (f bls.Fr) {
	var b [32]byte
	a.FillBytes(b[:])
	for i := 0; i < 16; i++ {
		b[i], b[31-i] = b[31-i], b[i]
	}
	if !bls.FrFrom32(&f, b) {
		panic("FrFrom32")
	}
	return
}

func frs(a []Num) []bls.Fr {
	o := make([]bls.Fr, len(a))
	for i := range a {
		o[i] = fr(a[i])
	}
	return o
}

func nm(f *bls.Fr) Num {
	b := bls.FrTo32(f)
	for i := 0; i < 16; i++ {
		b[i], b[31-i] = b[31-i], b[i]
	}
	return new(big.Int).SetBytes(b[:])
}

func nms(f []bls.Fr) []Num {
	o := make([]Num, len(f))
	for i := range f {
		o[i] = nm(&f[i])
	}
	return o
}

func g1(e Num) (p bls.G1Point) {
	f := fr(new(big.Int).Mod(e, Q))
	bls.MulG1(&p, &bls.GenG1, &f)
	return
}

func g1s(e []Num) []bls.G1Point {
	o := make([]bls.G1Point, len(e))
	for i := range e {
		o[i] = g1(e[i])
	}
	return o
}

func g1eq(p *bls.G1Point, e Num) bool { w := g1(e); return bls.EqualG1(p, &w) }
