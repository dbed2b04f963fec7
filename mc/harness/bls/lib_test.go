package bls

import (
	"math/big"
	"testing"

	. "verif.local/vs/alg"
	"verif.local/vs/ex"
)

func TestMain(m *testing.M) { ex.Main(m) }

func fr(a Num) (f Fr) {
	var b [32]byte
	a.FillBytes(b[:])
	for i := 0; i < 16; i++ {
		b[i], b[31-i] = b[31-i], b[i]
	}
	if !FrFrom32(&f, b) {
		panic("FrFrom32")
	}
	return
}

func frs(a []Num) []Fr {
	o := make([]Fr, len(a))
	for i := range a {
		o[i] = fr(a[i])
	}
	return o
}

func nm(f *Fr) Num {
	b := FrTo32(f)
	for i := 0; i < 16; i++ {
		b[i], b[31-i] = b[31-i], b[i]
	}
	return new(big.Int).SetBytes(b[:])
}

func nms(f []Fr) []Num {
	o := make([]Num, len(f))
	for i := range f {
		o[i] = nm(&f[i])
	}
	return o
}
