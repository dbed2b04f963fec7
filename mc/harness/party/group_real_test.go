//go:build mcreal

package party

import (
	"math/big"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
)

func order() *big.Int {
	q, _ := new(big.Int).SetString("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001", 16)
	return q
}

// trapdoor of the commitment setup: the one the repository's testing setup is made from.
func trapdoor(p *bls.G1Point) *big.Int {
	t, _ := new(big.Int).SetString("46015081477078601964787943834255776126696019968430095991502055467779756761969", 10)
	t.Mod(t, qq)
	x := g1(t)
	if !bls.EqualG1(&x, p) {
		return nil
	}
	return t
}
