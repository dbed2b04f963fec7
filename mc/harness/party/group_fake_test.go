//go:build !mcreal

package party

import (
	"math/big"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	kbls "github.com/kilic/bls12-381"
)

func order() *big.Int { return kbls.Order() }

// trapdoor of the commitment setup, from its element g^tau.
func trapdoor(p *bls.G1Point) *big.Int { return kbls.LogG1((*kbls.PointG1)(p)) }
