package vs

import (
	"crypto/rand"
	"io"
)

type prng struct{ s [4]uint64 }

//go:norace
func splitmix(x *uint64) uint64 {
	*x += 0x9e3779b97f4a7c15
	z := *x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func newPrng(seed uint64) *prng {
	p := &prng{}
	for i := range p.s {
		p.s[i] = splitmix(&seed)
	}
	return p
}

//go:norace
func rotl(x uint64, k uint) uint64 { return x<<k | x>>(64-k) }

//go:norace
func (p *prng) next() uint64 {
	r := rotl(p.s[1]*5, 7) * 9
	t := p.s[1] << 17
	p.s[2] ^= p.s[0]
	p.s[3] ^= p.s[1]
	p.s[1] ^= p.s[2]
	p.s[0] ^= p.s[3]
	p.s[2] ^= t
	p.s[3] = rotl(p.s[3], 45)
	return r
}

type reader struct{}

var outside = newPrng(0x5eed)

// SetOutsideSeed seeds the randomness used outside of executions (key generation).
//
//go:norace
func SetOutsideSeed(x uint64) { outside = newPrng(x) }

//go:norace
func (reader) Read(b []byte) (int, error) {
	p := outside
	if S != nil && S.cur != nil {
		id := S.cur.Party
		if q := S.Draws[id]; len(q) > 0 && len(b) == len(q[0]) { // chosen values
			copy(b, q[0])
			S.Draws[id] = q[1:]
			return len(b), nil
		}
		if S.rng[id] == nil {
			S.rng[id] = newPrng(S.Seed*1_000_003 + uint64(id) + 17)
		}
		p = S.rng[id]
	}
	for i := 0; i < len(b); {
		v := p.next()
		for k := 0; k < 8 && i < len(b); k++ {
			b[i] = byte(v)
			v >>= 8
			i++
		}
	}
	return len(b), nil
}

// InstallRand makes crypto/rand deterministic: one stream per party and execution.
//
//go:norace
func InstallRand() { rand.Reader = io.Reader(reader{}) }
