package alg

import "math/big"

// The curves of BLS12-381 in affine coordinates: y^2 = x^3 + 4 over the base field and
// y^2 = x^3 + 4(1+i) over its quadratic extension.

var P, _ = new(big.Int).SetString("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab", 16)

// F2 is an element c0 + c1 i.
type F2 [2]Num

func mp(a Num) Num { return a.Mod(a, P) }

func (a F2) add(b F2) F2 {
	return F2{mp(new(big.Int).Add(a[0], b[0])), mp(new(big.Int).Add(a[1], b[1]))}
}
func (a F2) sub(b F2) F2 {
	return F2{mp(new(big.Int).Sub(a[0], b[0])), mp(new(big.Int).Sub(a[1], b[1]))}
}
func (a F2) mul(b F2) F2 {
	m := func(x, y Num) Num { return new(big.Int).Mul(x, y) }
	re, im := m(a[0], b[0]), m(a[0], b[1])
	return F2{mp(re.Sub(re, m(a[1], b[1]))), mp(im.Add(im, m(a[1], b[0])))}
}
func (a F2) inv() F2 {
	n := new(big.Int).Mul(a[0], a[0])
	n.Add(n, new(big.Int).Mul(a[1], a[1]))
	n.ModInverse(n, P)
	return F2{mp(new(big.Int).Mul(a[0], n)), mp(new(big.Int).Mul(new(big.Int).Neg(a[1]), n))}
}
func (a F2) eq(b F2) bool { return a[0].Cmp(b[0]) == 0 && a[1].Cmp(b[1]) == 0 }
func f2(a, b int64) F2    { return F2{mp(big.NewInt(a)), mp(big.NewInt(b))} }

// Point is a point of either curve; those of the first have no second components.
type Point struct {
	X, Y F2
	Inf  bool
}

func (p Point) Add(q Point) Point {
	switch {
	case p.Inf:
		return q
	case q.Inf:
		return p
	}
	var l F2
	if p.X.eq(q.X) {
		if !p.Y.eq(q.Y) || p.Y.eq(f2(0, 0)) {
			return Point{Inf: true}
		}
		l = f2(3, 0).mul(p.X).mul(p.X).mul(f2(2, 0).mul(p.Y).inv())
	} else {
		l = q.Y.sub(p.Y).mul(q.X.sub(p.X).inv())
	}
	x := l.mul(l).sub(p.X).sub(q.X)
	return Point{X: x, Y: l.mul(p.X.sub(x)).sub(p.Y)}
}

func (p Point) Mul(k Num) Point {
	r := Point{Inf: true}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.Add(r)
		if k.Bit(i) == 1 {
			r = r.Add(p)
		}
	}
	return r
}

func hex(s string) Num { v, _ := new(big.Int).SetString(s, 16); return v }

var Gen1 = Point{X: F2{hex("17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb"), big.NewInt(0)},
	Y: F2{hex("08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1"), big.NewInt(0)}}

var Gen2 = Point{
	X: F2{hex("024aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8c121bdb8"),
		hex("13e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d055d042b7e")},
	Y: F2{hex("0ce5d527727d6e118cc9cdc6da2e351aadfd9baa8cbdd3a76d429a695160d12c923ac9cc3baca289e193548608b82801"),
		hex("0606c4a02ea734cc32acd2b02bc28b99cb3e287e85a763af267492ab572e99ab3f370d275cec1da1aaa9075ff05f79be")}}

// larger tells whether y is the lexicographically larger of the two roots.
func larger(y F2) bool {
	n := F2{mp(new(big.Int).Neg(y[0])), mp(new(big.Int).Neg(y[1]))}
	if c := y[1].Cmp(n[1]); c != 0 {
		return c > 0
	}
	return y[0].Cmp(n[0]) > 0
}

// Compressed is the standard encoding, of a point of the first (size 48) or second curve (96).
func (p Point) Compressed(size int) []byte {
	b := make([]byte, size)
	if p.Inf {
		b[0] = 0xc0
		return b
	}
	if size == 48 {
		p.X[0].FillBytes(b)
	} else {
		p.X[1].FillBytes(b[:48])
		p.X[0].FillBytes(b[48:])
	}
	b[0] |= 0x80
	if larger(p.Y) {
		b[0] |= 0x20
	}
	return b
}

// Lift1 is the point of the first curve with a first coordinate, if there is one.
func Lift1(x Num) (Point, bool) {
	y := new(big.Int).Exp(x, big.NewInt(3), P)
	y.Add(y, big.NewInt(4))
	if y = y.ModSqrt(mp(y), P); y == nil {
		return Point{}, false
	}
	return Point{X: F2{x, big.NewInt(0)}, Y: F2{y, big.NewInt(0)}}, true
}
