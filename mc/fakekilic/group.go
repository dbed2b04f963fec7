// Package bls12381 is the exponent-group stand-in for github.com/kilic/bls12-381 that the
// checks build DyCAPS against: Fr is the real field; G1, G2 and GT are represented by the
// discrete logarithms of their elements, so every group law, the pairing and every
// equality is exact, while an operation costs nanoseconds.  Hashing to the curve is a hash
// to an exponent (a random oracle, as in the real package's use).
package bls12381

import (
	"crypto/sha256"
	"errors"
	"math/big"
)

var qBig, _ = new(big.Int).SetString("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001", 16)
var q = Fr{0xffffffff00000001, 0x53bda402fffe5bfe, 0x3339d80809a1d805, 0x73eda753299d7d48}
var qr1 = &Fr{0x00000001fffffffe, 0x5884b7fa00034802, 0x998c4fefecbc4ff5, 0x1824b159acc5056f}
var qr2 = &Fr{0xc999e990f3f29c6d, 0x2b6cedcb87925c23, 0x05d314967254398f, 0x0748d9d99f59ff11}

func hashToFr(tag string, msg, domain []byte) Fr {
	h := sha256.New()
	h.Write([]byte(tag))
	h.Write(domain)
	h.Write([]byte{0})
	h.Write(msg)
	var e Fr
	e.RedFromBytes(h.Sum(nil))
	return e
}

func encPoint(e *Fr, n int, compressed bool) []byte {
	out := make([]byte, n)
	if e.IsZero() {
		out[0] |= 1 << 6
	} else {
		//behind the flags, so that the leading bytes (the common coin) are spread as on the curve
		copy(out[1:], e.RedToBytes())
	}
	if compressed {
		out[0] |= 1 << 7
	}
	return out
}

func decPoint(in []byte, n int, compressed bool) (*Fr, error) {
	if len(in) != n {
		return nil, errors.New("input string length must be equal to the point size")
	}
	flags := in[0] & 0xe0
	want := byte(0)
	if compressed {
		want = 0x80
	}
	if flags&0x80 != want {
		return nil, errors.New("bad compression flag")
	}
	if flags&0x40 != 0 {
		if in[0]&0x3f != 0 {
			return nil, errors.New("input string should be zero when infinity flag is set")
		}
		for _, b := range in[1:] {
			if b != 0 {
				return nil, errors.New("input string should be zero when infinity flag is set")
			}
		}
		return new(Fr), nil
	}
	if in[0]&0x3f != 0 {
		return nil, errors.New("point is not on curve")
	}
	for _, b := range in[1+frByteSize:] {
		if b != 0 {
			return nil, errors.New("point is not on curve")
		}
	}
	b := new(big.Int).SetBytes(in[1 : 1+frByteSize])
	if b.Sign() == 0 || b.Cmp(qBig) >= 0 {
		return nil, errors.New("point is not on curve")
	}
	var e Fr
	e.fromBig(b)
	e.toMont()
	return &e, nil
}

// E is an element of the target group, held as its discrete logarithm.
type E struct{ e Fr }

func (e *E) Set(o *E) *E     { e.e = o.e; return e }
func (e *E) One() *E         { return new(E) }
func (e *E) IsOne() bool     { return e.e.IsZero() }
func (e *E) Equal(o *E) bool { return e.e.Equal(&o.e) }

type GT struct{}

func NewGT() *GT                { return &GT{} }
func (g *GT) Q() *big.Int       { return new(big.Int).Set(qBig) }
func (g *GT) New() *E           { return new(E) }
func (g *GT) IsValid(e *E) bool { return true }
func (g *GT) Mul(c, a, b *E)    { c.e.Add(&a.e, &b.e) }
func (g *GT) Square(c, a *E)    { c.e.Add(&a.e, &a.e) }
func (g *GT) Inverse(c, a *E)   { c.e.Neg(&a.e) }
func (g *GT) Exp(c, a *E, s *big.Int) {
	var t Fr
	t.fromBig(new(big.Int).Mod(s, qBig))
	t.toMont()
	c.e.RedMul(&a.e, &t)
}
func (g *GT) ToBytes(e *E) []byte { return encPoint(&e.e, 576, false) }
func (g *GT) FromBytes(in []byte) (*E, error) {
	e, err := decPoint(in, 576, false)
	if err != nil {
		return nil, err
	}
	return &E{e: *e}, nil
}

// Engine accumulates products of pairings.
type Engine struct{ acc Fr }

func NewEngine() *Engine { return &Engine{} }
func (e *Engine) AddPair(a *PointG1, b *PointG2) *Engine {
	var t Fr
	t.RedMul(&a.e, &b.e)
	e.acc.Add(&e.acc, &t)
	return e
}
func (e *Engine) AddPairInv(a *PointG1, b *PointG2) *Engine {
	var t Fr
	t.RedMul(&a.e, &b.e)
	e.acc.Sub(&e.acc, &t)
	return e
}
func (e *Engine) Reset() *Engine { e.acc = Fr{}; return e }
func (e *Engine) Check() bool    { ok := e.acc.IsZero(); e.Reset(); return ok }
func (e *Engine) Result() *E     { r := &E{e: e.acc}; e.Reset(); return r }
func (e *Engine) GT() *GT        { return NewGT() }

// G1 is the exponent-group stand-in for the order-r group of the same name.
type G1 struct{}

// PointG1 is a group element, held as its discrete logarithm (Montgomery form) to the generator.
type PointG1 struct{ e Fr }

func (p *PointG1) Set(q *PointG1) *PointG1 { p.e = q.e; return p }
func (p *PointG1) Zero() *PointG1          { p.e = Fr{}; return p }
func (p *PointG1) IsAffine() bool          { return true }

func NewG1() *G1                                 { return &G1{} }
func (g *G1) Q() *big.Int                        { return new(big.Int).Set(qBig) }
func (g *G1) New() *PointG1                      { return new(PointG1) }
func (g *G1) Zero() *PointG1                     { return new(PointG1) }
func (g *G1) One() *PointG1                      { p := new(PointG1); p.e.RedOne(); return p }
func (g *G1) IsZero(p *PointG1) bool             { return p.e.IsZero() }
func (g *G1) Equal(a, b *PointG1) bool           { return a.e.Equal(&b.e) }
func (g *G1) InCorrectSubgroup(p *PointG1) bool  { return true }
func (g *G1) IsOnCurve(p *PointG1) bool          { return true }
func (g *G1) IsAffine(p *PointG1) bool           { return true }
func (g *G1) Affine(p *PointG1) *PointG1         { return p }
func (g *G1) AffineBatch(p []*PointG1)           {}
func (g *G1) Add(r, a, b *PointG1) *PointG1      { r.e.Add(&a.e, &b.e); return r }
func (g *G1) AddMixed(r, a, b *PointG1) *PointG1 { return g.Add(r, a, b) }
func (g *G1) Double(r, a *PointG1) *PointG1      { return g.Add(r, a, a) }
func (g *G1) Neg(r, a *PointG1) *PointG1         { r.e.Neg(&a.e); return r }
func (g *G1) Sub(r, a, b *PointG1) *PointG1      { r.e.Sub(&a.e, &b.e); return r }

// MulScalar takes the scalar in plain (not Montgomery) form, as the real package does.
func (g *G1) MulScalar(r, p *PointG1, s *Fr) *PointG1 {
	t := *s
	t.toMont()
	r.e.RedMul(&p.e, &t)
	return r
}

func (g *G1) MulScalarBig(r, p *PointG1, s *big.Int) *PointG1 {
	var t Fr
	t.fromBig(new(big.Int).Mod(s, qBig))
	return g.MulScalar(r, p, &t)
}

func (g *G1) MultiExp(r *PointG1, points []*PointG1, scalars []*Fr) (*PointG1, error) {
	if len(points) != len(scalars) {
		return nil, errors.New("point and scalar vectors should be in same length")
	}
	var acc PointG1
	for i := range points {
		var t PointG1
		g.MulScalar(&t, points[i], scalars[i])
		g.Add(&acc, &acc, &t)
	}
	return r.Set(&acc), nil
}

func (g *G1) MultiExpBig(r *PointG1, points []*PointG1, scalars []*big.Int) (*PointG1, error) {
	if len(points) != len(scalars) {
		return nil, errors.New("point and scalar vectors should be in same length")
	}
	var acc PointG1
	for i := range points {
		var t PointG1
		g.MulScalarBig(&t, points[i], scalars[i])
		g.Add(&acc, &acc, &t)
	}
	return r.Set(&acc), nil
}

func (g *G1) ClearCofactor(p *PointG1) *PointG1 { return p }

func (g *G1) HashToCurve(msg, domain []byte) (*PointG1, error) {
	return &PointG1{e: hashToFr("G1", msg, domain)}, nil
}
func (g *G1) EncodeToCurve(msg, domain []byte) (*PointG1, error) { return g.HashToCurve(msg, domain) }

func (g *G1) ToCompressed(p *PointG1) []byte   { return encPoint(&p.e, 48, true) }
func (g *G1) ToUncompressed(p *PointG1) []byte { return encPoint(&p.e, 2*48, false) }
func (g *G1) ToBytes(p *PointG1) []byte        { return encPoint(&p.e, 2*48, false) }
func (g *G1) FromCompressed(in []byte) (*PointG1, error) {
	e, err := decPoint(in, 48, true)
	if err != nil {
		return nil, err
	}
	return &PointG1{e: *e}, nil
}
func (g *G1) FromUncompressed(in []byte) (*PointG1, error) {
	e, err := decPoint(in, 2*48, false)
	if err != nil {
		return nil, err
	}
	return &PointG1{e: *e}, nil
}
func (g *G1) FromBytes(in []byte) (*PointG1, error) { return g.FromUncompressed(in) }

// G2 is the exponent-group stand-in for the order-r group of the same name.
type G2 struct{}

// PointG2 is a group element, held as its discrete logarithm (Montgomery form) to the generator.
type PointG2 struct{ e Fr }

func (p *PointG2) Set(q *PointG2) *PointG2 { p.e = q.e; return p }
func (p *PointG2) Zero() *PointG2          { p.e = Fr{}; return p }
func (p *PointG2) IsAffine() bool          { return true }

func NewG2() *G2                                 { return &G2{} }
func (g *G2) Q() *big.Int                        { return new(big.Int).Set(qBig) }
func (g *G2) New() *PointG2                      { return new(PointG2) }
func (g *G2) Zero() *PointG2                     { return new(PointG2) }
func (g *G2) One() *PointG2                      { p := new(PointG2); p.e.RedOne(); return p }
func (g *G2) IsZero(p *PointG2) bool             { return p.e.IsZero() }
func (g *G2) Equal(a, b *PointG2) bool           { return a.e.Equal(&b.e) }
func (g *G2) InCorrectSubgroup(p *PointG2) bool  { return true }
func (g *G2) IsOnCurve(p *PointG2) bool          { return true }
func (g *G2) IsAffine(p *PointG2) bool           { return true }
func (g *G2) Affine(p *PointG2) *PointG2         { return p }
func (g *G2) AffineBatch(p []*PointG2)           {}
func (g *G2) Add(r, a, b *PointG2) *PointG2      { r.e.Add(&a.e, &b.e); return r }
func (g *G2) AddMixed(r, a, b *PointG2) *PointG2 { return g.Add(r, a, b) }
func (g *G2) Double(r, a *PointG2) *PointG2      { return g.Add(r, a, a) }
func (g *G2) Neg(r, a *PointG2) *PointG2         { r.e.Neg(&a.e); return r }
func (g *G2) Sub(r, a, b *PointG2) *PointG2      { r.e.Sub(&a.e, &b.e); return r }

// MulScalar takes the scalar in plain (not Montgomery) form, as the real package does.
func (g *G2) MulScalar(r, p *PointG2, s *Fr) *PointG2 {
	t := *s
	t.toMont()
	r.e.RedMul(&p.e, &t)
	return r
}

func (g *G2) MulScalarBig(r, p *PointG2, s *big.Int) *PointG2 {
	var t Fr
	t.fromBig(new(big.Int).Mod(s, qBig))
	return g.MulScalar(r, p, &t)
}

func (g *G2) MultiExp(r *PointG2, points []*PointG2, scalars []*Fr) (*PointG2, error) {
	if len(points) != len(scalars) {
		return nil, errors.New("point and scalar vectors should be in same length")
	}
	var acc PointG2
	for i := range points {
		var t PointG2
		g.MulScalar(&t, points[i], scalars[i])
		g.Add(&acc, &acc, &t)
	}
	return r.Set(&acc), nil
}

func (g *G2) MultiExpBig(r *PointG2, points []*PointG2, scalars []*big.Int) (*PointG2, error) {
	if len(points) != len(scalars) {
		return nil, errors.New("point and scalar vectors should be in same length")
	}
	var acc PointG2
	for i := range points {
		var t PointG2
		g.MulScalarBig(&t, points[i], scalars[i])
		g.Add(&acc, &acc, &t)
	}
	return r.Set(&acc), nil
}

func (g *G2) ClearCofactor(p *PointG2) *PointG2 { return p }

func (g *G2) HashToCurve(msg, domain []byte) (*PointG2, error) {
	return &PointG2{e: hashToFr("G2", msg, domain)}, nil
}
func (g *G2) EncodeToCurve(msg, domain []byte) (*PointG2, error) { return g.HashToCurve(msg, domain) }

func (g *G2) ToCompressed(p *PointG2) []byte   { return encPoint(&p.e, 96, true) }
func (g *G2) ToUncompressed(p *PointG2) []byte { return encPoint(&p.e, 2*96, false) }
func (g *G2) ToBytes(p *PointG2) []byte        { return encPoint(&p.e, 2*96, false) }
func (g *G2) FromCompressed(in []byte) (*PointG2, error) {
	e, err := decPoint(in, 96, true)
	if err != nil {
		return nil, err
	}
	return &PointG2{e: *e}, nil
}
func (g *G2) FromUncompressed(in []byte) (*PointG2, error) {
	e, err := decPoint(in, 2*96, false)
	if err != nil {
		return nil, err
	}
	return &PointG2{e: *e}, nil
}
func (g *G2) FromBytes(in []byte) (*PointG2, error) { return g.FromUncompressed(in) }

// LogG1 is the discrete logarithm of a point (checks only).
func LogG1(p *PointG1) *big.Int { return p.e.RedToBig() }

// LogG2 is the discrete logarithm of a point (checks only).
func LogG2(p *PointG2) *big.Int { return p.e.RedToBig() }

// G1Of is the point with the given discrete logarithm (checks only).
func G1Of(x *big.Int) *PointG1 {
	p := new(PointG1)
	p.e.RedFromBytes(new(big.Int).Mod(x, qBig).Bytes())
	return p
}

// Order is the group order.
func Order() *big.Int { return new(big.Int).Set(qBig) }
