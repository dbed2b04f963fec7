package party

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"io"
	"log"
	"math/big"
	"os"

	"github.com/drand/kyber"
	kyberbls "github.com/drand/kyber-bls12381"
	"github.com/drand/kyber/share"
	"github.com/drand/kyber/sign/bls"
	"github.com/drand/kyber/sign/tbls"
	. "verif.local/vs/alg"
	"verif.local/vs/ex"
)

func scalar(s kyber.Scalar) Num {
	b, err := s.MarshalBinary()
	if err != nil {
		panic(err)
	}
	return new(big.Int).SetBytes(b)
}

// keys checks the shares of one threshold key; it returns the coefficients they determine.
func keys(c *Cases, at string, sks []*share.PriShare, pk *share.PubPoly, n, t int) []Num {
	suite := kyberbls.NewBLS12381Suite()
	if len(sks) != n || pk.Threshold() != t {
		c.Fail("wrong number of key shares or wrong threshold", at, fmt.Sprint(len(sks), " ", pk.Threshold()))
		return nil
	}
	xs, ys := members(n), make([]Num, n)
	for i, s := range sks {
		if s.I != i {
			c.Fail("key share with the index of another member", at)
		}
		ys[i] = scalar(s.V)
		if !suite.G2().Point().Mul(s.V, nil).Equal(pk.Eval(i).V) {
			c.Fail("key share that does not match the public key", at)
		}
	}
	// all on one polynomial, of the degree of the threshold and no less
	secret := Lagrange(xs[:t], ys[:t], I(0))
	for i := t; i < n; i++ {
		if !Eq(Lagrange(xs[:t], ys[:t], xs[i]), ys[i]) {
			c.Fail("key shares are not on one polynomial of the degree of the threshold", at)
		}
	}
	if t > 1 && Eq(Lagrange(xs[:t-1], ys[:t-1], I(0)), secret) {
		c.Fail("fewer key shares than the threshold determine the key", at)
	}
	if !suite.G2().Point().Mul(suite.G2().Scalar().SetBytes(secret.Bytes()), nil).Equal(pk.Commit()) {
		c.Fail("key shares of another key than the public one", at)
	}
	co := make([]Num, t)
	for k := range co { // divided differences would do; solve by values at t points
		co[k] = I(0)
	}
	for i := 0; i < t; i++ {
		b := []Num{I(1)}
		d := I(1)
		for j := 0; j < t; j++ {
			if j != i {
				nb := make([]Num, len(b)+1)
				for k := range nb {
					nb[k] = I(0)
				}
				for k := range b {
					nb[k+1] = Add(nb[k+1], b[k])
					nb[k] = Sub(nb[k], Mul(b[k], xs[j]))
				}
				b, d = nb, Mul(d, Sub(xs[i], xs[j]))
			}
		}
		for k := range b {
			co[k] = Add(co[k], Mul(b[k], Mul(ys[i], Inv(d))))
		}
	}
	return co
}

// signatures checks what sets of partial signatures combine to.
func signatures(c *Cases, at string, sks []*share.PriShare, pk *share.PubPoly, n, t int, msg []byte) {
	scheme := tbls.NewThresholdSchemeOnG1(kyberbls.NewBLS12381Suite())
	whole := bls.NewSchemeOnG1(kyberbls.NewBLS12381Suite())
	parts := make([][]byte, n)
	for i := range sks {
		s, err := scheme.Sign(sks[i], msg)
		if err != nil {
			c.Fail("a key share cannot sign", at, err.Error())
			return
		}
		if scheme.VerifyPartial(pk, msg, s) != nil {
			c.Fail("a partial signature does not verify", at)
		}
		if scheme.VerifyPartial(pk, append([]byte("x"), msg...), s) == nil {
			c.Fail("a partial signature verifies for another message", at)
		}
		parts[i] = s
	}
	Subsets(n, t, func(s []int) {
		var l [][]byte
		for _, i := range s {
			l = append(l, parts[i])
		}
		c.Add("combine", at, fmt.Sprint(s))
		sig, err := scheme.Recover(pk, msg, l, t, n)
		if err != nil || whole.Verify(pk.Commit(), msg, sig) != nil {
			c.Fail("a threshold of partial signatures does not combine", at, fmt.Sprint(s, " ", err))
		}
	})
	Subsets(n, t-1, func(s []int) {
		var l [][]byte
		for _, i := range s {
			l = append(l, parts[i])
		}
		c.Add("too few", at, fmt.Sprint(s))
		if sig, err := scheme.Recover(pk, msg, l, t, n); err == nil && whole.Verify(pk.Commit(), msg, sig) == nil {
			c.Fail("fewer partial signatures than the threshold combine", at, fmt.Sprint(s))
		}
		if t > 1 && len(l) > 0 { // a member that signs twice is one member
			if sig, err := scheme.Recover(pk, msg, append(l, l[0]), t, n); err == nil && whole.Verify(pk.Commit(), msg, sig) == nil {
				c.Fail("a partial signature counted twice", at, fmt.Sprint(s))
			}
		}
	})
}

func keySizes(tier string) int {
	if tier == "thorough" {
		return 10
	}
	return 6
}

func scratch(f func()) {
	d, err := os.MkdirTemp("", "keys")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(d)
	old, err := os.Getwd()
	if err == nil {
		err = os.Chdir(d)
	}
	if err != nil {
		panic(err)
	}
	defer os.Chdir(old)
	log.SetOutput(io.Discard)
	defer log.SetOutput(os.Stderr)
	f()
}

func coefficientFile(c *Cases, name string) []Num {
	var b [][]byte
	raw, err := os.ReadFile(name)
	if err == nil {
		err = gob.NewDecoder(bytes.NewReader(raw)).Decode(&b)
	}
	if err != nil {
		c.Fail("the file of coefficients cannot be read", name, err.Error())
		return nil
	}
	var v []Num
	for _, x := range b {
		v = append(v, new(big.Int).SetBytes(x))
	}
	return v
}

// committees are the sizes a system of up to F failures uses.
func committees(tier string, yield func(string) bool) {
	max := 5
	if tier == "thorough" {
		max = 10
	}
	for f := 2; f <= max; f++ {
		for _, t := range []int{f + 1, 2*f + 1} {
			if !yield(fmt.Sprintf("%d %d", 3*f+1, t)) {
				return
			}
		}
	}
}

// quorums checks that consecutive members, of every start, combine their signatures.
func quorums(c *Cases, at string, sks []*share.PriShare, pk *share.PubPoly, n, t int) {
	scheme := tbls.NewThresholdSchemeOnG1(kyberbls.NewBLS12381Suite())
	whole := bls.NewSchemeOnG1(kyberbls.NewBLS12381Suite())
	if len(sks) != n {
		return
	}
	msg := []byte(at)
	parts := make([][]byte, n)
	for i := range sks {
		parts[i], _ = scheme.Sign(sks[i], msg)
	}
	for s := 0; s < n; s++ {
		c.Add("combine", at, fmt.Sprint(s))
		var l [][]byte
		for i := 0; i < t; i++ {
			l = append(l, parts[(s+i)%n])
		}
		sig, err := scheme.Recover(pk, msg, l, t, n)
		if err != nil || whole.Verify(pk.Commit(), msg, sig) != nil {
			c.Fail("a threshold of partial signatures does not combine", at, fmt.Sprint(s, " ", err))
		}
	}
}

func init() {
	ex.Register("C24", func() *ex.Check {
		return &ex.Check{ID: "C24", Spaces: []ex.Space{
			{Name: "committees", Rule: "committees of 3F+1 members, F = 2 to 5 (10), with thresholds F+1 and 2F+1, fresh and from files: key shares on one polynomial that matches the public key, the one in the files; consecutive members of every start combine",
				Gen: committees,
				Run: Run(func(p Plan, c *Cases) {
					n, t := p.N(0), p.N(1)
					at := fmt.Sprintf("n=%d t=%d", n, t)
					c.Add("committees", at)
					c.Guard(at, func() {
						sks, pk := SigKeyGen(uint32(n), uint32(t))
						keys(c, at, sks, pk, n, t)
						quorums(c, at, sks, pk, n, t)
						scratch(func() {
							GenCoefficientsFile(n, t)
							for i, f := range []func(uint32, uint32) ([]*share.PriShare, *share.PubPoly){SigKeyGenFix, SigKeyGenFix_New} {
								co := coefficientFile(c, []string{"coefficients", "coefficients_new"}[i])
								sks, pk := f(uint32(n), uint32(t))
								if got := keys(c, at, sks, pk, n, t); c.Ok() && !Same(got, co) {
									c.Fail("the key is not the one in the file", at)
								}
								quorums(c, at, sks, pk, n, t)
							}
						})
					})
				})},
			{Name: "fresh", Rule: "every size up to 6 (10) and every threshold: the key shares lie on one polynomial of the degree of the threshold that matches the public key; every set of partial signatures of that size combines, none smaller does",
				Gen: func(tier string, yield func(string) bool) {
					for n := 1; n <= keySizes(tier); n++ {
						for t := 1; t <= n; t++ {
							if !yield(fmt.Sprintf("%d %d", n, t)) {
								return
							}
						}
					}
				},
				Run: Run(func(p Plan, c *Cases) {
					n, t := p.N(0), p.N(1)
					at := fmt.Sprintf("n=%d t=%d", n, t)
					c.Add("fresh", at)
					c.Guard(at, func() {
						sks, pk := SigKeyGen(uint32(n), uint32(t))
						a := keys(c, at, sks, pk, n, t)
						signatures(c, at, sks, pk, n, t, []byte(at))
						sks2, pk2 := SigKeyGen(uint32(n), uint32(t))
						b := keys(c, at, sks2, pk2, n, t)
						for i := range a {
							if i < len(b) && Eq(a[i], b[i]) {
								c.Fail("two keys share a coefficient", at)
							}
						}
					})
				})},
			{Name: "files", Rule: "every size up to 6 (10) and every threshold: the keys made from the files of coefficients are the same at every member and every time, are the ones in the files, and those of the two committees differ",
				Gen: func(tier string, yield func(string) bool) {
					for n := 1; n <= keySizes(tier); n++ {
						for t := 1; t <= n; t++ {
							if !yield(fmt.Sprintf("%d %d", n, t)) {
								return
							}
						}
					}
				},
				Run: Run(func(p Plan, c *Cases) {
					n, t := p.N(0), p.N(1)
					at := fmt.Sprintf("n=%d t=%d", n, t)
					c.Add("files", at)
					c.Guard(at, func() {
						scratch(func() {
							GenCoefficientsFile(n, t)
							var seen []Num
							for i, f := range []func(uint32, uint32) ([]*share.PriShare, *share.PubPoly){SigKeyGenFix, SigKeyGenFix_New} {
								at := fmt.Sprint(at, " committee ", i)
								co := coefficientFile(c, []string{"coefficients", "coefficients_new"}[i])
								for again := 0; again < 2; again++ {
									sks, pk := f(uint32(n), uint32(t))
									if got := keys(c, at, sks, pk, n, t); c.Ok() && !Same(got, co) {
										c.Fail("the key is not the one in the file", at)
									}
									if again == 0 {
										signatures(c, at, sks, pk, n, t, []byte(at))
									}
								}
								for _, x := range co {
									for _, y := range seen {
										if Eq(x, y) {
											c.Fail("the keys share a coefficient", at)
										}
									}
									seen = append(seen, x)
								}
							}
							// files written anew give new keys
							GenCoefficientsFile(n, t)
							for _, name := range []string{"coefficients", "coefficients_new"} {
								for _, x := range coefficientFile(c, name) {
									for _, y := range seen {
										if Eq(x, y) {
											c.Fail("new files with a coefficient of the old ones", at)
										}
									}
								}
							}
						})
					})
				})},
			{Name: "edges", Rule: "files with edge coefficients (0, 1, -1, powers of two) in every position: the key is the one in the files, also when fewer coefficients or more members are asked for",
				Gen: func(tier string, yield func(string) bool) {
					for t := 1; t <= 4; t++ {
						for _, fam := range []string{"basis", "dense"} {
							if !yield(fmt.Sprintf("%d %s", t, fam)) {
								return
							}
						}
					}
				},
				Run: Run(func(p Plan, c *Cases) {
					Vectors(p.N(0), p[1], func(v []Num) {
						if !c.Ok() {
							return
						}
						at := Str(v)
						c.Add("edges", at)
						c.Guard(at, func() {
							scratch(func() {
								var l [][]byte
								for _, x := range v {
									b, err := kyberbls.NewBLS12381Suite().G1().Scalar().SetBytes(x.Bytes()).MarshalBinary()
									if err != nil {
										panic(err)
									}
									l = append(l, b)
								}
								WriteToFile(l, "coefficients")
								WriteToFile(l, "coefficients_new")
								for t := 1; t <= len(v); t++ {
									for _, n := range []int{t, t + 3} {
										for _, f := range []func(uint32, uint32) ([]*share.PriShare, *share.PubPoly){SigKeyGenFix, SigKeyGenFix_New} {
											sks, pk := f(uint32(n), uint32(t))
											for i, s := range sks {
												if !Eq(scalar(s.V), Eval(v[:t], I(int64(i+1)))) || s.I != i {
													c.Fail("the key is not the one in the file", at, fmt.Sprint("t=", t, " n=", n))
												}
											}
											if len(sks) != n || pk.Threshold() != t {
												c.Fail("wrong number of key shares", at)
											}
										}
									}
								}
							})
						})
					})
				})},
		}}
	})
}
