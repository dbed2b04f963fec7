// Package alg is the oracle of the algebraic checks (textbook arithmetic on big integers
// modulo the order of the groups) and their families of inputs.
package alg

import (
	"fmt"
	"math/big"
	"math/bits"
	"strconv"
	"strings"

	"verif.local/vs/ex"
)

var Q, _ = new(big.Int).SetString("52435875175126190479447740508185965837690552500527637822603658699938581184513", 10)

type Num = *big.Int

func I(v int64) Num        { return new(big.Int).Mod(big.NewInt(v), Q) }
func Add(a, b Num) Num     { r := new(big.Int).Add(a, b); return r.Mod(r, Q) }
func Sub(a, b Num) Num     { r := new(big.Int).Sub(a, b); return r.Mod(r, Q) }
func Mul(a, b Num) Num     { r := new(big.Int).Mul(a, b); return r.Mod(r, Q) }
func Inv(a Num) Num        { return new(big.Int).ModInverse(a, Q) }
func Pow(a Num, e int) Num { return new(big.Int).Exp(a, big.NewInt(int64(e)), Q) }
func Eq(a, b Num) bool     { return a.Cmp(b) == 0 }

// root is the primitive 2^k-th root of unity 7^((q-1)/2^k).
func Root(k int) Num {
	e := new(big.Int).Sub(Q, big.NewInt(1))
	return new(big.Int).Exp(big.NewInt(7), e.Rsh(e, uint(k)), Q)
}

func Log2(n int) int { return bits.Len(uint(n)) - 1 }

// eval is Horner's rule.
func Eval(c []Num, x Num) Num {
	r := I(0)
	for i := len(c) - 1; i >= 0; i-- {
		r = Add(Mul(r, x), c[i])
	}
	return r
}

// dft evaluates c at the powers of w (w of order len(out)).
func Dft(c []Num, w Num, n int) []Num {
	ws := make([]Num, n)
	ws[0] = I(1)
	for i := 1; i < n; i++ {
		ws[i] = Mul(ws[i-1], w)
	}
	out := make([]Num, n)
	t := new(big.Int)
	for i := range out {
		a := new(big.Int)
		for j := range c {
			if c[j].Sign() != 0 {
				a.Add(a, t.Mul(c[j], ws[i*j%n]))
			}
		}
		out[i] = a.Mod(a, Q)
	}
	return out
}

// divXn divides by x^n - a: quotient and remainder.
func DivXn(c []Num, n int, a Num) (quot, rem []Num) {
	r := append([]Num{}, c...)
	if len(r) > n {
		quot = make([]Num, len(r)-n)
	}
	for i := len(r) - 1; i >= n; i-- {
		quot[i-n] = r[i]
		r[i-n] = Add(r[i-n], Mul(a, r[i]))
		r[i] = I(0)
	}
	if len(r) > n {
		r = r[:n]
	}
	return quot, r
}

func Same(a, b []Num) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !Eq(a[i], b[i]) {
			return false
		}
	}
	return true
}

func Str(a []Num) string {
	var l []string
	for _, x := range a {
		s := x.String()
		if y := new(big.Int).Sub(Q, x); len(y.String()) < len(s) {
			s = "-" + y.String()
		}
		l = append(l, s)
	}
	return "[" + strings.Join(l, " ") + "]"
}

func Strp(a []Num) string {
	var l []string
	for _, x := range a {
		if x == nil {
			l = append(l, "_")
		} else {
			l = append(l, x.String())
		}
	}
	return "[" + strings.Join(l, " ") + "]"
}

var Edges = func() []Num {
	e := []Num{I(0), I(1), I(-1), I(2), I(-2), I(5)}
	for _, k := range []uint{32, 63, 64, 127, 128, 192, 224, 254} {
		p := new(big.Int).Lsh(big.NewInt(1), k)
		e = append(e, p, new(big.Int).Sub(p, big.NewInt(1)))
	}
	h := new(big.Int).Rsh(Q, 1)
	return append(e, h, Add(h, I(1)))
}()

// vectors enumerates a family of vectors of length n.
func Vectors(n int, fam string, yield func(v []Num)) {
	zero := func() []Num {
		v := make([]Num, n)
		for i := range v {
			v[i] = I(0)
		}
		return v
	}
	words := func(al []Num) {
		idx := make([]int, n)
		for {
			v := make([]Num, n)
			for i := range v {
				v[i] = al[idx[i]]
			}
			yield(v)
			i := 0
			for ; i < n; i++ {
				idx[i]++
				if idx[i] < len(al) {
					break
				}
				idx[i] = 0
			}
			if i == n {
				return
			}
		}
	}
	switch {
	case fam == "basis":
		yield(zero())
		for k := 0; k < n; k++ {
			for _, c := range []Num{I(1), I(-1), Edges[14]} {
				v := zero()
				v[k] = c
				yield(v)
			}
		}
	case fam == "dense":
		for _, e := range Edges[1:8] {
			v := zero()
			p := I(1)
			for i := range v {
				v[i] = p
				p = Mul(p, e)
			}
			yield(v)
		}
		v, w, r := zero(), zero(), zero()
		for i := range v {
			v[i] = I(int64(i + 1))
			w[i] = Edges[i%len(Edges)]
			r[i] = Pow(I(7), i*i+3)
		}
		yield(v)
		yield(w)
		yield(r)
	case fam == "pairs":
		for j := 0; j < n; j++ {
			for k := j + 1; k < n; k++ {
				v := zero()
				v[j], v[k] = I(3), I(-1)
				yield(v)
			}
		}
	case fam == "bits":
		words([]Num{I(0), I(1)})
	case fam == "trits":
		words([]Num{I(0), I(1), I(-1)})
	case fam == "words":
		words([]Num{I(0), I(1), I(-1), I(2), Edges[18]})
	case strings.HasPrefix(fam, "bits/"): // a part: the high bits fixed
		f := strings.Split(fam[5:], "/")
		hi, _ := strconv.Atoi(f[0])
		low, _ := strconv.Atoi(f[1])
		for x := 0; x < 1<<low; x++ {
			v := zero()
			for i := range v {
				v[i] = I(int64((hi<<low | x) >> i & 1))
			}
			yield(v)
		}
	default:
		panic("family " + fam)
	}
}

// families lists the families used for a length.
func Families(n int, tier string) []string {
	f := []string{"basis", "dense"}
	if n <= 32 || tier == "thorough" && n <= 128 {
		f = append(f, "pairs")
	}
	if n <= 4 {
		f = append(f, "words")
	}
	if n == 8 {
		f = append(f, "bits")
		if tier == "thorough" {
			f = append(f, "trits")
		}
	}
	if n == 16 && tier == "thorough" {
		for h := 0; h < 64; h++ {
			f = append(f, fmt.Sprintf("bits/%d/10", h))
		}
	}
	return f
}

type Plan []string

func (p Plan) N(i int) int { v, _ := strconv.Atoi(p[i]); return v }

// c counts the cases of a plan and keeps the first failure.
type Cases struct {
	what   string
	detail []string
	n      int
}

func (c *Cases) Ok() bool { return c.what == "" }

func (c *Cases) Add(parts ...string) {
	c.n++
	ex.State(ex.Hash(parts...))
}

func (c *Cases) Fail(what string, detail ...string) {
	if c.what == "" {
		for i, d := range detail {
			if len(d) > 400 {
				detail[i] = d[:400] + "..."
			}
		}
		c.what, c.detail = what, detail
	}
}

// guard runs f; a panic is a failure.
func (c *Cases) Guard(in string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			s := fmt.Sprint(e)
			if len(s) > 200 {
				s = s[:200]
			}
			c.Fail("panic: "+s, in)
		}
	}()
	f()
}

func Run(f func(p Plan, c *Cases)) func(string, bool) ex.Result {
	return func(s string, trace bool) ex.Result {
		c := &Cases{}
		f(strings.Fields(s), c)
		return ex.Result{Viol: c.what, Detail: c.detail, Evals: c.n, Transitions: c.n, Trivial: c.n == 0}
	}
}

func Rev(i, k int) int { return int(bits.Reverse32(uint32(i)) >> uint(32-k)) }

// Tuples enumerates the ordered tuples of n distinct indices below size.
func Tuples(size, n int, yield func(t []int)) {
	t := make([]int, 0, n)
	used := make([]bool, size)
	var rec func()
	rec = func() {
		if len(t) == n {
			yield(append([]int{}, t...))
			return
		}
		for i := 0; i < size; i++ {
			if !used[i] {
				used[i] = true
				t = append(t, i)
				rec()
				t = t[:len(t)-1]
				used[i] = false
			}
		}
	}
	rec()
}

// Subsets enumerates the increasing tuples of n indices below size.
func Subsets(size, n int, yield func(t []int)) {
	t := make([]int, 0, n)
	var rec func(from int)
	rec = func(from int) {
		if len(t) == n {
			yield(append([]int{}, t...))
			return
		}
		for i := from; i < size; i++ {
			t = append(t, i)
			rec(i + 1)
			t = t[:len(t)-1]
		}
	}
	rec(0)
}

// Pick selects elements.
func Pick(v []Num, t []int) []Num {
	o := make([]Num, len(t))
	for i := range t {
		o[i] = v[t[i]]
	}
	return o
}

// Lagrange is the value at x of the polynomial through the points.
func Lagrange(xs, ys []Num, x Num) Num {
	r := I(0)
	for i := range xs {
		n, d := ys[i], I(1)
		for j := range xs {
			if j != i {
				n, d = Mul(n, Sub(x, xs[j])), Mul(d, Sub(xs[i], xs[j]))
			}
		}
		r = Add(r, Mul(n, Inv(d)))
	}
	return r
}

// Points are indices with edge values among them.
var Points = []Num{I(0), I(1), I(2), I(3), I(-1), Edges[18], Edges[21]}
