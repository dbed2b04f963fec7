package party

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"google.golang.org/protobuf/proto"
	"verif.local/vs/ex"
)

// mkRefresh keeps the evaluations of the refresh polynomials that the members send.
func mkRefresh(N, F int, plan string) *world {
	w := mkWorld(N, F, plan)
	w.reshared = map[[3]int]*protobuf.Reshare{}
	names := map[string]int{}
	w.onMessage(func(from, to int, m *protobuf.Message) {
		if from > 9000 || m.Type != "Reshare" {
			return
		}
		r := new(protobuf.Reshare)
		if proto.Unmarshal(m.Data, r) == nil && len(r.Qk) == 2*F+1 {
			e := from / 100
			if w.self { // the refreshes of one committee
				if names[string(m.Id)] == 0 {
					names[string(m.Id)] = len(names) + 1
				}
				e = names[string(m.Id)]
			}
			w.reshared[[3]int{e, from % 100, to % 100}] = r
		}
	})
	return w
}

// refreshPoly is the refresh polynomial of member d of committee e: the coefficients in x of
// Q(x,j) for j = 1..2F+1; nil when too few of its evaluations were seen.
func (w *world) refreshPoly(e, d int) [][]*big.Int {
	F := w.F
	var xs []*big.Int
	var rs []*protobuf.Reshare
	for i := 0; i < w.N && len(xs) <= F; i++ {
		if r := w.reshared[[3]int{e, d, i}]; r != nil {
			xs = append(xs, bi(i+1))
			rs = append(rs, r)
		}
	}
	if len(xs) <= F {
		return nil
	}
	q := make([][]*big.Int, 2*F+1)
	for j := range q {
		var ys []*big.Int
		for _, r := range rs {
			ys = append(ys, scalarOf(r.Qk[j]))
		}
		q[j] = coeffs(xs, ys)
	}
	return q
}

// at evaluates in y, for every coefficient in x, the polynomial given at y = 1..2F+1.
func (w *world) at(q [][]*big.Int, y int) []*big.Int {
	var xs []*big.Int
	for j := 1; j <= 2*w.F+1; j++ {
		xs = append(xs, bi(j))
	}
	r := make([]*big.Int, w.F+1)
	for k := range r {
		var ys []*big.Int
		for j := range q {
			ys = append(ys, q[j][k])
		}
		r[k] = interp(xs, ys, bi(y))
	}
	return r
}

// fresh: the refresh polynomial q of member d in the refresh e vanishes at 0, has the full
// degree, and no coefficient in common with those in seen.
func (w *world) fresh(e, d int, q [][]*big.Int, seen map[string]string) string {
	if x := w.at(q, 0)[0]; x.Sign() != 0 {
		return fmt.Sprintf("the refresh polynomial of member %d does not vanish at 0", d+1)
	}
	what := fmt.Sprintf("member %d in refresh %d", d+1, e)
	one := func(c *big.Int) string {
		if c.Sign() == 0 {
			return "the refresh polynomial of " + what + " has not the full degree"
		}
		if o := seen[c.String()]; o != "" {
			return "refresh polynomials of " + o + " and of " + what + " have a coefficient in common"
		}
		seen[c.String()] = what
		return ""
	}
	for k := 0; k <= w.F; k++ {
		y := w.coeffY(q, k)
		for l := 0; l <= 2*w.F; l++ {
			if k > 0 || l > 0 { // in both variables
				if v := one(y[l]); v != "" {
					return v
				}
			}
			if v := one(q[l][k]); v != "" { // in x, at y = l+1
				return v
			}
		}
	}
	return ""
}

// refreshCheck is the verdict on the refresh in committee e, from the shares old held before:
// the new polynomial is the old one plus the refresh polynomials of the same set of at least
// F+1 members, each of them freshly random with constant term zero, and shares from before
// and after the refresh do not combine to the secret.
func (w *world) refreshCheck(e int, old map[int][]*big.Int, seen map[string]string) string {
	F := w.F
	ms := w.finished("psd", e)
	Q := map[int][][]*big.Int{}
	for d := 0; d < w.N; d++ {
		q := w.refreshPoly(e, d)
		if q == nil {
			continue
		}
		Q[d] = q
		if w.faulty(pid(e, d)) {
			continue
		}
		if v := w.fresh(e, d, q, seen); v != "" {
			return v
		}
	}
	var sets []int
	for i, m := range ms {
		before := old[m.id]
		if before == nil {
			return ""
		}
		var cand []int
		for s := 1; s < 1<<uint(w.N); s++ {
			if i > 0 {
				ok := false
				for _, t := range sets {
					ok = ok || t == s
				}
				if !ok {
					continue
				}
			}
			sum := append([]*big.Int{}, before...)
			have := true
			for d := 0; d < w.N; d++ {
				if s>>uint(d)&1 == 1 {
					if Q[d] == nil {
						have = false
						break
					}
					a := w.at(Q[d], m.id)
					for k := range sum {
						sum[k] = addq(sum[k], a[k])
					}
				}
			}
			if have && same(sum, m.reduced) {
				cand = append(cand, s)
			}
		}
		if len(cand) == 0 {
			return fmt.Sprintf("the share of member %d is not refreshed with the polynomials of the members", m.id)
		}
		sets = cand
	}
	for _, s := range sets {
		n := 0
		for d := 0; d < w.N; d++ {
			n += s >> uint(d) & 1
		}
		if n < F+1 {
			return fmt.Sprintf("refreshed with the polynomials of only %d members", n)
		}
	}
	// shares from before and after
	if len(ms) == 0 {
		return ""
	}
	var oldFull []*big.Int // B(x,0) before, coefficients
	{
		var xs []*big.Int
		rows := make([][]*big.Int, F+1)
		for i := 1; i <= w.N && len(xs) < 2*F+1; i++ {
			if old[i] != nil {
				xs = append(xs, bi(i))
				for k := range rows {
					rows[k] = append(rows[k], old[i][k])
				}
			}
		}
		if len(xs) < 2*F+1 {
			return ""
		}
		for k := range rows {
			oldFull = append(oldFull, interp(xs, rows[k], new(big.Int)))
		}
	}
	bad := ""
	for n := 1; n <= F; n++ { // n old shares, F+1-n new ones
		subsets(len(ms), F+1-n, func(nw []int) bool {
			return subsets(w.N, n, func(od []int) bool {
				var xs, ys []*big.Int
				in := map[int]bool{}
				for _, i := range nw {
					xs, ys = append(xs, bi(ms[i].id)), append(ys, ms[i].full[0])
					in[ms[i].id] = true
				}
				for _, i := range od {
					if in[i+1] {
						return true
					}
					xs, ys = append(xs, bi(i+1)), append(ys, evalq(oldFull, bi(i+1)))
				}
				if eqb(interp(xs, ys, new(big.Int)), w.secret) {
					bad = "shares from before and after the refresh combine to the secret"
				}
				return bad == ""
			})
		})
	}
	return bad
}

// coeffY are the coefficients in y of the coefficient k in x.
func (w *world) coeffY(q [][]*big.Int, k int) []*big.Int {
	var xs, ys []*big.Int
	for j := range q {
		xs, ys = append(xs, bi(j+1)), append(ys, q[j][k])
	}
	return coeffs(xs, ys)
}

func same(a, b []*big.Int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !eqb(a[i], b[i]) {
			return false
		}
	}
	return true
}

func refresh(N, F int) *scen {
	return &scen{name: fmt.Sprintf("refresh%d", N), N: N, F: F, make: mkRefresh, main: (*world).psdMain,
		check: func(w *world) string {
			if v := w.handoffCheck(1); v != "" {
				return v
			}
			old := map[int][]*big.Int{}
			for i := 1; i <= N; i++ {
				old[i] = w.dealtShare(i)
			}
			return w.refreshCheck(1, old, map[string]string{})
		}}
}

func refreshChain(N, F, k int) *scen {
	return &scen{name: fmt.Sprintf("refreshchain%d-%d", N, k), N: N, F: F, make: mkRefresh,
		main: func(w *world) { w.chainMain(k) },
		check: func(w *world) string {
			if v := w.chainCheck(k); v != "" {
				return v
			}
			seen := map[string]string{}
			for e := 1; e <= k; e++ {
				old := map[int][]*big.Int{}
				for i := 0; i < N; i++ {
					if m, ok := w.snap[pid(e, i)]; ok {
						old[i+1] = m.reduced
					}
				}
				if v := w.refreshCheck(e, old, seen); v != "" {
					return v
				}
			}
			return ""
		}}
}

func init() {
	ex.Register("C06", func() *ex.Check {
		r4, r7 := refresh(4, 1), refresh(7, 2)
		c := refreshChain(4, 1, 2)
		mu := psdMutations(4, 1)
		var few []string
		for _, m := range mu {
			if !strings.HasPrefix(m, "dup") {
				few = append(few, m)
			}
		}
		return &ex.Check{Spaces: []ex.Space{
			space("refresh, holds", ruleHolds+", N=4", r4, seq(list("", "lifo"), r4.holds())),
			space("refresh, classes", ruleClass+", and of broadcast instances, N=4", r4, seq(r4.class1(), r4.instances())),
			space("refresh, silent member", ruleSilent+", crossed with types from one sender or to one receiver held back, N=4", r4, cross(r4.silent(1), seq(list("", "lifo"), r4.halves()))),
			space("refresh, stopping member", ruleCrash+", N=4", r4, cross(r4.crashes(1, false), list("", "lifo"))),
			space("refresh, deviating member", ruleByz+", N=4", r4, byzPlans(1, 4, few, false)),
			space("refresh, randomness", "other randomness and other coins, N=4", r4, cross(ids(8), seeds(16))),
			space("refresh of seven", ruleSilent+", N=7", r7, cross(seq(list(""), r7.silent(1)), list("", "lifo"))),
			space("two handoffs", "types held back or first, silent members, N=4", c, seq(list("", "lifo"), c.types(), c.silent(1), c.silent(2), seeds(8))),
		}}
	})
}
