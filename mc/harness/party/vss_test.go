package party

import (
	"fmt"
	"math/big"
	"slices"
	"strconv"
	"strings"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"google.golang.org/protobuf/proto"
	"verif.local/vs"
	"verif.local/vs/ex"
)

// vssMain runs the sharing of a secret.
func (w *world) vssMain() {
	w.s.Net.SetHost(clientID, "10.99.0.1")
	w.open(0, false)
	w.connect(0, false)
	if w.impostor != nil {
		w.impostor()
	}
	w.startShare(0)
	for i := 0; i < w.N; i++ {
		i := i
		if w.silent[pid(0, i)] {
			continue
		}
		vs.GoAs(pid(0, i), "old", func() {
			w.com[0][i].VSSShareReceive([]byte("vss"))
			w.mark("vss", pid(0, i))
		})
	}
}

// mkVSS also keeps the dealing each member got.
func mkVSS(N, F int, plan string) *world {
	w := mkWorld(N, F, plan)
	w.dealt, w.undecodable = map[int]*protobuf.VSSSend{}, map[int]bool{}
	w.onMessage(func(from, to int, m *protobuf.Message) {
		if to < N && m.Type == "VSSSend" && from%20000 == clientID && !slices.Contains(w.wrongSender, m.Sender) {
			v := new(protobuf.VSSSend)
			w.undecodable[to] = proto.Unmarshal(m.Data, v) != nil
			w.dealt[to] = v
		}
	})
	for _, t := range w.rest {
		if v, ok := strings.CutPrefix(t, "imp="); ok {
			b, kind, _ := strings.Cut(v, "/")
			w.impostorOf(int(b[0]-'0'), kind)
		}
	}
	return w
}

// impostorOf makes member b send dealings of its own to the others, under its own number:
// imp=B/KIND with
//
//	other   a valid dealing of another secret
//	none    a dealing without content
//	junk    bytes that are no dealing
const impostorID = 9980

func (w *world) impostorOf(b int, kind string) {
	w.crash[pid(0, b)] = 1 << 30 // not bound by anything from here on, though it takes part
	w.impostor = func() {
		if kind != "other" {
			data := []byte(nil)
			if kind == "junk" {
				data = []byte("\xff\xff\xff\xff")
			}
			vs.GoAs(pid(0, b), "impostor", func() {
				w.com[0][b].Broadcast(&protobuf.Message{Type: "VSSSend", Id: []byte("vss"), Sender: uint32(b), Data: data})
			})
			return
		}
		w.s.Net.SetHost(impostorID, "10.99.0.3")
		w.s.Net.SetHost(20000+impostorID, "10.99.0.4")
		w.proxy(impostorID, 0, 7000, func(m *protobuf.Message, e, j int) []*protobuf.Message {
			m = clone(m)
			m.Sender = uint32(b)
			return []*protobuf.Message{m}
		}, -1)
		vs.GoAs(impostorID, "impostor", func() {
			ips, ports := w.ips(0)
			for j := range ips {
				ips[j], ports[j] = "10.99.0.4", strconv.Itoa(7000+j)
			}
			var c Client
			c.HonestParty = NewHonestParty(0, uint32(w.N), uint32(w.F), 0x7fffffff, ips, ports, ips, ports, keys(w.N, w.F, 0).pk, nil)
			c.SetSecret(bf(addq(w.secret, big.NewInt(1))))
			c.InitSendChannel()
			c.Share([]byte("vss"))
		})
	}
}

func ptOf(b []byte) (bls.G1Point, bool) {
	p, err := bls.FromCompressedG1(b)
	if err != nil {
		return bls.G1Point{}, false
	}
	return *p, true
}
func scalarOf(b []byte) *big.Int {
	r := new(big.Int)
	for i := len(b) - 1; i >= 0; i-- {
		r.Lsh(r, 8).Or(r, big.NewInt(int64(b[i])))
	}
	return r
}
func mulP(p bls.G1Point, k *big.Int) (r bls.G1Point) {
	f := bf(k)
	bls.MulG1(&r, &p, &f)
	return
}
func addPP(a, b bls.G1Point) (r bls.G1Point) { bls.AddG1(&r, &a, &b); return }
func eqP(a, b bls.G1Point) bool              { return g1str(&a) == g1str(&b) }

// opens: commitment c opens at x to v with witness wt (evaluated with the trapdoor).
func (w *world) opens(c, wt bls.G1Point, x, v *big.Int) bool {
	return eqP(c, addPP(g1(v), mulP(wt, subq(w.tau(), x))))
}

// dealingOK decides independently whether a dealing is valid for member i.
func (w *world) dealingOK(v *protobuf.VSSSend, i int) bool {
	T := 2*w.F + 1
	if len(v.Pi.GetPiContents()) <= T || len(v.BijList) <= T || len(v.WBijList) <= T {
		return false
	}
	gs, ok := ptOf(v.Pi.Gs)
	if !ok {
		return false
	}
	sum := g1(new(big.Int))
	var xs []*big.Int
	for j := 1; j <= T; j++ {
		xs = append(xs, bi(j))
	}
	for j := 1; j <= T; j++ {
		c := v.Pi.PiContents[j]
		cb, o1 := ptOf(c.CBj)
		cz, o2 := ptOf(c.CZj)
		gf, o3 := ptOf(c.GFj)
		wz, o4 := ptOf(c.WZ0)
		wb, o5 := ptOf(v.WBijList[j])
		if !o1 || !o2 || !o3 || !o4 || !o5 {
			return false
		}
		unit := make([]*big.Int, T)
		for k := range unit {
			unit[k] = new(big.Int)
		}
		unit[j-1] = big.NewInt(1)
		sum = addPP(sum, mulP(gf, interp(xs, unit, new(big.Int))))
		if !eqP(cb, addPP(cz, gf)) || !w.opens(cz, wz, new(big.Int), new(big.Int)) || !w.opens(cb, wb, bi(i+1), scalarOf(v.BijList[j])) {
			return false
		}
	}
	return eqP(gs, sum)
}

func accepted(m member) bool {
	for _, x := range m.full {
		if x.Sign() != 0 {
			return true
		}
	}
	return false
}

// vssCheck is the verdict on a sharing: every member that got a dealing accepts it exactly
// when it is valid, and then holds what was dealt; the shares of an honest dealer are shares of
// the secret.
func (w *world) vssCheck() string {
	if c := w.honestCrash(); c != "" {
		return c
	}
	T := 2*w.F + 1
	var xs []*big.Int
	for j := 1; j <= T; j++ {
		xs = append(xs, bi(j))
	}
	honest := w.byz[clientID] == nil
	if _, c := w.crash[clientID]; c {
		honest = false
	}
	var ms []member
	for i := 0; i < w.N; i++ {
		if w.faulty(pid(0, i)) {
			continue
		}
		v, m := w.dealt[i], w.member(0, i)
		if v == nil {
			if honest {
				return fmt.Sprintf("the dealer does not send its share to member %d", i+1)
			}
			if accepted(m) {
				return fmt.Sprintf("member %d accepts a dealing without getting one", i+1)
			}
			continue
		}
		if !w.done["vss"][pid(0, i)] {
			return fmt.Sprintf("member %d does not complete the sharing", i+1)
		}
		ok, acc := w.dealingOK(v, i), accepted(m)
		if ok && !acc { // a share that is zero looks like none: the commitments tell
			acc = true
			for j := 1; j <= T; j++ {
				acc = acc && scalarOf(v.BijList[j]).Sign() == 0
			}
		}
		if honest && !ok {
			return fmt.Sprintf("the dealing of an honest dealer to member %d is not valid", i+1)
		}
		if ok && !acc && !w.undecodable[i] {
			return fmt.Sprintf("member %d rejects a valid dealing", i+1)
		}
		if !ok && acc {
			return fmt.Sprintf("member %d accepts an invalid dealing", i+1)
		}
		if !ok || !acc {
			continue
		}
		ms = append(ms, m)
		for j := 1; j <= T; j++ {
			if !eqb(evalq(m.full, bi(j)), scalarOf(v.BijList[j])) {
				return fmt.Sprintf("member %d holds another share than it was dealt", i+1)
			}
			if m.cb[j] != string(v.Pi.PiContents[j].CBj) {
				return fmt.Sprintf("member %d records other commitments than it was dealt", i+1)
			}
		}
	}
	if honest {
		if v := w.consistent(ms, "fc"); v != "" {
			return v
		}
		if w.s.Draws == nil {
			return w.random(ms)
		}
	}
	return ""
}

// random: the polynomial shared has the full degree in both variables, and no two of its
// coefficients coincide.
func (w *world) random(ms []member) string {
	F := w.F
	if len(ms) < F+1 {
		return ""
	}
	// rows: coefficients in x of the coefficients in y
	seen := map[string]bool{}
	var xs []*big.Int
	for _, m := range ms[:F+1] {
		xs = append(xs, bi(m.id))
	}
	for l := 0; l <= 2*F; l++ {
		var ys []*big.Int
		for _, m := range ms[:F+1] {
			ys = append(ys, m.full[l])
		}
		for k, c := range coeffs(xs, ys) {
			if k == 0 && l == 0 {
				continue
			}
			if c.Sign() == 0 {
				return "a coefficient of the sharing polynomial is zero"
			}
			if seen[c.String()] {
				return "two coefficients of the sharing polynomial are equal"
			}
			seen[c.String()] = true
		}
	}
	return ""
}

// coeffs interpolates the coefficients.
func coeffs(xs, ys []*big.Int) []*big.Int {
	r := make([]*big.Int, len(xs))
	for i := range r {
		r[i] = new(big.Int)
	}
	for i := range xs {
		p := []*big.Int{big.NewInt(1)}
		den := big.NewInt(1)
		for j := range xs {
			if j == i {
				continue
			}
			n := make([]*big.Int, len(p)+1)
			for k := range n {
				n[k] = new(big.Int)
			}
			for k := range p {
				n[k+1] = addq(n[k+1], p[k])
				n[k] = subq(n[k], mulq(p[k], xs[j]))
			}
			p, den = n, mulq(den, subq(xs[i], xs[j]))
		}
		f := mulq(ys[i], invq(den))
		for k := range p {
			r[k] = addq(r[k], mulq(p[k], f))
		}
	}
	return r
}

func vss(N, F int) *scen {
	return &scen{name: fmt.Sprintf("vss%d", N), N: N, F: F, make: mkVSS, main: (*world).vssMain, check: (*world).vssCheck}
}

// dealings are the changes to a dealing; neg adds those in the other direction.
func dealings(F int, neg bool) []string {
	var r []string
	for k := 1; k <= 2*F+1; k++ {
		for _, o := range []string{"cb", "cz", "gf", "wz", "b", "w", "cbb", "q0", "zg", "cg"} {
			r = append(r, fmt.Sprintf("vs.%s-%d", o, k))
			if neg {
				r = append(r, fmt.Sprintf("vs.%s-%d-m", o, k))
			}
		}
		for _, o := range []string{"wi", "wzi", "cbi", "b0", "gfi", "czi", "vz"} {
			if neg {
				r = append(r, fmt.Sprintf("vs.%s-%d", o, k))
			}
		}
		if k <= 2*F {
			for _, o := range []string{"swap", "swapw", "swapall"} {
				r = append(r, fmt.Sprintf("vs.%s-%d", o, k))
			}
		}
	}
	return append(r, "vs.gs", "vs.gs-0-m", "vs.gsi", "vs.all", "vs.other", "first")
}

// tuples: every choice of n of the changes, applied to the dealings of the given receivers.
func tuples(muts []string, n int, dests ...string) genf {
	return func(tier string, y yieldf) bool {
		for _, d := range dests {
			if !subsets(len(muts), n, func(s []int) bool {
				var l []string
				for _, i := range s {
					l = append(l, muts[i]+d)
				}
				return y("dealer=" + strings.Join(l, ","))
			}) {
				return false
			}
		}
		return true
	}
}

func init() {
	ex.Register("C07", func() *ex.Check {
		v4, v7, v10, v13 := vss(4, 1), vss(7, 2), vss(10, 3), vss(13, 4)
		return &ex.Check{Spaces: []ex.Space{
			space("sharing, secrets and randomness", "edge-value secrets crossed with other randomness, N=4", v4, cross(secrets(), seq(list(""), seeds(8)))),
			space("sharing, small coefficients", "every choice of the dealer's random coefficients among 0, 1 and -1, crossed with small secrets, N=4", v4, cross(list("secret=0", "secret=1", "secret=2", "secret=3", "secret=-1", "secret=-2"), seq(filled(fmt.Sprint("rand=", clientID, "/0??0?0?0?"), "01a"), thorough(filled(fmt.Sprint("rand=", clientID, "/0??0?0?0?"), "01a2b"))))),
			space("sharing, orders", ruleHolds+", and pairs of them; classes; slow links (3), N=4", v4, seq(list("", "lifo"), v4.holds(), v4.class1(), v4.slow(3))),
			space("sharing, preemptions", rulePts+", N=4, every point, kinds w, s", v4, v4.points("ws", 1)),
			space("sharing, silent members", "every set of F silent members, N=4, 7, 10", v4, cross(v4.silent(0), seeds(4))),
			space("dealings of a member", "a member sends dealings of its own (valid ones of another secret, empty ones, junk), crossed with classes that arrive first or last, N=4", v4, func(tier string, y yieldf) bool {
				for b := 0; b < 4; b++ {
					for _, k := range []string{"other", "none", "junk"} {
						p := fmt.Sprintf("imp=%d/%s", b, k)
						for _, o := range []string{"", " lifo", " prio=VSSSend/%d/*", " prio=VSSSend/9990/*", " prio=VSSSend/29980/*", " holdc=VSSSend/9990/*", " holdc=VSSSend/29980/*"} {
							if strings.Contains(o, "%d") {
								o = fmt.Sprintf(o, b)
							}
							if !y(p + o) {
								return false
							}
						}
						for j := 0; j < 4; j++ {
							if !y(fmt.Sprintf("%s holdc=VSSSend/9990/%d", p, j)) || !y(fmt.Sprintf("%s prio=VSSSend/9990/%d", p, j)) {
								return false
							}
						}
					}
				}
				return true
			}),
			space("sharing among seven", "secrets, silent members, N=7", v7, seq(secrets(), v7.silent(0), v7.holds())),
			space("sharing among ten", "secrets, N=10", v10, seq(secrets(), v10.silent(0))),
			space("sharing among thirteen", "N=13", v13, seq(list(""), thorough(secrets()))),
		}}
	})
	ex.Register("C08", func() *ex.Check {
		v4, v7 := vss(4, 1), vss(7, 2)
		all, pos := dealings(1, true), dealings(1, false)
		return &ex.Check{Spaces: []ex.Space{
			space("one change", "every change of a dealing, sent to everyone and to each single member, N=4", v4, tuples(all, 1, "", "@0", "@1", "@2", "@3")),
			space("two changes", "every pair of changes of a dealing, N=4", v4, tuples(all, 2, "", "@3")),
			space("three changes", "every triple of changes of a dealing (in one direction), N=4", v4, seq(tuples(pos, 3, ""), thorough(tuples(all, 3, "")))),
			space("four changes", "every four changes of a dealing (in one direction), N=4", v4, thorough(tuples(pos, 4, ""))),
			space("secrets and changes", "edge-value secrets crossed with every change of a dealing, N=4", v4, cross(secrets(), tuples(all, 1, "", "@0"))),
			space("zero secret and two changes", "the secret zero and every pair of changes of a dealing, N=4", v4, cross(list("secret=0"), tuples(all, 2, ""))),
			space("changes among seven", "every change, and every pair (in one direction), N=7", v7, seq(tuples(dealings(2, true), 1, ""), tuples(dealings(2, false), 2, ""))),
		}}
	})
}
