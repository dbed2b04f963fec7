package party

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/pkg/core"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"github.com/drand/kyber/share"
	"google.golang.org/protobuf/proto"
	"verif.local/vs"
	"verif.local/vs/ex"
)

func TestMain(m *testing.M) {
	vs.InstallRand()
	vs.Labeler = label
	ex.Main(m)
}

// label names a message on the wire; "?" when it is not framed as expected.
func label(b []byte) string {
	if len(b) < 4 {
		return "?"
	}
	n := int(binary.BigEndian.Uint32(b))
	if n != len(b)-4 {
		return "?"
	}
	var m protobuf.Message
	if proto.Unmarshal(b[4:], &m) != nil {
		return "?"
	}
	l := m.Type
	if strings.HasPrefix(l, "RBC") {
		if i := strings.LastIndex(string(m.Id), "_"); i >= 0 {
			l += string(m.Id[i:])
		}
	}
	return l
}

// ---- arithmetic, independent of the code under test --------------------------------

var qq = order()

func fb(x *bls.Fr) *big.Int {
	b := bls.FrTo32(x)
	for i := 0; i < 16; i++ {
		b[i], b[31-i] = b[31-i], b[i]
	}
	return new(big.Int).SetBytes(b[:])
}
func bf(x *big.Int) (r bls.Fr) {
	var b [32]byte
	y := new(big.Int).Mod(x, qq).Bytes()
	for i := range y {
		b[i] = y[len(y)-1-i]
	}
	bls.FrFrom32(&r, b)
	return
}
func g1(x *big.Int) (r bls.G1Point) {
	k := bf(x)
	bls.MulG1(&r, &bls.GenG1, &k)
	return
}
func bi(n int) *big.Int           { return big.NewInt(int64(n)) }
func mulq(a, b *big.Int) *big.Int { return new(big.Int).Mod(new(big.Int).Mul(a, b), qq) }
func addq(a, b *big.Int) *big.Int { return new(big.Int).Mod(new(big.Int).Add(a, b), qq) }
func subq(a, b *big.Int) *big.Int { return new(big.Int).Mod(new(big.Int).Sub(a, b), qq) }
func invq(a *big.Int) *big.Int    { return new(big.Int).ModInverse(a, qq) }
func eqb(a, b *big.Int) bool      { return a.Cmp(b) == 0 }
func evalq(c []*big.Int, x *big.Int) *big.Int {
	r := new(big.Int)
	for i := len(c) - 1; i >= 0; i-- {
		r = addq(mulq(r, x), c[i])
	}
	return r
}
func polyOf(p []bls.Fr) []*big.Int {
	r := make([]*big.Int, len(p))
	for i := range p {
		r[i] = fb(&p[i])
	}
	return r
}

// interp evaluates at x0 the polynomial of degree len(xs)-1 through the points.
func interp(xs, ys []*big.Int, x0 *big.Int) *big.Int {
	r := new(big.Int)
	for i := range xs {
		num, den := big.NewInt(1), big.NewInt(1)
		for j := range xs {
			if j != i {
				num = mulq(num, subq(x0, xs[j]))
				den = mulq(den, subq(xs[i], xs[j]))
			}
		}
		r = addq(r, mulq(ys[i], mulq(num, invq(den))))
	}
	return r
}

// onPoly reports whether all points lie on one polynomial of degree deg, and its value at 0.
func onPoly(deg int, xs, ys []*big.Int) (ok bool, at0 *big.Int) {
	if len(xs) < deg+1 {
		return true, nil
	}
	for i := deg + 1; i < len(xs); i++ {
		if !eqb(interp(xs[:deg+1], ys[:deg+1], xs[i]), ys[i]) {
			return false, nil
		}
	}
	return true, interp(xs[:deg+1], ys[:deg+1], new(big.Int))
}

// detRand is a deterministic field element.
func detRand(tag ...int) *big.Int {
	h := ex.Hash(fmt.Sprint(tag))
	r := new(big.Int)
	for i := 0; i < 4; i++ {
		h ^= h << 13
		h ^= h >> 7
		h ^= h << 17
		r.Lsh(r, 64)
		r.Or(r, new(big.Int).SetUint64(h))
	}
	return r.Mod(r, qq)
}

// ---- committees --------------------------------------------------------------------

type keyset struct {
	sk []*share.PriShare
	pk *share.PubPoly
}

var keyCache = map[string]keyset{}

func keys(N, F, e int) keyset {
	k := fmt.Sprint(N, "/", F, "/", e)
	if ks, ok := keyCache[k]; ok {
		return ks
	}
	in := vs.S
	vs.S = nil // the same keys wherever they are asked for first
	vs.SetOutsideSeed(ex.Hash(k))
	sk, pk := SigKeyGen(uint32(N), uint32(2*F+1))
	vs.S = in
	keyCache[k] = keyset{sk, pk}
	return keyCache[k]
}

// tamper rewrites what a Byzantine member sends to member j of committee e.
type tamper func(m *protobuf.Message, e, j int) []*protobuf.Message

type world struct {
	s           *vs.Sched
	d           *vs.Dev
	N, F        int
	secret      *big.Int
	com         map[int][]*HonestParty // by epoch
	byz         map[int]tamper         // by party id
	silent      map[int]bool           // by party id
	away        map[int]int            // by party id: seconds until it is started, -1 never
	crash       map[int]int            // party id -> units it still sends
	done        map[string]map[int]bool
	id          string // name of the handoff instance
	main        func()
	rest        []string // plan tokens for the scenario
	self        bool     // a committee that hands over to itself
	stages      map[string]map[int]member
	snap        map[int]member               // state of members at intermediate points
	ended       map[int]member               // state of members when their handoff completed
	overheard   map[string]*protobuf.Message // by type and instance: another party's message
	recShares   map[string]map[uint32][]byte // signature shares of Recover messages, by instance and dealer, and sender
	reshared    map[[3]int]*protobuf.Reshare // refresh evaluations seen, by committee, sender, receiver
	rbc         *rbcState
	pb          *pbState
	outs        map[int][]byte
	know        *knowledge
	signed      map[string]*signed
	forge       map[int]*forger           // by party id
	impostor    func()                    // a member that acts as a dealer
	dealt       map[int]*protobuf.VSSSend // dealing received, by member
	undecodable map[int]bool              // it is followed by bytes that are no message
	wrongSender []uint32                  // what a dealing carries that names another sender than the dealer
}

func pid(e, i int) int { return 100*e + i }

const clientID = 9990

func newWorld(N, F int, d *vs.Dev, seed uint64) *world {
	w := &world{N: N, F: F, d: d, com: map[int][]*HonestParty{}, byz: map[int]tamper{},
		silent: map[int]bool{}, away: map[int]int{}, snap: map[int]member{}, ended: map[int]member{}, stages: map[string]map[int]member{}, overheard: map[string]*protobuf.Message{}, crash: map[int]int{}, done: map[string]map[int]bool{}}
	w.s = vs.NewSched(d, seed)
	w.s.OnState = ex.State
	w.secret, _ = new(big.Int).SetString("1111111111111112345", 10)
	w.id = "handoff"
	w.s.MaxPoints = 400_000
	if N > 7 {
		w.s.MaxPoints = 2_000_000
	}
	w.s.Net.OnSend = func(p, nth int, l *vs.Link) bool {
		k, ok := w.crash[p]
		return !ok || nth <= k
	}
	return w
}

func (w *world) ips(e int) (ips, ports []string) {
	for i := 0; i < w.N; i++ {
		ips = append(ips, fmt.Sprintf("10.%d.0.%d", e, i+1))
		ports = append(ports, "8000")
	}
	return
}

func proxyIP(e, i int) string { return fmt.Sprintf("10.%d.1.%d", e, i+1) }

// addresses member i of committee e uses to reach committee e2.
func (w *world) view(e, i, e2 int) (ips, ports []string) {
	ips, ports = w.ips(e2)
	if w.byz[pid(e, i)] != nil {
		for j := range ips {
			if e2 != e || j != i {
				ips[j], ports[j] = proxyIP(e, i), strconv.Itoa(7000+100*(e2-e)+j)
			}
		}
	}
	return
}

// open creates committee e (listening), inside the execution.
func (w *world) open(e int, next bool) {
	ks := keys(w.N, w.F, e)
	w.com[e] = make([]*HonestParty, w.N)
	ips, _ := w.ips(e)
	for i := 0; i < w.N; i++ {
		id := pid(e, i)
		w.s.Net.SetHost(id, ips[i])
		w.s.Net.SetHost(20000+id, proxyIP(e, i))
		vs.As(id, func() {
			ip, port := w.view(e, i, e)
			var ipn, portn []string
			if next && w.self {
				ipn, portn = w.ips(e)
				for j := 0; j < w.N && w.byz[id] != nil; j++ {
					ipn[j], portn[j] = proxyIP(e, i), strconv.Itoa(7100+j)
				}
			} else if next {
				ipn, portn = w.view(e, i, e+1)
			}
			p := NewHonestParty(uint32(e), uint32(w.N), uint32(w.F), uint32(i), ip, port, ipn, portn, ks.pk, ks.sk[i])
			w.com[e][i] = p
			if w.away[id] == 0 {
				p.InitReceiveChannel()
			}
		})
	}
}

// connect opens the links of committee e (to itself, and to committee e+1 when next).
func (w *world) connect(e int, next bool) {
	for i := 0; i < w.N; i++ {
		if t := w.byz[pid(e, i)]; t != nil {
			w.proxy(pid(e, i), e, 7000, t, i)
			if next && w.self {
				w.proxy(pid(e, i), e, 7100, t, -1)
			} else if next {
				w.proxy(pid(e, i), e+1, 7100, t, -1)
			}
		}
	}
	if t := w.byz[clientID]; t != nil && e == 0 {
		w.s.Net.SetHost(20000+clientID, "10.99.0.2")
		w.proxy(clientID, 0, 7000, t, -1)
	}
	for i := 0; i < w.N; i++ {
		if w.silent[pid(e, i)] || w.away[pid(e, i)] != 0 {
			continue
		}
		vs.As(pid(e, i), func() {
			w.com[e][i].InitSendChannel()
			if next {
				w.com[e][i].InitSendToNextChannel()
			}
		})
	}
}

// proxy relays what a Byzantine party sends to committee e2, through its tamper function.
func (w *world) proxy(id, e2, port int, t tamper, self int) {
	ips, ports := w.ips(e2)
	for j := 0; j < w.N; j++ {
		if j == self {
			continue
		}
		j := j
		vs.As(20000+id, func() {
			rc := core.MakeReceiveChannel(strconv.Itoa(port + j))
			sc := core.MakeSendChannel(ips[j], ports[j])
			vs.GoAs(20000+id, "proxy", func() {
				for {
					m := vs.Recv(rc)
					for _, x := range t(m, e2, j) {
						vs.Send(sc, x)
					}
				}
			})
		})
	}
}

// finish marks a stage as completed by a party.
func (w *world) mark(stage string, id int) {
	if w.done[stage] == nil {
		w.done[stage] = map[int]bool{}
	}
	w.done[stage][id] = true
}

// faulty parties are outside of what is promised.
func (w *world) faulty(id int) bool {
	_, c := w.crash[id]
	return c || w.silent[id] || w.byz[id] != nil
}

// honestCrash names an honest party whose process stopped.
func (w *world) honestCrash() string {
	for _, c := range w.s.Crashes {
		if c.Party < 20000 && !w.faulty(c.Party) {
			r := c.Reason
			if i := strings.Index(r, "0x"); i > 0 {
				r = r[:i]
			}
			return fmt.Sprintf("honest party %d stopped: %.120s", c.Party, r)
		}
	}
	return ""
}

// unfinished lists honest parties that did not complete a stage.
func (w *world) unfinished(stage string, e int) []int {
	var r []int
	for i := 0; i < w.N; i++ {
		if !w.faulty(pid(e, i)) && !w.done[stage][pid(e, i)] {
			r = append(r, pid(e, i))
		}
	}
	return r
}

// run executes and fills in the common part of a result.
func (w *world) run(main func(), trace bool) {
	w.s.KeepTrace = trace
	if len(w.byz) > 0 {
		w.onMessage(func(from, to int, m *protobuf.Message) {
			if w.byz[to] != nil && from < 20000 {
				w.overheard[m.Type+string(m.Id)] = m
				w.hearRecover(m)
			}
		})
	}
	w.s.Spawn(9999, "main", main)
	w.s.Run()
}

// onMessage adds a function called with every message that arrives.
func (w *world) onMessage(f func(from, to int, m *protobuf.Message)) {
	buf := map[*vs.Link][]byte{}
	prev := w.s.Net.Delivered
	w.s.Net.Delivered = func(u *vs.Unit) {
		if prev != nil {
			prev(u)
		}
		b := append(buf[u.Link], u.Bytes...)
		for len(b) >= 4 {
			n := int(binary.BigEndian.Uint32(b))
			if len(b) < 4+n {
				break
			}
			m := new(protobuf.Message)
			if proto.Unmarshal(b[4:4+n], m) == nil {
				f(u.Link.From, u.Link.To, m)
			}
			b = b[4+n:]
		}
		buf[u.Link] = append([]byte{}, b...)
	}
}

func (w *world) result(viol string, extra ...string) ex.Result {
	r := ex.Result{Viol: viol, Detail: extra, Transitions: w.s.Deliveries, Trace: w.s.Trace}
	r.Sig = w.s.StateHash() ^ ex.Hash(viol)
	if viol != "" {
		for _, c := range w.s.Crashes {
			r.Detail = append(r.Detail, fmt.Sprintf("party %d stopped: %s", c.Party, c.Reason))
		}
		for e, c := range w.com {
			for i := range c {
				if b := w.s.Blocked(pid(e, i)); len(b) > 0 {
					r.Detail = append(r.Detail, fmt.Sprintf("party %d waits: %s", pid(e, i), strings.Join(b, " ")))
				}
			}
		}
		sort.Strings(r.Detail)
	}
	return r
}

// ---- what a committee must hold ----------------------------------------------------

// state of the members of committee e, as numbers.
type member struct {
	id      int // index, from 1
	reduced []*big.Int
	full    []*big.Int
	cb      []string // commitments to B(x,j), compressed, index j
}

func (w *world) member(e, i int) member {
	p := w.com[e][i]
	m := member{id: i + 1, reduced: polyOf(p.reducedShare), full: polyOf(p.fullShare), cb: make([]string, len(p.Proof.PiContents))}
	for j := range p.Proof.PiContents {
		m.cb[j] = g1str(&p.Proof.PiContents[j].CBj)
	}
	return m
}

func g1str(p *bls.G1Point) string { return string(bls.ToCompressedG1(p)) }
func g1of(x *big.Int) string      { p := g1(x); return g1str(&p) }

func (w *world) tau() *big.Int {
	for _, c := range w.com {
		for _, p := range c {
			return trapdoor(&p.KZG.SecretG1[1])
		}
	}
	return nil
}

// consistent checks that the given members hold shares of one bivariate polynomial with
// B(0,0) the secret. Parts: r reduced shares, f full shares, c commitments.
func (w *world) consistent(ms []member, parts string) string {
	F := w.F
	var xs []*big.Int
	for _, m := range ms {
		xs = append(xs, bi(m.id))
	}
	has := func(c string) bool { return strings.Contains(parts, c) }
	if has("r") {
		var y0 []*big.Int
		for _, m := range ms {
			if len(m.reduced) != F+1 {
				return fmt.Sprintf("member %d: reduced share has %d coefficients", m.id, len(m.reduced))
			}
			y0 = append(y0, m.reduced[0])
		}
		for k := 0; k <= F; k++ {
			var y []*big.Int
			for _, m := range ms {
				y = append(y, m.reduced[k])
			}
			ok, at0 := onPoly(2*F, xs, y)
			if !ok {
				return "reduced shares do not lie on one polynomial of degree 2t"
			}
			if k == 0 && at0 != nil && !eqb(at0, w.secret) {
				return "reduced shares of 2t+1 members interpolate to a different secret"
			}
		}
	}
	if has("f") {
		for _, m := range ms {
			if len(m.full) != 2*F+1 {
				return fmt.Sprintf("member %d: full share has %d coefficients", m.id, len(m.full))
			}
		}
		for k := 0; k <= 2*F; k++ {
			var y []*big.Int
			for _, m := range ms {
				y = append(y, m.full[k])
			}
			ok, at0 := onPoly(F, xs, y)
			if !ok {
				return "full shares do not lie on one polynomial of degree t"
			}
			if k == 0 && at0 != nil && !eqb(at0, w.secret) {
				return "full shares of t+1 members interpolate to a different secret"
			}
		}
	}
	if has("r") && has("f") {
		for _, a := range ms {
			for _, b := range ms {
				if !eqb(evalq(a.full, bi(b.id)), evalq(b.reduced, bi(a.id))) {
					return "full and reduced shares are not of the same polynomial"
				}
			}
		}
	}
	if has("c") {
		if len(ms) == 0 {
			return ""
		}
		t := w.tau()
		if has("f") && !has("r") && len(ms) > F {
			// the commitments are to the polynomials the full shares lie on
			for j := 1; j <= 2*F+1; j++ {
				var y []*big.Int
				for _, m := range ms[:F+1] {
					y = append(y, evalq(m.full, bi(j)))
				}
				if ms[0].cb[j] != g1of(interp(xs[:F+1], y, t)) {
					return "recorded commitments do not commit to the shares held"
				}
			}
		}
		for _, b := range ms {
			if has("r") && t != nil && b.id <= 2*F+1 {
				c := g1of(evalq(b.reduced, t))
				for _, a := range ms {
					if a.cb[b.id] != c {
						return "recorded commitments do not commit to the shares held"
					}
				}
			}
			for j := 1; j <= 2*F+1; j++ {
				if ms[0].cb[j] != b.cb[j] {
					return "members record different commitments"
				}
			}
		}
	}
	return ""
}

// dealtPoly is the polynomial that deal hands out.
func (w *world) dealtPoly() [][]*big.Int {
	b := make([][]*big.Int, w.F+1)
	for k := range b {
		b[k] = make([]*big.Int, 2*w.F+1)
		for l := range b[k] {
			b[k][l] = detRand(w.N, k, l)
		}
	}
	b[0][0] = w.secret
	return b
}

func (w *world) dealtRow(b [][]*big.Int, j int) []*big.Int { // B(x,j)
	r := make([]*big.Int, w.F+1)
	for k := range r {
		r[k] = evalq(b[k], bi(j))
	}
	return r
}

func (w *world) dealtShare(j int) []*big.Int { return w.dealtRow(w.dealtPoly(), j) }

// deal gives committee e reduced shares and commitments of a random polynomial, as an
// earlier Share and ShareReduce would have.
func (w *world) deal(e int) {
	F := w.F
	b := w.dealtPoly()
	t := w.tau()
	row := func(j int) []*big.Int { return w.dealtRow(b, j) }
	for i, p := range w.com[e] {
		r := row(i + 1)
		for k := range r {
			p.reducedShare[k] = bf(r[k])
		}
		for j := 1; j <= 2*F+1; j++ {
			p.Proof.PiContents[j].CBj = g1(evalq(row(j), t))
		}
	}
}

var mcVerbose = os.Getenv("MC_VERBOSE") != ""
