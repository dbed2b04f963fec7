package party

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"verif.local/vs"
)

// faults reads the other tokens of a plan:
//
//	silent=E/I  crash=E/I/K (stops before its K+1st message)  reset (deaths close links)
//	absent=E/I (never started: nobody can connect to it)  start=E/I/S (started S seconds later)
//	id=NAME (of the handoff)  byz=E/I:MUT,MUT  (see byz_test.go)
func (w *world) faults(toks []string) (rest []string) {
	for _, t := range toks {
		k, v := t, ""
		if i := strings.IndexByte(t, '='); i >= 0 {
			k, v = t[:i], t[i+1:]
		}
		f := []int{}
		for _, x := range strings.Split(v, "/") {
			n, _ := strconv.Atoi(x)
			f = append(f, n)
		}
		switch k {
		case "silent":
			w.silent[pid(f[0], f[1])] = true
		case "absent":
			w.silent[pid(f[0], f[1])], w.away[pid(f[0], f[1])] = true, -1
		case "start":
			w.away[pid(f[0], f[1])] = f[2]
		case "crash":
			w.crash[pid(f[0], f[1])] = f[2]
		case "reset":
			w.s.Net.ResetOnDeath = true
		case "id":
			w.id = v
		case "secret":
			w.secret = secretOf(v)
		case "dealer":
			w.byz[clientID] = w.tamperer(0, -1, strings.Split(v, ","))
		case "byz":
			i := strings.IndexByte(v, ':')
			var e, b int
			fmt.Sscanf(v[:i], "%d/%d", &e, &b)
			w.byz[pid(e, b)] = w.tamperer(e, b, strings.Split(v[i+1:], ","))
		default:
			rest = append(rest, t)
		}
	}
	return
}

// secretOf names the secrets shared: 0, 1, -1 (the largest), or 2^e, 2^e-1.
func secretOf(v string) *big.Int {
	if strings.HasPrefix(v, "2^") {
		m := strings.HasSuffix(v, "-1")
		e, _ := strconv.Atoi(strings.TrimSuffix(v[2:], "-1"))
		r := new(big.Int).Lsh(big.NewInt(1), uint(e))
		if m {
			r.Sub(r, big.NewInt(1))
		}
		return r.Mod(r, qq)
	}
	r, _ := new(big.Int).SetString(v, 10)
	return r.Mod(r, qq)
}

func secrets() genf {
	l := []string{"0", "1", "2", "-1", "-2"}
	for _, e := range []int{8, 16, 31, 32, 63, 64, 65, 127, 128, 192, 248, 254} {
		l = append(l, fmt.Sprintf("2^%d", e), fmt.Sprintf("2^%d-1", e))
	}
	for i := range l {
		l[i] = "secret=" + l[i]
	}
	return list(l...)
}

// seeds gives the parties other randomness.
func seeds(n int) genf {
	return func(tier string, y yieldf) bool {
		k := n
		if tier == "thorough" {
			k *= 8
		}
		for i := 2; i < k+2; i++ {
			if !y(fmt.Sprintf("seed=%d", i)) {
				return false
			}
		}
		return true
	}
}

// draws: rand=PARTY/VALUES, the first random field elements a party draws (a digit d stands for
// d, a letter a, b, ... for -1, -2, ...).
func (w *world) draws(v string) {
	p, vals, _ := strings.Cut(v, "/")
	id, _ := strconv.Atoi(p)
	if w.s.Draws == nil {
		w.s.Draws = map[int][][]byte{}
	}
	for _, c := range vals {
		x := bi(int(c - '0'))
		if c >= 'a' {
			x = new(big.Int).Sub(qq, bi(int(c-'a')+1))
		}
		w.s.Draws[id] = append(w.s.Draws[id], x.FillBytes(make([]byte, 32)))
	}
}

// filled: every choice of letters of an alphabet, in a template with a ? for each letter.
func filled(template, alphabet string) genf {
	return func(tier string, y yieldf) bool {
		var rec func(t string) bool
		rec = func(t string) bool {
			i := strings.IndexByte(t, '?')
			if i < 0 {
				return y(t)
			}
			for _, c := range alphabet {
				if !rec(t[:i] + string(c) + t[i+1:]) {
					return false
				}
			}
			return true
		}
		return rec(template)
	}
}

func mkWorld(N, F int, plan string) *world {
	d, rest := vs.ParseDev(plan)
	seed := uint64(1)
	for _, t := range rest {
		if strings.HasPrefix(t, "seed=") {
			seed, _ = strconv.ParseUint(t[5:], 10, 64)
		}
	}
	w := newWorld(N, F, d, seed)
	w.rest = w.faults(rest)
	for _, t := range rest {
		if v, ok := strings.CutPrefix(t, "rand="); ok {
			w.draws(v)
		}
	}
	return w
}

// psdMain runs the refresh half of a handoff (ProactivizeAndShareDist) in one committee.
func (w *world) psdMain() {
	w.open(1, false)
	w.deal(1)
	w.connect(1, false)
	for i := 0; i < w.N; i++ {
		i := i
		if w.silent[pid(1, i)] {
			continue
		}
		vs.GoAs(pid(1, i), "psd", func() {
			w.arrive(1, i, false)
			w.com[1][i].ProactivizeAndShareDist([]byte(w.id))
			w.ended[pid(1, i)] = w.member(1, i)
			w.mark("psd", pid(1, i))
		})
	}
}

// arrive starts a member that the others did not find when they began.
func (w *world) arrive(e, i int, next bool) {
	t := w.away[pid(e, i)]
	if t == 0 {
		return
	}
	vs.Sleep(int64(t) * 1e9)
	p := w.com[e][i]
	p.InitReceiveChannel()
	p.InitSendChannel()
	if next {
		p.InitSendToNextChannel()
	}
}

func (w *world) finished(stage string, e int) []member {
	var ms []member
	for i := 0; i < w.N; i++ {
		if w.done[stage][pid(e, i)] && !w.faulty(pid(e, i)) {
			ms = append(ms, w.member(e, i))
		}
	}
	return ms
}

// handoffCheck is the verdict on the handoff to committee e: the honest members complete it
// and hold consistent shares of the secret, with the commitments to them.
func (w *world) handoffCheck(e int) string {
	if c := w.honestCrash(); c != "" {
		return c
	}
	var ms []member
	for i := 0; i < w.N; i++ {
		if m, ok := w.ended[pid(e, i)]; ok && !w.faulty(pid(e, i)) {
			ms = append(ms, m)
		}
	}
	if v := w.consistent(ms, "rfc"); v != "" {
		return "when it completes: " + v
	}
	if v := w.consistent(w.finished("psd", e), "rfc"); v != "" {
		return v
	}
	if u := w.unfinished("psd", e); len(u) > 0 {
		return fmt.Sprintf("handoff not completed by %d of the honest new members", len(u))
	}
	return ""
}

// chainMain shares a secret in committee 0 and hands it over to committees 1 to k.
func (w *world) chainMain(k int) {
	w.s.Net.SetHost(clientID, "10.99.0.1")
	for e := 0; e <= k; e++ {
		w.open(e, e < k)
	}
	for e := 0; e <= k; e++ {
		w.connect(e, e < k)
	}
	w.startShare(0)
	for i := 0; i < w.N; i++ {
		i := i
		if w.silent[pid(0, i)] {
			continue
		}
		vs.GoAs(pid(0, i), "old", func() {
			w.arrive(0, i, true)
			p := w.com[0][i]
			p.VSSShareReceive([]byte("vss"))
			w.mark("vss", pid(0, i))
			w.snap[pid(0, i)] = w.member(0, i)
			w.handOver(p)
		})
	}
	for e := 1; e <= k; e++ {
		for i := 0; i < w.N; i++ {
			e, i := e, i
			if w.silent[pid(e, i)] {
				continue
			}
			vs.GoAs(pid(e, i), "new", func() {
				w.arrive(e, i, e < k)
				p := w.com[e][i]
				p.PrepareReceive([]byte("prep"))
				p.ShareReduceReceive([]byte("reduce"))
				w.mark("reduce", pid(e, i))
				w.snap[pid(e, i)] = w.member(e, i)
				p.ProactivizeAndShareDist([]byte(w.id))
				w.ended[pid(e, i)] = w.member(e, i)
				w.mark("psd", pid(e, i))
				if e < k {
					w.handOver(p)
				}
			})
		}
	}
}

func (w *world) handOver(p *HonestParty) {
	p.PrepareSend([]byte("prep"))
	p.ShareReduceSend([]byte("reduce"))
}

func (w *world) startShare(e int) {
	if w.silent[clientID] {
		return
	}
	vs.GoAs(clientID, "client", func() {
		ips, ports := w.ips(e)
		if w.byz[clientID] != nil {
			for j := range ips {
				ips[j], ports[j] = "10.99.0.2", strconv.Itoa(7000+j)
			}
		}
		var c Client
		c.HonestParty = NewHonestParty(uint32(e), uint32(w.N), uint32(w.F), 0x7fffffff, ips, ports, ips, ports, keys(w.N, w.F, e).pk, nil)
		var s bls.Fr = bf(w.secret)
		c.SetSecret(s)
		c.InitSendChannel()
		c.Share([]byte("vss"))
	})
}

// chainCheck is the verdict on a chain of k handoffs.
func (w *world) chainCheck(k int) string {
	for e := 0; e <= k; e++ {
		var ms []member
		for i := 0; i < w.N; i++ {
			if m, ok := w.snap[pid(e, i)]; ok && !w.faulty(pid(e, i)) {
				ms = append(ms, m)
			}
		}
		parts := "rc"
		if e == 0 {
			parts = "fc"
		}
		if v := w.consistent(ms, parts); v != "" {
			if e == 0 {
				return "after sharing: " + v
			}
			return "after the share reduction: " + v
		}
		if _, c := w.crash[clientID]; e == 0 && !c && w.byz[clientID] == nil && !w.silent[clientID] {
			for _, m := range ms {
				if !accepted(m) && w.s.Draws == nil { // a share may be zero for chosen coefficients
					return fmt.Sprintf("member %d holds no share after sharing", m.id)
				}
			}
		}
		if e > 0 {
			if v := w.handoffCheck(e); v != "" {
				return v
			}
		}
	}
	return ""
}

func psd(N, F int) *scen {
	return &scen{name: fmt.Sprintf("psd%d", N), N: N, F: F, make: mkWorld,
		main: (*world).psdMain, check: func(w *world) string { return w.handoffCheck(1) }}
}

func chain(N, F, k int) *scen {
	return &scen{name: fmt.Sprintf("chain%d-%d", N, k), N: N, F: F, make: mkWorld,
		main: func(w *world) { w.chainMain(k) }, check: func(w *world) string { return w.chainCheck(k) }}
}
