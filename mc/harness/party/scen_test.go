package party

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"verif.local/vs"
	"verif.local/vs/ex"
)

// scen is a scenario: who runs what, before a plan deviates from it.
type scen struct {
	name string
	N, F int
	make func(N, F int, plan string) *world
	main func(w *world)
	// verdicts
	check func(w *world) string
}

func (sc *scen) exec(plan string, trace bool) *world {
	w := sc.make(sc.N, sc.F, plan)
	w.run(func() { sc.main(w) }, trace)
	return w
}

func (sc *scen) run(plan string, trace bool) ex.Result {
	w := sc.exec(plan, trace)
	v := sc.check(w)
	if v == "" && w.s.Budget {
		v = "execution does not come to rest"
	}
	r := w.result(v)
	return r
}

// fact is what is known about the default execution of a scenario.
type fact struct {
	sends, points int
	selw          []int
	types         []string // message types, in order of appearance
	labels        []string // with the instance they belong to
	classes       []vs.Class
	parties       []int
	links         [][2]int
	sent          map[int]int
}

var factCache = map[string]*fact{}

func (sc *scen) facts() *fact {
	if f := factCache[sc.name]; f != nil {
		return f
	}
	f := &fact{sent: map[int]int{}}
	seenT, seenL, seenC, seenP, seenK := map[string]bool{}, map[string]bool{}, map[vs.Class]bool{}, map[int]bool{}, map[[2]int]bool{}
	w := sc.make(sc.N, sc.F, "")
	w.s.Net.Delivered = func(u *vs.Unit) {
		l := u.Label()
		t := l
		if i := strings.IndexByte(t, '_'); i > 0 {
			t = t[:i]
		}
		if !seenT[t] {
			seenT[t] = true
			f.types = append(f.types, t)
		}
		if !seenL[l] {
			seenL[l] = true
			f.labels = append(f.labels, l)
		}
		c := vs.Class{Label: t, From: u.Link.From, To: u.Link.To}
		if !seenC[c] {
			seenC[c] = true
			f.classes = append(f.classes, c)
		}
		for _, p := range []int{c.From, c.To} {
			if !seenP[p] {
				seenP[p] = true
				f.parties = append(f.parties, p)
			}
		}
		k := [2]int{c.From, c.To}
		if !seenK[k] {
			seenK[k] = true
			f.links = append(f.links, k)
		}
	}
	w.run(func() { sc.main(w) }, false)
	f.sends, f.points, f.selw = w.s.Net.Total(), w.s.NPoints, w.d.SelWidth
	sort.Ints(f.parties)
	for _, p := range f.parties {
		f.sent[p] = w.s.Net.Sent(p)
	}
	factCache[sc.name] = f
	return f
}

type yieldf = func(string) bool
type genf = func(tier string, y yieldf) bool

// seq runs generators one after the other.
func seq(gs ...genf) genf {
	return func(tier string, y yieldf) bool {
		for _, g := range gs {
			if !g(tier, y) {
				return false
			}
		}
		return true
	}
}

// thorough restricts a generator to the thorough tier.
func thorough(g genf) genf {
	return func(tier string, y yieldf) bool {
		if tier != "thorough" {
			return true
		}
		return g(tier, y)
	}
}

// with adds tokens in front of every plan.
func with(pre string, g genf) genf {
	return func(tier string, y yieldf) bool {
		return g(tier, func(p string) bool { return y(strings.TrimSpace(pre + " " + p)) })
	}
}

// cross combines every plan of a with every plan of b.
func cross(a, b genf) genf {
	return func(tier string, y yieldf) bool {
		return a(tier, func(p string) bool {
			return b(tier, func(q string) bool { return y(strings.TrimSpace(p + " " + q)) })
		})
	}
}

func list(ps ...string) genf {
	return func(tier string, y yieldf) bool {
		for _, p := range ps {
			if !y(p) {
				return false
			}
		}
		return true
	}
}

// one message delivered last.
func (sc *scen) holds() genf {
	return func(tier string, y yieldf) bool {
		for s := 1; s <= sc.facts().sends; s++ {
			if !y("hold=" + strconv.Itoa(s)) {
				return false
			}
		}
		return true
	}
}

func cl(k string, t string, f, to int) string {
	n := func(x int) string {
		if x < 0 {
			return "*"
		}
		return strconv.Itoa(x)
	}
	return k + "=" + t + "/" + n(f) + "/" + n(to)
}

// halfClasses are the classes (type, from, *) and (type, *, to).
func (sc *scen) halfClasses() []vs.Class {
	f := sc.facts()
	seen := map[vs.Class]bool{}
	var r []vs.Class
	for _, c := range f.classes {
		for _, h := range []vs.Class{{Label: c.Label, From: c.From, To: -1}, {Label: c.Label, From: -1, To: c.To}} {
			if !seen[h] {
				seen[h] = true
				r = append(r, h)
			}
		}
	}
	return r
}

// one class of messages held back (or first): by type, sender and receiver.
func (sc *scen) class1() genf {
	return func(tier string, y yieldf) bool {
		f := sc.facts()
		for _, k := range []string{"holdc", "prio"} {
			for _, t := range f.types {
				if !y(cl(k, t, -1, -1)) {
					return false
				}
			}
			for _, c := range sc.halfClasses() {
				if !y(cl(k, c.Label, c.From, c.To)) {
					return false
				}
			}
			for _, c := range f.classes {
				if !y(cl(k, c.Label, c.From, c.To)) {
					return false
				}
			}
		}
		return true
	}
}

// instances of a broadcast held back or preferred, from or to one party.
func (sc *scen) instances() genf {
	return func(tier string, y yieldf) bool {
		f := sc.facts()
		for _, l := range f.labels {
			if !strings.Contains(l, "_") {
				continue
			}
			for _, k := range []string{"holdc", "prio"} {
				if !y(cl(k, l, -1, -1)) {
					return false
				}
				for _, p := range f.parties {
					if !y(cl(k, l, p, -1)) || !y(cl(k, l, -1, p)) {
						return false
					}
				}
			}
		}
		return true
	}
}

// two classes held back.
func (sc *scen) class2() genf {
	return func(tier string, y yieldf) bool {
		h := sc.halfClasses()
		for d := 1; d < len(h); d++ {
			for i := 0; i+d < len(h); i++ {
				j := i + d
				if !y(cl("holdc", h[i].Label, h[i].From, h[i].To) + " " + cl("holdc", h[j].Label, h[j].From, h[j].To)) {
					return false
				}
			}
		}
		return true
	}
}

// slow parties, and sets of up to n slow links.
func (sc *scen) slow(n int) genf {
	return func(tier string, y yieldf) bool {
		f := sc.facts()
		for _, p := range f.parties {
			if !y(fmt.Sprintf("slow=%d/*", p)) || !y(fmt.Sprintf("slow=*/%d", p)) || !y(fmt.Sprintf("slow=%d/* slow=*/%d", p, p)) {
				return false
			}
		}
		var ok = true
		var rec func(i, left int, pre string)
		rec = func(i, left int, pre string) {
			for ; i < len(f.links) && ok; i++ {
				p := pre + fmt.Sprintf(" slow=%d/%d", f.links[i][0], f.links[i][1])
				if !y(strings.TrimSpace(p)) {
					ok = false
					return
				}
				if left > 1 {
					rec(i+1, left-1, p)
				}
			}
		}
		rec(0, n, "")
		return ok
	}
}

// single preemptions at every step'th scheduling point.
func (sc *scen) points(acts string, step int) genf {
	return func(tier string, y yieldf) bool {
		f := sc.facts()
		st := step
		if tier == "thorough" {
			st = 1
		}
		for n := 1; n <= f.points; n += st {
			for _, a := range acts {
				if !y(fmt.Sprintf("pt=%d/%c", n, a)) {
					return false
				}
			}
		}
		return true
	}
}

// pointsOf: single preemptions of one party at every step'th of its scheduling points in the
// execution of a plan (late: of those after the held messages were released).
func (sc *scen) pointsOf(plan string, party int, acts string, step int, late bool) genf {
	return func(tier string, y yieldf) bool {
		st := step
		if tier == "thorough" {
			st = 1
		}
		pts := sc.pointsIn(plan)[0]
		if late {
			pts = sc.pointsIn(plan)[1]
		}
		l := pts[party]
		for i := 0; i < len(l); i += st {
			for _, a := range acts {
				if !y(strings.TrimSpace(fmt.Sprintf("%s pt=%d/%c", plan, l[i], a))) {
					return false
				}
			}
		}
		return true
	}
}

var ptCache = map[string][2]map[int][]int{}

func (sc *scen) pointsIn(plan string) [2]map[int][]int {
	k := sc.name + " " + plan
	if r, ok := ptCache[k]; ok {
		return r
	}
	w := sc.make(sc.N, sc.F, plan)
	w.d.RecPt = true
	w.run(func() { sc.main(w) }, false)
	ptCache[k] = [2]map[int][]int{w.d.PtOf, w.d.PtLate}
	return ptCache[k]
}

// every other choice of every select with several ready cases.
func (sc *scen) selects() genf {
	return func(tier string, y yieldf) bool {
		for i, w := range sc.facts().selw {
			for c := 1; c < w; c++ {
				if !y(fmt.Sprintf("sel=%d/%d", i+1, c)) {
					return false
				}
			}
		}
		return true
	}
}

// a party of committee e never does anything.
func (sc *scen) silent(e int) genf {
	return func(tier string, y yieldf) bool {
		return subsets(sc.N, sc.F, func(s []int) bool {
			var t []string
			for _, i := range s {
				t = append(t, fmt.Sprintf("silent=%d/%d", e, i))
			}
			return y(strings.Join(t, " "))
		})
	}
}

// members of committee e are never started.
func (sc *scen) absent(e int) genf {
	g := sc.silent(e)
	return func(tier string, y yieldf) bool {
		return g(tier, func(p string) bool { return y(strings.ReplaceAll(p, "silent=", "absent=")) })
	}
}

// each set of up to n members of committee e is started later than the others.
func (sc *scen) late(e, n int) genf {
	return func(tier string, y yieldf) bool {
		for k := 1; k <= n; k++ {
			for _, t := range []int{1, 40} {
				if !subsets(sc.N, k, func(s []int) bool {
					var l []string
					for x, i := range s {
						l = append(l, fmt.Sprintf("start=%d/%d/%d", e, i, t+x))
					}
					return y(strings.Join(l, " "))
				}) {
					return false
				}
			}
		}
		return true
	}
}

// subsets yields every subset of size n.
func subsets(N, n int, y func([]int) bool) bool {
	s := make([]int, n)
	var rec func(k, from int) bool
	rec = func(k, from int) bool {
		if k == n {
			return y(append([]int{}, s...))
		}
		for i := from; i < N; i++ {
			s[k] = i
			if !rec(k+1, i+1) {
				return false
			}
		}
		return true
	}
	return rec(0, 0)
}

// a party of committee e stops before each of its messages.
func (sc *scen) crashes(e int, resets bool) genf {
	return func(tier string, y yieldf) bool {
		f := sc.facts()
		for i := 0; i < sc.N; i++ {
			for k := 0; k < f.sent[pid(e, i)]; k++ {
				if !y(fmt.Sprintf("crash=%d/%d/%d", e, i, k)) {
					return false
				}
				if resets && !y(fmt.Sprintf("crash=%d/%d/%d reset", e, i, k)) {
					return false
				}
			}
		}
		return true
	}
}

// ids gives the protocol instance another name, hence other coins.
func ids(n int) genf {
	return func(tier string, y yieldf) bool {
		for i := 1; i <= n; i++ {
			if !y(fmt.Sprintf("id=h%d", i)) {
				return false
			}
		}
		return true
	}
}

// parties of a committee by index.
func members(e, N int, f string) genf {
	return func(tier string, y yieldf) bool {
		for i := 0; i < N; i++ {
			if !y(strings.ReplaceAll(strings.ReplaceAll(f, "$i", strconv.Itoa(i)), "$p", strconv.Itoa(pid(e, i)))) {
				return false
			}
		}
		return true
	}
}

func space(name, rule string, sc *scen, g genf) ex.Space {
	return ex.Space{Name: name, Rule: rule, Run: sc.run,
		Gen: func(tier string, y func(string) bool) { g(tier, y) }}
}

// types held back or first.
func (sc *scen) types() genf {
	return func(tier string, y yieldf) bool {
		for _, t := range sc.facts().types {
			if !y(cl("holdc", t, -1, -1)) || !y(cl("prio", t, -1, -1)) {
				return false
			}
		}
		return true
	}
}

// halves: type from one sender, or to one receiver, held back.
func (sc *scen) halves() genf {
	return func(tier string, y yieldf) bool {
		for _, c := range sc.halfClasses() {
			if !y(cl("holdc", c.Label, c.From, c.To)) {
				return false
			}
		}
		return true
	}
}
