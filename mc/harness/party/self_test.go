package party

import (
	"fmt"

	"verif.local/vs"
	"verif.local/vs/ex"
)

// selfMain shares a secret in a committee that hands it over to itself k times (the mode of
// one committee of the command line).
func (w *world) selfMain(k int) {
	w.s.Net.SetHost(clientID, "10.99.0.1")
	w.self = true
	w.open(0, true)
	w.connect(0, true)
	w.startShare(0)
	for i := 0; i < w.N; i++ {
		i, id := i, pid(0, i)
		if w.silent[id] {
			continue
		}
		vs.GoAs(id, "member", func() {
			p := w.com[0][i]
			stage := func(s string) {
				w.mark(s, id)
				if w.stages[s] == nil {
					w.stages[s] = map[int]member{}
				}
				w.stages[s][id] = w.member(0, i)
			}
			p.VSSShareReceive([]byte("vss"))
			stage("vss")
			for r := 1; r <= k; r++ {
				name := []byte(fmt.Sprint("r", r))
				p.PrepareSend(name)
				p.PrepareReceive(name)
				p.ShareReduceSend(name)
				p.ShareReduceReceive(name)
				stage(fmt.Sprint("reduce", r))
				p.ProactivizeAndShareDist([]byte(fmt.Sprint(w.id, r)))
				stage(fmt.Sprint("psd", r))
			}
		})
	}
}

func (w *world) selfCheck(k int) string {
	if c := w.honestCrash(); c != "" {
		return c
	}
	at := func(s, parts string) string {
		var ms []member
		for i := 0; i < w.N; i++ {
			if m, ok := w.stages[s][pid(0, i)]; ok && !w.faulty(pid(0, i)) {
				ms = append(ms, m)
			}
		}
		return w.consistent(ms, parts)
	}
	if v := at("vss", "fc"); v != "" {
		return "after sharing: " + v
	}
	seen := map[string]string{}
	for r := 1; r <= k; r++ {
		for d := 0; d < w.N; d++ {
			if q := w.refreshPoly(r, d); q != nil && !w.faulty(pid(0, d)) {
				if v := w.fresh(r, d, q, seen); v != "" {
					return v
				}
			}
		}
		if v := at(fmt.Sprint("reduce", r), "rc"); v != "" {
			return "after a share reduction: " + v
		}
		if v := at(fmt.Sprint("psd", r), "rfc"); v != "" {
			return "after a handoff: " + v
		}
		if u := w.unfinished(fmt.Sprint("psd", r), 0); len(u) > 0 {
			return fmt.Sprintf("handoff %d not completed by %d of the honest members", r, len(u))
		}
		if v := w.refreshed(r); v != "" {
			return v
		}
	}
	return ""
}

// refreshed: the shares of two stages do not combine.
func (w *world) refreshed(r int) string {
	prev := fmt.Sprint("psd", r-1)
	if r == 1 {
		prev = "vss"
	}
	for i := 0; i < w.N; i++ {
		a, ok1 := w.stages[prev][pid(0, i)]
		b, ok2 := w.stages[fmt.Sprint("psd", r)][pid(0, i)]
		if !ok1 || !ok2 || w.faulty(pid(0, i)) {
			continue
		}
		for k := range b.full {
			if eqb(a.full[k], b.full[k]) {
				return "a handoff leaves a coefficient of a share unchanged"
			}
		}
	}
	return ""
}

func self(N, F, k int) *scen {
	return &scen{name: fmt.Sprintf("self%d-%d", N, k), N: N, F: F, make: mkRefresh,
		main: func(w *world) { w.selfMain(k) }, check: func(w *world) string { return w.selfCheck(k) }}
}

func init() {
	ex.Register("C27", func() *ex.Check {
		s1, s2 := self(4, 1, 1), self(4, 1, 2)
		s3 := self(4, 1, 3)
		s7 := self(7, 2, 2)
		mu := append(oldMutations(4, 1), psdMutations(4, 1)...)
		return &ex.Check{Spaces: []ex.Space{
			space("one handoff, holds", ruleHolds+", N=4", s1, seq(list("", "lifo"), s1.holds())),
			space("two handoffs, classes", ruleClass+", N=4", s2, s2.class1()),
			space("two handoffs, slow links", ruleSlow+" (1; thorough: 2), N=4", s2, seq(s2.slow(1), thorough(s2.slow(2)))),
			space("two handoffs, silent member", ruleSilent+", crossed with the classes, N=4", s2, cross(s2.silent(0), seq(list("", "lifo"), s2.halves(), thorough(s2.class1())))),
			space("two handoffs, stopping member", ruleCrash+", in both delivery orders, N=4", s2, cross(s2.crashes(0, false), list("", "lifo"))),
			space("two handoffs, preemptions", rulePts+", N=4, every 16th point, kinds w, s", s2, s2.points("ws", 16)),
			space("two handoffs, one deviation", ruleByz+" in every handoff, N=4", s2, byzPlans(0, 4, mu, false)),
			space("three handoffs", "in both delivery orders, types held back or first, silent members, N=4", s3, seq(list("", "lifo"), s3.types(), s3.silent(0))),
			space("a share withheld, and a preemption", "the last ShareDist of one member kept from another, and "+rulePts+", N=4, every 16th point, kind s", s2, with("byz=0/2:omit.ShareDist@3", s2.points("s", 16))),
			space("certificates of an earlier handoff", "every member proposes itself with what it learnt in the first handoff and takes no part in the refresh of the second, names of the handoffs", s2, cross(byzPlans(0, 4, []string{"omit2.RBCPropose,omit2.Reshare,in.old"}, false), seq(list(""), ids(3), s2.types()))),
			space("two handoffs of seven", "in both delivery orders, F silent members, N=7", s7, seq(list("", "lifo"), s7.silent(0))),
		}}
	})
}
