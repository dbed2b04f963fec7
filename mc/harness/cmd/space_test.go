package main

import (
	"fmt"
	"strings"

	"verif.local/vs/ex"
)

type gen = func(tier string, y func(string) bool)

func cat(pre string, gs ...gen) gen {
	return func(tier string, y func(string) bool) {
		ok := true
		for _, g := range gs {
			if !ok {
				return
			}
			g(tier, func(p string) bool {
				ok = y(strings.TrimSpace(pre + " " + p))
				return ok
			})
		}
	}
}

func thorough(g gen) gen {
	return func(tier string, y func(string) bool) {
		if tier == "thorough" {
			g(tier, y)
		}
	}
}

func list(l ...string) gen {
	return func(tier string, y func(string) bool) {
		for _, p := range l {
			if !y(p) {
				return
			}
		}
	}
}

func cross(a, b gen) gen {
	return func(tier string, y func(string) bool) {
		ok := true
		a(tier, func(p string) bool {
			b(tier, func(q string) bool {
				ok = y(strings.TrimSpace(p + " " + q))
				return ok
			})
			return ok
		})
	}
}

// who lists the processes.
func who(n int, es ...int) (l []string) {
	for _, e := range es {
		for i := 0; i < n; i++ {
			l = append(l, fmt.Sprintf("%d:%d", e, i))
		}
	}
	return
}

func starts(n int, es ...int) gen {
	w := append(who(n, es...), "client")
	return func(tier string, y func(string) bool) {
		groups := []string{"client"}
		for _, e := range es {
			groups = append(groups, fmt.Sprintf("%d:*", e))
		}
		// whole groups late, in every order
		var orders func(left []string, pre string, at int) bool
		orders = func(left []string, pre string, at int) bool {
			if len(left) == 0 {
				return y(strings.TrimSpace(pre))
			}
			for i := range left {
				rest := append(append([]string{}, left[:i]...), left[i+1:]...)
				for _, gap := range []int{0, 7, 60} {
					if !orders(rest, fmt.Sprintf("%s start=%s/%d", pre, left[i], at+gap), at+gap) {
						return false
					}
				}
			}
			return true
		}
		if !orders(groups, "", 0) {
			return
		}
		secs := []int{3, 7, 12, 17, 60}
		for i, a := range w {
			for _, s := range secs {
				if !y(fmt.Sprintf("start=%s/%d", a, s)) {
					return
				}
			}
			for _, b := range w[i+1:] {
				if tier != "thorough" {
					if !y(fmt.Sprintf("start=%s/30 start=%s/60", a, b)) {
						return
					}
					continue
				}
				for _, s := range secs {
					for _, t := range secs {
						if !y(fmt.Sprintf("start=%s/%d start=%s/%d", a, s, b, t)) {
							return
						}
					}
				}
			}
		}
	}
}

// faults lets up to f members of each committee be absent, killed, or stop.
func absent(n, f int, es ...int) gen {
	g := list("")
	for _, e := range es {
		l := []string{""}
		for i := 0; i < n; i++ {
			l = append(l, fmt.Sprintf("absent=%d:%d", e, i))
			for j := i + 1; f > 1 && j < n; j++ {
				l = append(l, fmt.Sprintf("absent=%d:%d absent=%d:%d", e, i, e, j))
			}
		}
		g = cross(g, list(l...))
	}
	return g
}

func killed(n int, es ...int) gen {
	return func(tier string, y func(string) bool) {
		for _, w := range who(n, es...) {
			for _, s := range []int{0, 5, 9, 10, 11, 15, 16, 20, 21} {
				if !y(fmt.Sprintf("kill=%s/%d", w, s)) {
					return
				}
			}
		}
	}
}

func crashes(n, max int, es ...int) gen {
	return func(tier string, y func(string) bool) {
		step := 5
		if tier == "thorough" {
			step = 1
		}
		for _, w := range who(n, es...) {
			for k := 0; k < max; k += step {
				if !y(fmt.Sprintf("crash=%s/%d", w, k)) {
					return
				}
			}
		}
	}
}

func intervals(l ...string) gen {
	if len(l) == 0 {
		l = []string{"0", "10", "20"}
	}
	return func(tier string, y func(string) bool) {
		for _, a := range l {
			for _, b := range l {
				for _, c := range l {
					if !y("t=" + a + "/" + b + "/" + c) {
						return
					}
				}
			}
		}
	}
}

func delays(n int, es ...int) gen {
	var l []string
	for _, s := range []string{"100", "10000"} {
		for _, t := range facts(es) {
			l = append(l, fmt.Sprintf("holdc=%s/*/* until=%s", t, s))
			if s != "100" {
				continue
			}
			for _, e := range es {
				for i := 0; i < n; i++ {
					l = append(l, fmt.Sprintf("holdc=%s/*/%d until=%s", t, pid(e, i), s), fmt.Sprintf("holdc=%s/%d/* until=%s", t, pid(e, i), s))
				}
			}
		}
	}
	for _, e := range es {
		for i := 0; i < n; i++ {
			l = append(l, fmt.Sprintf("slow=*/%d until=100", pid(e, i)), fmt.Sprintf("slow=%d/* until=100", pid(e, i)))
		}
	}
	return list(l...)
}

func space(name, rule string, g gen) ex.Space {
	return ex.Space{Name: name, Rule: rule, Gen: g, Run: run}
}

func init() {
	ex.Register("C28", func() *ex.Check {
		both, only := []int{0, 1}, []int{1}
		sched := list("", "lifo")
		return &ex.Check{ID: "C28", Spaces: []ex.Space{
			space("documented commands, start times", "N=4: the command lines of the documented script; client, old and new committee in every order and 0, 7 or 60 s apart; every process late by 3 to 60 s; every pair of processes late; oldest or youngest message first",
				cross(starts(4, both...), sched)),
			space("documented commands, never started", "N=4: every choice of up to one member of each committee that is never started, the client at its time or a minute late",
				cross(absent(4, 1, both...), list("", "start=client/60", "lifo"))),
			space("documented commands, killed", "N=4: every member killed at times before, between and after the intervals, and before each of its first messages (quick: every fifth)",
				cat("", killed(4, both...), crashes(4, 130, both...))),
			space("documented commands, slow messages", "N=4: every type of message, every type to or from each member, and everything to or from each member arrives only after 100 s (types: also 10000 s)",
				delays(4, both...)),
			space("intervals", "N=4: every combination of intervals of 0, 10 and 20 s, two committees and one",
				cat("", intervals(), cat("one", intervals()))),
			space("lists", "N=4: list files with exactly n lines, more lines, a final newline, and one host for each member, two committees and one",
				cross(list("", "one"), cross(list("lists=exact", "lists=exact+", "lists=more", "lists=hosts", "lists=hosts+", "lists=hosts2"), sched))),
			space("one committee, start times", "N=4: the role onlyOneCommittee; orders and times as above",
				cat("one", cross(starts(4, only...), sched))),
			space("one committee, faults", "N=4: the role onlyOneCommittee; every member never started, killed at times, or before each of its first messages (quick: every fifth)",
				cat("one", absent(4, 1, only...), killed(4, only...), crashes(4, 130, only...))),
			space("one committee, slow messages", "N=4: the role onlyOneCommittee; messages delayed as above",
				cat("one", delays(4, only...))),
			space("larger committees", "N=7, F=2 and N=10, F=3: the documented command lines and one committee, members missing or late",
				cat("", cat("n=7 f=2", list("", "lifo", "one", "absent=0:0 absent=0:6 absent=1:1 absent=1:6", "absent=0:3 absent=0:4 absent=1:0 absent=1:1", "one absent=1:0 absent=1:6", "start=0:*/60", "start=1:*/60", "start=1:5/60 start=1:6/60 start=0:0/60")),
					cat("n=10 f=3", list("", "absent=0:7 absent=0:8 absent=0:9 absent=1:0 absent=1:1 absent=1:2")),
					thorough(cat("n=7 f=2", absent(7, 2, both...))),
					thorough(cat("n=7 f=2", starts(7, both...))),
					thorough(cat("n=7 f=2 one", starts(7, only...))))),
		}}
	})
}
