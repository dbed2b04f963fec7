package party

import (
	"fmt"

	"verif.local/vs/ex"
)

const (
	ruleHolds  = "every single message of the default execution delivered last"
	ruleClass  = "every class of messages (type, type from one sender, type to one receiver, type between two parties) held back until nothing else can happen, and delivered first"
	ruleInst   = "every broadcast instance held back or preferred, wholly, from one party, to one party"
	ruleClass2 = "every pair of classes (type from one sender or to one receiver) held back together"
	ruleSlow   = "every slow party (outgoing, incoming, both) and every set of up to the stated number of slow links"
	rulePts    = "one preemption at every stated step of the scheduling points (synchronisation, channel operations, accesses to shared variables) of the default execution, of the stated kinds (y yield, w until quiescent, s until nothing else can happen)"
	ruleSel    = "every other choice at every select of the default execution with several ready cases"
	ruleCrash  = "every member stopped before each of its messages, its links staying silent or being reset"
	ruleSilent = "every set of F members that never do anything"
	ruleByz    = "every member deviating in each stated way towards all receivers and towards each single one"
)

func init() {
	ex.Register("C01", func() *ex.Check {
		c := chain(4, 1, 1)
		c2 := chain(4, 1, 2)
		c7 := chain(7, 2, 1)
		any1 := seq(c.silent(0), c.silent(1), cross(c.silent(0), c.silent(1)))
		return &ex.Check{Spaces: []ex.Space{
			space("share and handoff, secrets", "edge-value secrets, in both delivery orders, N=4", c, cross(secrets(), list("", "lifo"))),
			space("share and handoff, small coefficients", "every choice of the dealer's random coefficients among 0, 1 and -1, crossed with small secrets, N=4", c, cross(list("secret=0", "secret=1", "secret=-2"), filled(fmt.Sprint("rand=", clientID, "/0??0?0?0?"), "01a"))),
			space("share and handoff, holds", ruleHolds+", N=4", c, c.holds()),
			space("share and handoff, classes", ruleClass+", N=4", c, c.class1()),
			space("share and handoff, silent members", "every silent member of either or both committees, crossed with the classes of type, sender, receiver held back, N=4", c, cross(any1, seq(list("", "lifo"), c.halves()))),
			space("share and handoff, preemptions", rulePts+", N=4, every 16th point, kinds w", c, c.points("w", 16)),
			space("share and two handoffs", "silent member in each committee, N=4", c2, cross(seq(list(""), c2.silent(0), c2.silent(1), c2.silent(2)), list("", "lifo"))),
			space("share and handoff of seven", "F silent members of either committee, N=7", c7, cross(seq(list(""), thorough(c7.silent(0)), c7.silent(1)), list("", "lifo"))),
			space("randomness", "other randomness of the dealer and the members, N=4", c, seeds(32)),
		}}
	})
	ex.Register("C02", func() *ex.Check {
		p4, p7, p10, p13 := psd(4, 1), psd(7, 2), psd(10, 3), psd(13, 4)
		return &ex.Check{Spaces: []ex.Space{
			space("refresh, holds", ruleHolds+", N=4", p4, seq(list("", "lifo"), p4.holds())),
			space("refresh, classes", ruleClass+", N=4", p4, seq(p4.class1(), p4.instances())),
			space("refresh, pairs of classes", ruleClass2+", N=4", p4, p4.class2()),
			space("refresh, preemptions", rulePts+", N=4, every 8th point, kinds w, s", p4, p4.points("ws", 8)),
			space("refresh, preemptions of one member", "one preemption of a member at every scheduling point of its own, kinds w, s, N=4", p4, seq(p4.pointsOf("", pid(1, 0), "ws", 1, false), thorough(p4.pointsOf("lifo", pid(1, 3), "ws", 1, false)))),
			space("refresh, selects", ruleSel+", N=4", p4, seq(p4.selects(), with("lifo", p4.selects()))),
			space("refresh, coins", "other names of the instance, hence other coins, and other randomness, N=4", p4, cross(ids(8), seq(list("", "lifo"), seeds(8)))),
			space("refresh, small coefficients", "every choice of the first five random coefficients of one member, and of every member alike, among 0, 1 and -1, N=4", p4, seq(filled("rand=100/?????", "01a"), func(tier string, y yieldf) bool {
				return filled("?????", "01a")(tier, func(v string) bool {
					return y(fmt.Sprintf("rand=100/%s rand=101/%s rand=102/%s rand=103/%s", v, v, v, v))
				})
			})),
			space("refresh of seven", "classes of type, N=7", p7, seq(list("", "lifo"), p7.types(), thorough(p7.class1()), thorough(p7.holds()))),
			space("refresh of ten", "both delivery orders, N=10", p10, seq(list("", "lifo"), thorough(p10.types()), thorough(p10.silent(1)))),
			space("refresh of thirteen", "N=13", p13, thorough(list("", "lifo"))),
		}}
	})
	ex.Register("C03", func() *ex.Check {
		p4, p7 := psd(4, 1), psd(7, 2)
		c := chain(4, 1, 1)
		return &ex.Check{Spaces: []ex.Space{
			space("refresh, slow links", ruleSlow+" (3), N=4", p4, p4.slow(3)),
			space("refresh, silent member", ruleSilent+", crossed with the classes, N=4", p4, cross(p4.silent(1), seq(list("", "lifo"), p4.class1(), p4.instances()))),
			space("refresh, stopping member", ruleCrash+", in both delivery orders, N=4", p4, cross(p4.crashes(1, true), list("", "lifo"))),
			space("refresh, stopping member and classes", ruleCrash+", crossed with the types held back, N=4", p4, thorough(cross(p4.crashes(1, true), p4.types()))),
			space("refresh of seven, silent members", ruleSilent+", N=7", p7, cross(p7.silent(1), seq(list("", "lifo"), thorough(p7.types())))),
			space("handoff, stopping old member", ruleCrash+" (old committee), in both delivery orders, N=4", c, cross(c.crashes(0, true), list("", "lifo"))),
			space("handoff, slow links", "slow parties and every single slow link, N=4", c, c.slow(1)),
			space("refresh, member not started", "every set of F members that are never started, crossed with the types, N=4", p4, cross(p4.absent(1), seq(list("", "lifo"), p4.types()))),
			space("refresh, members started late", "every set of up to N members started later than the others, one after the other, N=4", p4, cross(p4.late(1, 4), list("", "lifo"))),
			space("handoff, members not started", "every F members of either or both committees never started, N=4", c, cross(seq(c.absent(0), c.absent(1), cross(c.absent(0), c.absent(1))), list("", "lifo"))),
			space("handoff, members started late", "every set of up to two members of either committee started later than the others, and of all, N=4", c, cross(seq(c.late(0, 2), c.late(1, 2), cross(c.late(0, 1), c.late(1, 1)), cross(c.absent(0), c.late(1, 1)), cross(c.late(0, 1), c.absent(1))), list("", "lifo"))),
			space("refresh, coins and silent member", "other names of the instance, hence other coins, N=4", p4, cross(ids(16), cross(p4.silent(1), list("", "lifo")))),
		}}
	})
	ex.Register("C04", func() *ex.Check {
		p4, p7 := psd(4, 1), psd(7, 2)
		mu := psdMutations(4, 1)
		return &ex.Check{Spaces: []ex.Space{
			space("refresh, one deviation", ruleByz+", in both delivery orders, N=4", p4, cross(byzPlans(1, 4, mu, true), list("", "lifo"))),
			space("refresh, two deviations", "every pair of deviations of one member, N=4", p4, seq(byzPairs(1, 0, mu), thorough(byzPairs(1, 1, mu)), thorough(byzPairs(1, 2, mu)), byzPairs(1, 3, mu))),
			space("refresh, deviation and order", "every deviation of one member, each type of message held back or first, N=4", p4, cross(byzPlans(1, 1, mu, false), p4.types())),
			space("refresh, first or last", "every deviation of a member whose messages come first, or last, N=4", p4, byzFirst(1, 4, mu)),
			space("refresh, deviation first and a member's messages held", "every deviation of a member whose messages come first, each type to one other member last, N=4", p4, seq(byzHeld(p4, 1, 1, mu), thorough(byzHeld(p4, 1, 0, mu)), thorough(byzHeld(p4, 1, 3, mu)))),
			space("refresh, uncalled-for shares", "a member whose dealing is invalid or missing sends shares for every dealing, its messages first, or last, in both delivery orders, N=4", p4, cross(byzFirst(1, 4, uncalled(mu)), list("", "lifo"))),
			space("refresh, late copy", "a member started later than the others copies a signature share, the Recover messages of another member last, N=4", p4, lateCopy(4, 1)),
			space("refresh of seven, late copy", "the same of two members, the Recover messages of two others last, N=7", p7, lateCopy(7, 2)),
			space("refresh of seven, two deviating members", "the same deviation of two members, N=7", p7, byzTwo(1, psdMutations(7, 2), [][2]int{{0, 1}, {2, 6}})),
			space("refresh of seven, two deviating first and a member's messages held", "the same core deviation of two members whose messages come first, each type to one other member last, N=7", p7, seq(byzTwoHeld(p7, 1, coreMuts(psdMutations(7, 2)), [2]int{0, 1}, 3), thorough(byzTwoHeld(p7, 1, psdMutations(7, 2), [2]int{2, 5}, 0)))),
		}}
	})
	ex.Register("C05", func() *ex.Check {
		c, c7 := chain(4, 1, 1), chain(7, 2, 1)
		mu := oldMutations(4, 1)
		mu7 := oldMutations(7, 2)
		return &ex.Check{Spaces: []ex.Space{
			space("handoff, one deviation", ruleByz+" (old committee), in both delivery orders, N=4", c, cross(byzPlans(0, 4, mu, true), list("", "lifo"))),
			space("handoff, two deviations", "every pair of deviations of one old member, N=4", c, seq(byzPairs(0, 0, mu), byzPairs(0, 3, mu))),
			space("handoff, first or last", "every deviation of an old member whose messages come first, or last, N=4", c, byzFirst(0, 4, mu)),
			space("handoff of seven, two deviating members", "the same deviation of two old members, whose messages come first, N=7", c7, byzTwoFirst(0, mu7, [][2]int{{0, 1}})),
		}}
	})
	ex.Register("C13", func() *ex.Check {
		c := chain(4, 1, 3)
		c2 := chain(4, 1, 2)
		return &ex.Check{Spaces: []ex.Space{
			space("three handoffs", "in both delivery orders, each type held back or first, N=4", c, seq(list("", "lifo"), c.types(), with("lifo", c.types()))),
			space("three handoffs, silent members", "a silent member in each committee, N=4", c, seq(c.silent(1), c.silent(2), cross(c.silent(1), c.silent(2)), cross(c.silent(2), c.silent(3)))),
			space("two handoffs, holds", ruleHolds+", N=4", c2, c2.holds()),
			space("two handoffs, classes", "type from one sender or to one receiver held back, N=4", c2, seq(c2.halves(), thorough(c2.class1()))),
			space("two handoffs, stopping member", ruleCrash+" (the middle committee), N=4", c2, cross(c2.crashes(1, false), list(""))),
		}}
	})
}
