package party

import (
	"google.golang.org/protobuf/proto"
	"verif.local/vs/ex"
)

// C29: the goroutines of a member order their accesses to the memory they share. The binary is
// built with the race detector, which is told about the synchronisation of the code under test
// only (see vs/race.go), so that in every execution explored all accesses that nothing orders are
// reported, whatever order they happened to come in; what else an execution shows is the matter
// of the other checks.

func init() {
	ex.Register("C29", func() *ex.Check {
		for _, m := range payloads { // what the library sets up at first use
			for _, x := range []proto.Message{m} {
				b, _ := proto.Marshal(x)
				proto.Unmarshal(b, proto.Clone(x))
				_ = proto.Size(x)
			}
		}
		p4, c4, r4, m4, v4, h4 := psd(4, 1), chain(4, 1, 1), rbc(4, 1), mvba(4, 1, true), vss(4, 1), refreshChain(4, 1, 2)
		p7, m7, r7 := psd(7, 2), mvba(7, 2, true), rbc(7, 2)
		only := func(c *ex.Check) *ex.Check {
			for i := range c.Spaces {
				run := c.Spaces[i].Run
				c.Spaces[i].Run = func(plan string, trace bool) ex.Result {
					r := run(plan, trace)
					r.Viol, r.Detail = "", nil
					return r
				}
			}
			return c
		}
		return only(&ex.Check{Spaces: []ex.Space{
			space("refresh, types and links", ruleHolds+" (types, senders, receivers), N=4", p4, seq(list("", "lifo"), p4.types(), p4.halves(), p4.instances())),
			space("refresh, silent member", ruleSilent+", N=4", p4, cross(p4.silent(1), list("", "lifo"))),
			space("refresh, stopping member", ruleCrash+", N=4", p4, p4.crashes(1, false)),
			space("refresh, coins", "other coins and other randomness, N=4", p4, cross(ids(8), seeds(2))),
			space("refresh, deviating member", ruleByz+", N=4", p4, byzPlans(1, 4, psdMutations(4, 1), false)),
			space("refresh, holds", ruleHolds+", N=4", p4, seq(p4.holds())),
			space("refresh, preemptions", rulePts+", N=4, every 8th (thorough: 2nd) point, kinds w, s", p4, seq(p4.points("ws", 8), thorough(p4.points("ws", 2)))),
			space("refresh of seven", "types held back or first, N=7", p7, seq(list("", "lifo"), p7.types())),
			space("share and handoff", "types held back or first, from one sender or to one receiver, silent members, N=4", c4, seq(list("", "lifo"), c4.types(), c4.halves(), c4.silent(0), c4.silent(1))),
			space("share and handoff, deviating old member", ruleByz+" (old committee), N=4", c4, byzPlans(0, 4, oldMutations(4, 1), false)),
			space("two handoffs", "types held back or first, N=4", h4, seq(list("", "lifo"), h4.types())),
			space("agreement, holds", ruleHolds+", with four coins, N=4", m4, cross(ids(4), seq(list("", "lifo"), m4.holds()))),
			space("agreement, classes", ruleClass+", with two coins, N=4", m4, cross(ids(2), m4.class1())),
			space("agreement, silent member", ruleSilent+", with eight coins, N=4", m4, cross(ids(8), cross(m4.silent(1), m4.types()))),
			space("agreement, preemptions", rulePts+", N=4, every 2nd point, kind w", m4, m4.points("w", 2)),
			space("agreement, deviating member", "every deviation of every member, N=4", m4, cross(byzPlans(1, 4, mvbaMutations(), false), ids(2))),
			space("agreement of seven", "types held back or first, N=7", m7, seq(list("", "lifo"), m7.types())),
			space("broadcast, holds", ruleHolds+", N=4", r4, seq(list("", "lifo"), r4.holds(), r4.holds2())),
			space("broadcast, slow links", ruleSlow+" (3), N=4", r4, r4.slow(3)),
			space("broadcast, preemptions", rulePts+", N=4, every point, kinds w, s", r4, r4.points("ws", 1)),
			space("broadcast, Byzantine member", "every script of echoes and ready messages of another member, N=4", r4, scripts(4, 1, "-", "-ABx", "-ABx")),
			space("broadcast, Byzantine proposer", "every script of proposals per receiver, N=4", r4, scripts(4, 0, "-AB", "-AB", "A")),
			space("broadcast of seven", "types held back or first, N=7", r7, seq(list("", "lifo"), r7.types(), r7.halves(), r7.silent(0))),
			space("sharing", ruleHolds+"; preemptions, N=4", v4, seq(list("", "lifo"), v4.holds(), v4.class1(), v4.points("w", 1))),
		}})
	})
}
