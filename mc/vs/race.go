//go:build race

package vs

import (
	"runtime"
	"unsafe"
)

// Built with the race detector, an execution is also watched for accesses to memory that
// nothing orders. The handovers of the scheduler order nothing: the detector does not see them,
// only the synchronisation of the code under test, which the functions below tell it about.

const RaceBuild = true

func raceOff()                 { runtime.RaceDisable() }
func raceOn()                  { runtime.RaceEnable() }
func raceAcq(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func raceRel(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// Acquire and Release are for the shim packages.
func Acquire(p unsafe.Pointer) {
	if !out() {
		runtime.RaceAcquire(p)
	}
}
func Release(p unsafe.Pointer) {
	if !out() {
		runtime.RaceReleaseMerge(p)
	}
}

// RaceErrors is the number of unordered accesses reported so far.
func RaceErrors() int { return runtime.RaceErrors() }

// A goroutine is started by the function of its party, by whose name a report of the detector
// can be attributed: what the parties share in this process they do not share in reality.
//
//go:norace
func (s *Sched) start(g *G) {
	k := len(starters) - 1
	if g.Party >= 0 && g.Party < 400 && g.Party%100 < 10 {
		k = g.Party/100*10 + g.Party%100
	}
	starters[k](s, g)
}

//go:noinline
//go:norace
func startOf0(s *Sched, g *G) { go s.trampoline(g) }

//go:noinline
//go:norace
func startOf1(s *Sched, g *G) { go s.trampoline(g) }

//go:noinline
//go:norace
func startOf2(s *Sched, g *G) { go s.trampoline(g) }

//go:noinline
//go:norace
func startOf3(s *Sched, g *G) { go s.trampoline(g) }

//go:noinline
//go:norace
func startOf4(s *Sched, g *G) { go s.trampoline(g) }

//go:noinline
//go:norace
func startOf5(s *Sched, g *G) { go s.trampoline(g) }

//go:noinline
//go:norace
func startOf6(s *Sched, g *G) { go s.trampoline(g) }

//go:noinline
//go:norace
func startOf7(s *Sched, g *G) { go s.trampoline(g) }

//go:noinline
//go:norace
func startOf8(s *Sched, g *G) { go s.trampoline(g) }

//go:noinline
//go:norace
func startOf9(s *Sched, g *G) { go s.trampoline(g) }

//go:noinline
//go:norace
func startOf10(s *Sched, g *G) { go s.trampoline(g) }

//go:noinline
//go:norace
func startOf11(s *Sched, g *G) { go s.trampoline(g) }

//go:noinline
//go:norace
func startOf12(s *Sched, g *G) { go s.trampoline(g) }

//go:noinline
//go:norace
func startOf13(s *Sched, g *G) { go s.trampoline(g) }

//go:noinline
//go:norace
func startOf14(s *Sched, g *G) { go s.trampoline(g) }

//go:noinline
//go:norace
func startOf15(s *Sched, g *G) { go s.trampoline(g) }

//go:noinline
//go:norace
func startOf16(s *Sched, g *G) { go s.trampoline(g) }

//go:noinline
//go:norace
func startOf17(s *Sched, g *G) { go s.trampoline(g) }

//go:noinline
//go:norace
func startOf18(s *Sched, g *G) { go s.trampoline(g) }

//go:noinline
//go:norace
func startOf19(s *Sched, g *G) { go s.trampoline(g) }

//go:noinline
//go:norace
func startOf20(s *Sched, g *G) { go s.trampoline(g) }

//go:noinline
//go:norace
func startOf21(s *Sched, g *G) { go s.trampoline(g) }

//go:noinline
//go:norace
func startOf22(s *Sched, g *G) { go s.trampoline(g) }

//go:noinline
//go:norace
func startOf23(s *Sched, g *G) { go s.trampoline(g) }

//go:noinline
//go:norace
func startOf24(s *Sched, g *G) { go s.trampoline(g) }

//go:noinline
//go:norace
func startOf25(s *Sched, g *G) { go s.trampoline(g) }

//go:noinline
//go:norace
func startOf26(s *Sched, g *G) { go s.trampoline(g) }

//go:noinline
//go:norace
func startOf27(s *Sched, g *G) { go s.trampoline(g) }

//go:noinline
//go:norace
func startOf28(s *Sched, g *G) { go s.trampoline(g) }

//go:noinline
//go:norace
func startOf29(s *Sched, g *G) { go s.trampoline(g) }

//go:noinline
//go:norace
func startOf30(s *Sched, g *G) { go s.trampoline(g) }

//go:noinline
//go:norace
func startOf31(s *Sched, g *G) { go s.trampoline(g) }

//go:noinline
//go:norace
func startOf32(s *Sched, g *G) { go s.trampoline(g) }

//go:noinline
//go:norace
func startOf33(s *Sched, g *G) { go s.trampoline(g) }

//go:noinline
//go:norace
func startOf34(s *Sched, g *G) { go s.trampoline(g) }

//go:noinline
//go:norace
func startOf35(s *Sched, g *G) { go s.trampoline(g) }

//go:noinline
//go:norace
func startOf36(s *Sched, g *G) { go s.trampoline(g) }

//go:noinline
//go:norace
func startOf37(s *Sched, g *G) { go s.trampoline(g) }

//go:noinline
//go:norace
func startOf38(s *Sched, g *G) { go s.trampoline(g) }

//go:noinline
//go:norace
func startOf39(s *Sched, g *G) { go s.trampoline(g) }

//go:noinline
//go:norace
func startOf40(s *Sched, g *G) { go s.trampoline(g) }

var starters []func(*Sched, *G)

func init() {
	starters = []func(*Sched, *G){startOf0, startOf1, startOf2, startOf3, startOf4, startOf5, startOf6, startOf7, startOf8, startOf9, startOf10, startOf11, startOf12, startOf13, startOf14, startOf15, startOf16, startOf17, startOf18, startOf19, startOf20, startOf21, startOf22, startOf23, startOf24, startOf25, startOf26, startOf27, startOf28, startOf29, startOf30, startOf31, startOf32, startOf33, startOf34, startOf35, startOf36, startOf37, startOf38, startOf39, startOf40}
}
