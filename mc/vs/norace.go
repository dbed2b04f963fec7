//go:build !race

package vs

import "unsafe"

const RaceBuild = false

func raceOff()               {}
func raceOn()                {}
func raceAcq(unsafe.Pointer) {}
func raceRel(unsafe.Pointer) {}
func Acquire(unsafe.Pointer) {}
func Release(unsafe.Pointer) {}
func RaceErrors() int        { return 0 }

//go:norace
func (s *Sched) start(g *G) { go s.trampoline(g) }
