//go:build !race

package ex

func raceMain() {}

func raceDone() {}

func watched(sp Space, plan string, trace bool) Result { return sp.Run(plan, trace) }
