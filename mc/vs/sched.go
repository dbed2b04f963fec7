// Package vs is the controlled scheduler under which the checks execute DyCAPS.
//
// The source of the packages under test is rewritten at check time (see ../rewrite) so
// that every goroutine start, channel operation, select, mutex, wait group, context,
// timer and network operation goes through this package.  Exactly one goroutine of the
// code under test runs at any time, every switch is decided here, and the decisions are a
// deterministic function of the Policy: an execution can be replayed from its plan.
package vs

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"unsafe"
)

type gstate uint8

const (
	gRunnable gstate = iota
	gRunning
	gParked
	gHeld
	gDead
)

// G is a controlled goroutine.
type G struct {
	ID      int
	Party   int
	Name    string
	Main    bool
	Done    bool // fn returned normally
	wake    chan struct{}
	dead    chan struct{}
	fn      func()
	started bool
	state   gstate
	killed  bool
	epoch   uint64
	ticks   int
	tok     uint64
	waitOn  string
	native  bool
}

// Action is what a policy does at a scheduling point of a goroutine.
type Action uint8

const (
	Continue   Action = iota
	Yield             // to the back of the run queue
	HoldWeak          // until everything else has quiesced (before the next delivery)
	HoldStrong        // until nothing else can happen at all
)

// Policy decides everything that is nondeterministic in an execution.
type Policy interface {
	Point(g *G, n int) Action
	Choose(g *G, n int) int    // select with n ready cases
	Deliver(cands []*Link) int // index into cands, -1 to hold them all
	Stuck() bool               // nothing can happen: release something held, or false
}

// Base is the default policy: no preemption, oldest message first.
type Base struct{}

//go:norace
func (Base) Point(*G, int) Action { return Continue }

//go:norace
func (Base) Choose(*G, int) int { return 0 }

//go:norace
func (Base) Deliver(c []*Link) int { return 0 }

//go:norace
func (Base) Stuck() bool { return false }

type waiter struct {
	g   *G
	tok uint64
}

type sendItem struct {
	g    *G
	v    any
	done bool
}

type chanState struct {
	keep    any
	recvq   []waiter
	sendq   []waiter
	senders []*sendItem // unbuffered rendezvous
	offers  []offer
	closed  bool
}

type timer struct {
	when int64
	seq  int
	fire func()
	dead bool
}

// Crash records why a party stopped.
type Crash struct {
	Party  int
	Reason string
}

// Sched is one execution.
type Sched struct {
	pol       Policy
	gs        []*G
	cur       *G
	runq      []*G
	spinq     []*G
	spinTurns int // turns given to busy goroutines since the last event
	heldWeak  []*G
	heldStr   []*G
	chans     *chanTab
	Net       *Network
	timers    []*timer
	timerSeq  int
	Now       int64
	MaxIdle   int // timers that fire without any delivery or new connection before time stops
	idle      int
	fin       chan struct{}
	finished  bool
	aborting  bool
	wg        sync.WaitGroup

	NPoints    int
	Deliveries int
	Switches   int
	MaxPoints  int
	Budget     bool
	deadParty  map[int]bool
	Crashes    []Crash
	rng        map[int]*prng
	Draws      map[int][][]byte // the first random values of a party, before those of its stream
	Seed       uint64
	Trace      []string
	KeepTrace  bool
	stateHash  uint64
	OnState    func(h uint64)
	deferred   []func() // run at the next quiescent point
	Logs       []string
}

// S is the execution in progress, nil outside of one.
var S *Sched

// Verbose makes logging of the code under test visible.
var Verbose = os.Getenv("VS_VERBOSE") != ""

// NewSched prepares an execution.
//
//go:norace
func NewSched(pol Policy, seed uint64) *Sched {
	s := &Sched{pol: pol, chans: new(chanTab), fin: make(chan struct{}, 1),
		deadParty: map[int]bool{}, rng: map[int]*prng{}, Seed: seed, MaxPoints: 400_000, MaxIdle: 2000}
	s.Net = newNetwork(s)
	return s
}

// Spawn adds a goroutine of a party before or during an execution.
//
//go:norace
func (s *Sched) Spawn(party int, name string, fn func()) *G {
	g := &G{ID: len(s.gs), Party: party, Name: name, fn: fn, wake: make(chan struct{}, 1)}
	raceRel(unsafe.Pointer(g))
	s.gs = append(s.gs, g)
	s.runq = append(s.runq, g)
	return g
}

// Run executes until nothing can happen any more, then unwinds every goroutine.
//
//go:norace
func (s *Sched) Run() {
	if S != nil {
		panic("vs: nested execution")
	}
	S = s
	raceOff()
	if g := s.pick(); g != nil {
		s.resume(g)
		<-s.fin
	}
	raceOn()
	raceAcq(unsafe.Pointer(s))
	s.aborting = true
	for _, g := range s.gs {
		if g.started && g.state != gDead {
			if RaceBuild {
				g.dead = make(chan struct{})
			}
			g.wake <- struct{}{}
			if RaceBuild { // one after the other
				<-g.dead
			}
		}
	}
	s.wg.Wait()
	S = nil
}

//go:norace
func (s *Sched) resume(g *G) {
	g.state = gRunning
	s.cur = g
	s.Switches++
	raceOff()
	defer raceOn()
	if !g.started {
		g.started = true
		s.wg.Add(1)
		s.start(g)
		return
	}
	g.wake <- struct{}{}
}

//go:norace
func (s *Sched) trampoline(g *G) {
	normal := false
	defer func() {
		defer s.wg.Done()
		raceRel(unsafe.Pointer(s))
		if s.aborting {
			if g.dead != nil {
				defer close(g.dead)
			}
			if !normal {
				recover()
			}
			return
		}
		if r := recover(); r != nil {
			st := ""
			for _, l := range strings.Split(string(debug.Stack()), "\n") {
				if strings.Contains(l, "/internal/") || strings.Contains(l, "/pkg/") {
					st = strings.TrimSpace(l)
					if !strings.Contains(st, "verif.local") {
						break
					}
				}
			}
			s.crash(g.Party, fmt.Sprintf("panic: %v [%s]", r, st))
		}
		if normal {
			g.Done = true
		}
		g.state = gDead
		if n := s.pick(); n != nil {
			s.resume(n)
		} else {
			s.finish()
		}
	}()
	raceAcq(unsafe.Pointer(g))
	g.fn()
	normal = true
}

//go:norace
func (s *Sched) finish() {
	s.finished = true
	raceOff()
	s.fin <- struct{}{}
	raceOn()
}

// yieldTo gives the processor away; the caller has already put g where it belongs.
//
//go:norace
func (s *Sched) yieldTo(g *G) {
	n := s.pick()
	if n == g {
		g.state = gRunning
		s.cur = g
		return
	}
	raceRel(unsafe.Pointer(s))
	if n == nil {
		s.finish()
	} else {
		s.resume(n)
	}
	raceOff()
	<-g.wake
	raceOn()
	if s.aborting {
		raceAcq(unsafe.Pointer(s))
	}
	if s.aborting || g.killed {
		runtime.Goexit()
	}
}

//go:norace
func (s *Sched) live(g *G) bool { return g.state != gDead && !g.killed }

//go:norace
func (s *Sched) pick() *G {
	raceOff()
	defer raceOn()
	for {
		if s.NPoints > s.MaxPoints {
			s.Budget = true
			return nil
		}
		for len(s.runq) > 0 {
			g := s.runq[0]
			s.runq[0] = nil
			s.runq = s.runq[1:]
			if s.live(g) {
				return g
			}
		}
		if len(s.deferred) > 0 {
			d := s.deferred
			s.deferred = nil
			for _, f := range d {
				f()
			}
			continue
		}
		if len(s.heldWeak) > 0 {
			s.runq = append(s.runq, s.heldWeak...)
			s.heldWeak = nil
			continue
		}
		if len(s.spinq) > 0 && s.spinTurns < 2 {
			s.spinTurns++
			s.runq = append(s.runq, s.spinq...)
			s.spinq = nil
			continue
		}
		if c := s.Net.candidates(); len(c) > 0 {
			if i := s.pol.Deliver(c); i >= 0 {
				s.Net.deliver(c[i], -1)
				continue
			}
		}
		if s.fireTimer() {
			s.spinTurns = 0
			continue
		}
		if len(s.spinq) > 0 && s.spinTurns < 300 { // busy computing, or polling in vain
			s.spinTurns++
			s.runq = append(s.runq, s.spinq...)
			s.spinq = nil
			continue
		}
		if len(s.heldStr) > 0 {
			s.runq = append(s.runq, s.heldStr...)
			s.heldStr = nil
			s.idle = 0
			continue
		}
		if s.pol.Stuck() {
			s.idle = 0
			continue
		}
		return nil
	}
}

//go:norace
func (s *Sched) fireTimer() bool {
	for {
		best := -1
		for i, t := range s.timers {
			if !t.dead && (best < 0 || t.when < s.timers[best].when || (t.when == s.timers[best].when && t.seq < s.timers[best].seq)) {
				best = i
			}
		}
		if best < 0 {
			s.timers = s.timers[:0]
			return false
		}
		t := s.timers[best]
		if s.idle++; s.idle > s.MaxIdle {
			return false // for long nothing happens but waiting, as when polling for what never comes
		}
		s.timers = append(s.timers[:best], s.timers[best+1:]...)
		if t.when > s.Now {
			s.Now = t.when
		}
		s.NPoints++
		t.fire()
		return true
	}
}

// AddTimer registers fire to run when virtual time has advanced by d.
//
//go:norace
func (s *Sched) AddTimer(d int64, fire func()) *timer {
	if d < 0 {
		d = 0
	}
	t := &timer{when: s.Now + d, seq: s.timerSeq, fire: fire}
	s.timerSeq++
	s.timers = append(s.timers, t)
	raceRel(unsafe.Pointer(t))
	return t
}

// Cancel stops a timer; it reports whether it was pending.
//
//go:norace
func (t *timer) Cancel() bool { r := !t.dead; t.dead = true; return r }

//go:norace
func (s *Sched) ready(g *G) {
	if g.state == gParked {
		g.state = gRunnable
		g.tok++
		s.runq = append(s.runq, g)
	}
}

//go:norace
func (s *Sched) wakeAll(q *[]waiter) {
	for _, w := range *q {
		if w.g.state == gParked && w.g.tok == w.tok {
			s.ready(w.g)
		}
	}
	*q = (*q)[:0]
}

//go:norace
func (s *Sched) park(why string) {
	g := s.cur
	g.state = gParked
	g.waitOn = why
	g.ticks = 0
	g.epoch++
	s.yieldTo(g)
	g.waitOn = ""
}

// out reports that the caller must not touch scheduler state: no execution, or unwinding.
//
//go:norace
func out() bool { return S == nil || S.aborting || S.cur.killed }

// Out is out for the shim packages.
//
//go:norace
func Out() bool { return out() }

// Point is a scheduling point.
//
//go:norace
func Point() {
	if out() {
		return
	}
	s := S
	s.NPoints++
	if s.NPoints > s.MaxPoints {
		s.Budget = true
		g := s.cur
		s.runq = nil
		s.heldWeak, s.heldStr, s.spinq = nil, nil, nil
		g.state = gHeld
		raceRel(unsafe.Pointer(s))
		s.finish()
		raceOff()
		<-g.wake
		raceOn()
		raceAcq(unsafe.Pointer(s))
		runtime.Goexit()
	}
	g := s.cur
	switch s.pol.Point(g, s.NPoints) {
	case Continue:
		return
	case Yield:
		g.state = gRunnable
		s.runq = append(s.runq, g)
	case HoldWeak:
		g.state = gHeld
		s.heldWeak = append(s.heldWeak, g)
	case HoldStrong:
		g.state = gHeld
		s.heldStr = append(s.heldStr, g)
	}
	g.epoch++
	s.yieldTo(g)
}

// Tick is called once per iteration of every loop of the code under test; a loop that
// polls shared memory without blocking is taken off the processor after a while.
//
//go:norace
func Tick() {
	if out() {
		return
	}
	g := S.cur
	g.ticks++
	if g.ticks > 20000 {
		g.ticks = 0
		S.NPoints++
		g.state = gRunnable
		S.spinq = append(S.spinq, g)
		S.yieldTo(g)
	}
}

// Go starts a goroutine of the current party.
//
//go:norace
func Go(fn func()) {
	if S == nil {
		go fn()
		return
	}
	if out() {
		return
	}
	S.Spawn(S.cur.Party, "", fn)
	Point()
}

// GoAs starts a goroutine attributed to a party (harness use).
//
//go:norace
func GoAs(party int, name string, fn func()) *G { return S.Spawn(party, name, fn) }

// As runs fn with the current goroutine attributed to a party (harness use).
//
//go:norace
func As(party int, fn func()) {
	g := S.cur
	old := g.Party
	g.Party = party
	defer func() { g.Party = old }()
	fn()
}

// Cur is the running goroutine.
//
//go:norace
func Cur() *G { return S.cur }

// crash stops a party: none of its goroutines runs again.
//
//go:norace
func (s *Sched) crash(party int, reason string) {
	if !s.deadParty[party] {
		s.deadParty[party] = true
		s.Crashes = append(s.Crashes, Crash{party, reason})
		if s.KeepTrace {
			s.Trace = append(s.Trace, fmt.Sprintf("party %d stops: %s", party, reason))
		}
	}
	for _, g := range s.gs {
		if g.Party == party {
			g.killed = true
		}
	}
	s.Net.partyDied(party)
}

// CrashParty stops a party (fault injection or log.Fatal); it does not return when the
// caller belongs to it.
//
//go:norace
func CrashParty(party int, reason string) {
	if out() {
		if S == nil {
			panic("vs: " + reason)
		}
		return
	}
	S.crash(party, reason)
	if S.cur.killed {
		runtime.Goexit()
	}
}

// Fatal is log.Fatal / os.Exit of the code under test.
//
//go:norace
func Fatal(reason string) { // the process of the current party ends
	if S == nil {
		panic("fatal: " + reason)
	}
	if out() {
		runtime.Goexit()
	}
	CrashParty(S.cur.Party, "fatal: "+reason)
}

// StateHash identifies the history of deliveries so far.
//
//go:norace
func (s *Sched) StateHash() uint64 { return s.stateHash }

// Dead reports whether a party has stopped.
//
//go:norace
func (s *Sched) Dead(party int) bool { return s.deadParty[party] }

// Blocked lists what the goroutines of a party wait for (diagnostics).
//
//go:norace
func (s *Sched) Blocked(party int) []string {
	m := map[string]int{}
	for _, g := range s.gs {
		if g.Party == party && g.state == gParked {
			m[g.Name+":"+g.waitOn]++
		}
	}
	var r []string
	for k, n := range m {
		r = append(r, fmt.Sprintf("%s x%d", k, n))
	}
	sort.Strings(r)
	return r
}

// Goroutines is the number of goroutines created.
//
//go:norace
func (s *Sched) Goroutines() int { return len(s.gs) }

// AtQuiescence runs f at the next quiescent point (scheduler context: must not block).
//
//go:norace
func (s *Sched) AtQuiescence(f func()) { s.deferred = append(s.deferred, f) }
