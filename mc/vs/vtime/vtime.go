// Package vtime stands in for package time in code under the controlled scheduler: time is
// virtual and passes only when nothing else can happen.
package vtime

import (
	"time"

	"verif.local/vs"
)

type (
	Time     = time.Time
	Duration = time.Duration
	Month    = time.Month
	Weekday  = time.Weekday
	Location = time.Location
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
)

var (
	UTC   = time.UTC
	Local = time.Local
)

//go:norace
func Now() Time {
	if vs.S == nil {
		return time.Unix(0, 0)
	}
	return time.Unix(0, vs.S.Now)
}

//go:norace
func Since(t Time) Duration { return Now().Sub(t) }

//go:norace
func Until(t Time) Duration { return t.Sub(Now()) }

//go:norace
func Unix(s, n int64) Time { return time.Unix(s, n) }

//go:norace
func ParseDuration(s string) (Duration, error) { return time.ParseDuration(s) }

//go:norace
func Sleep(d Duration) { vs.Sleep(int64(d)) }

// Timer is time.Timer.
type Timer struct {
	C <-chan Time
	c chan Time
	f func()
	t interface{ Cancel() bool }
}

//go:norace
func (t *Timer) arm(d Duration) {
	if vs.S == nil {
		return
	}
	s := vs.S
	party := vs.Cur().Party
	tm := s.AddTimer(int64(d), func() {
		s.Spawn(party, "timer", func() {
			if t.f != nil {
				t.f()
				return
			}
			if len(t.c) == 0 {
				vs.Send(t.c, Now())
			}
		})
	})
	t.t = tm
}

//go:norace
func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}

//go:norace
func AfterFunc(d Duration, f func()) *Timer { t := &Timer{f: f}; t.arm(d); return t }

//go:norace
func (t *Timer) Stop() bool {
	if t.t == nil {
		return false
	}
	return t.t.Cancel()
}

//go:norace
func (t *Timer) Reset(d Duration) bool { r := t.Stop(); t.arm(d); return r }

//go:norace
func After(d Duration) <-chan Time { return NewTimer(d).C }

// Ticker is time.Ticker; it stops by itself after a number of ticks so that executions end.
type Ticker struct {
	C    <-chan Time
	c    chan Time
	d    Duration
	left int
	off  bool
}

//go:norace
func NewTicker(d Duration) *Ticker {
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c, d: d, left: 1000}
	t.arm()
	return t
}

//go:norace
func (t *Ticker) arm() {
	if vs.S == nil || t.off || t.left == 0 {
		return
	}
	t.left--
	s := vs.S
	party := vs.Cur().Party
	s.AddTimer(int64(t.d), func() {
		s.Spawn(party, "ticker", func() {
			if t.off {
				return
			}
			if len(t.c) == 0 {
				vs.Send(t.c, Now())
			}
			t.arm()
		})
	})
}

//go:norace
func (t *Ticker) Stop() { t.off = true }

//go:norace
func (t *Ticker) Reset(d Duration) { t.d = d }

//go:norace
func Tick(d Duration) <-chan Time { return NewTicker(d).C }
