package vs

import (
	"runtime"
	"unsafe"
)

//go:norace
func key[T any](ch chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

//go:norace
func state(p unsafe.Pointer, keep any) *chanState {
	t := S.chans
	if 2*(t.n+1) > len(t.at) {
		t.grow()
	}
	i := t.find(p)
	if t.at[i].st == nil {
		t.at[i].p, t.at[i].st = p, &chanState{keep: keep}
		t.n++
	}
	return t.at[i].st
}

// chanTab is a map from channels to their states; the maps of the language are watched by the
// race detector.
type chanTab struct {
	at []chanEntry
	n  int
}

type chanEntry struct {
	p  unsafe.Pointer
	st *chanState
}

//go:norace
func (t *chanTab) find(p unsafe.Pointer) int {
	i := int(uint64(uintptr(p))>>4*0x9E3779B97F4A7C15>>32) & (len(t.at) - 1)
	for t.at[i].st != nil && t.at[i].p != p {
		i = (i + 1) & (len(t.at) - 1)
	}
	return i
}

//go:norace
func (t *chanTab) grow() {
	old := t.at
	n := 2 * len(old)
	if n == 0 {
		n = 64
	}
	t.at = make([]chanEntry, n)
	for _, e := range old {
		if e.st != nil {
			t.at[t.find(e.p)] = e
		}
	}
}

//go:norace
func ptrS[T any](ch chan<- T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

//go:norace
func ptrR[T any](ch <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

// Send is ch <- v.
//
//go:norace
func Send[T any](ch chan<- T, v T) {
	if S == nil {
		ch <- v
		return
	}
	if out() {
		return
	}
	Point()
	s := S
	if ch == nil {
		for {
			s.park("send on nil channel")
		}
	}
	st := state(ptrS(ch), ch)
	if cap(ch) > 0 {
		for {
			select {
			case ch <- v:
				s.wakeAll(&st.recvq)
				return
			default:
			}
			st.sendq = append(st.sendq, waiter{s.cur, s.cur.tok})
			s.park("send")
		}
	}
	if st.closed {
		panic("send on closed channel")
	}
	it := &sendItem{g: s.cur, v: v}
	raceRel(unsafe.Pointer(it))
	st.senders = append(st.senders, it)
	s.wakeAll(&st.recvq)
	for !it.done {
		if st.closed {
			panic("send on closed channel")
		}
		st.sendq = append(st.sendq, waiter{s.cur, s.cur.tok})
		s.park("send (unbuffered)")
	}
	raceAcq(unsafe.Pointer(it))
}

//go:norace
func tryRecv[T any](s *Sched, ch <-chan T, st *chanState) (v T, ok, done bool) {
	select {
	case v, ok = <-ch:
		s.wakeAll(&st.sendq)
		return v, ok, true
	default:
	}
	for len(st.senders) > 0 {
		it := st.senders[0]
		st.senders = st.senders[1:]
		it.done = true
		raceAcq(unsafe.Pointer(it))
		raceRel(unsafe.Pointer(it))
		if it.g != nil && (it.g.killed || it.g.state == gDead) {
			continue
		}
		s.wakeAll(&st.sendq)
		if it.v == nil {
			return v, true, true
		}
		return it.v.(T), true, true
	}
	if st.closed {
		return v, false, true
	}
	return v, false, false
}

// Recv2 is v, ok := <-ch.
//
//go:norace
func Recv2[T any](ch <-chan T) (T, bool) {
	var zero T
	if S == nil {
		v, ok := <-ch
		return v, ok
	}
	if out() {
		return zero, false
	}
	Point()
	s := S
	s.cur.epoch++
	if ch == nil {
		for {
			s.park("receive on nil channel")
		}
	}
	st := state(ptrR(ch), ch)
	for {
		if v, ok, done := tryRecv(s, ch, st); done {
			return v, ok
		}
		st.recvq = append(st.recvq, waiter{s.cur, s.cur.tok})
		w := &taker{g: s.cur}
		st.offer(s, w, 0)
		s.park("receive")
		st.withdraw(w)
		if w.taken {
			raceAcq(unsafe.Pointer(w))
			v, _ := w.v.(T)
			return v, true
		}
	}
}

// Recv is <-ch.
//
//go:norace
func Recv[T any](ch <-chan T) T { v, _ := Recv2(ch); return v }

// Close is close(ch).
//
//go:norace
func Close[T any](ch chan<- T) {
	if S == nil {
		close(ch)
		return
	}
	if out() {
		return
	}
	Point()
	st := state(ptrS(ch), ch)
	close(ch)
	st.closed = true
	S.wakeAll(&st.recvq)
	S.wakeAll(&st.sendq)
}

// taker is a goroutine that waits to receive; a select that sends on an unbuffered channel
// hands its value over to one.
type taker struct {
	g     *G
	taken bool
	v     any
	idx   int // the case of the taker's select
}

type offer struct {
	w   *taker
	idx int
}

//go:norace
func (st *chanState) offer(s *Sched, w *taker, idx int) {
	raceRel(unsafe.Pointer(w))
	st.offers = append(st.offers, offer{w, idx})
	s.wakeAll(&st.sendq)
}

//go:norace
func (st *chanState) withdraw(w *taker) {
	k := st.offers[:0]
	for _, o := range st.offers {
		if o.w != w {
			k = append(k, o)
		}
	}
	st.offers = k
}

//go:norace
func (st *chanState) taker() *offer {
	for i := range st.offers {
		w := st.offers[i].w
		if !w.taken && !w.g.killed && w.g.state != gDead {
			return &st.offers[i]
		}
	}
	return nil
}

// Case is one case of a select statement.
type Case struct {
	st    *chanState
	send  bool
	nilch bool
	ready func() bool
	exec  func() (any, bool)
}

// SendTo is ch <- v with the channel given first, so that v converts to its element type.
//
//go:norace
func SendTo[T any](ch chan<- T) func(T) { return func(v T) { Send(ch, v) } }

// SendCaseTo is SendCase, curried for the same reason.
//
//go:norace
func SendCaseTo[T any](ch chan<- T) func(T) Case { return func(v T) Case { return SendCase(ch, v) } }

// Block is select {}.
//
//go:norace
func Block() any {
	if out() {
		runtime.Goexit()
	}
	for {
		S.park("select{}")
	}
}

// RecvCase is case v := <-ch.
//
//go:norace
func RecvCase[T any](ch <-chan T) Case {
	if out() || ch == nil {
		return Case{nilch: true}
	}
	s := S
	st := state(ptrR(ch), ch)
	return Case{st: st,
		ready: func() bool { return len(ch) > 0 || len(st.senders) > 0 || st.closed || closedNative(ch) },
		exec: func() (any, bool) {
			v, ok, done := tryRecv(s, ch, st)
			if !done {
				panic("vs: select case not ready")
			}
			return v, ok
		}}
}

//go:norace
func closedNative[T any](ch <-chan T) bool {
	// Only vs.Close closes channels of the code under test; a channel closed elsewhere
	// shows as a successful receive on an empty channel without senders.
	if len(ch) > 0 {
		return false
	}
	select {
	case _, ok := <-ch:
		return !ok
	default:
		return false
	}
}

// SendCase is case ch <- v.
//
//go:norace
func SendCase[T any](ch chan<- T, v T) Case {
	if out() || ch == nil {
		return Case{nilch: true}
	}
	s := S
	st := state(ptrS(ch), ch)
	return Case{st: st, send: true,
		ready: func() bool {
			if st.closed {
				return true
			}
			if cap(ch) > 0 {
				return len(ch) < cap(ch)
			}
			return st.taker() != nil
		},
		exec: func() (any, bool) {
			if cap(ch) > 0 {
				ch <- v
			} else {
				if st.closed {
					panic("send on closed channel")
				}
				o := st.taker()
				o.w.taken, o.w.v, o.w.idx = true, v, o.idx
				raceAcq(unsafe.Pointer(o.w))
				raceRel(unsafe.Pointer(o.w))
			}
			s.wakeAll(&st.recvq)
			return nil, false
		}}
}

// Select runs a select statement: the index of the chosen case (-1 for default), the
// received value and ok.
//
//go:norace
func Select(hasDefault bool, cases ...Case) (int, any, bool) {
	if S == nil {
		panic("vs: select outside of an execution")
	}
	if out() {
		runtime.Goexit()
	}
	Point()
	s := S
	s.cur.epoch++
	for {
		var ready [16]int
		n := 0
		for i := range cases {
			if !cases[i].nilch && cases[i].ready() && n < len(ready) {
				ready[n] = i
				n++
			}
		}
		if n > 0 {
			k := 0
			if n > 1 {
				k = s.pol.Choose(s.cur, n)
				if k < 0 || k >= n {
					k = 0
				}
			}
			v, ok := cases[ready[k]].exec()
			return ready[k], v, ok
		}
		if hasDefault {
			// A select with default polls: count it as a loop iteration.
			Tick()
			return -1, nil, false
		}
		w := &taker{g: s.cur}
		for i := range cases {
			c := &cases[i]
			if c.nilch {
				continue
			}
			if c.send {
				c.st.sendq = append(c.st.sendq, waiter{s.cur, s.cur.tok})
			} else {
				c.st.recvq = append(c.st.recvq, waiter{s.cur, s.cur.tok})
				c.st.offer(s, w, i)
			}
		}
		s.park("select")
		for i := range cases {
			if !cases[i].nilch && !cases[i].send {
				cases[i].st.withdraw(w)
			}
		}
		if w.taken {
			raceAcq(unsafe.Pointer(w))
			return w.idx, w.v, true
		}
	}
}

// As2 converts a received value back to the element type of its channel.
//
//go:norace
func Val[T any](ch <-chan T, v any) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

// Sel is used by rewritten selects to keep the type of a receive channel.
//
//go:norace
func RO[T any](ch <-chan T) <-chan T { return ch }
