package vs

// Queue is a list of parked goroutines.
type Queue struct{ q []waiter }

// Wait parks the current goroutine until woken.
//
//go:norace
func (q *Queue) Wait(why string) {
	q.q = append(q.q, waiter{S.cur, S.cur.tok})
	S.park(why)
}

// Wake readies everyone.
//
//go:norace
func (q *Queue) Wake() { S.wakeAll(&q.q) }

// Enter registers the current goroutine without parking it yet.
//
//go:norace
func (q *Queue) Enter() uint64 {
	q.q = append(q.q, waiter{S.cur, S.cur.tok})
	return S.cur.tok
}

// Await parks unless already signalled since Enter.
//
//go:norace
func (q *Queue) Await(tok uint64, why string) {
	for _, w := range q.q {
		if w.g == S.cur && w.tok == tok {
			S.park(why)
			return
		}
	}
}

// WakeOne readies the longest waiting goroutine.
//
//go:norace
func (q *Queue) WakeOne() {
	for len(q.q) > 0 {
		w := q.q[0]
		q.q = q.q[1:]
		if w.tok == w.g.tok && !w.g.killed {
			S.ready(w.g)
			return
		}
	}
}

// Sleep lets virtual time pass.
//
//go:norace
func Sleep(d int64) {
	if out() {
		return
	}
	Point()
	g := S.cur
	fired := false
	S.AddTimer(d, func() { fired = true; S.ready(g) })
	for !fired {
		S.park("sleep")
	}
}
