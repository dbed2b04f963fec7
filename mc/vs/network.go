package vs

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sort"
	"syscall"
	"time"
	"unsafe"
)

// Unit is what one burst of writes put on a link: the bytes a goroutine wrote between two
// of its blocking operations.  It is the unit of delivery.
type Unit struct {
	Seq    int // global send order
	Link   *Link
	Idx    int // position on its link
	Bytes  []byte
	writer *G
	epoch  uint64
	label  string
	lab    bool
	part   bool // partly delivered
}

// Link is one direction of a connection.
type Link struct {
	ID       int
	From, To int // parties
	port     int
	queue    []*Unit
	buf      []byte
	nunits   int
	rq       []waiter
	wq       []waiter
	fin      bool // writer closed: EOF after the queue
	finDone  bool
	finSeq   int
	reset    bool // reader gone
	rdl      bool
	Cap      int // bytes in flight before a writer blocks (0: unlimited)
}

// Head is the oldest undelivered unit (nil when only an EOF is pending).
//
//go:norace
func (l *Link) Head() *Unit {
	if len(l.queue) == 0 {
		return nil
	}
	return l.queue[0]
}

// HeadSeq is the send order of what would be delivered next.
//
//go:norace
func (l *Link) HeadSeq() int {
	if len(l.queue) == 0 {
		return l.finSeq
	}
	return l.queue[0].Seq
}

// Labeler names a unit from its bytes (message type); set by the harness.
var Labeler func(b []byte) string

// Label names the unit.
//
//go:norace
func (u *Unit) Label() string {
	if !u.lab {
		u.lab = true
		if Labeler != nil {
			u.label = Labeler(u.Bytes)
		}
	}
	return u.label
}

//go:norace
func (u *Unit) String() string {
	return fmt.Sprintf("%s %d->%d #%d", u.Label(), u.Link.From, u.Link.To, u.Seq)
}

// Network is the virtual network of an execution.
type Network struct {
	s         *Sched
	hosts     map[int]string
	listeners map[string]*VListener
	links     []*Link
	seq       int
	sentBy    map[int]int
	// OnSend is called when a unit is about to be created; false means the sending party
	// stops right there and the unit is lost.
	OnSend func(party int, nth int, l *Link) bool
	// Split, when set, says how many bytes of the head unit to deliver (<=0: all).
	Split func(u *Unit) int
	// ReadPoints makes the moment after data is read a scheduling point too.
	ReadPoints bool
	// ResetOnDeath makes the death of a party visible to its peers as closed connections.
	ResetOnDeath bool
	// Edit may change the bytes of a delivery.
	Edit func(u *Unit, b []byte)
	// Delivered is called after each delivery.
	Delivered func(u *Unit)
	// AcceptErr, when set, may make the nth attempt of a party to accept a connection fail.
	AcceptErr func(party, nth int) error
	conns     []*VConn
	nextPort  int
	LinkCap   int
	AllUnits  []string
	KeepUnits bool
}

//go:norace
func newNetwork(s *Sched) *Network {
	return &Network{s: s, hosts: map[int]string{}, listeners: map[string]*VListener{}, sentBy: map[int]int{}, nextPort: 50000}
}

// SetHost gives a party its own address; parties without one share 127.0.0.1.
//
//go:norace
func (n *Network) SetHost(party int, ip string) { n.hosts[party] = ip }

//go:norace
func (n *Network) host(party int) string {
	if h, ok := n.hosts[party]; ok {
		return h
	}
	return "127.0.0.1"
}

// Sent is the number of units a party has sent.
//
//go:norace
func (n *Network) Sent(party int) int { return n.sentBy[party] }

// Total is the number of units sent so far.
//
//go:norace
func (n *Network) Total() int { return n.seq }

// Links lists every link.
//
//go:norace
func (n *Network) Links() []*Link { return n.links }

//go:norace
func (n *Network) candidates() []*Link {
	var c []*Link
	for _, l := range n.links {
		if len(l.queue) > 0 || (l.fin && !l.finDone) {
			c = append(c, l)
		}
	}
	if len(c) > 1 {
		sort.SliceStable(c, func(i, j int) bool { return c[i].HeadSeq() < c[j].HeadSeq() })
	}
	return c
}

//go:norace
func fnv(h uint64, b []byte) uint64 {
	for _, x := range b {
		h = (h ^ uint64(x)) * 1099511628211
	}
	return h
}

// deliver hands the head of a link (or its first k bytes) to the receiving end.
//
//go:norace
func (n *Network) deliver(l *Link, k int) {
	s := n.s
	s.Deliveries++
	s.NPoints++
	s.spinTurns, s.idle = 0, 0
	if len(l.queue) == 0 {
		l.finDone = true
		if s.KeepTrace {
			s.Trace = append(s.Trace, fmt.Sprintf("deliver EOF %d->%d", l.From, l.To))
		}
		s.wakeAll(&l.rq)
		return
	}
	u := l.queue[0]
	if n.Split != nil && k < 0 {
		k = n.Split(u)
	}
	b := u.Bytes
	if k > 0 && k < len(b) {
		b = u.Bytes[:k]
		u.Label()
		u.Bytes = u.Bytes[k:]
		u.part = true
	} else {
		l.queue[0] = nil
		l.queue = l.queue[1:]
	}
	if s.KeepTrace {
		s.Trace = append(s.Trace, "deliver "+u.String())
	}
	if s.OnState != nil {
		h := fnv(1469598103934665603^uint64(l.ID)*0x9e3779b97f4a7c15, b)
		h ^= uint64(u.Idx) * 0xbf58476d1ce4e5b9
		// Order at the receiver matters, order between receivers does not: fold into the
		// receiver's own history hash, and sum the histories.
		old := n.histOf(l.To)
		nw := (old^h)*0x94d049bb133111eb + 0x2545f4914f6cdd1d
		nw ^= nw >> 29
		n.setHist(l.To, nw)
		s.stateHash += nw - old
		s.OnState(s.stateHash)
	}
	if !l.reset && !s.deadParty[l.To] {
		if n.Edit != nil {
			n.Edit(u, b)
		}
		l.buf = append(l.buf, b...)
		s.wakeAll(&l.rq)
	}
	s.wakeAll(&l.wq)
	if n.Delivered != nil {
		n.Delivered(u)
	}
}

var hist map[int]uint64

//go:norace
func (n *Network) histOf(p int) uint64 {
	if n.s.Deliveries <= 1 || hist == nil {
		hist = map[int]uint64{}
	}
	return hist[p]
}

//go:norace
func (n *Network) setHist(p int, v uint64) { hist[p] = v }

//go:norace
func (n *Network) partyDied(party int) {
	for k, l := range n.listeners {
		if l.party == party {
			delete(n.listeners, k)
		}
	}
	if !n.ResetOnDeath {
		return
	}
	for _, c := range n.conns {
		if c.party == party && !c.closed {
			c.shut()
		}
	}
}

// VListener is a listening socket.
type VListener struct {
	party  int
	addr   *net.TCPAddr
	keyS   string
	queue  []*VConn
	wq     []waiter
	closed bool
	by     deadline
	tries  int
}

//go:norace
func (l *VListener) SetDeadline(t time.Time) error { return l.by.set(t, &l.wq) }

// VConn is one end of a connection.
type VConn struct {
	party         int
	out, in       *Link
	local, remote *net.TCPAddr
	closed        bool
	readBy        deadline
	writeBy       deadline
}

// deadline is a moment of virtual time after which operations fail.
type deadline struct {
	at int64 // 0: none
	t  *timer
}

// set arms the deadline: when it is reached those who wait wake up.
//
//go:norace
func (d *deadline) set(t time.Time, q *[]waiter) error {
	if out() {
		return net.ErrClosed
	}
	d.at = 0
	if d.t != nil {
		d.t.dead = true
		d.t = nil
	}
	if t.IsZero() {
		return nil
	}
	if d.at = t.UnixNano(); d.at == 0 {
		d.at = -1
	}
	if d.past() {
		S.wakeAll(q)
		return nil
	}
	d.t = S.AddTimer(d.at-S.Now, func() { S.wakeAll(q) })
	return nil
}

//go:norace
func (d *deadline) past() bool { return d.at != 0 && S.Now >= d.at }

//go:norace
func timeout(op string) error {
	return &net.OpError{Op: op, Net: "tcp", Err: os.ErrDeadlineExceeded}
}

//go:norace
func addrOf(ip string, port int) *net.TCPAddr { return &net.TCPAddr{IP: net.ParseIP(ip), Port: port} }

// Listen opens a listener of the current party.
//
//go:norace
func Listen(addr *net.TCPAddr) (*VListener, error) {
	if out() {
		return nil, errors.New("vs: no execution")
	}
	Point()
	n := S.Net
	party := S.cur.Party
	port := addr.Port
	if port == 0 {
		n.nextPort++
		port = n.nextPort
	}
	k := fmt.Sprintf("%s:%d", n.host(party), port)
	if n.listeners[k] != nil {
		return nil, &net.OpError{Op: "listen", Net: "tcp", Addr: addr, Err: syscall.EADDRINUSE}
	}
	l := &VListener{party: party, addr: addrOf(n.host(party), port), keyS: k}
	n.listeners[k] = l
	return l, nil
}

// Accept waits for a connection.
//
//go:norace
func (l *VListener) Accept2() (*VConn, error) {
	if out() {
		return nil, net.ErrClosed
	}
	Point()
	for {
		if l.closed {
			return nil, net.ErrClosed
		}
		if l.by.past() {
			return nil, timeout("accept")
		}
		if len(l.queue) > 0 {
			l.tries++
			if f := S.Net.AcceptErr; f != nil {
				if err := f(l.party, l.tries); err != nil {
					return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: os.NewSyscallError("accept", err)}
				}
			}
			c := l.queue[0]
			l.queue = l.queue[1:]
			return c, nil
		}
		l.wq = append(l.wq, waiter{S.cur, S.cur.tok})
		S.park("accept")
	}
}

//go:norace
func (l *VListener) Close() error {
	if out() {
		return nil
	}
	l.closed = true
	delete(S.Net.listeners, l.keyS)
	S.wakeAll(&l.wq)
	return nil
}

//go:norace
func (l *VListener) Addr() net.Addr { return l.addr }

// Dial connects the current party to a listener.
//
//go:norace
func Dial(raddr *net.TCPAddr) (*VConn, error) {
	if out() {
		return nil, errors.New("vs: no execution")
	}
	Point()
	s := S
	n := s.Net
	ip := "127.0.0.1"
	if raddr.IP != nil && !raddr.IP.IsUnspecified() {
		ip = raddr.IP.String()
	}
	l := n.listeners[fmt.Sprintf("%s:%d", ip, raddr.Port)]
	if l == nil || s.deadParty[l.party] {
		return nil, &net.OpError{Op: "dial", Net: "tcp", Addr: raddr, Err: syscall.ECONNREFUSED}
	}
	n.nextPort++
	me := s.cur.Party
	a := &Link{ID: len(n.links), From: me, To: l.party, port: raddr.Port, Cap: n.LinkCap}
	b := &Link{ID: len(n.links) + 1, From: l.party, To: me, Cap: n.LinkCap}
	n.links = append(n.links, a, b)
	la := addrOf(n.host(me), n.nextPort)
	c := &VConn{party: me, out: a, in: b, local: la, remote: l.addr}
	d := &VConn{party: l.party, out: b, in: a, local: l.addr, remote: la}
	n.conns = append(n.conns, c, d)
	l.queue = append(l.queue, d)
	s.idle = 0
	s.wakeAll(&l.wq)
	return c, nil
}

//go:norace
func (c *VConn) Write(b []byte) (int, error) {
	if c == nil {
		return 0, syscall.EINVAL
	}
	if out() {
		return 0, net.ErrClosed
	}
	Point()
	s := S
	l := c.out
	if c.closed {
		return 0, net.ErrClosed
	}
	if l.reset || s.deadParty[l.To] && s.Net.ResetOnDeath {
		return 0, &net.OpError{Op: "write", Net: "tcp", Err: syscall.EPIPE}
	}
	total := len(b)
	for len(b) > 0 {
		if c.writeBy.past() {
			return total - len(b), timeout("write")
		}
		k := len(b)
		if l.Cap > 0 {
			used := len(l.buf)
			for _, u := range l.queue {
				used += len(u.Bytes)
			}
			if used >= l.Cap {
				l.wq = append(l.wq, waiter{s.cur, s.cur.tok})
				s.park("write (full)")
				if l.reset {
					return total - len(b), &net.OpError{Op: "write", Net: "tcp", Err: syscall.EPIPE}
				}
				continue
			}
			if k > l.Cap-used {
				k = l.Cap - used
			}
		}
		var u *Unit
		if len(l.queue) > 0 {
			u = l.queue[len(l.queue)-1]
		}
		if u == nil || u.writer != s.cur || u.epoch != s.cur.epoch || u.part {
			n := s.Net
			n.sentBy[c.party]++
			if n.OnSend != nil && !n.OnSend(c.party, n.sentBy[c.party], l) {
				CrashParty(c.party, "injected crash")
				return 0, net.ErrClosed
			}
			n.seq++
			u = &Unit{Seq: n.seq, Link: l, Idx: l.nunits, writer: s.cur, epoch: s.cur.epoch}
			l.nunits++
			l.queue = append(l.queue, u)
		}
		u.Bytes = append(u.Bytes, b[:k]...)
		raceRel(unsafe.Pointer(l)) // what was done before is known to whoever reads it
		b = b[k:]
	}
	return total, nil
}

//go:norace
func (c *VConn) Read(b []byte) (int, error) {
	if c == nil {
		return 0, syscall.EINVAL
	}
	if out() {
		return 0, net.ErrClosed
	}
	Point()
	s := S
	s.cur.epoch++
	l := c.in
	for {
		if c.closed {
			return 0, net.ErrClosed
		}
		if c.readBy.past() {
			return 0, timeout("read")
		}
		if len(b) == 0 {
			return 0, nil
		}
		if len(l.buf) > 0 {
			k := copy(b, l.buf)
			l.buf = l.buf[k:]
			if len(l.buf) == 0 {
				l.buf = nil
			}
			s.wakeAll(&l.wq)
			raceAcq(unsafe.Pointer(l))
			if s.Net.ReadPoints {
				Point()
			}
			return k, nil
		}
		if l.finDone {
			return 0, io.EOF
		}
		l.rq = append(l.rq, waiter{s.cur, s.cur.tok})
		s.park("read")
	}
}

//go:norace
func (c *VConn) shut() {
	c.closed = true
	c.out.fin = true
	S.Net.seq++
	c.out.finSeq = S.Net.seq
	c.in.reset = true
	S.wakeAll(&c.in.wq)
	S.wakeAll(&c.in.rq)
}

//go:norace
func (c *VConn) Close() error {
	if c == nil {
		return syscall.EINVAL
	}
	if out() {
		return nil
	}
	Point()
	if !c.closed {
		c.shut()
	}
	return nil
}

//go:norace
func (c *VConn) CloseWrite() error {
	if out() {
		return nil
	}
	c.out.fin = true
	S.Net.seq++
	c.out.finSeq = S.Net.seq
	return nil
}

//go:norace
func (c *VConn) CloseRead() error { return nil }

//go:norace
func (c *VConn) LocalAddr() net.Addr { return c.local }

//go:norace
func (c *VConn) RemoteAddr() net.Addr { return c.remote }

// The socket options do nothing; on a connection that failed to open they report it.
//
//go:norace
func (c *VConn) opt() error {
	if c == nil {
		return syscall.EINVAL
	}
	return nil
}

//go:norace
func (c *VConn) SetKeepAlive(bool) error { return c.opt() }

//go:norace
func (c *VConn) SetKeepAlivePeriod(time.Duration) error { return c.opt() }

//go:norace
func (c *VConn) SetNoDelay(bool) error { return c.opt() }

//go:norace
func (c *VConn) SetLinger(int) error { return c.opt() }

//go:norace
func (c *VConn) SetReadBuffer(int) error { return c.opt() }

//go:norace
func (c *VConn) SetWriteBuffer(int) error { return c.opt() }

//go:norace
func (c *VConn) SetDeadline(t time.Time) error {
	if c == nil {
		return syscall.EINVAL
	}
	c.readBy.set(t, &c.in.rq)
	return c.writeBy.set(t, &c.out.wq)
}

//go:norace
func (c *VConn) SetReadDeadline(t time.Time) error {
	if c == nil {
		return syscall.EINVAL
	}
	return c.readBy.set(t, &c.in.rq)
}

//go:norace
func (c *VConn) SetWriteDeadline(t time.Time) error {
	if c == nil {
		return syscall.EINVAL
	}
	return c.writeBy.set(t, &c.out.wq)
}
