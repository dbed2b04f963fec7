package core

import (
	"encoding/binary"
	"fmt"
	"net"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"testing"

	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"google.golang.org/protobuf/proto"
	"verif.local/vs"
	"verif.local/vs/ex"
)

func TestMain(m *testing.M) { ex.Main(m) }

const (
	receiver = 1
	rip      = "10.0.0.1"
	rport    = "8000"
	rip2     = "10.0.0.2"
)

// run of a plan: the tokens of vs.Dev and
//
//	m=SIZES;SIZES   per sender, the data sizes of its messages ("-": the empty message)
//	cut=A/B/C       the streams of the connections are delivered up to these byte offsets
//	chunk=K         in pieces of K bytes
//	cap=K           bytes in flight before a writer blocks
//	late            the receiver starts reading when everything is quiet
//	raw=K/END       another connection carries the first K bytes of two frames, then END:
//	                close, reset (both directions), or nothing
//	junk=HEX        another connection carries these bytes, then is closed
//	dead=K          a peer of the first sender stops reading and closes after K bytes
//	up=T            the receiver starts listening T seconds later
//	away=T          a peer of the first sender starts listening T seconds later (0: never)
//	stuck=K         a peer of the first sender stops reading after K bytes and stays open
//	same            the messages of a sender with the same size are equal
//	gap=T           T seconds pass before each message but the first
//	nap=T           the receiver waits T seconds before it takes each message
//	more=N          N further connections carry junk, or raw up to the end of the first frame
//	fds=K/N         the receiver's attempts K..K+N-1 to accept a connection fail
type run struct {
	s       *vs.Sched
	d       *vs.Dev
	sizes   [][]int
	cuts    []int
	chunk   int
	late    bool
	same    bool
	raw     int
	end     string
	junk    []byte
	dead    int
	stuck   bool
	gap     int
	nap     int
	more    int
	up      int
	away    int
	got2    []*protobuf.Message // by the peer that starts later
	got     []*protobuf.Message
	sent    [][]*protobuf.Message
	rawSent []*protobuf.Message
	peerGot int
	allSent bool
}

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

func payload(from, k, size int) *protobuf.Message {
	if size < 0 {
		return &protobuf.Message{}
	}
	m := &protobuf.Message{Type: fmt.Sprintf("T%d", k), Sender: uint32(from), Id: []byte{byte(k), 0}}
	m.Data = make([]byte, size)
	for i := range m.Data {
		m.Data[i] = byte(i*7 + k + from*31)
	}
	if size == 0 {
		m.Data = nil
	}
	return m
}

func frame(m *protobuf.Message) []byte {
	b, _ := proto.Marshal(m)
	var l [4]byte
	binary.BigEndian.PutUint32(l[:], uint32(len(b)))
	return append(l[:], b...)
}

func parse(plan string) *run {
	d, rest := vs.ParseDev(plan)
	r := &run{d: d, raw: -1, dead: -1, away: -1}
	r.s = vs.NewSched(d, 1)
	r.s.MaxPoints = 3_000_000
	r.s.OnState = ex.State
	for _, t := range rest {
		k, v := t, ""
		if i := strings.IndexByte(t, '='); i >= 0 {
			k, v = t[:i], t[i+1:]
		}
		switch k {
		case "m":
			for _, x := range strings.Split(v, ";") {
				var l []int
				for _, y := range strings.Split(x, ",") {
					switch {
					case y == "-":
						l = append(l, -1)
					case strings.Contains(y, "x"): // SIZExCOUNT
						f := strings.Split(y, "x")
						for i := 0; i < atoi(f[1]); i++ {
							l = append(l, atoi(f[0]))
						}
					case y != "":
						l = append(l, atoi(y))
					}
				}
				r.sizes = append(r.sizes, l)
			}
		case "cut":
			for _, x := range strings.Split(v, "/") {
				r.cuts = append(r.cuts, atoi(x))
			}
			sort.Ints(r.cuts)
		case "chunk":
			r.chunk = atoi(v)
		case "cap":
			r.s.Net.LinkCap = atoi(v)
		case "late":
			r.late = true
		case "same":
			r.same = true
		case "raw":
			f := strings.Split(v, "/")
			r.raw, r.end = atoi(f[0]), f[1]
		case "junk":
			for i := 0; i+1 < len(v); i += 2 {
				x, _ := strconv.ParseUint(v[i:i+2], 16, 8)
				r.junk = append(r.junk, byte(x))
			}
			if r.junk == nil {
				r.junk = []byte{}
			}
		case "gap":
			r.gap = atoi(v)
		case "nap":
			r.nap = atoi(v)
		case "more":
			r.more = atoi(v)
		case "fds":
			f := strings.Split(v, "/")
			k, n := atoi(f[0]), atoi(f[1])
			r.s.Net.AcceptErr = func(party, nth int) error {
				if party == receiver && nth >= k && nth < k+n {
					return syscall.EMFILE
				}
				return nil
			}
			r.s.MaxIdle += 8 * n
		case "up":
			r.up = atoi(v)
		case "away":
			r.away = atoi(v)
		case "dead":
			r.dead = atoi(v)
		case "stuck":
			r.dead, r.stuck = atoi(v), true
		}
	}
	r.s.MaxIdle += 50
	if r.up > 0 {
		r.s.MaxIdle += 8 * r.up
	}
	if r.away > 0 {
		r.s.MaxIdle += 8 * r.away
	}
	off := map[*vs.Link]int{}
	r.s.Net.ReadPoints = true
	r.s.Net.Split = func(u *vs.Unit) int {
		o := off[u.Link]
		n := len(u.Bytes)
		if r.chunk > 0 {
			if n > r.chunk {
				n = r.chunk
			}
		} else {
			for _, c := range r.cuts {
				if c > o {
					if c-o < n {
						n = c - o
					}
					break
				}
			}
		}
		off[u.Link] = o + n
		return n
	}
	return r
}

func tcp(ip, port string) *net.TCPAddr {
	return &net.TCPAddr{IP: net.ParseIP(ip), Port: atoi(port)}
}

func (r *run) main() {
	n := r.s.Net
	n.SetHost(receiver, rip)
	n.SetHost(2, rip2)
	var rc chan *protobuf.Message
	if r.up == 0 {
		vs.As(receiver, func() { rc = MakeReceiveChannel(rport) })
	}
	read := func() {
		vs.GoAs(receiver, "consumer", func() {
			for {
				if r.nap > 0 {
					vs.Sleep(int64(r.nap) * 1e9)
				}
				r.got = append(r.got, vs.Recv(rc))
			}
		})
	}
	switch {
	case r.up > 0:
		vs.GoAs(receiver, "start", func() {
			vs.Sleep(int64(r.up) * 1e9)
			rc = MakeReceiveChannel(rport)
			read()
		})
	case !r.late:
		read()
	}
	if r.away > 0 {
		vs.GoAs(2, "start", func() {
			vs.Sleep(int64(r.away) * 1e9)
			rc := MakeReceiveChannel(rport)
			for {
				r.got2 = append(r.got2, vs.Recv(rc))
			}
		})
	}
	if r.raw >= 0 || r.junk != nil {
		var b []byte
		if r.junk != nil {
			b = r.junk
		} else {
			r.rawSent = []*protobuf.Message{payload(50, 0, 3), payload(50, 1, 9)}
			for _, m := range r.rawSent {
				b = append(b, frame(m)...)
			}
			b = b[:r.raw]
		}
		for i := 0; i <= r.more; i++ {
			i, b := i, b
			if i > 0 && r.raw >= 0 {
				b = r.part(b)
			}
			vs.GoAs(60+i, "raw", func() {
				c, err := vs.Dial(tcp(rip, rport))
				for err != nil {
					vs.Sleep(1e9)
					c, err = vs.Dial(tcp(rip, rport))
				}
				if len(b) > 0 {
					c.Write(b)
				}
				if r.end == "close" || r.junk != nil {
					c.Close()
				}
			})
		}
	}
	if r.dead >= 0 {
		// a peer that reads some bytes and goes away
		vs.As(2, func() {
			l, err := vs.Listen(tcp(rip2, rport))
			if err != nil {
				panic(err)
			}
			vs.GoAs(2, "peer", func() {
				c, err := l.Accept2()
				if err != nil {
					return
				}
				buf := make([]byte, 1)
				for r.peerGot < r.dead {
					k, err := c.Read(buf)
					if err != nil {
						return
					}
					r.peerGot += k
				}
				if !r.stuck {
					c.Close()
				}
			})
		})
	}
	for i, l := range r.sizes {
		i, l := i, l
		var ms []*protobuf.Message
		for k, z := range l {
			if r.same {
				k = 0
			}
			ms = append(ms, payload(10+i, k, z))
		}
		r.sent = append(r.sent, ms)
		vs.GoAs(10+i, "sender", func() {
			var ch2 chan *protobuf.Message
			if (r.dead >= 0 || r.away >= 0) && i == 0 {
				ch2 = MakeSendChannel(rip2, rport)
			}
			ch := MakeSendChannel(rip, rport)
			for k, m := range ms {
				if r.gap > 0 && k > 0 {
					vs.Sleep(int64(r.gap) * 1e9)
				}
				if ch2 != nil {
					vs.Send(ch2, m)
				}
				vs.Send(ch, m)
			}
			if i == 0 {
				r.allSent = true
			}
		})
	}
	if r.late && r.up == 0 {
		r.s.AtQuiescence(read)
	}
}

// part is what a further connection carries of the bytes b: no complete frame.
func (r *run) part(b []byte) []byte {
	if k := len(frame(r.rawSent[0])) - 1; len(b) > k {
		return b[:k]
	}
	return b
}

// junkHas: the bytes happen to hold this message.
func (r *run) junkHas(m *protobuf.Message) bool {
	b := r.junk
	for len(b) >= 4 {
		n := int(binary.BigEndian.Uint32(b))
		if len(b) < 4+n {
			return false
		}
		var x protobuf.Message
		if proto.Unmarshal(b[4:4+n], &x) != nil {
			return false
		}
		if proto.Equal(&x, m) {
			return true
		}
		b = b[4+n:]
	}
	return false
}

// verdict compares what was received with what was sent.
func (r *run) verdict() (string, []string) {
	for _, c := range r.s.Crashes {
		return "a node stopped", []string{fmt.Sprint(c)}
	}
	next := make([]int, len(r.sent))
	nraw, empties := 0, 0
	want := 0
	for i := range r.sent {
		for _, m := range r.sent[i] {
			if proto.Size(m) == 0 {
				want++
			}
		}
	}
	for _, m := range r.got {
		if m == nil {
			return "something that nobody sent was received", []string{"nil"}
		}
		if proto.Size(m) == 0 {
			empties++
			continue
		}
		if m.Sender == 50 && nraw < len(r.rawSent) && proto.Equal(m, r.rawSent[nraw]) {
			nraw++
			continue
		}
		if r.junkHas(m) {
			continue
		}
		i := int(m.Sender) - 10
		if i < 0 || i >= len(r.sent) {
			return "something that nobody sent was received", []string{m.String()}
		}
		for next[i] < len(r.sent[i]) && proto.Size(r.sent[i][next[i]]) == 0 {
			next[i]++
		}
		if next[i] >= len(r.sent[i]) {
			return "a message was received more often than it was sent", []string{fmt.Sprintf("sender %d %s", i, m.Type)}
		}
		if !proto.Equal(m, r.sent[i][next[i]]) {
			w := r.sent[i][next[i]]
			return "messages were altered, lost or reordered", []string{fmt.Sprintf("sender %d: %s with %d bytes where %s with %d bytes is due", i, m.Type, len(m.Data), w.Type, len(w.Data))}
		}
		next[i]++
	}
	for i := range next {
		for next[i] < len(r.sent[i]) && proto.Size(r.sent[i][next[i]]) == 0 {
			next[i]++
		}
		if next[i] < len(r.sent[i]) {
			return "a message was not received", []string{fmt.Sprintf("sender %d: %d of %d", i, next[i], len(r.sent[i]))}
		}
	}
	if empties < want {
		return "an empty message was not received", nil
	}
	if r.raw >= 0 {
		b, n := 0, 0
		for _, m := range r.rawSent {
			b += len(frame(m))
			if b <= r.raw {
				n++
			}
		}
		if nraw != n {
			return "the complete messages of a connection that broke were not all received, or more", []string{fmt.Sprintf("%d, due %d", nraw, n)}
		}
	} else if r.junk == nil && empties > want {
		return "an empty message was received that nobody sent", nil
	}
	if r.dead >= 0 && !r.allSent {
		if r.stuck {
			return "sending is blocked by a peer that does not read", nil
		}
		return "sending is blocked by a peer that went away", nil
	}
	if r.away >= 0 && !r.allSent {
		return "sending is blocked by a peer that is not listening", nil
	}
	if r.away > 0 {
		for i, m := range r.got2 {
			if i >= len(r.sent[0]) || !proto.Equal(m, r.sent[0][i]) {
				return "messages to a peer that started late were altered, lost or reordered", []string{fmt.Sprint(i)}
			}
		}
		if len(r.got2) < len(r.sent[0]) {
			return "a message to a peer that started late was not received", []string{fmt.Sprintf("%d of %d", len(r.got2), len(r.sent[0]))}
		}
	}
	return "", nil
}

type yieldf = func(string) bool

func streamLen(spec string) int {
	r := parse("m=" + spec)
	n := 0
	for k, z := range r.sizes[0] {
		n += len(frame(payload(10, k, z)))
	}
	return n
}

// cuts enumerates every set of up to n cut positions of a stream.
func cuts(specs []string, n int, extra ...string) func(tier string, y yieldf) bool {
	return func(tier string, y yieldf) bool {
		k := n
		if tier == "thorough" {
			k++
		}
		for _, sp := range specs {
			L := streamLen(sp)
			var rec func(from int, have []string) bool
			rec = func(from int, have []string) bool {
				p := "m=" + sp
				if len(have) > 0 {
					p += " cut=" + strings.Join(have, "/")
				}
				for _, e := range append([]string{""}, extra...) {
					q := p
					if e != "" {
						q += " " + e
					}
					if !y(q) {
						return false
					}
				}
				if len(have) == k {
					return true
				}
				for c := from; c < L; c++ {
					if !rec(c+1, append(have, strconv.Itoa(c))) {
						return false
					}
				}
				return true
			}
			if !rec(1, nil) {
				return false
			}
		}
		return true
	}
}

// ords enumerates every order of the first n deliveries among w candidates.
func ords(prefix []string, n, w int) func(tier string, y yieldf) bool {
	return func(tier string, y yieldf) bool {
		k := n
		if tier == "thorough" {
			k += 2
		}
		for _, p := range prefix {
			d := make([]byte, k)
			var rec func(i int) bool
			rec = func(i int) bool {
				if i == k {
					return y(p + " ord=" + string(d))
				}
				for c := 0; c < w; c++ {
					d[i] = byte('0' + c)
					if !rec(i + 1) {
						return false
					}
				}
				return true
			}
			if !rec(0) {
				return false
			}
		}
		return true
	}
}

func points(prefix []string, kinds string) func(tier string, y yieldf) bool {
	return func(tier string, y yieldf) bool {
		for _, p := range prefix {
			r := parse(p)
			r.s.Spawn(9999, "main", r.main)
			r.s.Run()
			for _, k := range kinds {
				for n := 1; n <= r.s.NPoints; n++ {
					if !y(fmt.Sprintf("%s pt=%d/%c", p, n, k)) {
						return false
					}
				}
			}
			if tier == "thorough" {
				for n := 1; n <= r.s.NPoints; n++ {
					for m := n + 1; m <= r.s.NPoints; m++ {
						if !y(fmt.Sprintf("%s pt=%d/w pt=%d/w", p, n, m)) {
							return false
						}
					}
				}
			}
		}
		return true
	}
}

func gen(f func(tier string, y yieldf) bool) func(string, func(string) bool) {
	return func(t string, y func(string) bool) { f(t, y) }
}

func init() {
	ex.Register("C14", func() *ex.Check {
		small := []string{"0", "1,2", "-,3,-", "0,0,1", "5,130"}
		return &ex.Check{Spaces: []ex.Space{
			{Name: "fragments", Rule: "every set of up to 2 positions (thorough: 3) at which the byte stream of a connection is cut into segments, for short streams", Gen: gen(cuts(small, 2, "late")), Run: exec},
			{Name: "equal messages", Rule: "every sequence of 2 to 6 messages of two sizes, those of one size being equal, in one piece and in pieces; more equal messages than the channels hold", Gen: func(tier string, y func(string) bool) {
				for n := 2; n <= 6; n++ {
					for v := 0; v < 1<<n; v++ {
						var l []string
						for i := 0; i < n; i++ {
							l = append(l, strconv.Itoa(v>>i&1*9))
						}
						m := strings.Join(l, ",")
						for _, how := range []string{"", " chunk=1", " cap=9", " late", " gap=5", ";" + m} {
							if !y("m=" + m + how + " same") {
								return
							}
						}
					}
				}
				for _, how := range []string{"", " late", " cap=100"} {
					if !y("m=1x1100;2x1100 same" + how) {
						return
					}
				}
			}, Run: exec},
			{Name: "fragments of one frame", Rule: "every way to cut the first 13 bytes of a stream", Gen: func(tier string, y func(string) bool) {
				for v := 0; v < 1<<13; v++ {
					var c []string
					for i := 0; i < 13; i++ {
						if v>>i&1 == 1 {
							c = append(c, strconv.Itoa(i+1))
						}
					}
					if !y("m=1,0 cut=" + strings.Join(c, "/")) {
						return
					}
				}
			}, Run: exec},
			{Name: "sizes", Rule: "message sizes 0..300 (thorough: 2000) and around every power of two (and three times that) up to 2^20 (thorough: 2^23), in one piece, in pieces of the listed sizes, with little room in flight", Gen: func(tier string, y func(string) bool) {
				var z []int
				top, e := 300, 20
				if tier == "thorough" {
					top, e = 2000, 23
				}
				for i := 0; i <= top; i++ {
					z = append(z, i)
				}
				for b := 9; b <= e; b++ {
					z = append(z, 1<<b-8, 1<<b-4, 1<<b-1, 1<<b, 1<<b+1)
				}
				// every length of a frame around them, and around their multiples by three
				for b := 9; b <= e; b++ {
					for s := 1<<b - 28; s <= 1<<b+2; s++ {
						if !y(fmt.Sprintf("m=%d,3", s)) || b <= 17 && !y(fmt.Sprintf("m=%d,3 chunk=65536 cap=70000", 3*s)) {
							return
						}
					}
				}
				for _, s := range []int{1<<21 + 1, 1<<22 + 1, 1<<23 + 1, 1<<24 - 60, 1<<24 + 1} { // 16 MB and more
					if !y(fmt.Sprintf("m=%d,3", s)) {
						return
					}
				}
				for _, s := range z {
					for _, how := range []string{"", " chunk=1448", " chunk=65536", " cap=4096", " chunk=1 cap=1", " chunk=3 cap=5", " late"} {
						if s > 5000 && (strings.Contains(how, "cap=1") || strings.Contains(how, "cap=5")) || s > 1<<18 && strings.Contains(how, "1448") {
							continue
						}
						if !y(fmt.Sprintf("m=%d,3,%d%s", s, s, how)) {
							return
						}
					}
				}
			}, Run: exec},
			{Name: "pieces", Rule: "streams of several messages in pieces of every size up to their length, with every amount in flight up to 40", Gen: func(tier string, y func(string) bool) {
				for _, sp := range []string{"-,0,1,2,3,4,5", "30,0,30", "0x12"} {
					for k := 1; k <= streamLen(sp); k++ {
						if !y(fmt.Sprintf("m=%s chunk=%d", sp, k)) {
							return
						}
						for c := 1; c <= 40; c++ {
							if !y(fmt.Sprintf("m=%s chunk=%d cap=%d", sp, k, c)) {
								return
							}
						}
					}
				}
			}, Run: exec},
			{Name: "orders", Rule: "every order in which the pieces of three connections arrive, 7 choices (thorough: 9)", Gen: gen(ords([]string{"m=0,3;1,2;5,0 cut=3/13", "m=0,3;1,2;5,0 cut=4/8/12/16/20/24", "m=1,1,1;1,1;1 cut=1/2/3/4/5/15", "m=300,2;2,300;70000 cut=3"}, 7, 3)), Run: exec},
			{Name: "many messages", Rule: "more messages than the channels hold, to a receiver that reads at once or only when nothing else can happen, with little room in flight", Gen: func(tier string, y func(string) bool) {
				for _, n := range []int{1023, 1024, 1025, 1026, 2047, 2048, 2049, 2050, 3000, 5000} {
					for _, how := range []string{"", " late", " cap=100", " late cap=100", " cap=7 chunk=3", " late lifo"} {
						if !y(fmt.Sprintf("m=1x%d;2x%d%s", n, n/3, how)) {
							return
						}
					}
				}
			}, Run: exec},
			{Name: "receivers that start later", Rule: "a receiver that starts listening 1 to 100 seconds after the senders began, in several orders and pieces, with few messages and with more than the channels hold", Gen: func(tier string, y func(string) bool) {
				for _, t := range []int{1, 2, 3, 5, 10, 100} {
					for _, m := range []string{"0", "1,2;3", "-,3,-", "2,3,4;1;5,6", "1x1025;2", "1x3000;2x1500"} {
						for _, how := range []string{"", " lifo", " chunk=1", " cap=9", " chunk=7 cap=100", " hold=1", " ord=210210"} {
							if !y(fmt.Sprintf("m=%s up=%d%s", m, t, how)) {
								return
							}
						}
					}
				}
			}, Run: exec},
			{Name: "pauses", Rule: "pauses of 1 second to 11 days between the messages of a sender, or before the receiver takes each, in several orders and pieces, with little room in flight", Gen: func(tier string, y func(string) bool) {
				for _, t := range []int{1, 2, 4, 5, 6, 10, 14, 15, 20, 30, 31, 45, 59, 60, 61, 90, 120, 300, 600, 1000, 1800, 3600, 3601, 7200, 86400, 1000000} {
					for _, m := range []string{"0,0", "2,3,4", "2,-,3;1;5,6"} {
						for _, how := range []string{"", " lifo", " chunk=1", " cap=9", " chunk=7 cap=100", " late"} {
							if !y(fmt.Sprintf("m=%s gap=%d%s", m, t, how)) || !y(fmt.Sprintf("m=%s nap=%d%s", m, t, how)) || !y(fmt.Sprintf("m=%s gap=%d nap=%d%s", m, t, t+1, how)) {
								return
							}
						}
					}
				}
				for _, t := range []int{1, 10, 60, 3600} { // the last message waits behind a receiver that reads nothing for long
					for _, n := range []int{1000, 1024, 1026, 1100, 2200} {
						for _, c := range []int{1, 100, 5000} {
							if !y(fmt.Sprintf("m=1x%d;2 cap=%d up=%d", n, c, t)) || !y(fmt.Sprintf("m=1x%d;2 cap=%d late", n, c)) {
								return
							}
						}
					}
				}
			}, Run: exec},
			{Name: "preemptions", Rule: "one preemption at every scheduling point, of each kind (thorough: every pair)", Gen: gen(points([]string{"m=0,3,1;2,2", "m=0,3,1;2,2 chunk=5 cap=9", "m=1,1 late", "m=0,3;2 up=2"}, "yws")), Run: exec},
		}}
	})
	ex.Register("C15", func() *ex.Check {
		L := len(frame(payload(50, 0, 3))) + len(frame(payload(50, 1, 9)))
		rawGen := func(tier string, y func(string) bool) {
			for k := 0; k <= L; k++ {
				for _, end := range []string{"close", "open"} {
					for _, o := range []string{"", " lifo", " chunk=1", " chunk=3 lifo", " late", " cap=6", " hold=1", " hold=2", " hold=3"} {
						if !y(fmt.Sprintf("m=2,3,4;1 raw=%d/%s%s", k, end, o)) {
							return
						}
					}
				}
			}
		}
		return &ex.Check{Spaces: []ex.Space{
			{Name: "connections that break", Rule: "a connection that ends, or falls silent, after every number of bytes of two frames, while two others carry messages, in several orders", Gen: rawGen, Run: exec},
			{Name: "connections that break, orders", Rule: "the same for every order of the first 5 deliveries (thorough: 7)", Gen: func(tier string, y func(string) bool) {
				for k := 0; k <= L; k++ {
					if !ords([]string{fmt.Sprintf("m=2,3;1 cut=5/9 raw=%d/close", k)}, 5, 3)(tier, y) {
						return
					}
				}
			}, Run: exec},
			{Name: "connections that break, preemptions", Rule: "one preemption at every scheduling point, of each kind, for breaks at a few places", Gen: gen(points([]string{"m=2;1 raw=0/close", "m=2;1 raw=2/close", "m=2;1 raw=6/close", "m=2;1 raw=21/close"}, "yws")), Run: exec},
			{Name: "bytes that are no message", Rule: "every frame of up to 2 arbitrary bytes from an alphabet, and longer undecodable ones, then the end of the connection", Gen: func(tier string, y func(string) bool) {
				al := []string{"00", "01", "0a", "10", "18", "22", "7f", "80", "ff"}
				var bodies []string
				bodies = append(bodies, "")
				for _, a := range al {
					bodies = append(bodies, a)
					for _, b := range al {
						bodies = append(bodies, a+b)
						for _, c := range al {
							bodies = append(bodies, a+b+c)
						}
					}
				}
				bodies = append(bodies, strings.Repeat("ff", 40), strings.Repeat("0a", 64))
				for _, b := range bodies {
					for _, o := range []string{"", " lifo", " chunk=1"} {
						if !y(fmt.Sprintf("m=2,3;1 junk=%08x%s%s", len(b)/2, b, o)) {
							return
						}
						if !y(fmt.Sprintf("m=2,3;1 junk=%08x%s%s", len(b)/2+3, b, o)) {
							return
						}
					}
				}
			}, Run: exec},
			{Name: "several broken connections", Rule: "up to 40 connections that end, or fall silent, after every number of bytes, or carry bytes that are no message, while two others carry messages, in several orders", Gen: func(tier string, y func(string) bool) {
				for _, n := range []int{1, 2, 3, 5, 10, 40} {
					for k := 0; k <= L; k++ {
						for _, end := range []string{"close", "open"} {
							for _, o := range []string{"", " lifo", " gap=7", " up=3"} {
								if !y(fmt.Sprintf("m=2,3,4;1 raw=%d/%s more=%d%s", k, end, n, o)) {
									return
								}
							}
						}
					}
					for _, b := range []string{"", "00", "00000000", "00000001ff", "0000000108", "00000002ffff", "0000000aff", "00000028" + strings.Repeat("ff", 40)} {
						for _, o := range []string{"", " lifo", " gap=7", " up=3", " chunk=1"} {
							if !y(fmt.Sprintf("m=2,3,4;1 junk=%s more=%d%s", b, n, o)) {
								return
							}
						}
					}
				}
			}, Run: exec},
			{Name: "connections that cannot be accepted", Rule: "up to 20 attempts of a node to accept a connection fail, as without free file descriptors, from the first to the fifth on, with up to three connections that end or fall silent, in several orders", Gen: func(tier string, y func(string) bool) {
				for k := 1; k <= 5; k++ {
					for _, n := range []int{1, 2, 3, 10, 20} {
						for _, m := range []string{"2,3,4;1", "1;2;3;4", "1x1025;1"} {
							for _, w := range []string{"", " raw=0/close", " raw=9/open", " raw=9/close more=2", " junk=00000001ff"} {
								for _, o := range []string{"", " lifo", " gap=7", " late", " chunk=1"} {
									if len(m) > 8 && o != "" {
										continue
									}
									if !y(fmt.Sprintf("m=%s fds=%d/%d%s%s", m, k, n, w, o)) {
										return
									}
								}
							}
						}
					}
				}
			}, Run: exec},
			{Name: "announced lengths", Rule: "a frame that announces a length around every power of two from 2^9 to 2^27, or 2^31 or 2^32-1 (no byte following), of which no byte, one or 20 follow, in several orders, then the end of the connection", Gen: func(tier string, y func(string) bool) {
				var z []uint64
				for b := 9; b <= 27; b++ {
					z = append(z, 1<<b-1, 1<<b, 1<<b+1)
				}
				z = append(z, 1<<31-1, 1<<31, 1<<32-1)
				for _, n := range z {
					for _, b := range []string{"", "0a", strings.Repeat("0a", 20)} {
						for _, o := range []string{"", " lifo", " chunk=1"} {
							if n > 1<<28 && (b != "" || o != "") {
								continue
							}
							if !y(fmt.Sprintf("m=2,3;1 junk=%08x%s%s", n, b, o)) {
								return
							}
						}
					}
				}
			}, Run: func(plan string, trace bool) ex.Result {
				defer debug.FreeOSMemory()
				return exec(plan, trace)
			}},
			{Name: "peers that go away", Rule: "a peer that closes its connection after every number of bytes it read, while the same node sends to another peer; more messages than the channels hold", Gen: func(tier string, y func(string) bool) {
				for k := 0; k <= 60; k++ {
					for _, o := range []string{"", " lifo", " chunk=1", " chunk=7", " cap=8", " hold=1", " hold=2"} {
						if !y(fmt.Sprintf("m=2,3,4;1 dead=%d%s", k, o)) {
							return
						}
					}
				}
				for _, k := range []int{0, 1, 30, 2000, 20000} {
					for _, o := range []string{"", " lifo", " cap=64", " cap=1000"} {
						if !y(fmt.Sprintf("m=1x3000;1 dead=%d%s", k, o)) {
							return
						}
					}
				}
			}, Run: exec},
			{Name: "peers that stop reading", Rule: "a peer that keeps its connection open but reads nothing after every number of bytes, with little room in flight, while the same node sends to another peer; more messages than the channels hold", Gen: func(tier string, y func(string) bool) {
				for k := 0; k <= 60; k++ {
					for _, o := range []string{"", " lifo", " chunk=1", " chunk=7", " hold=1", " hold=2"} {
						for _, c := range []int{1, 8, 30} {
							if !y(fmt.Sprintf("m=2,3,4;1 stuck=%d cap=%d%s", k, c, o)) {
								return
							}
						}
					}
				}
				for _, n := range []int{1023, 1024, 1025, 1026, 2050, 3000, 5000} {
					for _, k := range []int{0, 1, 30, 2000, 20000} {
						for _, o := range []string{" cap=1", " cap=64", " lifo cap=1000", " cap=65536"} {
							if !y(fmt.Sprintf("m=1x%d;1 stuck=%d%s", n, k, o)) {
								return
							}
						}
					}
				}
			}, Run: exec},
			{Name: "peers that stop reading, preemptions", Rule: "one preemption at every scheduling point, of each kind", Gen: gen(points([]string{"m=2,3;1 stuck=0 cap=8", "m=2,3;1 stuck=12 cap=4"}, "yws")), Run: exec},
			{Name: "peers that are not there", Rule: "a peer that never listens, or starts to after 1 to 100 seconds, while the same node sends to another peer; up to more messages than the channels hold", Gen: func(tier string, y func(string) bool) {
				for _, t := range []int{0, 1, 2, 7, 100} {
					for _, m := range []string{"2;1", "2,3,4;1", "1x1023;1", "1x1025;1", "1x2050;1", "1x5000;1"} {
						for _, how := range []string{"", " lifo", " chunk=1", " cap=9", " hold=1", " up=1", " up=20"} {
							if !y(fmt.Sprintf("m=%s away=%d%s", m, t, how)) {
								return
							}
						}
					}
				}
			}, Run: exec},
			{Name: "peers that are not there, preemptions", Rule: "one preemption at every scheduling point, of each kind", Gen: gen(points([]string{"m=2,3;1 away=0", "m=2,3;1 away=2"}, "yws")), Run: exec},
			{Name: "peers that go away, preemptions", Rule: "one preemption at every scheduling point, of each kind", Gen: gen(points([]string{"m=2,3;1 dead=0", "m=2,3;1 dead=12", "m=2,3;1 dead=25"}, "yws")), Run: exec},
		}}
	})
}
