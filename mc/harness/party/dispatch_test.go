package party

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"

	"github.com/DyCAPSTeam/DyCAPS/pkg/core"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"github.com/DyCAPSTeam/DyCAPS/pkg/utils"
	"verif.local/vs"
	"verif.local/vs/ex"
)

// Queues of a member: the type and instance of a message. Several are confusable when the
// two are joined, compared by prefix, or read as text.
type queue struct{ typ, id string }

var queues = []queue{
	{"A", "B"}, {"AB", ""}, {"A", ""}, {"", "AB"}, {"A", "B\x00"}, {"A", "\xff"}, {"A", "\xfe"}, {"B", "B"},
}

// queueSets are larger families of queues, each used once or twice in one execution.
var queueSets = map[string]func() []queue{
	"suffix": func() (r []queue) { // every last byte, at several lengths
		for _, p := range []string{"", "mvba", "\x00\x00\x00"} {
			for c := 0; c < 256; c++ {
				r = append(r, queue{"A", p + string([]byte{byte(c)})})
			}
		}
		return append(r, queue{"A", ""}, queue{"A", "mvba"}, queue{"A", "\x00\x00\x00"})
	},
	"prefix": func() (r []queue) { // every first byte
		for _, p := range []string{"Z", "mvba", "\x00\x00\x00"} {
			for c := 0; c < 256; c++ {
				r = append(r, queue{"A", string([]byte{byte(c)}) + p})
			}
		}
		return append(r, queue{"A", "Z"}, queue{"A", "mvba"}, queue{"A", "\x00\x00\x00"})
	},
	"lengths": func() (r []queue) { // every length to 300, and lengths around powers of two
		for n := 0; n <= 300; n++ {
			r = append(r, queue{"A", strings.Repeat("i", n)}, queue{"A", strings.Repeat("i", n) + "\x01"}, queue{"A", "\x02" + strings.Repeat("i", n)})
		}
		for n := 512; n <= 65536; n *= 2 {
			r = append(r, queue{"A", strings.Repeat("i", n-1)}, queue{"A", strings.Repeat("i", n)}, queue{"A", strings.Repeat("i", n-1) + "k"})
		}
		return
	},
	"rounds": func() (r []queue) { // identifiers that differ in a number only
		for n := uint32(0); n < 300; n++ {
			r = append(r, queue{"A", "id" + string(utils.Uint32ToBytes(n))}, queue{"A", "id" + string(utils.Uint32ToBytes(n<<8|1))}, queue{"A", "id" + string(utils.Uint32ToBytes(n<<24|1))}, queue{"A", fmt.Sprint("id", n)})
		}
		return uniq(r)
	},
	"bits": func() (r []queue) { // identifiers that differ in one bit, one byte or the order of the bytes
		base := []byte("The identifier of an instance, 64 bytes and one in all, no more.")
		r = append(r, queue{"A", string(base)})
		for i := range base {
			for k := 0; k < 8; k++ {
				b := append([]byte{}, base...)
				b[i] ^= 1 << k
				r = append(r, queue{"A", string(b)})
			}
			b := append([]byte{}, base...)
			j := (i + 1) % len(b)
			b[i], b[j] = b[j], b[i]
			r = append(r, queue{"A", string(b)}, queue{"A", string(append(append([]byte{}, base[:i]...), base[j:]...))})
		}
		return uniq(r)
	},
	"types": func() (r []queue) { // every ASCII character at the ends of the type, cases and lengths, real types
		for c := 0; c < 128; c++ {
			ch := string([]byte{byte(c)})
			r = append(r, queue{ch, "i"}, queue{"T" + ch, "i"}, queue{ch + "T", "i"}, queue{"T", ch})
		}
		for n := 0; n <= 150; n++ {
			r = append(r, queue{strings.Repeat("t", n), "i"})
		}
		for _, t := range []string{"Echo", "Echo2", "echo", "ECHO", "Ready", "RBCEcho", "RBCReady", "RBCReady_0", "RBCReady_1", "RBCReady_10", "RBCPropose", "Commit", "NewCommit", "\u00e9", "e\u0301", "\u212a", "K", "\u00a0", "\ufeff", "\U0001f600"} {
			for _, i := range []string{"", "0", "i", "_", "Echo"} {
				r = append(r, queue{t, i})
			}
		}
		return uniq(r)
	},
}

func uniq(in []queue) (r []queue) {
	seen := map[queue]bool{}
	for _, q := range in {
		if !seen[q] {
			seen[q] = true
			r = append(r, q)
		}
	}
	return
}

// dispatch runs one member that receives messages for several queues:
//
//	q=DIGITS;DIGITS  per sender, the queues of its messages
//	ask=MODES        per queue: b read from the start, l read when nothing else can happen,
//	                 n never read
//	flood=Q/COUNT    the first sender sends COUNT messages for queue Q first
//	as=N             the senders are numbered from N on
//	same            the messages of a sender for a queue are equal
//	parts=A/K        the first sender pauses for two seconds after A messages; readers that
//	                 read late take K messages one second after the start and the rest later
//	set=NAME/ORDER   instead of q, one message for every queue of a set: f in order, r in
//	                 reverse, t all in order and again in reverse, by two senders for p
type dispatch struct {
	s    *vs.Sched
	qs   []queue
	seqs [][]int
	ask  string
	as   uint32
	same bool
	part [2]int
	sent map[int]map[int][]int // queue -> sender -> numbers
	got  map[int]map[int][]int
	bad  string
}

func parseDispatch(plan string) *dispatch {
	d, rest := vs.ParseDev(plan)
	x := &dispatch{s: vs.NewSched(d, 1), qs: queues, ask: "bbbbbbbb", as: 1, sent: map[int]map[int][]int{}, got: map[int]map[int][]int{}}
	x.s.OnState = ex.State
	x.s.MaxPoints = 3_000_000
	for _, t := range rest {
		k, v, _ := strings.Cut(t, "=")
		switch k {
		case "q":
			for _, f := range strings.Split(v, ";") {
				seq := []int{}
				for _, c := range f {
					seq = append(seq, int(c-'0'))
				}
				x.seqs = append(x.seqs, seq)
			}
		case "set":
			f := strings.Split(v, "/")
			x.qs = uniq(queueSets[f[0]]())
			up, down := []int{}, []int{}
			for q := range x.qs {
				up, down = append(up, q), append([]int{q}, down...)
			}
			x.seqs = map[string][][]int{"f": {up}, "r": {down}, "t": {append(append([]int{}, up...), down...)}, "p": {up, down}}[f[1]]
		case "ask":
			x.ask = v
		case "parts":
			fmt.Sscanf(v, "%d/%d", &x.part[0], &x.part[1])
		case "same":
			x.same = true
		case "as":
			n, _ := strconv.ParseUint(v, 10, 32)
			x.as = uint32(n)
		case "flood":
			f := strings.Split(v, "/")
			n, _ := strconv.Atoi(f[1])
			q, _ := strconv.Atoi(f[0])
			for ; n > 0; n-- {
				x.seqs[0] = append([]int{q}, x.seqs[0]...)
			}
		}
	}
	x.ask += strings.Repeat(x.ask[len(x.ask)-1:], len(x.qs))
	for q := range x.qs {
		x.sent[q], x.got[q] = map[int][]int{}, map[int][]int{}
	}
	return x
}

func (x *dispatch) main() {
	const ip = "10.0.0.1"
	x.s.Net.SetHost(1, ip)
	ks := keys(4, 1, 0)
	var p *HonestParty
	vs.As(1, func() {
		ips, ports := []string{ip, "10.0.0.2", "10.0.0.3", "10.0.0.4"}, []string{"8000", "8000", "8000", "8000"}
		p = NewHonestParty(0, 4, 1, 0, ips, ports, nil, nil, ks.pk, ks.sk[0])
		p.InitReceiveChannel()
	})
	parts := x.part != [2]int{}
	read := func(q int, late bool) {
		vs.GoAs(1, fmt.Sprint("reader", q), func() {
			if parts && late {
				vs.Sleep(1e9)
			}
			for k := 0; ; k++ {
				if parts && late && k == x.part[1] {
					vs.Sleep(3e9)
				}
				m := vs.Recv(p.GetMessage(x.qs[q].typ, []byte(x.qs[q].id)))
				n := -1
				if m != nil && len(m.Data) > 0 {
					n, _ = strconv.Atoi(string(m.Data))
				}
				if m == nil || m.Type != x.qs[q].typ || !bytes.Equal(m.Id, []byte(x.qs[q].id)) {
					x.bad = "a queue holds a message of another"
					return
				}
				i := int(m.Sender-x.as) + 1
				x.got[q][i] = append(x.got[q][i], n)
			}
		})
	}
	late := []int{}
	for q := range x.qs {
		switch x.ask[q] {
		case 'b':
			read(q, false)
		case 'l':
			late = append(late, q)
		}
	}
	for i, seq := range x.seqs {
		i, seq := i, seq
		for n, c := range seq {
			q := c
			if x.same {
				n = 0
			}
			x.sent[q][i+1] = append(x.sent[q][i+1], n)
		}
		vs.GoAs(10+i, "sender", func() {
			ch := core.MakeSendChannel(ip, "8000")
			for n, c := range seq {
				if parts && i == 0 && n == x.part[0] {
					vs.Sleep(2e9)
				}
				q := x.qs[c]
				if x.same {
					n = 0
				}
				vs.Send(ch, &protobuf.Message{Type: q.typ, Id: []byte(q.id), Sender: x.as + uint32(i), Data: []byte(strconv.Itoa(n))})
			}
		})
	}
	if parts {
		for _, q := range late {
			read(q, true)
		}
	} else if len(late) > 0 {
		x.s.AtQuiescence(func() {
			for _, q := range late {
				read(q, true)
			}
		})
	}
}

func execDispatch(plan string, trace bool) ex.Result {
	x := parseDispatch(plan)
	x.s.KeepTrace = trace
	x.s.Spawn(9999, "main", x.main)
	x.s.Run()
	v := x.bad
	var det []string
	for _, c := range x.s.Crashes {
		v = "the member stopped"
		det = append(det, c.Reason)
	}
	for q := range x.qs {
		if x.ask[q] == 'n' || v != "" {
			continue
		}
		for i := 1; i <= len(x.seqs); i++ {
			if a, b := fmt.Sprint(x.sent[q][i]), fmt.Sprint(x.got[q][i]); a != b {
				if v = "messages of a queue were lost, repeated or reordered"; len(x.got[q][i]) < len(x.sent[q][i]) {
					v = "a message did not reach its queue"
				}
				det = append(det, fmt.Sprintf("queue %q %q sender %d: %.200s, sent %.200s", x.qs[q].typ, x.qs[q].id, i, b, a))
			}
		}
	}
	return ex.Result{Viol: v, Detail: det, Transitions: x.s.Deliveries, Trace: x.s.Trace, Sig: x.s.StateHash() ^ ex.Hash(plan)}
}

// digits enumerates the strings of length n over the first k digits.
func digits(n, k int, f func(string) bool) bool {
	b := make([]byte, n)
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == n {
			return f(string(b))
		}
		for c := 0; c < k; c++ {
			b[i] = byte('0' + c)
			if !rec(i + 1) {
				return false
			}
		}
		return true
	}
	return rec(0)
}

func init() {
	ex.Register("C16", func() *ex.Check {
		sp := func(name, rule string, g genf) ex.Space {
			return ex.Space{Name: name, Rule: rule, Gen: func(t string, y func(string) bool) { g(t, y) }, Run: execDispatch}
		}
		all := "bbbbbbbb"
		lateAll := "llllllll"
		points := func(base, kinds string, pairs bool) genf {
			return func(tier string, y yieldf) bool {
				x := parseDispatch(base)
				x.s.Spawn(9999, "main", x.main)
				x.s.Run()
				for _, k := range kinds {
					for n := 1; n <= x.s.NPoints; n++ {
						if !y(fmt.Sprintf("%s pt=%d/%c", base, n, k)) {
							return false
						}
						if pairs || tier == "thorough" {
							for m := n + 1; m <= n+60 && m <= x.s.NPoints; m++ {
								if !y(fmt.Sprintf("%s pt=%d/%c pt=%d/%c", base, n, k, m, k)) {
									return false
								}
							}
						}
					}
				}
				return true
			}
		}
		return &ex.Check{Spaces: []ex.Space{
			sp("sequences", "every sequence of up to 4 messages (thorough: 5) of one sender over 8 confusable queues, read from the start or only in the end", func(tier string, y yieldf) bool {
				top := 4
				if tier == "thorough" {
					top = 5
				}
				for n := 1; n <= top; n++ {
					if !digits(n, 8, func(s string) bool { return y("q="+s+" ask="+all) && y("q="+s+" ask="+lateAll) }) {
						return false
					}
				}
				return true
			}),
			sp("equal messages", "every sequence of up to 5 messages over 3 queues, those for one queue being equal, from one sender or split over two, read from the start or in the end; 14 to 33 equal messages for one queue before that", func(tier string, y yieldf) bool {
				for n := 2; n <= 5; n++ {
					if !digits(n, 3, func(s string) bool {
						for _, a := range []string{all, lateAll} {
							if !y("same q="+s+" ask="+a) || !y("same q="+s[:n/2]+";"+s[n/2:]+" ask="+a) {
								return false
							}
						}
						return true
					}) {
						return false
					}
				}
				for c := 14; c <= 33; c++ {
					for _, a := range []string{all, lateAll} {
						if !y(fmt.Sprintf("same q=01;00 flood=0/%d ask=%s", c, a)) {
							return false
						}
					}
				}
				return true
			}),
			sp("instance identifiers", "families of 500 to 1000 message types and instance identifiers (every first and last byte, every length to 300, numbers, one differing bit, swapped bytes, letter cases, real types), every one of a family used in one execution, in 4 orders, read from the start or in the end", func(tier string, y yieldf) bool {
				for _, n := range []string{"suffix", "prefix", "lengths", "rounds", "bits", "types"} {
					for _, o := range "frtp" {
						for _, a := range []string{"b", "l"} {
							for _, d := range []string{"", " lifo"} {
								if !y(fmt.Sprintf("set=%s/%c ask=%s%s", n, o, a, d)) {
									return false
								}
							}
						}
					}
				}
				return true
			}),
			sp("reading times", "every way to read 5 queues from the start, late or never, for a sequence that uses all of them twice", func(tier string, y yieldf) bool {
				return digits(5, 3, func(s string) bool {
					a := strings.NewReplacer("0", "b", "1", "l", "2", "n").Replace(s)
					return y("q=0123401234;43210 ask="+a+"nnn") && y("q=0123401234;43210 lifo ask="+a+"nnn")
				})
			}),
			sp("sender numbers", "senders with numbers within and outside the committee up to 2^32-1, every pair of sequences of 2 messages over 3 queues, read from the start or in the end", func(tier string, y yieldf) bool {
				for _, as := range []uint32{0, 2, 3, 4, 5, 7, 15, 99, 255, 256, 65535, 1<<31 - 2, 1<<31 - 1, 1 << 31, 1<<32 - 2} {
					if !digits(4, 3, func(s string) bool {
						for _, a := range []string{all, lateAll} {
							if !y(fmt.Sprintf("q=%s;%s as=%d ask=%s", s[:2], s[2:], as, a)) {
								return false
							}
						}
						return true
					}) {
						return false
					}
				}
				return true
			}),
			sp("two senders", "every pair of sequences of 2 messages over 4 queues, every order of the first 4 deliveries", func(tier string, y yieldf) bool {
				return digits(4, 4, func(s string) bool {
					return digits(4, 2, func(o string) bool { return y("q=" + s[:2] + ";" + s[2:] + " ord=" + o) })
				})
			}),
			sp("preemptions", "one preemption at every scheduling point (thorough: two, up to 60 points apart), of each kind", seq(points("q=0120;10 ask=blbbbbbb", "yws", false), points("q=00;01", "yw", true))),
			sp("unread queues", "more messages for a queue than it holds, the queue being read never, late or from the start, with and without other messages for it behind", func(tier string, y yieldf) bool {
				for _, c := range []int{1, 14, 15, 16, 17, 18, 31, 32, 33, 48, 100, 1023, 1024, 1025, 1100, 2100, 5000} {
					for q := 0; q < 3; q++ {
						for _, m := range "nlb" {
							a := []byte(all)
							a[q] = byte(m)
							for _, s := range []string{"012", "12;012", ";12", "1;0;2"} {
								for _, o := range []string{"", " lifo", " slow=10/1"} {
									if !y(fmt.Sprintf("q=%s flood=%d/%d ask=%s%s", s, q, c, a, o)) {
										return false
									}
								}
							}
						}
					}
				}
				return true
			}),
			sp("queues read in parts", "more messages for a queue than it holds; some are read, then more arrive, then the rest is read: all numbers of messages around the size of the queue, 1 to 5 read (thorough: 20), 1 to 3 more arriving", func(tier string, y yieldf) bool {
				top := 5
				if tier == "thorough" {
					top = 20
				}
				for c := 14; c <= 36; c++ {
					for k := 1; k <= top; k++ {
						for _, m := range []string{"0", "00", "0010"} {
							for _, o := range []string{"", " lifo"} {
								if !y(fmt.Sprintf("q=%s;01 flood=0/%d parts=%d/%d ask=lbbbbbbb%s", m, c, c, k, o)) {
									return false
								}
							}
						}
					}
				}
				return true
			}),
			sp("queues read in parts, preemptions", "the same for some numbers of messages with one preemption at every scheduling point", seq(points("q=0;1 flood=0/17 parts=17/1 ask=lbbbbbbb", "ys", false), points("q=00;0 flood=0/18 parts=18/3 ask=lbbbbbbb", "ys", false))),
			sp("unread queues, preemptions", "one preemption at every scheduling point while a queue overflows and is read late", seq(points("q=01;10 flood=0/18 ask=lbbbbbbb", "yw", false), points("q=01;10 flood=0/19 ask=bbbbbbbb", "yws", false))),
		}}
	})
}
