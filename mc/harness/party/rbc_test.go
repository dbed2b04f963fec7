package party

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/DyCAPSTeam/DyCAPS/pkg/core"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"google.golang.org/protobuf/proto"
	"verif.local/vs"
	"verif.local/vs/ex"
)

const rbcID = "rbc_1,1"

// rbcState is one reliable broadcast: member prop proposes a, the members in script are
// Byzantine and send exactly what their script says.
type rbcState struct {
	prop    int
	a, b    *protobuf.Message
	script  map[int]script
	out     map[int][]byte
	instIDs []string
	excl    int
}

// script is what a Byzantine member sends, per receiver (every member but itself):
//
//   - nothing     A B  (part of) message a, b     x  the hash of a, a wrong shard
//     d  first the one of a, then the one of b       y  first x, then a
//     t T u  as x A B, N times
type script struct{ prop, echo, ready string }

type template struct {
	echo  map[int][]byte // by receiver
	ready map[int][]byte // by sender
	prop  []byte
}

var templates = map[string]*template{}

func mkMessage(n int, fill string) *protobuf.Message {
	d := make([]byte, n)
	for i := range d {
		switch fill {
		case "0":
		case "1":
			d[i] = 0xff
		case "z": // trailing zeros
			if i < n/2 {
				d[i] = byte(i + 1)
			}
		default:
			d[i] = byte(i*7 + 1)
		}
	}
	return &protobuf.Message{Type: "Test", Id: []byte("x"), Data: d}
}

// getTemplate records the honest messages of a broadcast of m.
func getTemplate(N, F int, m *protobuf.Message) *template {
	k := fmt.Sprint(N, F, m.Type, m.Data)
	if t := templates[k]; t != nil {
		return t
	}
	d, _ := vs.ParseDev("")
	w := newWorld(N, F, d, 1)
	w.rbc = &rbcState{a: m, script: map[int]script{}, out: map[int][]byte{}, excl: -1}
	t := &template{echo: map[int][]byte{}, ready: map[int][]byte{}}
	w.onMessage(func(from, to int, x *protobuf.Message) {
		switch x.Type {
		case "RBCPropose":
			t.prop = x.Data
		case "RBCEcho":
			t.echo[to] = x.Data
		case "RBCReady":
			t.ready[from] = x.Data
		}
	})
	w.run(func() { w.rbcMain() }, false)
	// what a member sends to itself does not cross the network
	for i := 0; i < N; i++ {
		if t.ready[i] == nil {
			panic("template: no ready message")
		}
	}
	templates[k] = t
	return t
}

func (w *world) rbcMain() {
	r := w.rbc
	w.com[0] = make([]*HonestParty, w.N)
	ips, ports := w.ips(0)
	ks := keys(w.N, w.F, 0)
	for i := 0; i < w.N; i++ {
		i := i
		w.s.Net.SetHost(i, ips[i])
		vs.As(i, func() {
			if _, byz := r.script[i]; byz {
				core.MakeReceiveChannel(ports[i])
				return
			}
			w.com[0][i] = NewHonestParty(0, uint32(w.N), uint32(w.F), uint32(i), ips, ports, nil, nil, ks.pk, ks.sk[i])
			w.com[0][i].InitReceiveChannel()
		})
	}
	for i := 0; i < w.N; i++ {
		i := i
		s, byz := r.script[i]
		if w.silent[i] {
			continue
		}
		if byz {
			w.playScript(i, s)
			continue
		}
		vs.As(i, func() { w.com[0][i].InitSendChannel() })
	}
	for i := 0; i < w.N; i++ {
		i := i
		if w.silent[i] || w.com[0][i] == nil {
			continue
		}
		vs.GoAs(i, "receive", func() {
			m := w.com[0][i].RBCReceive([]byte(rbcID))
			if m == nil {
				r.out[i] = []byte("nil")
				return
			}
			r.out[i], _ = proto.MarshalOptions{Deterministic: true}.Marshal(m)
		})
		if i == r.prop {
			vs.GoAs(i, "propose", func() {
				if r.excl >= 0 {
					w.com[0][i].RBCSendExclude(r.a, []byte(rbcID), uint32(r.excl))
				} else {
					w.com[0][i].RBCSend(r.a, []byte(rbcID))
				}
			})
		}
	}
}

func flipEcho(b []byte) []byte {
	edit(&b, new(protobuf.RBCEcho), func(x *protobuf.RBCEcho) { x.M = flip(x.M) })
	return b
}
func flipReady(b []byte) []byte {
	edit(&b, new(protobuf.RBCReady), func(x *protobuf.RBCReady) { x.M = flip(x.M) })
	return b
}

func (w *world) playScript(i int, s script) {
	r := w.rbc
	A, B := getTemplate(w.N, w.F, r.a), getTemplate(w.N, w.F, r.b)
	ips, ports := w.ips(0)
	vs.As(i, func() {
		k := 0
		for j := 0; j < w.N; j++ {
			if j == i {
				continue
			}
			if _, byz := r.script[j]; byz {
				k++
				continue
			}
			var ms []*protobuf.Message
			add := func(typ, str string, a, b []byte, x func([]byte) []byte) {
				if k >= len(str) {
					return
				}
				m := func(d []byte) {
					ms = append(ms, &protobuf.Message{Type: typ, Id: []byte(rbcID), Sender: uint32(i), Data: d})
				}
				switch str[k] {
				case 'A':
					m(a)
				case 'B':
					m(b)
				case 'd':
					m(a)
					m(b)
				case 'x':
					m(x(a))
				case 'y':
					m(x(a))
					m(a)
				case 't', 'T', 'u': // as often as there are members
					for l := 0; l < w.N; l++ {
						switch str[k] {
						case 't':
							m(x(a))
						case 'T':
							m(a)
						default:
							m(b)
						}
					}
				}
			}
			add("RBCPropose", s.prop, A.prop, B.prop, func(b []byte) []byte { return append(append([]byte{}, b...), 0) })
			add("RBCEcho", s.echo, A.echo[j], B.echo[j], flipEcho)
			add("RBCReady", s.ready, A.ready[i], B.ready[i], flipReady)
			k++
			sc := core.MakeSendChannel(ips[j], ports[j])
			for _, m := range ms {
				vs.Send(sc, m)
			}
		}
	})
}

func mkRBC(N, F int, plan string) *world {
	w := mkWorld(N, F, plan)
	r := &rbcState{a: mkMessage(11, ""), b: mkMessage(13, "1"), script: map[int]script{}, out: map[int][]byte{}, excl: -1}
	w.rbc = r
	n, fill, bare := -1, "", false
	for _, t := range w.rest {
		k, v := t, ""
		if i := strings.IndexByte(t, '='); i >= 0 {
			k, v = t[:i], t[i+1:]
		}
		switch k {
		case "prop":
			r.prop, _ = strconv.Atoi(v)
		case "excl":
			r.excl, _ = strconv.Atoi(v)
		case "len":
			n, _ = strconv.Atoi(v)
		case "fill":
			fill = v
		case "bare": // nothing but data
			bare = true
		case "empty":
			r.a = &protobuf.Message{}
		case "by": // I:PROP/ECHO/READY
			i := strings.IndexByte(v, ':')
			b, _ := strconv.Atoi(v[:i])
			f := strings.Split(v[i+1:], "/")
			r.script[b] = script{f[0], f[1], f[2]}
		}
	}
	if n >= 0 {
		r.a = mkMessage(n, fill)
		if bare {
			r.a = &protobuf.Message{Data: r.a.Data}
		}
	}
	if len(r.script) > 0 {
		getTemplate(N, F, r.a)
		getTemplate(N, F, r.b)
		// the templates ran under schedulers of their own
		x := mkWorld(N, F, plan)
		x.rbc, x.rest = r, w.rest
		w = x
	}
	return w
}

func (w *world) rbcCheck() string {
	r := w.rbc
	for _, c := range w.s.Crashes {
		if _, byz := r.script[c.Party]; !byz && !w.faulty(c.Party) {
			return fmt.Sprintf("honest member %d stopped: %.100s", c.Party, c.Reason)
		}
	}
	a, _ := proto.MarshalOptions{Deterministic: true}.Marshal(r.a)
	b := []byte("none")
	if r.b != nil {
		b, _ = proto.MarshalOptions{Deterministic: true}.Marshal(r.b)
	}
	honest, outs := 0, 0
	first := -1
	_, byzProp := r.script[r.prop]
	for i := 0; i < w.N; i++ {
		if _, byz := r.script[i]; byz || w.faulty(i) {
			continue
		}
		honest++
		o, ok := r.out[i]
		if !ok {
			continue
		}
		outs++
		if !byzProp && string(o) != string(a) {
			return "an honest member outputs another message than the honest proposer's"
		}
		if string(o) != string(a) && string(o) != string(b) {
			return "an honest member outputs a message that was not proposed"
		}
		if first >= 0 && string(o) != string(r.out[first]) {
			return "honest members output different messages"
		}
		if first < 0 {
			first = i
		}
	}
	if outs > 0 && outs < honest {
		return fmt.Sprintf("%d of %d honest members output the message, the others never do", outs, honest)
	}
	if outs == 0 && !byzProp && !w.faulty(r.prop) {
		return "the message of an honest proposer is never output"
	}
	return ""
}

func rbc(N, F int) *scen {
	return &scen{name: fmt.Sprintf("rbc%d", N), N: N, F: F, make: mkRBC, main: (*world).rbcMain, check: (*world).rbcCheck}
}

// words yields all strings of length n over an alphabet.
func words(alpha string, n int, y func(string) bool) bool {
	if n == 0 {
		return y("")
	}
	for _, c := range alpha {
		if !words(alpha, n-1, func(s string) bool { return y(string(c) + s) }) {
			return false
		}
	}
	return true
}

// scripts: Byzantine member b of N with every script over the alphabets.
func scripts(N, b int, prop, echo, ready string) genf {
	return func(tier string, y yieldf) bool {
		return words(prop, N-1, func(p string) bool {
			return words(echo, N-1, func(e string) bool {
				return words(ready, N-1, func(r string) bool { return y(fmt.Sprintf("by=%d:%s/%s/%s", b, p, e, r)) })
			})
		})
	}
}

// uniform: the same for each receiver of the first half and of the second half.
func halvesOf(alpha string, n int) []string {
	var r []string
	for _, a := range alpha {
		for _, b := range alpha {
			for c := 1; c < n; c++ {
				if a == b && c > 1 {
					continue
				}
				r = append(r, strings.Repeat(string(a), c)+strings.Repeat(string(b), n-c))
			}
		}
	}
	return r
}

// two Byzantine members of N with the same two-valued scripts.
func scripts2(N, b1, b2 int, prop, echo, ready string) genf {
	return func(tier string, y yieldf) bool {
		for _, p := range halvesOf(prop, N-1) {
			for _, e := range halvesOf(echo, N-1) {
				for _, r := range halvesOf(ready, N-1) {
					if !y(fmt.Sprintf("by=%d:%s/%s/%s by=%d:/%s/%s", b1, p, e, r, b2, e, r)) {
						return false
					}
				}
			}
		}
		return true
	}
}

func lengths(max int) genf {
	return func(tier string, y yieldf) bool {
		for n := 0; n <= max; n++ {
			for _, f := range []string{"", "0", "1", "z"} {
				if !y(fmt.Sprintf("len=%d fill=%s", n, f)) {
					return false
				}
			}
		}
		return true
	}
}

// pairs of single messages delivered last.
func (sc *scen) holds2() genf {
	return func(tier string, y yieldf) bool {
		n := sc.facts().sends
		for s := 1; s <= n; s++ {
			for t := s + 1; t <= n; t++ {
				if !y(fmt.Sprintf("hold=%d,%d", s, t)) {
					return false
				}
			}
		}
		return true
	}
}

func (sc *scen) holds3() genf {
	return func(tier string, y yieldf) bool {
		n := sc.facts().sends
		for s := 1; s <= n; s++ {
			for t := s + 1; t <= n; t++ {
				for u := t + 1; u <= n; u++ {
					if !y(fmt.Sprintf("hold=%d,%d,%d", s, t, u)) {
						return false
					}
				}
			}
		}
		return true
	}
}

func init() {
	ex.Register("C09", func() *ex.Check {
		r4, r7, r10 := rbc(4, 1), rbc(7, 2), rbc(10, 3)
		first, last := "prio=*/%d/* ", "holdc=*/%d/* "
		at := func(b int, fs ...string) genf {
			l := []string{""}
			for _, f := range fs {
				l = append(l, strings.TrimSpace(fmt.Sprintf(f, b)))
			}
			return list(l...)
		}
		return &ex.Check{Spaces: []ex.Space{
			space("honest members, holds", ruleHolds+", and every pair (thorough: triple), N=4", r4, seq(list("", "lifo"), r4.holds(), r4.holds2(), thorough(r4.holds3()))),
			space("honest members, classes", ruleClass+", and pairs of classes, N=4", r4, seq(r4.class1(), r4.class2())),
			space("honest members, slow links", ruleSlow+" (3), N=4", r4, r4.slow(3)),
			space("honest members, preemptions", rulePts+", N=4, every point, kinds w, s", r4, cross(r4.points("ws", 1), list("", "lifo"))),
			space("proposer stopping", ruleCrash+", in both delivery orders, N=4", r4, cross(r4.crashes(0, true), list("", "lifo"))),
			space("proposer sparing one member", "the proposal is not sent to one member, each message held back, N=4", r4, cross(list("excl=1", "excl=2", "excl=3"), seq(list("", "lifo"), r4.holds()))),
			space("lengths", "payloads of 0 to 80 bytes with four fillings, and the empty message, N=4, F silent", r4, cross(seq(lengths(80), list("empty")), list("", "silent=0/3"))),
			space("short messages", "messages of nothing but data of 0 to 20 bytes with four fillings, N=4, one silent", r4, cross(lengths(20), list("bare", "bare silent=0/3", "bare silent=0/1"))),
			space("short messages of seven", "the same, N=7", r7, cross(lengths(20), list("bare", "bare silent=0/3 silent=0/5"))),
			space("Byzantine proposer", "every script of proposals, echoes, ready messages of the proposer per receiver over nothing, message A, message B, N=4, in three delivery orders", r4,
				cross(scripts(4, 0, "-AB", "-AB", "-AB"), at(0, first, last))),
			space("Byzantine proposer, wrong shards", "as above, with wrong shards, N=4", r4,
				seq(scripts(4, 0, "AB", "-Ax", "-Ax"), thorough(cross(scripts(4, 0, "-ABd", "-ABx", "-ABxd"), at(0, last))))),
			space("Byzantine member", "every script of echoes and ready messages of another member, N=4, in three delivery orders", r4,
				cross(seq(scripts(4, 1, "-", "-ABxd", "-ABx"), scripts(4, 3, "-", "-ABx", "-Axy")), at(1, first, last))),
			space("messages repeated", "scripts of a member, or of the proposer, that repeats its echoes and ready messages, N=4, in three delivery orders", r4,
				seq(cross(scripts(4, 1, "-", "-AtTu", "ATu"), at(1, first, last)), cross(scripts(4, 0, "AB", "Atu", "ATu"), at(0, first, last)))),
			space("Byzantine member and slow links", "two-valued scripts of another member, single slow links, N=4", r4,
				cross(seq(scriptsHalves(4, 1, "-Bx"), thorough(scriptsHalves(4, 3, "-ABx"))), r4.slow(1))),
			space("two Byzantine members of seven", "the proposer and another member with the same two-valued scripts, N=7", r7,
				seq(scripts2(7, 0, 4, "-AB", "AB", "AB"), scripts2(7, 0, 4, "AB", "Ax", "Ax"), thorough(scripts2(7, 0, 4, "-AB", "-ABx", "-ABx")))),
			space("two Byzantine non-proposers of seven", "two-valued scripts, N=7", r7, seq(scripts2(7, 2, 5, "-", "-Bx", "-Bx"), thorough(scripts2(7, 2, 5, "-", "-ABxd", "-ABxd")))),
			space("seven and ten, honest", "types held back or first, silent members, N=7, 10", r7, seq(list("", "lifo"), r7.types(), r7.halves(), r7.silent(0))),
			space("ten, honest", "silent members, N=10", r10, seq(list("", "lifo"), r10.silent(0))),
		}}
	})
}

func scriptsHalves(N, b int, alpha string) genf {
	return func(tier string, y yieldf) bool {
		for _, e := range halvesOf(alpha, N-1) {
			for _, r := range halvesOf(alpha, N-1) {
				if !y(fmt.Sprintf("by=%d:/%s/%s", b, e, r)) {
					return false
				}
			}
		}
		return true
	}
}
