package party

import (
	"bytes"
	"context"
	"fmt"
	"strconv"
	"strings"

	"github.com/DyCAPSTeam/DyCAPS/pkg/core"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"github.com/DyCAPSTeam/DyCAPS/pkg/utils"
	kyberbls "github.com/drand/kyber-bls12381"
	"github.com/drand/kyber/sign/bls"
	"github.com/drand/kyber/sign/tbls"
	"golang.org/x/crypto/sha3"
	"google.golang.org/protobuf/proto"
	"verif.local/vs"
	"verif.local/vs/ex"
	"verif.local/vs/vcontext"
)

// ---- multi-valued agreement ----------------------------------------------------------

func (w *world) proposal(i int) []byte {
	return append([]byte(fmt.Sprintf("value of %d ", i)), bytes.Repeat([]byte{byte(i)}, i)...)
}

func (w *world) mvbaMain() {
	w.open(1, false)
	w.connect(1, false)
	for i := 0; i < w.N; i++ {
		i := i
		if w.silent[pid(1, i)] {
			continue
		}
		vs.GoAs(pid(1, i), "mvba", func() {
			v := MainProcess(w.com[1][i], []byte(w.id), w.proposal(i), nil)
			w.outs[pid(1, i)] = v
			w.mark("mvba", pid(1, i))
		})
	}
}

func mkMVBA(N, F int, plan string) *world {
	w := mkWorld(N, F, plan)
	w.outs = map[int][]byte{}
	if len(w.byz) > 0 {
		w.learn()
	}
	w.watch()
	return w
}

// signed is what the honest members sign in a round that must not go together.
type signed struct {
	no   map[int]bool            // signs that it has no lock
	echo map[int]map[uint32]bool // signs in the second step of a member's broadcast: it has a lock
	coin []byte                  // a coin share
}

// watch records what the honest members sign.
func (w *world) watch() {
	w.signed = map[string]*signed{}
	at := func(id []byte) *signed {
		if w.signed[string(id)] == nil {
			w.signed[string(id)] = &signed{no: map[int]bool{}, echo: map[int]map[uint32]bool{}}
		}
		return w.signed[string(id)]
	}
	w.onMessage(func(from, to int, m *protobuf.Message) {
		if from < 100 || from >= 100+w.N || int(m.Sender) != from-100 || w.byz[from] != nil {
			return
		}
		switch n := len(m.Id); m.Type {
		case "PreVote":
			var x protobuf.PreVote
			if proto.Unmarshal(m.Data, &x) == nil && !x.Vote {
				at(m.Id).no[from] = true
			}
		case "Echo":
			if n > 5 && m.Id[n-1] == 2 {
				s := at(m.Id[:n-5])
				if s.echo[from] == nil {
					s.echo[from] = map[uint32]bool{}
				}
				s.echo[from][utils.BytesToUint32(m.Id[n-5:n-1])] = true
			}
		case "Done":
			var x protobuf.Done
			if proto.Unmarshal(m.Data, &x) == nil {
				at(m.Id).coin = x.CoinShare
			}
		}
	})
}

// contradiction: an honest member signs both that it has no lock of the leader of a round and
// the second step of the leader's broadcast, which it may do with a lock only. The quorums
// for a decision and for its opposite then no longer exclude each other.
func (w *world) contradiction() string {
	for id, s := range w.signed {
		for m := range s.no {
			if len(s.echo[m]) == 0 || s.coin == nil {
				continue
			}
			msg := cat([]byte("Done"), []byte(id))
			if tbls.NewThresholdSchemeOnG1(kyberbls.NewBLS12381Suite()).VerifyPartial(keys(w.N, w.F, 1).pk, msg, s.coin) != nil {
				continue // the coin has another name: the leader is not known here
			}
			if s.echo[m][uint32(roundLeader(w.N, w.F, []byte(id)))] {
				return "an honest member signs for the value of the leader and signs that it has none: two decisions are possible"
			}
		}
	}
	return ""
}

// mvbaCheck: agreement and validity; live adds termination.
func (w *world) mvbaCheck(live bool) string {
	if c := w.honestCrash(); c != "" {
		return c
	}
	var first []byte
	for i := 0; i < w.N; i++ {
		id := pid(1, i)
		if w.faulty(id) || !w.done["mvba"][id] {
			continue
		}
		o := w.outs[id]
		if first == nil {
			first = append([]byte{1}, o...)
		} else if !bytes.Equal(first[1:], o) {
			return "honest members decide different values"
		}
		ok := false
		for j := 0; j < w.N; j++ {
			ok = ok || bytes.Equal(o, w.proposal(j)) || w.byz[pid(1, j)] != nil && bytes.Equal(o, other(w.proposal(j)))
		}
		if !ok {
			return "an honest member decides a value that nobody proposed"
		}
	}
	if c := w.contradiction(); c != "" {
		return c
	}
	if live {
		if u := w.unfinished("mvba", 1); len(u) > 0 {
			return fmt.Sprintf("%d honest members never decide", len(u))
		}
	}
	return ""
}

// other is the other value an equivocating member proposes.
func other(v []byte) []byte { return append([]byte("other "), v...) }

func mvba(N, F int, live bool) *scen {
	return &scen{name: fmt.Sprintf("mvba%d", N), N: N, F: F, make: mkMVBA, main: (*world).mvbaMain,
		check: func(w *world) string { return w.mvbaCheck(live) }}
}

// What a Byzantine member knows about the rounds, from the messages it gets.
type knowledge struct {
	noShares map[string][][]byte         // PreVote No shares, by round
	lock     map[string]*protobuf.Lock   // a locked value, by round
	noSig    map[string][]byte           // combined No signature, by round
	cert     map[string]*protobuf.Finish // finished value
	senders  map[string]map[uint32]bool
}

func (w *world) learn() {
	k := &knowledge{noShares: map[string][][]byte{}, lock: map[string]*protobuf.Lock{}, noSig: map[string][]byte{}, cert: map[string]*protobuf.Finish{}, senders: map[string]map[uint32]bool{}}
	w.know = k
	w.onMessage(func(from, to int, m *protobuf.Message) {
		if w.byz[to] == nil && w.byz[from-20000] == nil {
			return
		}
		r := string(m.Id)
		switch m.Type {
		case "PreVote":
			var x protobuf.PreVote
			if proto.Unmarshal(m.Data, &x) != nil {
				return
			}
			if x.Vote {
				k.lock[r] = &protobuf.Lock{Value: x.Value, Sig: x.Sig}
			} else {
				if k.senders[r] == nil {
					k.senders[r] = map[uint32]bool{}
				}
				if !k.senders[r][m.Sender] {
					k.senders[r][m.Sender] = true
					k.noShares[r] = append(k.noShares[r], x.Sig)
				}
			}
		case "Vote":
			var x protobuf.Vote
			if proto.Unmarshal(m.Data, &x) == nil {
				if x.Vote {
					k.lock[r] = &protobuf.Lock{Value: x.Value, Sig: x.Sig}
				} else {
					k.noSig[r] = x.Sig
				}
			}
		}
	})
}

func cat(bs ...[]byte) []byte { return bytes.Join(bs, nil) }

func (w *world) signShare(e, b int, msg []byte) []byte {
	s, err := tbls.NewThresholdSchemeOnG1(kyberbls.NewBLS12381Suite()).Sign(keys(w.N, w.F, e).sk[b], msg)
	if err != nil {
		panic(err)
	}
	return s
}

// mate is another deviating member of the committee than b.
func (w *world) mate(e, b int) int {
	for j := 0; j < w.N; j++ {
		if j != b && w.byz[pid(e, j)] != nil {
			return j
		}
	}
	return b
}

// copyShare gives a message of a deviating member the share of member o.
func (w *world) copyShare(m *protobuf.Message, e, o int) {
	switch m.Type {
	case "Done":
		m.Data, _ = proto.Marshal(&protobuf.Done{CoinShare: w.signShare(e, o, cat([]byte("Done"), m.Id))})
	case "PreVote":
		edit(&m.Data, new(protobuf.PreVote), func(x *protobuf.PreVote) {
			if !x.Vote {
				x.Sig = w.signShare(e, o, cat([]byte{0}, m.Id))
			}
		})
	case "Vote":
		edit(&m.Data, new(protobuf.Vote), func(x *protobuf.Vote) {
			if !x.Vote {
				x.Sigshare = w.signShare(e, o, cat([]byte("Unlock"), m.Id))
				return
			}
			h := sha3.Sum512(x.Value)
			for j := 0; j < w.N; j++ {
				idrj := cat(m.Id, u32(j))
				if verifyCert(keys(w.N, w.F, e), cat([]byte("Echo"), idrj, []byte{1}, h[:]), x.Sig) {
					x.Sigshare = w.signShare(e, o, cat([]byte("Echo"), idrj, []byte{2}, h[:]))
				}
			}
		})
	}
}

// lie rewrites a vote of Byzantine member b into another one that it can justify.
func (w *world) lie(m *protobuf.Message, op string, e, b int) {
	k := w.know
	r := string(m.Id)
	if k == nil {
		return
	}
	no := cat([]byte{0}, m.Id)
	if n := len(m.Id); m.Type == "Value" && n > 9 && m.Id[n-1] == 2 {
		edit(&m.Data, new(protobuf.Value), func(v *protobuf.Value) {
			if r := string(m.Id[:n-5]); k.lock[r] == nil {
				k.lock[r] = &protobuf.Lock{Value: v.Value, Sig: v.Validation}
			}
		})
	}
	switch op {
	case "prevno":
		if m.Type == "PreVote" {
			m.Data, _ = proto.Marshal(&protobuf.PreVote{Vote: false, Sig: w.signShare(e, b, no)})
		}
	case "prevyes":
		if l := k.lock[r]; m.Type == "PreVote" && l != nil {
			m.Data, _ = proto.Marshal(&protobuf.PreVote{Vote: true, Value: l.Value, Sig: l.Sig})
		}
	case "voteno":
		if m.Type != "Vote" {
			return
		}
		sig := k.noSig[r]
		if sig == nil {
			sh := append([][]byte{w.signShare(e, b, no)}, k.noShares[r]...)
			ks := keys(w.N, w.F, e)
			sig, _ = tbls.NewThresholdSchemeOnG1(kyberbls.NewBLS12381Suite()).Recover(ks.pk, no, sh, 2*w.F+1, w.N)
		}
		if sig != nil {
			m.Data, _ = proto.Marshal(&protobuf.Vote{Vote: false, Sig: sig, Sigshare: w.signShare(e, b, cat([]byte("Unlock"), m.Id))})
		}
	case "voteyes":
		// the leader's instance is the one the lock is for; its share signs the second step
		if l := k.lock[r]; m.Type == "Vote" && l != nil {
			h := sha3.Sum512(l.Value)
			for j := 0; j < w.N; j++ {
				idrj := cat(m.Id, u32(j))
				if verifyCert(keys(w.N, w.F, e), cat([]byte("Echo"), idrj, []byte{1}, h[:]), l.Sig) {
					m.Data, _ = proto.Marshal(&protobuf.Vote{Vote: true, Value: l.Value, Sig: l.Sig,
						Sigshare: w.signShare(e, b, cat([]byte("Echo"), idrj, []byte{2}, h[:]))})
				}
			}
		}
	case "val": // another value, in the first step only
		if m.Type == "Value" && len(m.Id) > 0 && m.Id[len(m.Id)-1] == 1 {
			edit(&m.Data, new(protobuf.Value), func(v *protobuf.Value) { v.Value = other(v.Value) })
		}
	case "val2": // in both steps
		if m.Type == "Value" {
			edit(&m.Data, new(protobuf.Value), func(v *protobuf.Value) { v.Value = other(v.Value) })
		}
	case "one": // the second step only to some
	case "om1", "om2": // a step of the provable broadcast withheld: see the tamperer
	}
}

// ownProof makes messages of a type speak for the member's own value, with the proofs of its own
// broadcast in the same round, whoever leads it.
func (w *world) ownProof(own map[string]*protobuf.Value, m *protobuf.Message, typ string, e, b int) (more []*protobuf.Message) {
	n := len(m.Id)
	if m.Type == "Value" && n > 9 && m.Id[n-1] == 2 {
		v := new(protobuf.Value)
		if proto.Unmarshal(m.Data, v) == nil {
			own[string(m.Id[:n-5])] = v
		}
	}
	if x := new(protobuf.Finish); m.Type == "Finish" && typ == "Halt" && proto.Unmarshal(m.Data, x) == nil {
		h := clone(m)
		h.Type = "Halt"
		h.Data, _ = proto.Marshal(&protobuf.Halt{Value: x.Value, Sig: x.Sig})
		more = append(more, h)
	}
	v := own[string(m.Id)]
	if v == nil || m.Type != typ {
		return
	}
	switch typ {
	case "PreVote":
		m.Data, _ = proto.Marshal(&protobuf.PreVote{Vote: true, Value: v.Value, Sig: v.Validation})
	case "Vote":
		m.Data, _ = proto.Marshal(&protobuf.Vote{Vote: true, Value: v.Value, Sig: v.Validation,
			Sigshare: w.signShare(e, b, voucher(cat(m.Id, u32(b), []byte{2}), v.Value))})
	}
	return
}

func u32(n int) []byte { return []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)} }

func verifyCert(ks keyset, msg, sig []byte) bool {
	return bls.NewSchemeOnG1(kyberbls.NewBLS12381Suite()).Verify(ks.pk.Commit(), msg, sig) == nil
}

// mvbaMutations are the deviations of a Byzantine member in the agreement.
func mvbaMutations() []string {
	var r []string
	for _, t := range []string{"Value", "Echo", "Finish", "Done", "Halt", "PreVote", "Vote"} {
		r = append(r, "omit."+t, "dup."+t, "sig."+t, "wrong."+t)
	}
	for _, t := range []string{"Echo", "Done", "PreVote", "Vote", "Finish"} {
		r = append(r, "replay."+t)
	}
	for _, t := range []string{"Finish", "Halt", "PreVote", "Vote"} {
		r = append(r, "empty."+t, "made."+t)
	}
	return append(r, "in.other", "val", "val2", "om2", "prevno", "prevyes", "voteno", "voteyes", "bogus.Halt", "mine.Halt", "mine.PreVote", "mine.Vote")
}

// destinations: every nonempty set of receivers.
func dests(N, b int) []string {
	var r []string
	for s := 1; s < 1<<uint(N); s++ {
		if s>>uint(b)&1 == 1 {
			continue
		}
		d := ""
		for j := 0; j < N; j++ {
			if s>>uint(j)&1 == 1 {
				d += strconv.Itoa(j)
			}
		}
		r = append(r, "@"+d)
	}
	return r
}

func byzSets(e, N int, bs []int, muts []string) genf {
	return func(tier string, y yieldf) bool {
		for _, b := range bs {
			for _, m := range muts {
				for _, d := range dests(N, b) {
					if !y(fmt.Sprintf("byz=%d/%d:%s%s", e, b, m, d)) {
						return false
					}
				}
			}
		}
		return true
	}
}

// byzSetPairs: two deviations, each towards a set of receivers.
func byzSetPairs(e, N int, bs []int, m1, m2 []string) genf {
	return func(tier string, y yieldf) bool {
		for _, b := range bs {
			for _, x := range m1 {
				for _, z := range m2 {
					if x == z {
						continue
					}
					for _, d := range dests(N, b) {
						for _, d2 := range dests(N, b) {
							if !y(fmt.Sprintf("byz=%d/%d:%s%s,%s%s", e, b, x, d, z, d2)) {
								return false
							}
						}
					}
				}
			}
		}
		return true
	}
}

// led are the first n instances whose first leader is member l.
func led(N, F, n, l int) genf {
	return func(tier string, y yieldf) bool {
		for i, k := 1, 0; i < 1000 && k < n; i++ {
			id := fmt.Sprintf("h%d", i)
			if leader(N, F, id) == l {
				k++
				if !y("id=" + id) {
					return false
				}
			}
		}
		return true
	}
}

func eachLeader(N, F int, g func(b int) genf) genf {
	var l []genf
	for b := 0; b < N; b++ {
		l = append(l, cross(led(N, F, 1, b), g(b)))
	}
	return seq(l...)
}

// leader is the leader of the first round.
func leader(N, F int, id string) int { return roundLeader(N, F, cat([]byte(id), u32(0))) }

// roundLeader is the leader of the round of that name.
func roundLeader(N, F int, round []byte) int {
	w := &world{N: N, F: F}
	msg := cat([]byte("Done"), round)
	var sh [][]byte
	for i := 0; i < 2*F+1; i++ {
		sh = append(sh, w.signShare(1, i, msg))
	}
	coin, err := tbls.NewThresholdSchemeOnG1(kyberbls.NewBLS12381Suite()).Recover(keys(N, F, 1).pk, msg, sh, 2*F+1, N)
	if err != nil {
		panic(err)
	}
	return int(utils.BytesToUint32(coin) % uint32(N))
}

// unfinished: the leader withholds the second step from two members, and its votes are not the same for all.
func unfinished(e, N int, votes []string) func(b int) genf {
	return func(b int) genf {
		var l []genf
		for _, d := range dests(N, b) {
			if len(d) == 3 {
				l = append(l, unfinishedTo(e, N, b, d[1:], votes))
			}
		}
		return seq(l...)
	}
}

func unfinishedTo(e, N, b int, few string, votes []string) genf {
	return func(tier string, y yieldf) bool {
		ds := dests(N, b)
		all := strings.TrimPrefix(ds[len(ds)-1], "@")
		for _, v := range votes {
			for _, d := range ds {
				rest := strings.Map(func(r rune) rune {
					if strings.ContainsRune(d, r) {
						return -1
					}
					return r
				}, all)
				for _, o := range []string{"", "omit.Vote", "omit.PreVote", "quit"} {
					if o != "" {
						if rest == "" {
							continue
						}
						o = "," + o + "@" + rest
					}
					for j := 0; j < N; j++ {
						for _, t := range []string{"PreVote", "Vote"} {
							p := fmt.Sprintf("byz=%d/%d:omit.Halt,om2@%s,%s%s%s", e, b, few, v, d, o)
							if j != b {
								p += fmt.Sprintf(" holdc=%s/*/%d", t, pid(e, j))
							} else if t == "Vote" {
								continue
							}
							first := p + " " + firstLast(e, b)[0]
							if !y(p) || !y(first) || !y(fmt.Sprintf("%s holdc=PreVote/*/%d", strings.Replace(first, "holdc=", "late=", 1), pid(e, b))) {
								return false
							}
						}
					}
				}
			}
		}
		return true
	}
}

// twoOfSeven: two members deviate in one way each.
func twoOfSeven(e, a, b int) genf {
	mu := []string{"omit.Value", "omit.Finish", "omit.Done", "omit.Vote", "sig.Done", "sig.Vote", "dup.Vote", "dup.Done", "copy.Done", "copy.PreVote", "copy.Vote", "val", "val2", "om2", "prevno", "prevyes", "voteno", "voteyes", "prevno,copy.PreVote", "voteno,copy.Vote", "prevno,voteno,copy.Vote", "om2,prevno", "om2,prevno,voteno", "omit.Halt", "bogus.Halt"}
	return func(tier string, y yieldf) bool {
		for _, x := range mu {
			for _, z := range mu {
				for _, d := range []string{"", "@023"} {
					if !y(fmt.Sprintf("byz=%d/%d:%s%s byz=%d/%d:%s", e, a, x, d, e, b, z)) {
						return false
					}
				}
			}
		}
		return true
	}
}

// byzSetsFirst: as byzSets, the messages of the member come first.
func byzSetsFirst(e, N int, muts []string) genf {
	return byzFirstOf(e, N, func(b int) genf { return byzSets(e, N, []int{b}, muts) })
}

func byzFirstOf(e, N int, g func(b int) genf) genf {
	return func(tier string, y yieldf) bool {
		for b := 0; b < N; b++ {
			if !g(b)(tier, func(p string) bool { return y(p + " " + firstLast(e, b)[0]) }) {
				return false
			}
		}
		return true
	}
}

// doubleVoter: the second step withheld from one set, no votes to two others.
func doubleVoter(e, N int) genf {
	return func(tier string, y yieldf) bool {
		for b := 0; b < N; b++ {
			ds := dests(N, b)
			for _, d := range ds {
				for _, d2 := range append([]string{""}, ds...) {
					for _, d3 := range append([]string{""}, ds...) {
						p := fmt.Sprintf("byz=%d/%d:om2%s", e, b, d)
						if d2 != "" {
							p += ",prevno" + d2
						}
						if d3 != "" {
							p += ",voteno" + d3
						}
						if !y(p) || !y(p+" "+firstLast(e, b)[0]) {
							return false
						}
					}
				}
			}
		}
		return true
	}
}

// missingVote: the second step withheld from one set, a no towards another one, no vote
// at all; the messages of the member come first and the vote of an honest one last.
func missingVote(e, N int) genf {
	return func(tier string, y yieldf) bool {
		for b := 0; b < N; b++ {
			for _, d := range dests(N, b) {
				for _, d2 := range append([]string{"!"}, dests(N, b)...) {
					p := fmt.Sprintf("byz=%d/%d:om2%s", e, b, d)
					if d2 != "!" {
						p += ",prevno" + d2
					}
					p += ",omit.Vote " + firstLast(e, b)[0]
					for j := 0; j < N; j++ {
						if j == b {
							continue
						}
						for _, t := range []string{"PreVote", "Vote"} {
							h := " " + cl("holdc", t, pid(e, j), -1)
							if !y(p+h) || !y(strings.Replace(p, " ", ",quit ", 1)+h) || t == "Vote" && !y(strings.Replace(p, ",omit.Vote ", ",quit ", 1)+h) {
								return false
							}
						}
					}
				}
			}
		}
		return true
	}
}

// withheld: every set of message types withheld from every set of receivers.
func withheld(e, N int, types []string) genf {
	return func(tier string, y yieldf) bool {
		for b := 0; b < N; b++ {
			for s := 1; s < 1<<uint(len(types)); s++ {
				for _, d := range dests(N, b) {
					var o []string
					for i, t := range types {
						if s>>uint(i)&1 == 1 {
							o = append(o, "omit."+t+d)
						}
					}
					p := fmt.Sprintf("byz=%d/%d:%s", e, b, strings.Join(o, ","))
					if !y(p) {
						return false
					}
					for j := 0; j < N; j++ { // one honest member hears the others late
						if j != b && !y(p+" "+cl("holdc", "*", -1, pid(e, j))) {
							return false
						}
					}
				}
			}
		}
		return true
	}
}

// overturn: the value of a deviating leader is locked by one member only, some decide on it
// and others see mixed votes, and the deviating member proposes another value in the next
// round. The news of a decision come late.
func overturn(e, N int, kind string) genf {
	return func(tier string, y yieldf) bool {
		for b := 0; b < N; b++ {
			h := 20000 + pid(e, b)
			for a := 0; a < N; a++ { // the only one to lock
				for s := 0; s < N; s++ { // gets a yes
					for k := 0; k < N; k++ { // its vote is late
						if a == b || s == b || k == b || k == s {
							continue
						}
						others := ""
						for j := 0; j < N; j++ {
							if j != b && j != a {
								others += strconv.Itoa(j)
							}
						}
						for _, more := range []string{"", ",omit.PreVote"} {
							p := fmt.Sprintf("byz=%d/%d:in.%s,om20@%s%s,voteyes@%d,omit.Halt", e, b, kind, others, more, s)
							if !y(strings.Join([]string{p, cl("prio", "*", h, -1), cl("late", "Halt", -1, -1),
								cl("holdc", "PreVote", pid(e, a), pid(e, b)), cl("holdc", "Vote", pid(e, k), -1)}, " ")) {
								return false
							}
						}
					}
				}
			}
		}
		return true
	}
}

// ownProofs: a member speaks for its own value, with the proofs of its own broadcast, towards
// everyone or one other member. The end of another member's broadcast comes late, to everyone or
// to one member, the news of a decision too or not.
func ownProofs(e, N int) genf {
	return func(tier string, y yieldf) bool {
		for b := 0; b < N; b++ {
			for _, mu := range []string{"mine.Halt@D", "mine.PreVote@D", "mine.Vote@D", "mine.PreVote@D,mine.Vote@D"} {
				for d := -1; d < N; d++ {
					for x := 0; x < N; x++ {
						for to := -1; to < N; to++ {
							if d == b || x == b || to == x {
								continue
							}
							p := fmt.Sprintf("byz=%d/%d:", e, b) + strings.ReplaceAll(mu, "@D", "@"+strconv.Itoa(d))
							if d < 0 {
								p = strings.ReplaceAll(p, "@-1", "")
							}
							at := to
							if to >= 0 {
								at = pid(e, to)
							}
							for _, t := range []string{"Finish", "Value"} {
								for _, l := range []string{"", " " + cl("late", "Halt", -1, -1)} {
									if !y(p + " " + cl("prio", "*", 20000+pid(e, b), -1) + " " + cl("holdc", t, pid(e, x), at) + l) {
										return false
									}
								}
							}
						}
					}
				}
			}
		}
		return true
	}
}

// slowSets: every set of slow links.
func (sc *scen) slowSets() genf {
	return func(tier string, y yieldf) bool {
		l := sc.facts().links
		for s := 1; s < 1<<uint(len(l)); s++ {
			var t []string
			for i := range l {
				if s>>uint(i)&1 == 1 {
					t = append(t, fmt.Sprintf("slow=%d/%d", l[i][0], l[i][1]))
				}
			}
			if !y(strings.Join(t, " ")) {
				return false
			}
		}
		return true
	}
}

// ---- provable broadcast ---------------------------------------------------------------

const pbID = "pb"

// pbState is one strong provable broadcast by member snd; members in script are Byzantine.
//
//	sender or impostor: per receiver and step  - nothing  A B value a, b (step 2: with the
//	certificate of it)  d a then b  x value a, damaged certificate  m value b, certificate of a
//	e value a, no certificate
//	receiver: per step  - nothing  v its share  w its share for b  g garbage  D its share thrice
type pbState struct {
	snd    int
	a, b   []byte
	imp    int // impostor, -1 none
	script map[int][2]string
	echo   map[int]map[string]map[string]bool // shares sent by a member, by instance
	locks  map[int]*protobuf.Lock
	ended  map[int]bool
	sent   *protobuf.Lock
	sentOK bool
	end    map[int]int // the part of a member is called off after so many messages to it (-1: when nothing moves)
	got    map[int]int
	called vs.Queue
}

var pbCerts = map[string][2][]byte{}

// certs are the certificates an honest broadcast of v by member snd gives.
func (w *world) certs(snd int, v []byte) [2][]byte {
	k := fmt.Sprint(w.N, w.F, snd, string(v))
	if c, ok := pbCerts[k]; ok {
		return c
	}
	ks := keys(w.N, w.F, 1)
	sch := tbls.NewThresholdSchemeOnG1(kyberbls.NewBLS12381Suite())
	h := sha3.Sum512(v)
	var c [2][]byte
	for s := 1; s <= 2; s++ {
		msg := cat([]byte("Echo"), []byte(pbID), []byte{byte(s)}, h[:])
		var sh [][]byte
		for i := 0; i < 2*w.F+1; i++ {
			sh = append(sh, w.signShare(1, i, msg))
		}
		c[s-1], _ = sch.Recover(ks.pk, msg, sh, 2*w.F+1, w.N)
	}
	pbCerts[k] = c
	return c
}

func (w *world) pbMain() {
	p := w.pb
	w.com[1] = make([]*HonestParty, w.N)
	ips, ports := w.ips(1)
	ks := keys(w.N, w.F, 1)
	for i := 0; i < w.N; i++ {
		i := i
		w.s.Net.SetHost(pid(1, i), ips[i])
		vs.As(pid(1, i), func() {
			if _, byz := p.script[i]; byz {
				core.MakeReceiveChannel(ports[i])
				return
			}
			w.com[1][i] = NewHonestParty(1, uint32(w.N), uint32(w.F), uint32(i), ips, ports, nil, nil, ks.pk, ks.sk[i])
			w.com[1][i].InitReceiveChannel()
		})
	}
	for i := 0; i < w.N; i++ {
		i := i
		if w.silent[pid(1, i)] {
			continue
		}
		if s, byz := p.script[i]; byz {
			vs.As(pid(1, i), func() { w.playPB(i, s) })
			continue
		}
		vs.As(pid(1, i), func() { w.com[1][i].InitSendChannel() })
	}
	for i := 0; i < w.N; i++ {
		i := i
		if w.silent[pid(1, i)] || w.com[1][i] == nil {
			continue
		}
		ctx, cancel := vcontext.WithCancel(context.Background())
		if k, ok := p.end[i]; ok {
			vs.GoAs(pid(1, i), "calls off", func() {
				for k >= 0 && p.got[i] < k {
					p.called.Wait("called off")
				}
				if k >= 0 {
					cancel()
				}
			})
			vs.GoAs(pid(1, i), "calls off", func() {
				vs.Sleep(1e9)
				cancel()
			})
		}
		vs.GoAs(pid(1, i), "spbreceiver", func() {
			v, sig, ok := SPBReceiver(ctx, w.com[1][i], uint32(p.snd), []byte(pbID))
			p.ended[i] = true
			if ok {
				p.locks[i] = &protobuf.Lock{Value: v, Sig: sig}
			}
		})
		if i == p.snd {
			vs.GoAs(pid(1, i), "spbsender", func() {
				v, sig, ok := SPBSender(ctx, w.com[1][i], []byte(pbID), p.a, []byte("why"))
				p.sent, p.sentOK = &protobuf.Lock{Value: v, Sig: sig}, ok
			})
		}
	}
}

// mate is another deviating member than i; honest, a member that does not deviate.
func (p *pbState) mate(i int) int {
	for j := 0; j < 100; j++ {
		if _, byz := p.script[j]; byz && j != i {
			return j
		}
	}
	return i
}

func (p *pbState) honest(N int) int {
	for j := N - 1; j >= 0; j-- {
		if _, byz := p.script[j]; !byz {
			return j
		}
	}
	return 0
}

func (w *world) playPB(i int, s [2]string) {
	p := w.pb
	ips, ports := w.ips(1)
	ca, cb := w.certs(p.snd, p.a), w.certs(p.snd, p.b)
	value := i == p.snd || i == p.imp
	k := 0
	for j := 0; j < w.N; j++ {
		if j == i {
			continue
		}
		if _, byz := p.script[j]; byz {
			continue
		}
		var ms []*protobuf.Message
		for st := 1; st <= 2; st++ {
			id := cat([]byte(pbID), []byte{byte(st)})
			put := func(v, val []byte) {
				d, _ := proto.Marshal(&protobuf.Value{Value: v, Validation: val})
				ms = append(ms, &protobuf.Message{Type: "Value", Id: id, Sender: uint32(i), Data: d})
			}
			share := func(sh []byte) {
				d, _ := proto.Marshal(&protobuf.Echo{Sigshare: sh})
				ms = append(ms, &protobuf.Message{Type: "Echo", Id: id, Sender: uint32(i), Data: d})
			}
			c := byte('-')
			if value && k < len(s[st-1]) {
				c = s[st-1][k]
			} else if !value && j == p.snd && len(s[st-1]) > 0 {
				c = s[st-1][0]
			}
			va, vb := ca[0], cb[0]
			if st == 1 {
				va, vb = nil, nil
			}
			sh := func(v []byte) []byte { return w.signShare(1, i, echoMsg(st, v)) }
			switch c {
			case 'A':
				put(p.a, va)
			case 'B':
				put(p.b, vb)
			case 'd':
				put(p.a, va)
				put(p.b, vb)
			case 'x':
				put(p.a, flip(va))
			case 'm':
				put(p.b, va)
			case 'e':
				put(p.a, nil)
			case 's': // a certificate of the other step
				put(p.a, ca[1])
			case 'v':
				share(sh(p.a))
			case 'w':
				share(sh(p.b))
			case 'g':
				share([]byte{0, byte(i), 1, 2, 3})
			case 'D':
				for n := 0; n < 3; n++ {
					share(sh(p.a))
				}
			case 'o': // shares of the other step
				share(w.signShare(1, i, echoMsg(3-st, p.a)))
			case 'c': // the share of another deviating member
				share(w.signShare(1, p.mate(i), echoMsg(st, p.a)))
			case 'C': // both
				share(sh(p.a))
				share(w.signShare(1, p.mate(i), echoMsg(st, p.a)))
			case 'i': // its own share as that of an honest member
				x := sh(p.a)
				share(append([]byte{0, byte(p.honest(w.N))}, x[2:]...))
			}
		}
		k++
		sc := core.MakeSendChannel(ips[j], ports[j])
		for _, m := range ms {
			vs.Send(sc, m)
		}
	}
}

func echoMsg(step int, v []byte) []byte {
	h := sha3.Sum512(v)
	return cat([]byte("Echo"), []byte(pbID), []byte{byte(step)}, h[:])
}

func mkPB(N, F int, plan string) *world {
	w := mkWorld(N, F, plan)
	p := &pbState{a: []byte("value a"), b: []byte("value b!"), imp: -1, script: map[int][2]string{}, echo: map[int]map[string]map[string]bool{},
		locks: map[int]*protobuf.Lock{}, ended: map[int]bool{}, end: map[int]int{}, got: map[int]int{}}
	w.pb = p
	for _, t := range w.rest {
		k, v := t, ""
		if i := strings.IndexByte(t, '='); i >= 0 {
			k, v = t[:i], t[i+1:]
		}
		switch k {
		case "snd":
			p.snd, _ = strconv.Atoi(v)
		case "imp":
			p.imp, _ = strconv.Atoi(v)
		case "end": // I/K
			f := strings.Split(v, "/")
			i, _ := strconv.Atoi(f[0])
			p.end[i], _ = strconv.Atoi(f[1])
		case "len":
			n, _ := strconv.Atoi(v)
			p.a = bytes.Repeat([]byte{7}, n)
		case "by": // I:STEP1/STEP2
			i := strings.IndexByte(v, ':')
			b, _ := strconv.Atoi(v[:i])
			f := strings.Split(v[i+1:], "/")
			p.script[b] = [2]string{f[0], f[1]}
		}
	}
	w.onMessage(func(from, to int, m *protobuf.Message) {
		if len(p.end) > 0 {
			p.got[to-100]++
			p.called.Wake()
		}
		if m.Type != "Echo" || from < 100 || from >= 200 {
			return
		}
		i := from - 100
		if p.echo[i] == nil {
			p.echo[i] = map[string]map[string]bool{}
		}
		if p.echo[i][string(m.Id)] == nil {
			p.echo[i][string(m.Id)] = map[string]bool{}
		}
		p.echo[i][string(m.Id)][string(m.Data)] = true
	})
	return w
}

// pbCheck: what strong provable broadcast promises.
func (w *world) pbCheck() string {
	p := w.pb
	ks := keys(w.N, w.F, 1)
	for _, c := range w.s.Crashes {
		if _, byz := p.script[c.Party-100]; !byz && !w.faulty(c.Party) {
			return fmt.Sprintf("honest member %d stopped: %.100s", c.Party, c.Reason)
		}
	}
	_, byzSnd := p.script[p.snd]
	for i, e := range p.echo {
		if _, byz := p.script[i]; byz {
			continue
		}
		for _, sh := range e {
			if len(sh) > 1 {
				return "an honest member signs two values in one provable broadcast"
			}
		}
	}
	called := func(i int) bool { _, ok := p.end[i]; return ok }
	for i := range p.end {
		if _, byz := p.script[i]; !byz && !p.ended[i] && !w.faulty(pid(1, i)) {
			return "a member whose part was called off still waits for the sender"
		}
	}
	certified := map[string]bool{}
	for i := 0; i < w.N; i++ {
		if _, byz := p.script[i]; byz || w.faulty(pid(1, i)) {
			continue
		}
		l := p.locks[i]
		if l == nil {
			if !byzSnd && !w.faulty(pid(1, p.snd)) && !called(p.snd) && !called(i) {
				return "an honest member does not lock the value of an honest sender"
			}
			continue
		}
		if !verifyCert(ks, echoMsg(1, l.Value), l.Sig) {
			return "an honest member locks a value without a certificate of it"
		}
		if !byzSnd && !bytes.Equal(l.Value, p.a) {
			return "an honest member locks another value than the honest sender's"
		}
		certified[string(l.Value)] = true
	}
	// shares of the second step only for a certified value of the sender
	for i, e := range p.echo {
		if _, byz := p.script[i]; byz {
			continue
		}
		for sh := range e[pbID+"\x02"] {
			if p.locks[i] == nil {
				return "an honest member signs the second step of a value that is not certified"
			}
			var x protobuf.Echo
			proto.Unmarshal([]byte(sh), &x)
			if tbls.NewThresholdSchemeOnG1(kyberbls.NewBLS12381Suite()).VerifyPartial(ks.pk, echoMsg(2, p.locks[i].Value), x.Sigshare) != nil {
				return "an honest member's second share is not for the value it locks"
			}
		}
	}
	if !byzSnd && !w.faulty(pid(1, p.snd)) {
		if !p.sentOK && called(p.snd) {
			return ""
		}
		if !p.sentOK {
			return "an honest sender gets no certificate"
		}
		if !bytes.Equal(p.sent.Value, p.a) || !verifyCert(ks, echoMsg(2, p.a), p.sent.Sig) {
			return "the certificate of an honest sender is not valid"
		}
	}
	return ""
}

func pb(N, F int) *scen {
	return &scen{name: fmt.Sprintf("pb%d", N), N: N, F: F, make: mkPB, main: (*world).pbMain, check: (*world).pbCheck}
}

func pbScripts(N, b int, pre, s1, s2 string) genf {
	return func(tier string, y yieldf) bool {
		return words(s1, N-1, func(p string) bool {
			return words(s2, N-1, func(e string) bool { return y(fmt.Sprintf("%sby=%d:%s/%s", pre, b, p, e)) })
		})
	}
}

func echoScripts(b int, s1, s2 string) genf {
	return func(tier string, y yieldf) bool {
		for _, x := range s1 {
			for _, z := range s2 {
				if !y(fmt.Sprintf("by=%d:%c/%c", b, x, z)) {
					return false
				}
			}
		}
		return true
	}
}

func init() {
	ex.Register("C10", func() *ex.Check {
		m4, m7 := mvba(4, 1, true), mvba(7, 2, true)
		mu := mvbaMutations()
		votes := []string{"empty.PreVote", "made.PreVote", "prevno", "prevyes", "voteno", "voteyes", "omit.PreVote", "omit.Vote", "replay.PreVote", "replay.Vote"}
		lead := []string{"om2", "val", "val2", "omit.Finish", "omit.Value", "omit.Halt"}
		return &ex.Check{Spaces: []ex.Space{
			space("agreement, holds", ruleHolds+" (thorough: every pair), with four coins, N=4", m4, cross(ids(4), seq(list("", "lifo"), m4.holds(), thorough(m4.holds2())))),
			space("agreement, slow links", "every set of slow links, N=4", m4, m4.slowSets()),
			space("agreement, slow links and coins", "every set of slow links, with three other coins, N=4", m4, thorough(cross(ids(3), m4.slowSets()))),
			space("agreement, pairs of classes", ruleClass2+", with two coins, N=4", m4, seq(m4.class2(), thorough(cross(ids(2), m4.class2())))),
			space("agreement, preemptions", rulePts+", N=4, every 4th point, kinds w, s", m4, m4.points("ws", 4)),
			space("late leader, preemptions", "the finished broadcast of the leader late for all or for one member, with one preemption at every scheduling point, kind s, every member as the first leader, N=4", m4, eachLeader(4, 1, func(b int) genf {
				var l []genf
				for _, to := range []int{-1, (b + 1) % 4} {
					if to >= 0 {
						to = pid(1, to)
					}
					l = append(l, cross(list(cl("holdc", "Finish", pid(1, b), to)), m4.points("s", 1)))
				}
				return seq(l...)
			})),
			space("Byzantine member", "every deviation of every member towards every set of receivers, N=4", m4, cross(byzSets(1, 4, []int{0, 1, 2, 3}, mu), list("", "id=h2"))),
			space("Byzantine member, first", "every deviation of every member, whose messages come first, towards every set of receivers, with four coins, N=4", m4, cross(byzSetsFirst(1, 4, mu), ids(4))),
			space("Byzantine leader and voter", "the broadcast withheld or equivocated and a vote turned, each towards every set of receivers, by every member as the first leader, its messages first or not, N=4", m4, eachLeader(4, 1, func(b int) genf {
				return cross(byzSetPairs(1, 4, []int{b}, lead, votes), list("", firstLast(1, b)[0]))
			})),
			space("Byzantine leader and double voter", "the second step of the broadcast withheld from one set of receivers, both votes turned into no towards another and a third one, by every member, its messages coming first or not, with three coins, N=4", m4,
				cross(doubleVoter(1, 4), ids(3))),
			space("value of a later round", "mixed votes in the first round (the value of the leader locked by one member, one decides on it, the others see a no) and another value of the deviating member in the next one, the news of a decision late, every assignment of the members, with 64 coins, N=4", m4, cross(ids(64), overturn(1, 4, "late"))),
			space("value of another broadcast", "the same, the other value being one that was locked in the first round in the broadcast of another member than the leader, with the proof of that, with 64 coins, N=4", m4, cross(ids(64), overturn(1, 4, "peer"))),
			space("proof of another broadcast", "a member claims its own value decided or locked, or votes for it, with the proofs of its own broadcast, towards everyone or one other member, its messages first, the first step or the end of the broadcast of another member late, to everyone or one member, the news of a decision late or not, with two coins, N=4", m4, cross(ids(2), ownProofs(1, 4))),
			space("unfinished leader", "the second step of the broadcast withheld from two members and the proof of its decision from all by every member as the first leader, a vote turned or copied towards one set of receivers and the votes withheld from the others, the messages of one type to one member late, those of the leader first or not, the leader voting after the others or not, N=4", m4, eachLeader(4, 1, unfinished(1, 4, []string{"prevno", "voteno", "voteyes", "replay.PreVote", "replay.Vote"}))),
			space("two Byzantine members of seven", "every pair of deviations of two members, the first one's towards everyone or three members, their messages first, last or in order, with coins that choose each of them or another one first, N=7", m7, cross(seq(led(7, 2, 1, 1), led(7, 2, 1, 4), led(7, 2, 1, 0)), cross(seq(twoOfSeven(1, 1, 4), thorough(twoOfSeven(1, 0, 6)), thorough(twoOfSeven(1, 5, 2))), list("", "prio=*/20101/* prio=*/20104/* prio=*/20100/* prio=*/20106/* prio=*/20105/* prio=*/20102/*", "holdc=*/20101/* holdc=*/20104/* holdc=*/20100/* holdc=*/20106/* holdc=*/20105/* holdc=*/20102/*")))),
			space("seven", "types held back or first, from one sender or to one receiver, N=7", m7, seq(list("", "lifo"), m7.types(), m7.halves(), cross(m7.silent(1), ids(4)))),
		}}
	})
	ex.Register("C11", func() *ex.Check {
		m4, m7 := mvba(4, 1, true), mvba(7, 2, true)
		return &ex.Check{Spaces: []ex.Space{
			space("silent member", ruleSilent+", crossed with the classes and 8 coins, N=4", m4, cross(ids(8), cross(m4.silent(1), seq(list("", "lifo"), m4.types(), m4.halves())))),
			space("silent member and slow links", ruleSilent+", crossed with every set of up to 3 slow links and two coins, N=4", m4, cross(ids(2), cross(m4.silent(1), m4.slow(3)))),
			space("stopping member", ruleCrash+", with 4 coins, in both delivery orders, N=4", m4, cross(ids(4), cross(m4.crashes(1, true), list("", "lifo")))),
			space("stopping member, types", ruleCrash+", crossed with each type held back or first, N=4", m4, cross(m4.crashes(1, false), m4.types())),
			space("silent member, preemptions", rulePts+", with a silent member and two coins, N=4, every 2nd point", m4, cross(ids(2), cross(m4.silent(1), m4.points("w", 2)))),
			space("withheld coin shares, preemptions", "the coin share of a member withheld from two others and its finished broadcast from the third, whose own comes late, crossed with "+rulePts+", N=4, kind s", m4, cross(list("byz=1/0:omit.Done@23,omit.Finish@1 holdc=Finish/101/101", "byz=1/1:omit.Done@03,omit.Finish@2 holdc=Finish/102/102", "byz=1/2:omit.Done@01,omit.Finish@3 holdc=Finish/103/103", "byz=1/3:omit.Done@12,omit.Finish@0 holdc=Finish/100/100"), m4.points("s", 1))),
			space("withheld messages", "every set of message types withheld by a member from every set of receivers, in the usual order and with the messages to one other member late, with two coins, N=4", m4, cross(ids(2), withheld(1, 4, []string{"Echo", "Finish", "Done", "PreVote", "Vote", "Halt"}))),
			space("withholding leader, missing vote", "the second step of the broadcast withheld from one set of receivers, a no towards another one and no vote, or nothing after the first round, the messages of the member first and a vote of an honest member last, with three coins, N=4", m4, cross(ids(3), missingVote(1, 4))),
			space("coins", "other coins, with a silent member, N=4", m4, cross(ids(64), seq(list("", "lifo"), m4.silent(1)))),
			space("seven", ruleSilent+", crossed with 4 coins and the types, N=7", m7, cross(ids(2), cross(m7.silent(1), seq(list("", "lifo"), thorough(m7.types()))))),
		}}
	})
	ex.Register("C12", func() *ex.Check {
		p4, p7 := pb(4, 1), pb(7, 2)
		at := func(b int) genf {
			return list("", fmt.Sprintf("prio=*/%d/*", pid(1, b)), fmt.Sprintf("holdc=*/%d/*", pid(1, b)))
		}
		return &ex.Check{Spaces: []ex.Space{
			space("honest, orders", ruleHolds+", and pairs; classes, slow links (3), preemptions at every point, N=4", p4, seq(list("", "lifo"), p4.holds(), p4.holds2(), p4.class1(), p4.slow(3), p4.points("ws", 1))),
			space("honest, silent receiver", ruleSilent+", crossed with holds, N=4, every sender", p4, cross(list("snd=0", "snd=1", "snd=2", "snd=3"), cross(p4.silentBut(), seq(list("", "lifo"), p4.holds())))),
			space("called off", "the part of a member called off after any number of messages to it or when nothing moves, every member; holds, classes and slow links (2); and with every script of a deviating sender, N=4", p4, calledOff(4, func(t string) genf {
				return cross(list(t), seq(list("", "lifo"), p4.holds(), p4.class1(), p4.slow(2)))
			})),
			space("lengths", "values of 0 to 130 bytes, N=4", p4, pbLengths(130)),
			space("Byzantine sender", "every script of values in both steps per receiver, in three delivery orders, N=4", p4, cross(pbScripts(4, 0, "", "-ABd", "-ABxmes"), at(0))),
			space("impostor", "every script of values in both steps of a member that is not the sender, in three delivery orders, N=4", p4, cross(list("snd=0", "snd=3"), cross(pbScripts(4, 2, "imp=2 ", "-ABd", "-ABxm"), at(2)))),
			space("Byzantine receiver", "every script of shares in both steps, every receiver, holds, N=4", p4, cross(seq(echoScripts(1, "-vwgDoi", "-vwgDoi"), echoScripts(2, "-vwgDoi", "-vwgDoi"), echoScripts(3, "-vwgDoi", "-vwgDoi")), seq(list("", "lifo"), p4.slow(2), list("prio=*/101/*", "prio=*/102/*", "prio=*/103/*")))),
			space("two Byzantine receivers of seven", "every script of shares in both steps of two receivers whose messages come first or last, N=7", p7, cross(cross(echoScripts(3, "-vwgDo", "vwgDoc"), echoScripts(5, "-vwgDocCi", "vwgDocCi")), list("", "prio=*/103/* prio=*/105/*", "holdc=*/103/* holdc=*/105/*"))),
		}}
	})
}

// silentBut: a receiver other than the sender of the plan is silent (the sender's own
// silence is a trivial case).
func (sc *scen) silentBut() genf { return sc.silent(1) }

// calledOff: the part of one member is called off.
func calledOff(N int, orders func(string) genf) genf {
	return func(tier string, y yieldf) bool {
		for i := 0; i < N; i++ {
			max := 2
			if i == 0 {
				max = 2*N + 2
			}
			for k := -1; k <= max; k++ {
				if !orders(fmt.Sprintf("end=%d/%d ", i, k))(tier, y) {
					return false
				}
				if i > 0 && !pbScripts(N, 0, fmt.Sprintf("end=%d/%d ", i, k), "-ABd", "-ABx")(tier, y) {
					return false
				}
			}
		}
		return true
	}
}

func pbLengths(n int) genf {
	return func(tier string, y yieldf) bool {
		for i := 0; i <= n; i++ {
			if !y(fmt.Sprintf("len=%d", i)) {
				return false
			}
		}
		return true
	}
}
