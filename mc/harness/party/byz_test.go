package party

import (
	"bytes"
	"fmt"
	"math/big"
	"strconv"
	"strings"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"google.golang.org/protobuf/proto"
)

// What a Byzantine party does to the messages its honest code sends.  A mutation is
// OP[.ARG][@DESTS]: OP names the change, DESTS the receivers it is applied to (digits, all
// by default).  The messages stay well formed and carry the true sender.
//
//	omit.T dup.T            message type T not sent, sent twice
//	sig.T                   signature (share) damaged
//	copy.T                  the share of the other deviating member instead of its own
//	replay.T                the payload of another party's message of the same instance
//	empty.T made.T          no value, an invented value, without proof
//	hash.T shard.T          hash or shard of an RBCEcho/RBCReady damaged
//	f0                      refresh polynomial with F(0) != 0, otherwise consistent
//	cb.k cbr.k              commitment k not Z*g^F (cbr: with the matching evaluation)
//	q0.k                    Q_k(0) != F(k), otherwise consistent
//	z0.k gf.k wz.k          Z_k(0) != 0, g^F(k), witness damaged
//	swap.k                  entries k and k+1 of the commitment exchanged
//	rsv.k rsw.k             evaluation, witness k of a Reshare damaged
//	cbp.k q0p.k gfp.k       B_k, also with Z_k or F(k), and B_k+1 in opposite directions,
//	rsvp.k                  with or only in the evaluations
//	rcv.j rcw.j rci.j       value, witness, index of the Recover message about dealer j
//	rcs                     signature share of another member in a Recover message
//	rca                     the first Recover message sent about every dealer, itself included
//	nc ncsd nc0             new commitment wrong (ncsd: with the matching evaluations; nc0: of
//	                        the zero polynomial, with matching evaluations and witnesses)
//	sdv sdw                 value, witness of a ShareDist damaged
//	flood.T stray.T         40 copies of messages of type T, of another instance
//	ghost.T                 messages of type T sent again under numbers no member has
//	early.T bogus.T         a message of type T with an empty payload sent first
//	perm                    another order of the proposal to agree on
//	mine.T                  Halt, PreVote or Vote for the member's own value, with the proof
//	                        of its own broadcast
//	in.*                    another proposal to agree on, see forge
//	prep.k                  commitment k of a Prepare wrong
//	sr.cvw sr.v sr.w sr.c   ShareReduce: consistent but wrong, value, witness, commitment
//	sr.same                 ShareReduce: a constant, valid for every sender
//	vs.*                    VSSSend, see vssMutate
//	mal.*                   a malformed field, see malform
type mutation struct {
	op, arg string
	dest    string
	n       int
}

func parseMut(s string) mutation {
	var m mutation
	if i := strings.IndexByte(s, '@'); i >= 0 {
		s, m.dest = s[:i], s[i+1:]
	}
	if i := strings.IndexByte(s, '.'); i >= 0 {
		s, m.arg = s[:i], s[i+1:]
		m.n, _ = strconv.Atoi(m.arg)
	}
	m.op = s
	return m
}

func clone(m *protobuf.Message) *protobuf.Message { return proto.Clone(m).(*protobuf.Message) }

// addP adds d*G to a compressed point, addS adds d to a serialized field element.
func addP(b []byte, d int64) []byte {
	p, err := bls.FromCompressedG1(b)
	if err != nil {
		return b
	}
	q := g1(new(big.Int).Mod(big.NewInt(d), qq))
	var r bls.G1Point
	bls.AddG1(&r, p, &q)
	return bls.ToCompressedG1(&r)
}
func addS(b []byte, d int64) []byte {
	var a [32]byte
	copy(a[:], b)
	var x bls.Fr
	bls.FrFrom32(&x, a)
	y := bf(addq(fb(&x), big.NewInt(d)))
	a = bls.FrTo32(&y)
	return append([]byte{}, a[:]...)
}
func flip(b []byte) []byte {
	b = append([]byte{}, b...)
	if len(b) > 0 {
		b[len(b)-1] ^= 1
	}
	return b
}

func edit[T proto.Message](data *[]byte, x T, f func(T)) {
	if proto.Unmarshal(*data, x) != nil {
		return
	}
	f(x)
	*data, _ = proto.Marshal(x)
}

// inner edits the message proposed in a broadcast, when it has the given type.
func inner(m *protobuf.Message, typ string, f func(in *protobuf.Message)) {
	if m.Type != "RBCPropose" {
		return
	}
	edit(&m.Data, new(protobuf.Message), func(in *protobuf.Message) {
		if in.Type == typ {
			f(in)
		}
	})
}

func commit(m *protobuf.Message, f func(pi []*protobuf.PiContent)) {
	inner(m, "Commit", func(in *protobuf.Message) {
		edit(&in.Data, new(protobuf.Commit), func(c *protobuf.Commit) { f(c.Pi) })
	})
}

func reshare(m *protobuf.Message, f func(r *protobuf.Reshare)) {
	if m.Type == "Reshare" {
		edit(&m.Data, new(protobuf.Reshare), f)
	}
}

// tamperer is the behaviour of Byzantine member b of committee e.
func (w *world) tamperer(e, b int, muts []string) tamper {
	var ms []mutation
	for _, s := range muts {
		ms = append(ms, parseMut(s))
	}
	early := map[string]bool{}
	own := map[string]*protobuf.Value{}
	for _, mu := range ms {
		if mu.op == "in" {
			w.forges(e, b, mu.arg)
		}
	}
	return func(m *protobuf.Message, e2, j int) []*protobuf.Message {
		out := []*protobuf.Message{clone(m)}
		for _, mu := range ms {
			if mu.op != "in" && mu.dest != "" && !strings.Contains(mu.dest, strconv.Itoa(j)) {
				continue
			}
			switch mu.op {
			case "omit":
				if m.Type == mu.arg {
					return nil
				}
			case "omit2": // in the second handoff of a committee to itself
				if m.Type == mu.arg && bytes.Contains(m.Id, []byte(w.id+"2")) {
					return nil
				}
			case "om2": // the second step of the provable broadcast withheld
				if m.Type == "Value" && len(m.Id) > 0 && m.Id[len(m.Id)-1] == 2 {
					return nil
				}
			case "om20": // the same in the first round only
				if n := len(m.Id); m.Type == "Value" && n > 9 && m.Id[n-1] == 2 && m.Id[n-6] == 0 {
					return nil
				}
			case "quit": // silent after the first round
				if round(m) > 0 {
					return nil
				}
			case "in":
				w.forge[pid(e, b)].out(out[0])
			case "prevno", "prevyes", "voteno", "voteyes", "val", "val2":
				w.lie(out[0], mu.op, e, b)
			case "mine":
				out = append(out, w.ownProof(own, out[0], mu.arg, e, b)...)
			case "copy":
				if m.Type == mu.arg {
					w.copyShare(out[0], e, w.mate(e, b))
				}
			case "dup":
				if m.Type == mu.arg {
					out = append(out, clone(out[0]))
				}
			case "flood": // 40 times
				for i := 0; i < 40 && m.Type == mu.arg; i++ {
					out = append(out, clone(out[0]))
				}
			case "rca":
				if k := fmt.Sprint("rca", j); m.Type == "Recover" && !early[k] {
					early[k] = true
					for i := 1; i <= w.N; i++ {
						x := clone(out[0])
						edit(&x.Data, new(protobuf.Recover), func(r *protobuf.Recover) { r.Index = uint32(i) })
						out = append([]*protobuf.Message{x}, out...)
					}
				}
			case "ghost":
				for _, x := range out {
					for _, n := range []string{"N", "N+1", "max"} {
						if x.Type == mu.arg {
							y := clone(x)
							y.Sender = w.malNumber(n)
							out = append(out[:len(out):len(out)], y)
						}
					}
				}
			case "stray": // 40 messages of another instance first
				if k := fmt.Sprint("stray", j); !early[k] {
					early[k] = true
					for i := 0; i < 40; i++ {
						x := clone(m)
						x.Type, x.Id = mu.arg, []byte("stray")
						out = append(out[:len(out)-1:len(out)-1], x, out[len(out)-1])
					}
				}
			case "early":
				k := fmt.Sprint(mu.arg, j)
				if !early[k] && (m.Type == "Reshare" || mu.arg != "Success") {
					early[k] = true
					x := clone(m)
					x.Type, x.Data = mu.arg, nil
					out = append([]*protobuf.Message{x}, out...)
				}
			case "bogus": // a message of that type of the same instance, signed wrongly
				if m.Type == "Done" && !early[fmt.Sprint(j)] {
					early[fmt.Sprint(j)] = true
					x := clone(m)
					x.Type = mu.arg
					out = append([]*protobuf.Message{x}, out...)
				}
			default:
				w.mutate(out[0], mu, b, j)
			}
		}
		return out
	}
}

func (w *world) mutate(m *protobuf.Message, mu mutation, b, j int) {
	k := mu.n
	switch mu.op {
	case "mal":
		w.malform(m, mu.arg)
	case "replay":
		if m.Type == mu.arg {
			if o := w.overheard[m.Type+string(m.Id)]; o != nil && o.Sender != m.Sender {
				m.Data = o.Data
			}
		}
	case "sig":
		if m.Type == mu.arg {
			damageSig(m)
		}
	case "wrong":
		if m.Type == mu.arg {
			wrongValue(m)
		}
	case "empty":
		if m.Type == mu.arg {
			claim(m, nil)
		}
	case "made":
		if m.Type == mu.arg {
			claim(m, []byte("made up"))
		}
	case "hash":
		if m.Type == mu.arg && m.Type == "RBCEcho" {
			edit(&m.Data, new(protobuf.RBCEcho), func(x *protobuf.RBCEcho) { x.Hash[0] ^= 1 })
		} else if m.Type == mu.arg {
			edit(&m.Data, new(protobuf.RBCReady), func(x *protobuf.RBCReady) { x.Hash[0] ^= 1 })
		}
	case "shard":
		if m.Type == mu.arg && m.Type == "RBCEcho" {
			edit(&m.Data, new(protobuf.RBCEcho), func(x *protobuf.RBCEcho) { x.M = flip(x.M) })
		} else if m.Type == mu.arg {
			edit(&m.Data, new(protobuf.RBCReady), func(x *protobuf.RBCReady) { x.M = flip(x.M) })
		}
	case "f0":
		commit(m, func(pi []*protobuf.PiContent) {
			for _, p := range pi {
				p.CBj, p.GFj = addP(p.CBj, 1), addP(p.GFj, 1)
			}
		})
		reshare(m, func(r *protobuf.Reshare) {
			for i := range r.Qk {
				r.Qk[i] = addS(r.Qk[i], 1)
			}
		})
	case "cb", "cbr":
		commit(m, func(pi []*protobuf.PiContent) { pi[k].CBj = addP(pi[k].CBj, 1) })
		if mu.op == "cbr" {
			reshare(m, func(r *protobuf.Reshare) { r.Qk[k] = addS(r.Qk[k], 1) })
		}
	case "q0":
		commit(m, func(pi []*protobuf.PiContent) {
			pi[k].CBj, pi[k].CZj = addP(pi[k].CBj, 1), addP(pi[k].CZj, 1)
		})
		reshare(m, func(r *protobuf.Reshare) { r.Qk[k] = addS(r.Qk[k], 1) })
	case "z0":
		commit(m, func(pi []*protobuf.PiContent) {
			pi[k].CZj, pi[k].GFj = addP(pi[k].CZj, 1), addP(pi[k].GFj, -1)
		})
	case "cbp", "q0p", "gfp": // the same with entries k and k+1, in opposite directions
		commit(m, func(pi []*protobuf.PiContent) {
			l := (k + 1) % len(pi)
			for i, d := range map[int]int64{k: 1, l: -1} {
				pi[i].CBj = addP(pi[i].CBj, d)
				switch mu.op {
				case "q0p":
					pi[i].CZj = addP(pi[i].CZj, d)
				case "gfp":
					pi[i].GFj = addP(pi[i].GFj, d)
				}
			}
		})
		reshare(m, func(r *protobuf.Reshare) {
			l := (k + 1) % len(r.Qk)
			r.Qk[k], r.Qk[l] = addS(r.Qk[k], 1), addS(r.Qk[l], -1)
		})
	case "rsvp":
		reshare(m, func(r *protobuf.Reshare) {
			l := (k + 1) % len(r.Qk)
			r.Qk[k], r.Qk[l] = addS(r.Qk[k], 1), addS(r.Qk[l], -1)
		})
	case "gf":
		commit(m, func(pi []*protobuf.PiContent) { pi[k].GFj = addP(pi[k].GFj, 1) })
	case "wz":
		commit(m, func(pi []*protobuf.PiContent) { pi[k].WZ0 = addP(pi[k].WZ0, 1) })
	case "swap":
		commit(m, func(pi []*protobuf.PiContent) { pi[k], pi[k+1] = pi[k+1], pi[k] })
	case "rsv":
		reshare(m, func(r *protobuf.Reshare) { r.Qk[k] = addS(r.Qk[k], 1) })
	case "rsw":
		reshare(m, func(r *protobuf.Reshare) { r.WQk[k] = addP(r.WQk[k], 1) })
	case "rcv", "rcw", "rci":
		if m.Type == "Recover" {
			edit(&m.Data, new(protobuf.Recover), func(r *protobuf.Recover) {
				if int(r.Index) != k && k > 0 {
					return
				}
				switch mu.op {
				case "rcv":
					r.V = addS(r.V, 1)
				case "rcw":
					r.W = addP(r.W, 1)
				case "rci":
					r.Index = r.Index%uint32(w.N) + 1
				}
			})
		}
	case "rcs":
		if m.Type == "Recover" {
			edit(&m.Data, new(protobuf.Recover), func(r *protobuf.Recover) {
				if s := w.recShare(m, r.Index); s != nil {
					r.SigShare = s
				}
			})
		}
	case "nc", "ncsd":
		inner(m, "NewCommit", func(in *protobuf.Message) { in.Data = addP(in.Data, 1) })
		if mu.op == "ncsd" && m.Type == "ShareDist" {
			edit(&m.Data, new(protobuf.ShareDist), func(s *protobuf.ShareDist) { s.B = addS(s.B, 1) })
		}
	case "nc0":
		zero := func(b []byte) []byte { return bls.ToCompressedG1(&bls.ZeroG1) }
		inner(m, "NewCommit", func(in *protobuf.Message) { in.Data = zero(in.Data) })
		if m.Type == "ShareDist" {
			edit(&m.Data, new(protobuf.ShareDist), func(s *protobuf.ShareDist) { s.B, s.WB = make([]byte, 32), zero(s.WB) })
		}
	case "sdv":
		if m.Type == "ShareDist" {
			edit(&m.Data, new(protobuf.ShareDist), func(s *protobuf.ShareDist) { s.B = addS(s.B, 1) })
		}
	case "sdw":
		if m.Type == "ShareDist" {
			edit(&m.Data, new(protobuf.ShareDist), func(s *protobuf.ShareDist) { s.WB = addP(s.WB, 1) })
		}
	case "perm":
		if m.Type == "Value" {
			edit(&m.Data, new(protobuf.Value), func(v *protobuf.Value) {
				edit(&v.Value, new(protobuf.MVBAIN), func(x *protobuf.MVBAIN) {
					if len(x.J) > 1 {
						x.J[0], x.J[1] = x.J[1], x.J[0]
						x.Sig[0], x.Sig[1] = x.Sig[1], x.Sig[0]
					}
				})
			})
		}
	case "prep":
		if m.Type == "Prepare" {
			edit(&m.Data, new(protobuf.Prepare), func(p *protobuf.Prepare) { p.Commitments[k] = addP(p.Commitments[k], 1) })
		}
	case "sr":
		if m.Type == "ShareReduce" {
			edit(&m.Data, new(protobuf.ShareReduce), func(s *protobuf.ShareReduce) {
				if mu.arg == "same" { // the share of a constant polynomial
					s.C, s.V, s.W = []byte(g1of(bi(7))), addS(make([]byte, 32), 7), bls.ToCompressedG1(&bls.ZeroG1)
					return
				}
				if strings.Contains(mu.arg, "c") {
					s.C = addP(s.C, 1)
				}
				if strings.Contains(mu.arg, "v") {
					s.V = addS(s.V, 1)
				}
				if strings.Contains(mu.arg, "w") && mu.arg != "cvw" {
					s.W = addP(s.W, 1)
				}
			})
		}
	case "first": // the dealing of another member
		if m.Type == "VSSSend" {
			if o := w.overheard["first"]; o != nil {
				m.Data = o.Data
			} else {
				w.overheard["first"] = clone(m)
			}
		}
	case "vs":
		if m.Type == "VSSSend" {
			edit(&m.Data, new(protobuf.VSSSend), func(v *protobuf.VSSSend) { vssMutate(v, mu.arg) })
		}
	}
}

// hearRecover keeps the signature shares of the Recover messages that reach deviating members.
func (w *world) hearRecover(m *protobuf.Message) {
	var r protobuf.Recover
	if m.Type == "Recover" && proto.Unmarshal(m.Data, &r) == nil {
		if w.recShares == nil {
			w.recShares = map[string]map[uint32][]byte{}
		}
		k := fmt.Sprint(string(m.Id), "/", r.Index)
		if w.recShares[k] == nil {
			w.recShares[k] = map[uint32][]byte{}
		}
		w.recShares[k][m.Sender] = r.SigShare
	}
}

// recShare is the signature share of another member (a deviating one, if there is one) about
// the dealer, when it is known.
func (w *world) recShare(m *protobuf.Message, dealer uint32) []byte {
	k := w.recShares[fmt.Sprint(string(m.Id), "/", dealer)]
	var own []byte
	for i := uint32(0); i < uint32(w.N); i++ {
		if i == m.Sender || k[i] == nil {
			continue
		}
		if w.byz[pid(1, int(i))] != nil {
			return k[i]
		}
		if own == nil {
			own = k[i]
		}
	}
	return own
}

func damageSig(m *protobuf.Message) {
	switch m.Type {
	case "Echo":
		edit(&m.Data, new(protobuf.Echo), func(x *protobuf.Echo) { x.Sigshare = flip(x.Sigshare) })
	case "Finish":
		edit(&m.Data, new(protobuf.Finish), func(x *protobuf.Finish) { x.Sig = flip(x.Sig) })
	case "Done":
		edit(&m.Data, new(protobuf.Done), func(x *protobuf.Done) { x.CoinShare = flip(x.CoinShare) })
	case "Halt":
		edit(&m.Data, new(protobuf.Halt), func(x *protobuf.Halt) { x.Sig = flip(x.Sig) })
	case "PreVote":
		edit(&m.Data, new(protobuf.PreVote), func(x *protobuf.PreVote) { x.Sig = flip(x.Sig) })
	case "Vote":
		edit(&m.Data, new(protobuf.Vote), func(x *protobuf.Vote) {
			x.Sig, x.Sigshare = flip(x.Sig), flip(x.Sigshare)
		})
	case "Value":
		edit(&m.Data, new(protobuf.Value), func(x *protobuf.Value) { x.Validation = flip(x.Validation) })
	case "Recover":
		edit(&m.Data, new(protobuf.Recover), func(x *protobuf.Recover) { x.SigShare = flip(x.SigShare) })
	}
}

// claim makes a message of the agreement speak for a value nobody proposed, without a proof.
func claim(m *protobuf.Message, v []byte) {
	switch m.Type {
	case "Finish":
		edit(&m.Data, new(protobuf.Finish), func(x *protobuf.Finish) { x.Value, x.Sig = v, nil })
	case "Halt":
		edit(&m.Data, new(protobuf.Halt), func(x *protobuf.Halt) { x.Value, x.Sig = v, nil })
	case "PreVote":
		m.Data, _ = proto.Marshal(&protobuf.PreVote{Vote: true, Value: v})
	case "Vote":
		edit(&m.Data, new(protobuf.Vote), func(x *protobuf.Vote) { x.Vote, x.Value, x.Sig = true, v, nil })
	}
}

// wrongValue replaces the value in a message of the agreement, without a proof of it.
func wrongValue(m *protobuf.Message) {
	switch m.Type {
	case "Finish":
		edit(&m.Data, new(protobuf.Finish), func(x *protobuf.Finish) { x.Value = flip(x.Value) })
	case "Halt":
		edit(&m.Data, new(protobuf.Halt), func(x *protobuf.Halt) { x.Value = flip(x.Value) })
	case "PreVote":
		edit(&m.Data, new(protobuf.PreVote), func(x *protobuf.PreVote) { x.Value = flip(x.Value) })
	case "Vote":
		edit(&m.Data, new(protobuf.Vote), func(x *protobuf.Vote) { x.Value = flip(x.Value) })
	case "Value":
		if n := len(m.Id); n > 0 && m.Id[n-1] == 2 {
			edit(&m.Data, new(protobuf.Value), func(x *protobuf.Value) { x.Value = flip(x.Value) })
		}
	}
}

// vssMutate changes one thing, or several consistently, in a dealing: OP-K or OP-K-m (the
// other direction).
func vssMutate(v *protobuf.VSSSend, arg string) {
	f := strings.Split(arg, "-")
	k := 0
	if len(f) > 1 {
		k, _ = strconv.Atoi(f[1])
	}
	d := int64(1)
	if len(f) > 2 {
		d = -1
	}
	inf := bls.ToCompressedG1(&bls.ZeroG1)
	pc := func(i int) *protobuf.PiContent { return v.Pi.PiContents[i] }
	switch f[0] {
	case "gs":
		v.Pi.Gs = addP(v.Pi.Gs, d)
	case "cb":
		pc(k).CBj = addP(pc(k).CBj, d)
	case "cz":
		pc(k).CZj = addP(pc(k).CZj, d)
	case "gf":
		pc(k).GFj = addP(pc(k).GFj, d)
	case "wz":
		pc(k).WZ0 = addP(pc(k).WZ0, d)
	case "b":
		v.BijList[k] = addS(v.BijList[k], d)
	case "w":
		v.WBijList[k] = addP(v.WBijList[k], d)
	case "wi":
		v.WBijList[k] = inf
	case "wzi":
		pc(k).WZ0 = inf
	case "cbi":
		pc(k).CBj = inf
	case "gsi":
		v.Pi.Gs = inf
	case "gfi":
		pc(k).GFj = inf
	case "czi":
		pc(k).CZj = inf
	case "vz": // the evaluation is zero, consistently
		x := subq(bi(0), scalarOf(v.BijList[k]))
		shift := func(b []byte, x *big.Int) []byte {
			p, ok := ptOf(b)
			if !ok {
				return b
			}
			r := addPP(p, g1(x))
			return bls.ToCompressedG1(&r)
		}
		n := len(v.BijList) - 1
		var xs, unit []*big.Int
		for i := 1; i <= n; i++ {
			xs, unit = append(xs, bi(i)), append(unit, bi(0))
		}
		unit[k-1] = bi(1)
		v.BijList[k] = make([]byte, 32)
		pc(k).CBj, pc(k).GFj = shift(pc(k).CBj, x), shift(pc(k).GFj, x)
		v.Pi.Gs = shift(v.Pi.Gs, mulq(x, interp(xs, unit, bi(0))))
	case "b0":
		v.BijList[k] = make([]byte, 32)
	case "cbb": // commitment and evaluation, without Z and g^F
		pc(k).CBj, v.BijList[k] = addP(pc(k).CBj, d), addS(v.BijList[k], d)
	case "q0": // B_k(0) != F(k), with a Z_k that does not vanish at 0
		pc(k).CBj, pc(k).CZj, v.BijList[k] = addP(pc(k).CBj, d), addP(pc(k).CZj, d), addS(v.BijList[k], d)
	case "zg": // Z and g^F compensate
		pc(k).CZj, pc(k).GFj = addP(pc(k).CZj, d), addP(pc(k).GFj, -d)
	case "cg": // another F(k), consistent but for g^s
		pc(k).CBj, pc(k).GFj, v.BijList[k] = addP(pc(k).CBj, d), addP(pc(k).GFj, d), addS(v.BijList[k], d)
	case "all": // another secret, consistent but for g^s
		for i := 1; i < len(v.BijList); i++ {
			vssMutate(v, fmt.Sprintf("cg-%d", i))
		}
	case "other": // another secret, consistently
		vssMutate(v, "all")
		vssMutate(v, "gs")
	case "swap": // the evaluations of two polynomials exchanged
		v.BijList[k], v.BijList[k+1] = v.BijList[k+1], v.BijList[k]
	case "swapw":
		v.BijList[k], v.BijList[k+1] = v.BijList[k+1], v.BijList[k]
		v.WBijList[k], v.WBijList[k+1] = v.WBijList[k+1], v.WBijList[k]
	case "swapall": // two polynomials exchanged
		v.BijList[k], v.BijList[k+1] = v.BijList[k+1], v.BijList[k]
		v.WBijList[k], v.WBijList[k+1] = v.WBijList[k+1], v.WBijList[k]
		a, b := pc(k), pc(k+1)
		a.CBj, a.CZj, a.GFj, a.WZ0, b.CBj, b.CZj, b.GFj, b.WZ0 = b.CBj, b.CZj, b.GFj, b.WZ0, a.CBj, a.CZj, a.GFj, a.WZ0
	}
}

// psdMutations are the single deviations of a Byzantine new member.
func psdMutations(N, F int) []string {
	var r []string
	T := 2*F + 1
	for _, t := range []string{"RBCPropose", "RBCEcho", "RBCReady", "Reshare", "Recover", "Value", "Echo", "Finish", "Done", "Halt", "PreVote", "Vote", "ShareDist", "Success"} {
		r = append(r, "omit."+t, "dup."+t)
	}
	for _, t := range []string{"Value", "Echo", "Finish", "Done", "Halt", "PreVote", "Vote", "Recover"} {
		r = append(r, "sig."+t)
	}
	for _, t := range []string{"Echo", "Done", "PreVote", "Vote", "Recover"} {
		r = append(r, "replay."+t)
	}
	for _, t := range []string{"RBCEcho", "RBCReady"} {
		r = append(r, "hash."+t, "shard."+t)
	}
	for _, t := range []string{"RBCEcho", "Recover", "Finish", "Success"} {
		r = append(r, "flood."+t)
	}
	for _, t := range []string{"none", "junk", "short", "cut", "twice", "zero", "big", "huge", "sig", "sigs", "long", "all", "rev"} {
		r = append(r, "in."+t)
	}
	r = append(r, "rcs", "rca", "stray.RBCReady", "f0", "nc", "ncsd", "nc0", "sdv", "sdw", "early.Success", "bogus.Halt", "perm", "swap.0")
	for k := 0; k < T; k++ {
		for _, o := range []string{"cb", "cbr", "q0", "z0", "gf", "wz", "rsv", "rsw", "cbp", "q0p", "gfp", "rsvp"} {
			r = append(r, fmt.Sprintf("%s.%d", o, k))
		}
	}
	for k := 0; k <= N; k++ { // 0: all of them
		for _, o := range []string{"rcv", "rcw", "rci"} {
			r = append(r, fmt.Sprintf("%s.%d", o, k))
		}
	}
	return r
}

// byzPlans: Byzantine member b of committee e with each mutation, towards everyone and
// towards each single member.
func byzPlans(e, N int, muts []string, single bool) genf {
	return func(tier string, y yieldf) bool {
		for b := 0; b < N; b++ {
			for _, m := range muts {
				if !y(fmt.Sprintf("byz=%d/%d:%s", e, b, m)) {
					return false
				}
				for j := 0; j < N && single; j++ {
					if j != b && !y(fmt.Sprintf("byz=%d/%d:%s@%d", e, b, m, j)) {
						return false
					}
				}
			}
		}
		return true
	}
}

// byzPairs: two mutations of the same member.
func byzPairs(e, b int, muts []string) genf {
	return func(tier string, y yieldf) bool {
		for i := range muts {
			for j := i + 1; j < len(muts); j++ {
				if !y(fmt.Sprintf("byz=%d/%d:%s,%s", e, b, muts[i], muts[j])) {
					return false
				}
			}
		}
		return true
	}
}

var _ = bytes.Equal

// byzTwo: two members of a committee deviate in the same way.
func byzTwo(e int, muts []string, who [][2]int) genf {
	return func(tier string, y yieldf) bool {
		for _, m := range muts {
			for _, p := range who {
				if !y(fmt.Sprintf("byz=%d/%d:%s byz=%d/%d:%s", e, p[0], m, e, p[1], m)) {
					return false
				}
			}
		}
		return true
	}
}

// What a deviating party sends comes from host 20000+id.
func firstLast(e, b int) []string {
	h := 20000 + pid(e, b)
	return []string{cl("prio", "*", h, -1), cl("holdc", "*", h, -1)}
}

// byzFirst: the messages of the deviating member come first, or last.
func byzFirst(e, N int, muts []string) genf {
	return func(tier string, y yieldf) bool {
		for b := 0; b < N; b++ {
			for _, m := range muts {
				for _, o := range firstLast(e, b) {
					if !y(fmt.Sprintf("byz=%d/%d:%s %s", e, b, m, o)) {
						return false
					}
				}
			}
		}
		return true
	}
}

// byzHeld: the messages of the deviating member come first, and those of one type to one other
// member last.
func byzHeld(sc *scen, e, b int, muts []string) genf {
	return func(tier string, y yieldf) bool {
		for _, c := range sc.halfClasses() {
			if c.From >= 0 || c.To == pid(e, b) {
				continue
			}
			for _, m := range muts {
				if !y(fmt.Sprintf("byz=%d/%d:%s %s %s", e, b, m, firstLast(e, b)[0], cl("holdc", c.Label, -1, c.To))) {
					return false
				}
			}
		}
		return true
	}
}

// byzTwoHeld: the same for two deviating members and one other.
func byzTwoHeld(sc *scen, e int, muts []string, who [2]int, to int) genf {
	return func(tier string, y yieldf) bool {
		for _, c := range sc.halfClasses() {
			if c.From >= 0 || c.To != pid(e, to) {
				continue
			}
			for _, m := range muts {
				if !y(fmt.Sprintf("byz=%d/%d:%s byz=%d/%d:%s %s %s %s", e, who[0], m, e, who[1], m, firstLast(e, who[0])[0], firstLast(e, who[1])[0], cl("holdc", c.Label, -1, c.To))) {
					return false
				}
			}
		}
		return true
	}
}

// coreMuts leaves out the mutations that others stand for: of single elements but the first, and
// messages left out or sent again.
func coreMuts(muts []string) (r []string) {
	for _, m := range muts {
		op, arg, _ := strings.Cut(m, ".")
		if op == "omit" || op == "dup" || op == "flood" || arg >= "1" && arg <= "99" {
			continue
		}
		r = append(r, m)
	}
	return
}

// ghosts: what is wrong is also sent under numbers no member has.
func ghosts(N, F int, old bool) (r []string) {
	add := func(t string, muts ...string) {
		for _, m := range append(muts, "") {
			if m != "" {
				m += ","
			}
			r = append(r, m+"ghost."+t)
		}
	}
	if old {
		for k := 1; k <= 2*F+1; k++ {
			add("Prepare", fmt.Sprint("prep.", k))
			add("Prepare", fmt.Sprint("sr.cvw,ghost.ShareReduce,prep.", k))
		}
		add("ShareReduce", "sr.cvw", "sr.cv", "sr.v", "sr.w", "sr.c", "sr.cw", "sr.vw", "sr.same")
		return
	}
	add("RBCPropose", "f0", "q0.0", "gf.1", "nc", "nc0", "ncsd")
	add("RBCEcho", "hash.RBCEcho", "shard.RBCEcho")
	add("RBCReady", "hash.RBCReady", "shard.RBCReady", "stray.RBCReady")
	add("Reshare", "rsv.0", "rsv.1", "rsw.0", "f0", "q0.0")
	add("Recover", "rcv.0", "rcw.0", "rci.0", "sig.Recover", "rcs", "rca", "f0,rca")
	add("ShareDist", "sdv", "sdw", "ncsd", "nc0")
	add("Success", "early.Success", "early.Success,omit.ShareDist")
	for _, t := range []string{"Echo", "Finish", "Done", "PreVote", "Vote"} {
		add(t, "sig."+t, "replay."+t, "in.none", "in.junk", "in.rev")
	}
	add("Value", "sig.Value", "in.junk", "in.short")
	add("Halt", "bogus.Halt", "sig.Halt")
	return
}

func ghostsOf(muts, types []string) (r []string) {
	for _, m := range append([]string{""}, muts...) {
		for _, t := range types {
			r = append(r, strings.TrimPrefix(m+",ghost."+t, ","))
		}
	}
	return
}

// uncalled: a dealing that is not accepted, and Recover messages about it all the same.
func uncalled(muts []string) (r []string) {
	for _, m := range muts {
		op, arg, _ := strings.Cut(m, ".")
		switch op {
		case "f0", "cb", "cbr", "q0", "z0", "gf", "wz", "swap", "cbp", "q0p", "gfp":
			r = append(r, m+",rca")
		case "omit":
			if arg == "RBCPropose" {
				r = append(r, m+",rca")
			}
		}
	}
	return
}

func byzTwoFirst(e int, muts []string, who [][2]int) genf {
	return func(tier string, y yieldf) bool {
		for _, m := range muts {
			for _, p := range who {
				if !y(fmt.Sprintf("byz=%d/%d:%s byz=%d/%d:%s %s %s", e, p[0], m, e, p[1], m, firstLast(e, p[0])[0], firstLast(e, p[1])[0])) {
					return false
				}
			}
		}
		return true
	}
}

// lateCopy: F members deviate, the last of them late, with copied signature shares; the
// Recover messages of F others are held back.
func lateCopy(N, F int) genf {
	return func(tier string, y yieldf) bool {
		return subsets(N, F, func(bs []int) bool {
			return subsets(N, F, func(hs []int) bool {
				p := ""
				for x, b := range bs {
					p += fmt.Sprintf(" byz=1/%d:rcs", b)
					if x == F-1 {
						p += fmt.Sprintf(" start=1/%d/1", b)
					}
					for _, h := range hs {
						if h == b {
							return true
						}
					}
				}
				for _, h := range hs {
					p += " " + cl("holdc", "Recover", pid(1, h), -1)
				}
				return y(strings.TrimSpace(p))
			})
		})
	}
}

// oldMutations are the deviations of a Byzantine old member.
func oldMutations(N, F int) []string {
	r := []string{"omit.Prepare", "omit.ShareReduce", "flood.Prepare", "flood.ShareReduce", "stray.ShareReduce", "dup.Prepare", "dup.ShareReduce",
		"sr.cvw", "sr.cv", "sr.v", "sr.w", "sr.c", "sr.cw", "sr.vw", "sr.same", "sr.same,dup.ShareReduce"}
	for k := 1; k <= 2*F+1; k++ {
		r = append(r, fmt.Sprintf("prep.%d", k), fmt.Sprintf("dup.Prepare,prep.%d", k))
	}
	for _, x := range []string{"sr.cvw", "sr.cv", "sr.v", "sr.c"} {
		r = append(r, x+",dup.ShareReduce", x+",prep.1")
	}
	return r
}
