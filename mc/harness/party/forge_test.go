package party

import (
	"bytes"
	"encoding/binary"

	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	kyberbls "github.com/drand/kyber-bls12381"
	"github.com/drand/kyber/sign/tbls"
	"golang.org/x/crypto/sha3"
	"google.golang.org/protobuf/proto"
	"verif.local/vs"
)

// forger makes a Byzantine member propose another value to agree on than its honest code
// does. What it sends holds the other value, with certificates made of the shares that
// the others really gave for that value; each such share that arrives is replaced, for the
// member's own code, by one for the value that code knows. When the others do not endorse
// the other value, the member's broadcast does not complete.
type forger struct {
	w      *world
	e, b   int
	kind   string
	vals   map[string]*pair
	certs  map[string]map[uint32][]byte // seen in proposals, by instance and member
	shares map[string][][]byte          // for alt, by instance and step
	from   map[string]map[uint32]bool
	peer   *protobuf.Lock // of another member's broadcast in the first round
}

// pair is the value the member's code knows, and the other one.
type pair struct{ v, alt []byte }

// round of the agreement a message belongs to.
func round(m *protobuf.Message) uint32 {
	n := 4
	if m.Type == "Value" || m.Type == "Echo" {
		n = 9
	}
	if len(m.Id) < n {
		return 0
	}
	return binary.BigEndian.Uint32(m.Id[len(m.Id)-n:])
}

// of finds the values of the agreement a message belongs to: the identifier of a message
// ends with the round, that of a step of a broadcast also with the sender and the step.
func (f *forger) of(m *protobuf.Message) *pair {
	n := 4
	if m.Type == "Value" || m.Type == "Echo" {
		n = 9
	}
	if len(m.Id) < n {
		return &pair{}
	}
	if f.later() && round(m) == 0 {
		return nil
	}
	k := string(m.Id[:len(m.Id)-n])
	if f.vals[k] == nil {
		f.vals[k] = &pair{}
	}
	return f.vals[k]
}

// later: the other value is for the rounds after the first.
func (f *forger) later() bool { return f.kind == "late" || f.kind == "peer" }

// remember the certificates of a proposal.
func (f *forger) remember(m *protobuf.Message, v []byte) {
	var x protobuf.MVBAIN
	if len(m.Id) < 9 || proto.Unmarshal(v, &x) != nil || len(x.J) != len(x.Sig) {
		return
	}
	k := string(m.Id[:len(m.Id)-9])
	if f.certs[k] == nil {
		f.certs[k] = map[uint32][]byte{}
	}
	for i, j := range x.J {
		if f.certs[k][j] == nil {
			f.certs[k][j] = x.Sig[i]
		}
	}
}

// stale is a certificate of another agreement.
func (f *forger) stale(inst string, j uint32) []byte {
	var r []byte
	at := ""
	for k, c := range f.certs {
		if k != inst && c[j] != nil && (r == nil || k < at) {
			r, at = c[j], k
		}
	}
	return r
}

func voucher(id, v []byte) []byte {
	h := sha3.Sum512(v)
	return cat([]byte("Echo"), id, h[:])
}

func (w *world) forges(e, b int, kind string) {
	f := &forger{w: w, e: e, b: b, kind: kind, vals: map[string]*pair{}, certs: map[string]map[uint32][]byte{}, shares: map[string][][]byte{}, from: map[string]map[uint32]bool{}}
	if w.forge == nil {
		w.forge = map[int]*forger{}
		w.s.Net.Edit = func(u *vs.Unit, d []byte) {
			f := w.forge[u.Link.To]
			if f == nil {
				return
			}
			// one message in a delivery, with its length or without
			if len(d) > 4 && int(binary.BigEndian.Uint32(d)) == len(d)-4 {
				d = d[4:]
			}
			m := new(protobuf.Message)
			if proto.Unmarshal(d, m) != nil {
				return
			}
			if m.Type == "Value" {
				var x protobuf.Value
				if proto.Unmarshal(m.Data, &x) == nil {
					f.remember(m, x.Value)
				}
				// its own code does not lock its own value
				n := len(m.Id)
				if f.peer == nil && int(m.Sender) != f.b && n > 9 && m.Id[n-1] == 2 && round(m) == 0 {
					f.peer = &protobuf.Lock{Value: x.Value, Sig: x.Validation}
				}
				if f.later() && int(m.Sender) == f.b && f.of(m) == nil && m.Id[n-1] == 2 {
					x.Validation = flip(x.Validation)
					m.Data, _ = proto.Marshal(&x)
					if y, err := proto.Marshal(m); err == nil && len(y) == len(d) {
						copy(d, y)
					}
				}
			}
			if m.Type == "Echo" {
				f.in(m)
				if x, err := proto.Marshal(m); err == nil && len(x) == len(d) {
					copy(d, x)
				}
			}
		}
	}
	w.forge[pid(e, b)] = f
}

func (f *forger) cert(id, alt []byte) []byte {
	ks := keys(f.w.N, f.w.F, f.e)
	msg := voucher(id, alt)
	sh := append([][]byte{f.w.signShare(f.e, f.b, msg)}, f.shares[string(id)]...)
	sig, err := tbls.NewThresholdSchemeOnG1(kyberbls.NewBLS12381Suite()).Recover(ks.pk, msg, sh, 2*f.w.F+1, f.w.N)
	if err != nil {
		return nil
	}
	return sig
}

// in handles an Echo for the member's code.
func (f *forger) in(m *protobuf.Message) {
	var x protobuf.Echo
	q := f.of(m)
	if q == nil || q.v == nil || proto.Unmarshal(m.Data, &x) != nil || int(m.Sender) == f.b || int(m.Sender) >= f.w.N {
		return
	}
	ks := keys(f.w.N, f.w.F, f.e)
	if tbls.NewThresholdSchemeOnG1(kyberbls.NewBLS12381Suite()).VerifyPartial(ks.pk, voucher(m.Id, q.alt), x.Sigshare) != nil {
		return
	}
	k := string(m.Id)
	if f.from[k] == nil {
		f.from[k] = map[uint32]bool{}
	}
	if !f.from[k][m.Sender] {
		f.from[k][m.Sender] = true
		f.shares[k] = append(f.shares[k], x.Sigshare)
	}
	x.Sigshare = f.w.signShare(f.e, int(m.Sender), voucher(m.Id, q.v))
	m.Data, _ = proto.Marshal(&x)
}

// out rewrites what the member sends.
func (f *forger) out(m *protobuf.Message) {
	own := u32(f.b)
	q := f.of(m)
	if q == nil {
		return
	}
	step := func(id []byte, s byte) []byte { return cat(id, own, []byte{s}) }
	switch m.Type {
	case "Value":
		edit(&m.Data, new(protobuf.Value), func(x *protobuf.Value) {
			last := m.Id[len(m.Id)-1]
			if last == 1 && q.v == nil {
				f.remember(m, x.Value)
				q.v, q.alt = x.Value, f.altInput(string(m.Id[:len(m.Id)-9]), x.Value)
			}
			if bytes.Equal(x.Value, q.v) {
				if last == 1 && f.kind == "peer" && f.peer != nil {
					x.Validation = f.peer.Sig
				}
				if last == 2 {
					x.Validation = f.cert(append(append([]byte{}, m.Id[:len(m.Id)-1]...), 1), q.alt)
				}
				x.Value = q.alt
			}
		})
	case "Finish":
		edit(&m.Data, new(protobuf.Finish), func(x *protobuf.Finish) {
			if bytes.Equal(x.Value, q.v) {
				x.Value, x.Sig = q.alt, f.cert(step(m.Id, 2), q.alt)
			}
		})
	case "Halt":
		edit(&m.Data, new(protobuf.Halt), func(x *protobuf.Halt) {
			if bytes.Equal(x.Value, q.v) {
				x.Value, x.Sig = q.alt, f.cert(step(m.Id, 2), q.alt)
			}
		})
	case "PreVote":
		edit(&m.Data, new(protobuf.PreVote), func(x *protobuf.PreVote) {
			if x.Vote && bytes.Equal(x.Value, q.v) {
				x.Value, x.Sig = q.alt, f.cert(step(m.Id, 1), q.alt)
			}
		})
	case "Vote":
		edit(&m.Data, new(protobuf.Vote), func(x *protobuf.Vote) {
			if x.Vote && bytes.Equal(x.Value, q.v) {
				x.Value, x.Sig = q.alt, f.cert(step(m.Id, 1), q.alt)
				x.Sigshare = f.w.signShare(f.e, f.b, voucher(step(m.Id, 2), q.alt))
			}
		})
	}
}

// altInput is another value to propose in place of v.
func (f *forger) altInput(inst string, v []byte) []byte {
	w, kind := f.w, f.kind
	switch kind {
	case "other", "late": // late: from the second round on
		return other(v)
	case "peer": // from the second round on, what another member than the leader had locked in the first one
		if f.peer == nil {
			return v
		}
		return f.peer.Value
	case "none":
		return nil
	case "junk":
		return []byte{0xff, 0xff, 0xff}
	}
	var x protobuf.MVBAIN
	if proto.Unmarshal(v, &x) != nil || len(x.J) < 2 {
		return v
	}
	n := len(x.J)
	switch kind {
	case "short": // too few members
		x.J, x.Sig = x.J[:w.F], x.Sig[:w.F]
	case "cut": // signatures missing
		x.Sig = x.Sig[:n-1]
	case "twice":
		x.J[n-1], x.Sig[n-1] = x.J[0], x.Sig[0]
	case "zero":
		x.J[n-1] = 0
	case "big":
		x.J[0] = uint32(w.N) + 1
	case "huge":
		x.J[0] = 1<<31 + 1
	case "sig": // a member that is not signed for
		x.J[n-1] = x.J[n-1]%uint32(w.N) + 1
	case "sigs":
		x.Sig[0] = flip(x.Sig[0])
	case "long": // one more, not signed for
		x.J, x.Sig = append(x.J, 7), append(x.Sig, x.Sig[0])
	case "all": // every member, with the signatures known
		have := map[uint32]bool{}
		for _, j := range x.J {
			have[j] = true
		}
		for j := uint32(1); j <= uint32(w.N); j++ {
			if !have[j] {
				x.J, x.Sig = append(x.J, j), append(x.Sig, nil)
			}
		}
	case "old": // the member itself, with a certificate of an earlier agreement
		c := f.stale(inst, uint32(f.b)+1)
		for _, j := range x.J {
			if j == uint32(f.b)+1 {
				c = nil
			}
		}
		if c == nil {
			return v
		}
		x.J[n-1], x.Sig[n-1] = uint32(f.b)+1, c
	case "rev":
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			x.J[i], x.J[j], x.Sig[i], x.Sig[j] = x.J[j], x.J[i], x.Sig[j], x.Sig[i]
		}
	}
	d, _ := proto.Marshal(&x)
	return d
}
