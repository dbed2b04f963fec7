package party

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"

	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"verif.local/vs/ex"
)

// Malformed messages: mal.TYPE-PATH-OP changes one field of the payload of the messages of a
// type (Commit, NewCommit: inside the proposal of a broadcast; MVBAIN: inside a Value). PATH
// names fields and list indices, separated by _, and is empty for the whole payload; sender is
// the sender of the message itself.
//
//	bytes    nil cut (the last byte) ext (one more) one (one byte) ff zero (as many)
//	list     none short (one less) more (the last one again)
//	message  unset
//	number   0 N+1 max

var payloads = map[string]proto.Message{
	"Commit": new(protobuf.Commit), "MVBAIN": new(protobuf.MVBAIN), "Message": new(protobuf.Message),
	"RBCEcho": new(protobuf.RBCEcho), "RBCReady": new(protobuf.RBCReady), "Reshare": new(protobuf.Reshare), "Recover": new(protobuf.Recover),
	"Value": new(protobuf.Value), "Echo": new(protobuf.Echo), "Finish": new(protobuf.Finish), "Done": new(protobuf.Done), "Halt": new(protobuf.Halt),
	"PreVote": new(protobuf.PreVote), "Vote": new(protobuf.Vote), "ShareDist": new(protobuf.ShareDist), "Success": new(protobuf.Success),
	"VSSSend": new(protobuf.VSSSend), "Prepare": new(protobuf.Prepare), "ShareReduce": new(protobuf.ShareReduce),
}

var bytesOps = []string{"nil", "cut", "ext", "one", "ff", "zero"}

func malBytes(op string, b []byte) []byte {
	switch op {
	case "nil":
		return nil
	case "cut":
		if len(b) > 0 {
			return append([]byte{}, b[:len(b)-1]...)
		}
	case "ext":
		return append(append([]byte{}, b...), 0)
	case "one":
		return []byte{1}
	case "ff":
		return bytes.Repeat([]byte{0xff}, len(b))
	case "zero":
		return make([]byte, len(b))
	}
	return b
}

func (w *world) malNumber(op string) uint32 {
	switch op {
	case "0":
		return 0
	case "N":
		return uint32(w.N)
	case "N+1":
		return uint32(w.N + 1)
	}
	return 1<<32 - 1
}

func (w *world) malform(m *protobuf.Message, arg string) {
	f := strings.Split(arg, "-")
	typ, path, op := f[0], f[1], f[2]
	data := func(b []byte) []byte { return w.malData(typ, path, op, b) }
	switch typ {
	case "Commit", "NewCommit":
		inner(m, typ, func(in *protobuf.Message) { in.Data = data(in.Data) })
	case "MVBAIN":
		if m.Type == "Value" {
			edit(&m.Data, new(protobuf.Value), func(v *protobuf.Value) { v.Value = data(v.Value) })
		}
	default:
		if m.Type != typ {
			return
		}
		if path == "sender" {
			m.Sender = w.malNumber(op)
			w.wrongSender = append(w.wrongSender, m.Sender)
		} else {
			m.Data = data(m.Data)
		}
	}
}

func (w *world) malData(typ, path, op string, b []byte) []byte {
	if path == "" {
		return malBytes(op, b)
	}
	x := proto.Clone(payloads[typ])
	if proto.Unmarshal(b, x) != nil {
		return b
	}
	w.malField(x.ProtoReflect(), strings.Split(path, "_"), op)
	r, _ := proto.Marshal(x)
	return r
}

func (w *world) malField(m protoreflect.Message, path []string, op string) {
	fd := m.Descriptor().Fields().ByName(protoreflect.Name(path[0]))
	if fd == nil {
		panic("no field " + path[0])
	}
	if fd.IsList() {
		l := m.Mutable(fd).List()
		if len(path) == 1 {
			switch op {
			case "none":
				l.Truncate(0)
			case "short":
				if l.Len() > 0 {
					l.Truncate(l.Len() - 1)
				}
			case "more":
				if l.Len() > 0 {
					l.Append(l.Get(l.Len() - 1))
				}
			}
			return
		}
		i, _ := strconv.Atoi(path[1])
		if i >= l.Len() {
			return
		}
		switch {
		case len(path) > 2:
			w.malField(l.Get(i).Message(), path[2:], op)
		case fd.Kind() == protoreflect.MessageKind:
			l.Set(i, l.NewElement())
		default:
			l.Set(i, w.malScalar(fd, l.Get(i), op))
		}
		return
	}
	switch {
	case len(path) > 1:
		w.malField(m.Mutable(fd).Message(), path[1:], op)
	case fd.Kind() == protoreflect.MessageKind:
		m.Clear(fd)
	default:
		m.Set(fd, w.malScalar(fd, m.Get(fd), op))
	}
}

func (w *world) malScalar(fd protoreflect.FieldDescriptor, v protoreflect.Value, op string) protoreflect.Value {
	switch fd.Kind() {
	case protoreflect.BytesKind:
		return protoreflect.ValueOfBytes(malBytes(op, v.Bytes()))
	case protoreflect.Uint32Kind:
		return protoreflect.ValueOfUint32(w.malNumber(op))
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(!v.Bool())
	}
	return v
}

// malFields lists the changes to a payload; at are the list indices changed.
func malFields(d protoreflect.MessageDescriptor, at []int, pre string, y func(string)) {
	for i := 0; i < d.Fields().Len(); i++ {
		fd := d.Fields().Get(i)
		p := pre + string(fd.Name())
		leaf := func(p string) {
			switch fd.Kind() {
			case protoreflect.BytesKind:
				for _, o := range bytesOps {
					y(p + "-" + o)
				}
			case protoreflect.Uint32Kind:
				for _, o := range []string{"0", "N+1", "max"} {
					y(p + "-" + o)
				}
			case protoreflect.BoolKind:
				y(p + "-not")
			case protoreflect.MessageKind:
				y(p + "-unset")
				malFields(fd.Message(), at, p+"_", y)
			}
		}
		if !fd.IsList() {
			leaf(p)
			continue
		}
		for _, o := range []string{"none", "short", "more"} {
			y(p + "-" + o)
		}
		for _, k := range at {
			leaf(fmt.Sprintf("%s_%d", p, k))
		}
	}
}

// malformed lists the changes to the messages of some types.
func malformed(at []int, types ...string) []string {
	var r []string
	for _, t := range types {
		for _, o := range bytesOps {
			r = append(r, "mal."+t+"--"+o)
		}
		if x := payloads[t]; x != nil {
			malFields(x.ProtoReflect().Descriptor(), at, "", func(p string) { r = append(r, "mal."+t+"-"+p) })
		}
		if t != "Commit" && t != "NewCommit" && t != "MVBAIN" {
			r = append(r, "mal."+t+"-sender-N", "mal."+t+"-sender-max")
		}
	}
	return r
}

// dealersOf: a dealing with each change, sent to everyone or to one member.
func dealersOf(muts []string, dests ...string) genf {
	return func(tier string, y yieldf) bool {
		for _, m := range muts {
			for _, d := range dests {
				if !y("dealer=" + m + d) {
					return false
				}
			}
		}
		return true
	}
}

func init() {
	ex.Register("C26", func() *ex.Check {
		p4, c4, v4 := psd(4, 1), chain(4, 1, 1), vss(4, 1)
		p7 := psd(7, 2)
		m4 := mvba(4, 1, true)
		agree := []string{"Value", "Echo", "Finish", "Done", "Halt", "PreVote", "Vote"}
		refresh := append([]string{"RBCPropose", "Commit", "NewCommit", "RBCEcho", "RBCReady", "Reshare", "Recover", "ShareDist", "Success", "MVBAIN"}, agree...)
		mu := malformed([]int{0, 2}, refresh...)
		all := malformed([]int{0, 1, 2, 3, 4}, refresh...)
		orders := list("", "lifo")
		return &ex.Check{Spaces: []ex.Space{
			space("sharing", "every malformed field of a dealing, towards everyone and each single member, in both delivery orders, N=4", v4, cross(dealersOf(malformed([]int{0, 1, 2, 3}, "VSSSend"), "", "@0", "@3"), orders)),
			space("handoff, old member", "every malformed field of a message to the new committee by each old member, whose messages come first or last, N=4", c4, byzFirst(0, 4, malformed([]int{0, 1, 3}, "Prepare", "ShareReduce"))),
			space("handoff, numbers of no member", "what each old member gets wrong, sent again under numbers no member has, its messages first or last, N=4", c4, byzFirst(0, 4, ghosts(4, 1, true))),
			space("refresh, numbers of no member", "the same of each new member, in both delivery orders, N=4", p4, cross(byzFirst(1, 4, ghosts(4, 1, false)), orders)),
			space("refresh", "every malformed field of every message of a refresh by each member, in both delivery orders, N=4", p4, cross(byzPlans(1, 4, mu, false), orders)),
			space("refresh, one receiver", "the same towards each single member, N=4", p4, thorough(byzPlans(1, 4, mu, true))),
			space("refresh, first or last", "the same, with the messages of the member first or last, N=4", p4, byzFirst(1, 4, mu)),
			space("refresh of seven", "the same field malformed by two members, N=7", p7, thorough(byzTwo(1, all, [][2]int{{0, 1}, {2, 6}}))),
			space("agreement", "every malformed field of the messages of the agreement by each member, each type of message held back or first, N=4", m4, cross(byzPlans(1, 4, malformed([]int{0}, agree...), false), m4.types())),
			space("agreement, numbers of no member", "every deviation of a member in the agreement, one type of its messages sent again under numbers no member has, its messages first or last, N=4", m4, byzFirst(1, 4, ghostsOf(mvbaMutations(), agree))),
		}}
	})
}
