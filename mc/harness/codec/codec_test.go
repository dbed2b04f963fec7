package core

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"github.com/DyCAPSTeam/DyCAPS/pkg/utils"
	"google.golang.org/protobuf/proto"
	. "verif.local/vs/alg"
	"verif.local/vs/ex"
)

func TestMain(m *testing.M) { ex.Main(m) }

// kinds are the messages with a payload of their own.
var kinds = map[string]func() proto.Message{
	"Value":   func() proto.Message { return new(protobuf.Value) },
	"Echo":    func() proto.Message { return new(protobuf.Echo) },
	"Lock":    func() proto.Message { return new(protobuf.Lock) },
	"Finish":  func() proto.Message { return new(protobuf.Finish) },
	"Done":    func() proto.Message { return new(protobuf.Done) },
	"Halt":    func() proto.Message { return new(protobuf.Halt) },
	"PreVote": func() proto.Message { return new(protobuf.PreVote) },
	"Vote":    func() proto.Message { return new(protobuf.Vote) },
}

var kindNames = strings.Fields("Value Echo Lock Finish Done Halt PreVote Vote")

var blobs = [][]byte{nil, {}, {0}, {0xff}, {0, 0, 1}, []byte("value"), bytes.Repeat([]byte{0x80}, 127), bytes.Repeat([]byte{7}, 128), bytes.Repeat([]byte{0, 1}, 20000)}

var ids = [][]byte{nil, {0}, {0, 0, 0, 1}, []byte("vssshare"), bytes.Repeat([]byte{0xff}, 300)}

var senders = []uint32{0, 1, 3, 127, 128, 0x7fffffff, 0x80000000, 0xffffffff}

// fill sets the fields of a payload, field by field, from an index into the blobs.
func fill(m proto.Message, idx []int) proto.Message {
	v := reflect.ValueOf(m).Elem()
	k := 0
	for i := 0; i < v.NumField(); i++ {
		if !v.Type().Field(i).IsExported() {
			continue
		}
		switch v.Field(i).Kind() {
		case reflect.Bool:
			v.Field(i).SetBool(idx[k]%2 == 1)
		case reflect.Slice:
			v.Field(i).SetBytes(append([]byte(nil), blobs[idx[k]%len(blobs)]...))
		default:
			panic("field " + v.Type().Field(i).Name)
		}
		k++
	}
	return m
}

func fields(m proto.Message) int {
	n := 0
	t := reflect.TypeOf(m).Elem()
	for i := 0; i < t.NumField(); i++ {
		if t.Field(i).IsExported() {
			n++
		}
	}
	return n
}

func short(m proto.Message) string {
	s := fmt.Sprint(m)
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}

func init() {
	ex.Register("C17", func() *ex.Check {
		return &ex.Check{ID: "C17", Spaces: []ex.Space{
			{Name: "kinds", Rule: "kind of message x every combination of field contents of an alphabet x identifiers x senders: what is decoded, also after the wire, is what was encoded",
				Gen: func(tier string, yield func(string) bool) {
					for _, k := range kindNames {
						for i := range ids {
							for s := range senders {
								if !yield(fmt.Sprintf("%s %d %d", k, i, s)) {
									return
								}
							}
						}
					}
				},
				Run: Run(func(p Plan, c *Cases) {
					make1 := kinds[p[0]]
					id, sender := ids[p.N(1)], senders[p.N(2)]
					n := fields(make1())
					idx := make([]int, n)
					size := len(blobs)
					if n > 3 { // the last ones are large: leave them to the other spaces
						size = 6
					}
					for c.Ok() {
						at := fmt.Sprint(p[0], " ", p.N(1), " ", sender, " ", idx)
						c.Add("kinds", at)
						c.Guard(at, func() {
							want := fill(make1(), idx)
							m := Encapsulation(p[0], id, sender, fill(make1(), idx))
							if m.Type != p[0] || !bytes.Equal(m.Id, id) || m.Sender != sender {
								c.Fail("wrong envelope", at, fmt.Sprint(m.Type, " ", m.Id, " ", m.Sender))
							}
							raw, err := proto.Marshal(m)
							var back protobuf.Message
							if err == nil {
								err = proto.Unmarshal(raw, &back)
							}
							if err != nil {
								c.Fail("a message cannot be sent", at, err.Error())
							}
							for i, x := range []*protobuf.Message{m, &back} {
								got, ok := Decapsulation(p[0], x).(proto.Message)
								if !ok || !proto.Equal(got, want) {
									c.Fail("decoded another message than the one encoded", at, fmt.Sprint(i), short(want), short(got))
								}
							}
						})
						i := 0
						for ; i < n; i++ {
							idx[i]++
							if idx[i] < size {
								break
							}
							idx[i] = 0
						}
						if i == n {
							break
						}
					}
				})},
			{Name: "garbage", Rule: "kind of message x every string of up to 2 bytes, and every message cut at every byte: decoding gives a message of the kind, whatever the bytes",
				Gen: func(tier string, yield func(string) bool) {
					for _, k := range kindNames {
						for b := 0; b < 256; b += 32 {
							if !yield(fmt.Sprintf("%s %d", k, b)) {
								return
							}
						}
						if !yield(k + " cut") {
							return
						}
					}
				},
				Run: Run(func(p Plan, c *Cases) {
					try := func(data []byte) {
						at := fmt.Sprintf("%s % x", p[0], data)
						c.Add("garbage", at)
						c.Guard(at, func() {
							got := Decapsulation(p[0], &protobuf.Message{Type: p[0], Data: data})
							if reflect.TypeOf(got) != reflect.TypeOf(kinds[p[0]]()) || reflect.ValueOf(got).IsNil() {
								c.Fail("decoded a message of another kind", at)
							}
						})
					}
					if p[1] == "cut" {
						idx := make([]int, fields(kinds[p[0]]()))
						for i := range idx {
							idx[i] = 5
						}
						m := Encapsulation(p[0], nil, 0, fill(kinds[p[0]](), idx))
						for i := 0; i <= len(m.Data); i++ {
							try(m.Data[:i])
						}
						return
					}
					for a := p.N(1); a < p.N(1)+32; a++ {
						try([]byte{byte(a)})
						for b := 0; b < 256; b++ {
							try([]byte{byte(a), byte(b)})
						}
					}
				})},
			{Name: "numbers", Rule: "every number with at most 16 significant bits in any position: four bytes, big-endian, and back",
				Gen: func(tier string, yield func(string) bool) {
					for s := 0; s <= 16; s++ {
						if !yield(fmt.Sprint(s)) {
							return
						}
					}
				},
				Run: Run(func(p Plan, c *Cases) {
					for x := uint32(0); x < 1<<16; x++ {
						v := x << p.N(0)
						c.Add("numbers", fmt.Sprint(v))
						want := []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
						if !bytes.Equal(utils.Uint32ToBytes(v), want) || !bytes.Equal(utils.IntToBytes(int(v)), want) {
							c.Fail("wrong encoding of a number", fmt.Sprint(v))
						}
						if utils.BytesToUint32(want) != v || utils.BytesToInt(want) != int(v) {
							c.Fail("wrong decoding of a number", fmt.Sprint(v))
						}
					}
				})},
		}}
	})
}
