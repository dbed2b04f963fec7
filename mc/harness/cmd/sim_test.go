//go:build !mcreal

package main

import (
	"flag"
	"fmt"
	"io"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"encoding/binary"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/internal/party"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"google.golang.org/protobuf/proto"
	"verif.local/vs"
	"verif.local/vs/alg"
	"verif.local/vs/ex"
)

func init() {
	vs.InstallRand()
	vs.Labeler = func(b []byte) string {
		if len(b) < 4 || int(binary.BigEndian.Uint32(b)) != len(b)-4 {
			return "?"
		}
		var m protobuf.Message
		if proto.Unmarshal(b[4:], &m) != nil {
			return "?"
		}
		return m.Type
	}
}

// global reports whether the program keeps its flags outside of main: several processes
// cannot then be executed in one.
var global = func() bool {
	g := false
	flag.CommandLine.VisitAll(func(f *flag.Flag) {
		if !strings.HasPrefix(f.Name, "test.") {
			g = true
		}
	})
	return g
}()

// process is one run of the program.
func process(args []string) {
	flag.CommandLine = flag.NewFlagSet("DyCAPs", flag.PanicOnError)
	flag.CommandLine.SetOutput(io.Discard)
	os.Args = append([]string{"DyCAPs"}, args...)
	main()
	vs.CrashParty(vs.Cur().Party, "exit")
}

func node() {}

var prepared = map[string]bool{}

// prepare makes a directory with what the first command of the script leaves there.
func prepare(n, f int) string {
	dir := filepath.Join(home(), fmt.Sprint("n", n, "f", f))
	if prepared[dir] {
		return dir
	}
	check(os.MkdirAll(dir, 0o755))
	check(os.Chdir(dir))
	for _, a := range documented(n, f) {
		if e, _ := identity(a); e == -2 {
			d, _ := vs.ParseDev("")
			s := vs.NewSched(d, 7)
			s.Spawn(9998, "prepare", func() { process(a) })
			s.Run()
		}
	}
	prepared[dir] = true
	return dir
}

type world struct {
	s       *vs.Sched
	members map[int]*party.HonestParty
	secret  *big.Int
	types   []string
}

func execute(pl *plan, dir string, trace bool) *world {
	check(os.Chdir(dir))
	check(os.RemoveAll(filepath.Join(dir, "metadata")))
	check(os.Mkdir(filepath.Join(dir, "metadata"), 0o755))
	pl.files(filepath.Join(dir, "list"), pl.addresses)
	d, _ := vs.ParseDev(strings.Join(pl.rest, " "))
	s := vs.NewSched(d, 1)
	s.OnState = ex.State
	s.KeepTrace = trace
	s.MaxPoints, s.MaxIdle = 5_000_000, 6000
	s.Net.ResetOnDeath = true
	w := &world{s: s, members: map[int]*party.HonestParty{}}
	if pl.until > 0 {
		s.MaxIdle += pl.until * 10
		s.AddTimer(int64(pl.until)*1e9, func() { d.Stuck() })
	}
	party.MCOnMember = func(p *party.HonestParty) { w.members[vs.Cur().Party] = p }
	party.MCOnClient = func(x bls.Fr) { w.secret = number(&x) }
	crash := map[int]int{}
	for _, p := range pl.procs {
		p := p
		if strings.HasPrefix(pl.lists, "hosts") {
			ip := "10.99.0.1"
			if p.e >= 0 {
				ips, _ := pl.addresses(p.e)
				if pl.one {
					ips, _ = pl.addresses(0)
				}
				ip = ips[p.i]
			}
			s.Net.SetHost(p.id, ip)
		}
		if p.crash >= 0 {
			crash[p.id] = p.crash
		}
		if p.kill >= 0 {
			s.AddTimer(int64(p.kill)*1e9, func() {
				s.Spawn(9997, "kill", func() { vs.CrashParty(p.id, "killed") })
			})
		}
		if p.absent {
			continue
		}
		s.Spawn(9999, "start", func() {
			if p.start > 0 {
				vs.Sleep(int64(p.start) * 1e9)
			}
			if !s.Dead(p.id) {
				vs.GoAs(p.id, "main", func() { process(p.args) })
			}
		})
	}
	s.Net.OnSend = func(p, nth int, l *vs.Link) bool {
		k, ok := crash[p]
		return !ok || nth <= k
	}
	seen := map[string]bool{}
	s.Net.Delivered = func(u *vs.Unit) {
		if l := u.Label(); !seen[l] {
			seen[l] = true
			w.types = append(w.types, l)
		}
	}
	stdout, cl, args := os.Stdout, flag.CommandLine, os.Args
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	check(err)
	if !vs.Verbose {
		os.Stdout = null
	}
	s.Run()
	os.Stdout, flag.CommandLine, os.Args = stdout, cl, args
	null.Close()
	sort.Strings(w.types)
	return w
}

func run(s string, trace bool) ex.Result {
	if global {
		return ex.Result{Trivial: true}
	}
	pl := parse(s)
	r := ex.Result{}
	if r.Viol = pl.complete(); r.Viol != "" {
		return r
	}
	dir := prepare(pl.n, pl.f)
	w := execute(pl, dir, trace)
	r.Transitions, r.Trace = w.s.Deliveries, w.s.Trace
	r.Viol = w.verdict(pl, filepath.Join(dir, "metadata"))
	r.Sig = w.s.StateHash() ^ ex.Hash(fmt.Sprint(w.s.Now), r.Viol)
	if r.Viol != "" {
		for _, c := range w.s.Crashes {
			r.Detail = append(r.Detail, fmt.Sprintf("process %d ended: %.200s", c.Party, c.Reason))
		}
		for _, p := range pl.procs {
			if b := w.s.Blocked(p.id); len(b) > 0 {
				r.Detail = append(r.Detail, fmt.Sprintf("%v waits: %s", p, strings.Join(b, " ")))
			}
		}
	}
	return r
}

func (w *world) verdict(pl *plan, metadata string) string {
	faulty := map[int]bool{}
	for _, p := range pl.procs {
		faulty[p.id] = p.faulty()
	}
	for _, c := range w.s.Crashes {
		if c.Party < 9991 && !faulty[c.Party] && c.Reason != "exit" {
			return fmt.Sprintf("process %d stopped: %.120s", c.Party, c.Reason)
		}
	}
	if w.s.Budget {
		return "execution does not come to rest"
	}
	if w.secret == nil {
		return "the client shares no secret"
	}
	if v := pl.latencies(metadata, w.s.Now); v != "" {
		return v
	}
	var xs []*big.Int
	var full [][]*big.Int
	var com []string
	for _, p := range pl.who("1:*") {
		if p.faulty() {
			continue
		}
		m := w.members[p.id]
		if m == nil {
			return fmt.Sprintf("%v does not take part", p)
		}
		f, _ := m.MCShares()
		if len(f) != 2*pl.f+1 {
			return fmt.Sprintf("%v: full share has %d coefficients", p, len(f))
		}
		var l []*big.Int
		for i := range f {
			l = append(l, number(&f[i]))
		}
		xs, full = append(xs, alg.I(int64(p.i+1))), append(full, l)
		c := strings.Join(m.MCCommitments(), "")
		if len(com) > 0 && com[0] != c {
			return "members record different commitments"
		}
		com = append(com, c)
	}
	for k := 0; k <= 2*pl.f; k++ {
		var ys []*big.Int
		for _, f := range full {
			ys = append(ys, f[k])
		}
		t := pl.f + 1
		for i := t; i < len(xs); i++ {
			if alg.Lagrange(xs[:t], ys[:t], xs[i]).Cmp(ys[i]) != 0 {
				return "full shares do not lie on one polynomial of degree t"
			}
		}
		if k == 0 && alg.Lagrange(xs[:t], ys[:t], new(big.Int)).Cmp(w.secret) != 0 {
			return "full shares of t+1 members interpolate to a different secret"
		}
	}
	return ""
}

func number(x *bls.Fr) *big.Int {
	b := bls.FrTo32(x)
	for i := 0; i < 16; i++ {
		b[i], b[31-i] = b[31-i], b[i]
	}
	return new(big.Int).SetBytes(b[:])
}

// facts are the types of messages of a default execution.
func facts(es []int) []string {
	s := ""
	if len(es) == 1 {
		s = "one"
	}
	if global {
		return nil
	}
	pl := parse(s)
	if pl.complete() != "" {
		return nil
	}
	return execute(pl, prepare(pl.n, pl.f), false).types
}
