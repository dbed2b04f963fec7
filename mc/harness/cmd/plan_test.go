package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"

	"verif.local/vs/ex"
)

// A plan starts the processes of one handoff: those of the documented script (its own
// command lines), or of one committee that hands over to itself.
//
//	n=N f=F          size of the committees (4 1)
//	one              one committee in the role onlyOneCommittee, instead of two
//	t=A/B/C          the intervals -t1 -t2 -t3 (default: those of the script)
//	start=WHO/S      process started S seconds after the others
//	absent=WHO       never started
//	kill=WHO/S       killed S seconds after the beginning
//	crash=WHO/K      killed when it is about to send its K+1st message
//	lists=FORM       how the list files are written
//	until=S          held messages are delivered at S seconds (deviations of package vs)
//
// WHO is client, E:I or E:* (committee E, 0 old, 1 new; member I).

// proc is one process.
type proc struct {
	id     int // as a party of the network
	e, i   int // committee and member; the client: -1
	args   []string
	start  int
	absent bool
	kill   int
	crash  int
}

func pid(e, i int) int { return 100*e + i }

const clientID = 9990

func (p *proc) String() string {
	if p.e < 0 {
		return "client"
	}
	return fmt.Sprintf("%s %d", []string{"old member", "new member"}[p.e], p.i)
}

func (p *proc) faulty() bool { return p.absent || p.kill >= 0 || p.crash >= 0 }

type plan struct {
	n, f  int
	one   bool
	lists string
	until int
	procs []*proc
	rest  []string // deviations of the schedule
}

func (pl *plan) who(w string) (l []*proc) {
	for _, p := range pl.procs {
		if w == "client" && p.e < 0 || p.e >= 0 && (w == fmt.Sprintf("%d:%d", p.e, p.i) || w == fmt.Sprintf("%d:*", p.e)) {
			l = append(l, p)
		}
	}
	return
}

func parse(s string) *plan {
	pl := &plan{n: 4, f: 1}
	var later []string
	var t []string
	num := func(v string) int { n, _ := strconv.Atoi(v); return n }
	for _, tok := range strings.Fields(s) {
		k, v, _ := strings.Cut(tok, "=")
		switch k {
		case "n":
			pl.n = num(v)
		case "f":
			pl.f = num(v)
		case "one":
			pl.one = true
		case "t":
			t = strings.Split(v, "/")
		case "lists":
			pl.lists = v
		case "until":
			pl.until = num(v)
		case "start", "absent", "kill", "crash":
			later = append(later, tok)
		default:
			pl.rest = append(pl.rest, tok)
		}
	}
	if pl.one {
		for _, a := range documented(pl.n, pl.f) {
			// the role of usage text, otherwise the command lines of the script
			if e, i := identity(a); e == 1 {
				pl.procs = append(pl.procs, &proc{id: pid(1, i), e: 1, i: i, args: with(a, "op2", "onlyOneCommittee")})
			} else if e == -1 {
				pl.procs = append(pl.procs, &proc{id: clientID, e: -1, args: a})
			}
		}
	} else {
		for _, a := range documented(pl.n, pl.f) {
			switch e, i := identity(a); e {
			case 0, 1:
				pl.procs = append(pl.procs, &proc{id: pid(e, i), e: e, i: i, args: a})
			case -1:
				pl.procs = append(pl.procs, &proc{id: clientID, e: -1, args: a})
			}
		}
	}
	for _, p := range pl.procs {
		p.kill, p.crash = -1, -1
		for i := range t {
			p.args = with(p.args, fmt.Sprint("t", i+1), t[i])
		}
	}
	for _, tok := range later {
		k, v, _ := strings.Cut(tok, "=")
		w, x, _ := strings.Cut(v, "/")
		for _, p := range pl.who(w) {
			switch k {
			case "start":
				p.start = num(x)
			case "absent":
				p.absent = true
			case "kill":
				p.kill = num(x)
			case "crash":
				p.crash = num(x)
			}
		}
	}
	return pl
}

// with sets a flag of a command line.
func with(args []string, name, value string) []string {
	l := append([]string{}, args...)
	for i := 0; i+1 < len(l); i++ {
		if l[i] == "-"+name {
			l[i+1] = value
			return l
		}
	}
	return append(l, "-"+name, value)
}

func flagOf(args []string, name string) string {
	for i := 0; i+1 < len(args); i++ {
		if args[i] == "-"+name {
			return args[i+1]
		}
	}
	return ""
}

// identity says which process a command line of the script starts: committee and member,
// -1 the client, -2 the one that prepares the keys.
func identity(args []string) (e, i int) {
	i, _ = strconv.Atoi(flagOf(args, "id"))
	r := strings.ToLower(flagOf(args, "op2"))
	switch {
	case flagOf(args, "op1") == "1":
		return -2, 0
	case r == "client":
		return -1, 0
	case strings.HasPrefix(r, "new"):
		return 1, i
	}
	return 0, i
}

func repo() string {
	if r := os.Getenv("VERIF_REPO"); r != "" {
		return r
	}
	return "/repo"
}

var docCache = map[string][][]string{}

// documented runs a copy of the documented script with a stand-in for go that records what
// it is asked to run (and without the commands that delete or kill).
func documented(n, f int) [][]string {
	k := fmt.Sprint(n, " ", f)
	if docCache[k] != nil {
		return docCache[k]
	}
	dir, err := os.MkdirTemp(home(), "script")
	check(err)
	defer os.RemoveAll(dir)
	bin := filepath.Join(dir, "bin")
	check(os.MkdirAll(bin, 0o755))
	for _, c := range []string{"go", "rm", "mkdir", "sleep", "lsof", "kill", "pkill", "killall"} {
		s := "#!/bin/bash\n"
		if c == "go" {
			s += "echo \"RUN $*\"\n"
		}
		check(os.WriteFile(filepath.Join(bin, c), []byte(s), 0o755))
	}
	for _, c := range []string{"seq", "bash", "cat", "echo"} {
		p, err := exec.LookPath(c)
		check(err)
		check(os.Symlink(p, filepath.Join(bin, c)))
	}
	for _, s := range []string{"test_multiCommittee.sh", "reset.sh"} {
		b, err := os.ReadFile(filepath.Join(repo(), "cmd/DyCAPs", s))
		check(err)
		check(os.WriteFile(filepath.Join(dir, s), b, 0o755))
	}
	c := exec.Command("/bin/bash", "./test_multiCommittee.sh", strconv.Itoa(n), strconv.Itoa(f))
	c.Dir = dir
	c.Env = []string{"PATH=" + bin}
	var o bytes.Buffer
	c.Stdout, c.Stderr = &o, &o
	c.Run() // returns when everything it started is done too
	var l [][]string
	for _, s := range strings.Split(o.String(), "\n") {
		if a := strings.Fields(s); len(a) > 3 && a[0] == "RUN" && a[1] == "run" {
			l = append(l, a[3:])
		}
	}
	// the script starts them at the same time: what they write has no fixed order
	sort.SliceStable(l, func(a, b int) bool {
		e, i := identity(l[a])
		x, j := identity(l[b])
		return e < x || e == x && i < j
	})
	docCache[k] = l
	return l
}

func check(err error) {
	if err != nil {
		panic(err)
	}
}

var homeDir string

// home is a directory of this process, removed by whoever started it.
func home() string {
	if homeDir == "" {
		d, err := os.MkdirTemp(".", "cmd")
		check(err)
		homeDir, err = filepath.Abs(d)
		check(err)
	}
	return homeDir
}

// addresses of the members, in the forms a list may be written in.
func (pl *plan) addresses(e int) (ips, ports []string) {
	for i := 0; i < pl.n; i++ {
		switch pl.lists {
		case "hosts", "hosts+", "hosts2": // a host for each
			ips, ports = append(ips, fmt.Sprintf("10.%d.0.%d", e, i+1)), append(ports, "18880")
		default:
			ips, ports = append(ips, "127.0.0.1"), append(ports, strconv.Itoa(18880+100*e+i))
		}
	}
	return
}

// files writes the lists.
func (pl *plan) files(dir string, addr func(e int) (ips, ports []string)) {
	check(os.MkdirAll(dir, 0o755))
	for e, s := range []string{"", "Next"} {
		ips, ports := addr(e)
		switch pl.lists {
		case "more", "hosts2": // n is the maximum: more lines than members
			for i := 0; i < 3; i++ {
				ips, ports = append(ips, "127.0.0.1"), append(ports, strconv.Itoa(18880+100*e+90+i))
			}
		}
		end := ""
		if strings.HasSuffix(pl.lists, "+") {
			end = "\n"
		}
		check(os.WriteFile(filepath.Join(dir, "ipList"+s), []byte(strings.Join(ips, "\n")+end), 0o644))
		check(os.WriteFile(filepath.Join(dir, "portList"+s), []byte(strings.Join(ports, "\n")+end), 0o644))
	}
}

// latencies checks what the processes recorded in metadata: every member that is not
// faulty leaves one file of latencies.
func (pl *plan) latencies(dir string, max int64) string {
	l, _ := filepath.Glob(filepath.Join(dir, "log*"))
	files := map[string]bool{}
	for _, f := range l {
		b, err := os.ReadFile(f)
		check(err)
		n := 0
		for _, s := range strings.Split(string(b), "\n") {
			if strings.TrimSpace(s) == "" {
				continue
			}
			x := strings.Split(s, ",")
			d, err := strconv.ParseInt(strings.TrimSpace(x[len(x)-1]), 10, 64)
			if err != nil || d < 0 || d > max {
				return fmt.Sprintf("%s: not a latency: %q", filepath.Base(f), s)
			}
			n++
		}
		if n > 0 {
			files[filepath.Base(f)] = true
		}
	}
	for e := 0; e < 2; e++ {
		if e == 0 && pl.one {
			continue
		}
		for _, p := range pl.who(fmt.Sprintf("%d:*", e)) {
			if p.faulty() {
				continue
			}
			name := "log" + []string{"old", "new"}[e] + strconv.Itoa(p.i)
			if pl.one {
				name = "log" + strconv.Itoa(p.i)
			}
			if !files[name] {
				return fmt.Sprintf("%v records no latencies", p)
			}
		}
	}
	return ""
}

func (pl *plan) members(e int) (n int) {
	for _, p := range pl.procs {
		if p.e == e {
			n++
		}
	}
	return
}

// complete says what the documented command lines do not start.
func (pl *plan) complete() string {
	if len(pl.who("client")) != 1 || pl.members(1) != pl.n || !pl.one && pl.members(0) != pl.n {
		return "the documented script does not start a client and n members of each committee"
	}
	return ""
}

func TestMain(m *testing.M) {
	node()
	ex.Main(m)
}
