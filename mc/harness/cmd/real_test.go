//go:build mcreal

package main

import (
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verif.local/vs/ex"
)

// node is what a process of the real execution does: the unchanged program.
func node() {
	a := os.Getenv("MC_NODE")
	if a == "" {
		return
	}
	os.Args = append([]string{"DyCAPs"}, strings.Split(a, " ")...)
	main()
	os.Exit(0)
}

func facts([]int) []string { return nil }

type running struct {
	*proc
	cmd  *exec.Cmd
	out  *os.File
	done chan error
}

func launch(dir, name string, args []string) *running {
	self, err := os.Executable()
	check(err)
	r := &running{cmd: exec.Command(self), done: make(chan error, 1)}
	r.out, err = os.Create(filepath.Join(dir, name+".out"))
	check(err)
	r.cmd.Dir, r.cmd.Stdout, r.cmd.Stderr = dir, r.out, r.out
	r.cmd.Env = append(os.Environ(), "MC_NODE="+strings.Join(args, " "), "GOMAXPROCS=2")
	r.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	check(r.cmd.Start())
	go func() { r.done <- r.cmd.Wait() }()
	return r
}

// run executes a plan as processes of the operating system on the loopback network, with
// the real pairing library; tokens about the order of messages have no meaning here.  Times
// are a tenth of those of the plan.  What it sees: that the members that are not
// faulty finish, and record their latencies.
func run(s string, trace bool) (r ex.Result) {
	pl := parse(s)
	if r.Viol = pl.complete(); r.Viol != "" {
		return
	}
	dir, err := os.MkdirTemp(home(), "run")
	check(err)
	defer os.RemoveAll(homeDir)
	check(os.Mkdir(filepath.Join(dir, "metadata"), 0o755))
	ports := map[int][]string{}
	var open []net.Listener
	for i := 0; i < 2*pl.n; i++ {
		l, err := net.Listen("tcp4", "127.0.0.1:0")
		check(err)
		open = append(open, l)
		ports[i/pl.n] = append(ports[i/pl.n], strconv.Itoa(l.Addr().(*net.TCPAddr).Port))
	}
	pl.files(filepath.Join(dir, "list"), func(e int) (ips, _ []string) {
		for range ports[e] {
			ips = append(ips, "127.0.0.1")
		}
		return ips, ports[e]
	})
	for _, l := range open {
		l.Close()
	}
	for _, a := range documented(pl.n, pl.f) {
		if e, _ := identity(a); e == -2 {
			p := launch(dir, "prepare", a)
			<-p.done
		}
	}
	tenth := func(sec int) time.Duration {
		if sec > 60 {
			sec = 60
		}
		return time.Duration(sec) * 100 * time.Millisecond
	}
	began := time.Now()
	type event struct {
		at time.Duration
		f  func()
	}
	var todo []event
	procs := map[*proc]*running{}
	defer func() {
		for _, p := range procs {
			p.cmd.Process.Kill()
			<-p.done
			p.out.Close()
		}
	}()
	for _, p := range pl.procs {
		p := p
		if p.absent {
			continue
		}
		if p.crash >= 0 { // no way to count what it sends
			p.kill = 15 + p.crash%10
		}
		a := p.args
		for k := 1; k <= 3; k++ {
			x, _ := strconv.Atoi(flagOf(a, fmt.Sprint("t", k)))
			a = with(a, fmt.Sprint("t", k), strconv.Itoa((x+9)/10))
		}
		todo = append(todo, event{tenth(p.start), func() { procs[p] = launch(dir, strings.ReplaceAll(p.String(), " ", ""), a) }})
		if p.kill >= 0 {
			todo = append(todo, event{tenth(p.kill), func() {
				if procs[p] != nil {
					procs[p].cmd.Process.Kill()
				}
			}})
		}
	}
	for {
		for i := 0; i < len(todo); i++ {
			if e := todo[i]; time.Since(began) >= e.at {
				e.f()
				todo = append(todo[:i], todo[i+1:]...)
				i--
			}
		}
		for _, p := range pl.procs {
			if q := procs[p]; q != nil && !p.faulty() {
				select {
				case err := <-q.done:
					q.done <- err
					r.Viol = fmt.Sprintf("%v stopped", p)
					b, _ := os.ReadFile(q.out.Name())
					if len(b) > 400 {
						b = b[len(b)-400:]
					}
					r.Detail = append(r.Detail, string(b))
					return
				default:
				}
			}
		}
		// slower than a time limit is no violation: whoever called gives up
		if len(todo) == 0 && pl.latencies(filepath.Join(dir, "metadata"), int64(time.Hour)) == "" {
			return
		}
		time.Sleep(50 * time.Millisecond)
	}
}
