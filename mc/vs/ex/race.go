//go:build race

package ex

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
)

// Built with the race detector, an execution also fails when two goroutines of one party access
// the same memory, one of them writing, and nothing orders the two accesses. The reports of
// the detector are read from its log.

var raceLog string
var raceRead int64
var raceCount int

// raceMain restarts the process with the detector's log in a file.
func raceMain() {
	const key = "MC_RACELOG"
	if os.Getenv(key) == "" {
		dir, err := os.MkdirTemp("", "mcrace")
		if err != nil {
			panic(err)
		}
		exe, err := os.Executable()
		if err != nil {
			panic(err)
		}
		e := append(os.Environ(), key+"="+dir+"/r",
			"GORACE=log_path="+dir+"/r halt_on_error=0 exitcode=0 history_size=5")
		panic(syscall.Exec(exe, os.Args, e))
	}
	raceLog = fmt.Sprintf("%s.%d", os.Getenv(key), os.Getpid())
}

func raceDone() { os.RemoveAll(filepath.Dir(raceLog)) }

var (
	raceFrame = regexp.MustCompile(`(?m)^  (\S+)\(.*\n\s+(\S+\.go):(\d+)`)
	raceWho   = regexp.MustCompile(`by goroutine (\d+):`)
	raceBy    = regexp.MustCompile(`Goroutine (\d+) \([a-z]+\) created at:\n  verif\.local/vs\.(startOf\d+)\(`)
)

// own is the first function of the code under test in a stack of the detector, "" when the
// access is not one of its own.
func own(stack string) string {
	for _, m := range raceFrame.FindAllStringSubmatch(stack, -1) {
		switch {
		case strings.HasPrefix(m[1], "verif.local/") || strings.HasPrefix(filepath.Base(m[2]), "zz_"):
			return ""
		case strings.HasPrefix(m[1], "github.com/DyCAPSTeam/"):
			return m[1] + " (" + filepath.Base(m[2]) + ":" + m[3] + ")"
		}
	}
	return ""
}

func watched(sp Space, plan string, trace bool) Result {
	if trace {
		debug.SetGCPercent(-1) // no memory is used again
	}
	r := sp.Run(plan, trace)
	if reports(&r, trace) && !trace && !again(sp.Name, plan, r.Detail) {
		r.Viol, r.Detail = "", nil
	}
	return r
}

// again runs a plan in two processes of their own: a report may also come from memory that
// served another purpose in an earlier execution.
func again(space, plan string, what []string) bool {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	for i := 0; i < 2; i++ {
		out := fmt.Sprintf("%s/again%d", filepath.Dir(raceLog), i)
		cmd := exec.Command(exe, os.Args[1:]...)
		for _, e := range os.Environ() {
			if !strings.HasPrefix(e, "MC_RACELOG=") && !strings.HasPrefix(e, "MC_OUT=") && !strings.HasPrefix(e, "GORACE=") {
				cmd.Env = append(cmd.Env, e)
			}
		}
		cmd.Env = append(cmd.Env, "MC_OUT="+out, "MC_REPLAY_SPACE="+space, "MC_REPLAY_PLAN="+plan)
		if err := cmd.Run(); err != nil {
			return false
		}
		var v Viol
		b, _ := os.ReadFile(out)
		json.Unmarshal(b, &v)
		same := false
		for _, x := range v.Detail {
			for _, y := range what {
				same = same || x == y
			}
		}
		if !same {
			return false
		}
	}
	return true
}

// reports adds what the detector has to say since the last time to the result.
func reports(r *Result, trace bool) (found bool) {
	n := runtime.RaceErrors()
	if n == raceCount {
		return
	}
	raceCount = n
	b, err := os.ReadFile(raceLog)
	if err != nil {
		panic(err)
	}
	text := string(b[raceRead:])
	raceRead = int64(len(b))
	for _, rep := range strings.Split(text, "WARNING: DATA RACE\n")[1:] {
		parts := strings.Split(strings.SplitN(rep, "\n==================", 2)[0], "\n\n")
		if len(parts) < 2 {
			continue
		}
		by := map[string]string{}
		for _, m := range raceBy.FindAllStringSubmatch(rep, -1) {
			by[m[1]] = m[2]
		}
		a, c := raceWho.FindStringSubmatch(parts[0]), raceWho.FindStringSubmatch(parts[1])
		if a == nil || c == nil || by[a[1]] == "" || by[a[1]] != by[c[1]] {
			continue
		}
		x, y := own(parts[0]), own(parts[1])
		if x == "" || y == "" {
			continue
		}
		if found = true; r.Viol == "" {
			r.Viol = "unordered accesses to shared memory"
			r.Detail = nil
		}
		r.Detail = append(r.Detail, strings.ToLower(strings.SplitN(parts[0], " at ", 2)[0])+" in "+x+", "+
			strings.ToLower(strings.SplitN(parts[1], " at ", 2)[0])+" in "+y)
		if trace {
			r.Trace = append(r.Trace, strings.Split(rep, "\n")...)
		}
	}
	return
}
