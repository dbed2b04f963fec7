// Package ex enumerates the plans of a check, runs them and records what was covered.
// A plan is a string that determines one execution (or one exhaustively evaluated case)
// completely; the enumeration is deterministic and is sharded over worker processes.
package ex

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"time"
)

// Result is the outcome of one plan.
type Result struct {
	Viol        string   // what is broken ("" when the property held)
	Detail      []string // more about it
	Trivial     bool     // the plan changed nothing
	Sig         uint64   // identity of the history explored, 0: the plan's own
	Transitions int      // transitions explored (default 1)
	Evals       int      // cases evaluated (default 1)
	Trace       []string
}

// Space is one enumerated family of executions.
type Space struct {
	Name string
	Rule string // what is enumerated
	Gen  func(tier string, yield func(plan string) bool)
	Run  func(plan string, trace bool) Result
}

// Check is everything explored for one property.
type Check struct {
	ID     string
	Spaces []Space
}

var checks = map[string]func() *Check{}

// Register adds a check; the constructor runs only when the check is selected.
func Register(id string, f func() *Check) { checks[id] = f }

// SpaceReport is what a worker says about one space.
type SpaceReport struct {
	Name        string
	Rule        string
	Planned     int
	Runs        int
	Evals       int
	Trivial     int
	Transitions int
	Complete    bool
	Samples     []string
	Viols       []Viol
}

// Viol is a violation found.
type Viol struct {
	Space, Plan, Viol string
	Index             int
	Detail, Trace     []string
}

// Report is the output of a worker.
type Report struct {
	Check  string
	Shard  int
	Spaces []SpaceReport
	WallS  float64
	Err    string
}

// set is an open-addressing set of uint64.
type set struct {
	t []uint64
	n int
}

func (s *set) add(h uint64) {
	if h == 0 {
		h = 1
	}
	if s.n*2 >= len(s.t) {
		old := s.t
		s.t = make([]uint64, max(1<<12, 2*len(old)))
		s.n = 0
		for _, x := range old {
			if x != 0 {
				s.add(x)
			}
		}
	}
	m := uint64(len(s.t) - 1)
	for i := h * 0x9e3779b97f4a7c15 >> 20 & m; ; i = (i + 1) & m {
		if s.t[i] == h {
			return
		}
		if s.t[i] == 0 {
			s.t[i] = h
			s.n++
			return
		}
	}
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func (s *set) write(path string) {
	f, err := os.Create(path)
	if err != nil {
		return
	}
	w := bufio.NewWriterSize(f, 1<<20)
	var b [8]byte
	for _, x := range s.t {
		if x != 0 {
			binary.LittleEndian.PutUint64(b[:], x)
			w.Write(b[:])
		}
	}
	w.Flush()
	f.Close()
}

// What is being executed, for the driver to find when the process stops.
var cur *os.File
var began int64 // when the current plan was started

const runLimit = 60 * time.Second

func begin(space, plan string) {
	if cur == nil {
		out := os.Getenv("MC_OUT")
		if out == "" {
			return
		}
		f, err := os.Create(out + ".cur")
		if err != nil {
			return
		}
		cur = f
		go func() {
			for {
				time.Sleep(time.Second)
				if b := atomic.LoadInt64(&began); b != 0 && time.Now().UnixNano()-b > int64(runLimit) {
					fmt.Println("the plan does not terminate")
					os.Exit(2)
				}
			}
		}()
	}
	atomic.StoreInt64(&began, time.Now().UnixNano())
	cur.WriteAt([]byte(space+"\x1f"+plan+"\x1f"), 0)
}

var states, sigs set

const capStates = 3_000_000

// State records a state reached.
func State(h uint64) {
	if states.n < capStates {
		states.add(h)
	}
}

// Hash is FNV-1a over strings.
func Hash(ss ...string) uint64 {
	h := uint64(14695981039346656037)
	for _, s := range ss {
		for i := 0; i < len(s); i++ {
			h = (h ^ uint64(s[i])) * 1099511628211
		}
		h = (h ^ 0xff) * 1099511628211
	}
	return h
}

// Tier is quick or thorough.
func Tier() string {
	if os.Getenv("MC_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func env(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

// Main runs the selected check; used from TestMain.
func Main(m *testing.M) {
	id := os.Getenv("MC_CHECK")
	if id == "" {
		fmt.Println("MC_CHECK not set; checks:")
		var l []string
		for k := range checks {
			l = append(l, k)
		}
		sort.Strings(l)
		fmt.Println(strings.Join(l, " "))
		os.Exit(2)
	}
	mk := checks[id]
	if mk == nil {
		fmt.Println("no such check", id)
		os.Exit(7)
	}
	raceMain()
	runtime.GOMAXPROCS(env("MC_PROCS", 1))
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(2500 << 20)
	if sp := os.Getenv("MC_REPLAY_SPACE"); sp != "" {
		replay(mk(), sp, os.Getenv("MC_REPLAY_PLAN"))
		raceDone()
		os.Exit(0)
	}
	shard, n := env("MC_SHARD", 0), env("MC_SHARDS", 1)
	out := os.Getenv("MC_OUT")
	start := time.Now()
	deadline := start.Add(time.Duration(env("MC_DEADLINE", 3600)) * time.Second)
	stop := os.Getenv("MC_STOP")
	rep := Report{Check: id, Shard: shard}
	c := mk()
	only := os.Getenv("MC_ONLY")
	limit := env("MC_MAXVIOL", 1)
	nviol := 0
	for _, sp := range c.Spaces {
		if only != "" && !strings.Contains(","+only+",", ","+sp.Name+",") {
			continue
		}
		r := SpaceReport{Name: sp.Name, Rule: sp.Rule, Complete: true}
		i := -1
		done := map[string]bool{}
		vseen := map[string]bool{}
		sp.Gen(Tier(), func(plan string) bool {
			i++
			if i%n != shard {
				return true
			}
			if nviol >= limit {
				r.Complete = false
				return false
			}
			if r.Runs&15 == 0 {
				if time.Now().After(deadline) {
					r.Complete = false
					return false
				}
				if stop != "" {
					if _, err := os.Stat(stop); err == nil {
						r.Complete = false
						return false
					}
				}
			}
			if done[plan] {
				return true
			}
			if len(done) < 4_000_000 {
				done[plan] = true
			}
			begin(sp.Name, plan)
			res := watched(sp, plan, false)
			atomic.StoreInt64(&began, 0)
			r.Runs++
			r.Evals += max(1, res.Evals)
			r.Transitions += max(1, res.Transitions)
			if res.Trivial {
				r.Trivial++
			} else {
				s := res.Sig
				if s == 0 {
					s = Hash(plan)
				}
				sigs.add(s ^ Hash(sp.Name))
				if len(r.Samples) < 3 || r.Runs&(r.Runs-1) == 0 && len(r.Samples) < 6 {
					r.Samples = append(r.Samples, sp.Name+": "+plan)
				}
			}
			if res.Viol != "" {
				known := Known(id, sp.Name, plan, res.Viol)
				if known || !vseen[res.Viol] {
					r.Viols = append(r.Viols, Viol{Space: sp.Name, Plan: plan, Viol: res.Viol, Index: i, Detail: res.Detail})
				}
				if !known {
					vseen[res.Viol] = true
					nviol++
				}
			}
			return true
		})
		r.Planned = i + 1
		rep.Spaces = append(rep.Spaces, r)
	}
	rep.WallS = time.Since(start).Seconds()
	if out == "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		fmt.Println(string(b))
		fmt.Println("states", states.n, "distinct", sigs.n)
		raceDone()
		os.Exit(0)
	}
	b, _ := json.Marshal(rep)
	states.write(out + ".states")
	sigs.write(out + ".sigs")
	if err := os.WriteFile(out, b, 0o644); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	raceDone()
	os.Exit(0)
}

func replay(c *Check, space, plan string) {
	for _, sp := range c.Spaces {
		if sp.Name == space {
			res := watched(sp, plan, true)
			b, _ := json.Marshal(Viol{Space: space, Plan: plan, Viol: res.Viol, Detail: res.Detail, Trace: res.Trace})
			if out := os.Getenv("MC_OUT"); out != "" {
				os.WriteFile(out, b, 0o644)
				return
			}
			for _, l := range res.Trace {
				fmt.Println(l)
			}
			for _, l := range res.Detail {
				fmt.Println("  ", l)
			}
			fmt.Println("RESULT:", res.Viol)
			return
		}
	}
	fmt.Println("no such space")
	os.Exit(7)
}

// Finding is a known finding.
type Finding struct {
	Property, Space, Plan, Violation, What string
}

var findings []Finding
var loaded bool

// Known reports whether a violation is listed in the known-findings file.
func Known(id, space, plan, viol string) bool {
	if !loaded {
		loaded = true
		if b, err := os.ReadFile(os.Getenv("MC_KNOWN")); err == nil {
			var f struct{ Findings []Finding }
			json.Unmarshal(b, &f)
			findings = f.Findings
		}
	}
	for _, f := range findings {
		if f.Property == id && f.Space == space && f.Plan == plan && f.Violation == viol {
			return true
		}
	}
	return false
}
