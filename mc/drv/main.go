// Command drv runs one check: it builds the harness binaries from the working tree of the
// repository, runs the sharded exploration, confirms what was found, and writes the evidence.
//
//	drv check ID     exit 0 held, 1 violation
//	drv replay FILE  shows a recorded violation again
package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

var (
	root = envs("VERIF_ROOT", "/verif")
	repo = envs("VERIF_REPO", "/repo")
	tmp  string
)

func envs(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	cleanup()
	os.Exit(3)
}

func cleanup() {
	if tmp != "" && os.Getenv("MC_KEEP") == "" {
		os.RemoveAll(tmp)
	}
}

func main() {
	if len(os.Args) < 3 {
		fmt.Println("usage: drv check ID | drv replay FILE | drv build BIN OUT")
		os.Exit(2)
	}
	var err error
	tmp, err = os.MkdirTemp("", "mc")
	if err != nil {
		die("%v", err)
	}
	code := 3
	switch os.Args[1] {
	case "check":
		code = check(os.Args[2])
	case "replay":
		code = replayFile(os.Args[2])
	case "build":
		p := build(os.Args[2])
		b, err := os.ReadFile(p)
		if err == nil {
			err = os.WriteFile(os.Args[3], b, 0o755)
		}
		if err != nil {
			die("%v", err)
		}
		code = 0
	}
	cleanup()
	os.Exit(code)
}

// ---- building ----------------------------------------------------------------------

// bin is one harness binary.
type bin struct {
	pkg     string // package of the repository the harness is compiled into
	dirs    []string
	rewrite bool   // under the scheduler
	group   string // "fake": exponent stand-in for the pairing library; "": the real one
	tags    string
	extra   map[string]string // files added to other packages: package to directory
	race    bool              // with the race detector
	taps    string            // calls added at the start of methods
}

const module = "github.com/DyCAPSTeam/DyCAPS/"

var bins = map[string]bin{
	"party":      {pkg: "internal/party", dirs: []string{"party"}, rewrite: true, group: "fake"},
	"partyreal":  {pkg: "internal/party", dirs: []string{"party"}, rewrite: true, tags: "mcreal"},
	"partyrace":  {pkg: "internal/party", dirs: []string{"party"}, rewrite: true, group: "fake", race: true},
	"core":       {pkg: "pkg/core", dirs: []string{"core"}, rewrite: true},
	"corereal":   {pkg: "pkg/core", dirs: []string{"core"}, tags: "mcreal"},
	"poly":       {pkg: "internal/polycommit", dirs: []string{"poly"}, group: "fake"},
	"polyreal":   {pkg: "internal/polycommit", dirs: []string{"poly"}, tags: "mcreal"},
	"polyhbls":   {pkg: "internal/polycommit", dirs: []string{"poly"}, tags: "mcreal bignum_hbls"},
	"polyhol256": {pkg: "internal/polycommit", dirs: []string{"poly"}, tags: "mcreal bignum_hol256"},
	"polypure":   {pkg: "internal/polycommit", dirs: []string{"poly"}, tags: "mcreal bignum_pure"},
	"ringreal":   {pkg: "internal/polyring", dirs: []string{"ring"}, tags: "mcreal"},
	"ringhbls":   {pkg: "internal/polyring", dirs: []string{"ring"}, tags: "mcreal bignum_hbls"},
	"blskilic":   {pkg: "internal/bls", dirs: []string{"bls"}, tags: "mcbls"},
	"blshbls":    {pkg: "internal/bls", dirs: []string{"bls"}, tags: "mcbls bignum_hbls"},
	"blshol256":  {pkg: "internal/bls", dirs: []string{"bls"}, tags: "mcbls bignum_hol256"},
	"blspure":    {pkg: "internal/bls", dirs: []string{"bls"}, tags: "mcbls bignum_pure"},
	"blsfake":    {pkg: "internal/bls", dirs: []string{"bls"}, tags: "mcbls", group: "fake"},
	"codec":      {pkg: "pkg/core", dirs: []string{"codec"}, tags: "mcreal"},
	"keygen":     {pkg: "internal/party", dirs: []string{"keygen"}, group: "fake"},
	"cmd": {pkg: "cmd/DyCAPs", dirs: []string{"cmd"}, rewrite: true, group: "fake", extra: map[string]string{"internal/party": "cmdparty"},
		taps: module + "internal/party.InitReceiveChannel=MCMember," + module + "internal/party.SetSecret=MCClient"},
	"cmdreal":    {pkg: "cmd/DyCAPs", dirs: []string{"cmd"}, tags: "mcreal"},
	"keygenreal": {pkg: "internal/party", dirs: []string{"keygen"}, tags: "mcreal"},
}

func run(dir string, env []string, name string, args ...string) (string, error) {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = append(os.Environ(), env...)
	var o bytes.Buffer
	c.Stdout, c.Stderr = &o, &o
	err := c.Run()
	return o.String(), err
}

var rewriter struct {
	sync.Once
	path string
}

var built = map[string]string{}

// build1 builds a binary once.
func build1(name string) string {
	if built[name] == "" {
		built[name] = build(name)
	}
	return built[name]
}

func build(name string) string {
	b, ok := bins[name]
	if !ok {
		die("no binary %q", name)
	}
	w := filepath.Join(tmp, name)
	os.MkdirAll(filepath.Join(w, "out"), 0o755)
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	s := string(mod) + "\nrequire verif.local/vs v0.0.0\nreplace verif.local/vs => " + root + "/mc/vs\n"
	if b.group == "fake" {
		s += "replace github.com/kilic/bls12-381 => " + root + "/mc/fakekilic\n"
	}
	modf := filepath.Join(w, "go.mod")
	os.WriteFile(modf, []byte(s), 0o644)
	if sum, err := os.ReadFile(filepath.Join(repo, "go.sum")); err == nil {
		os.WriteFile(filepath.Join(w, "go.sum"), sum, 0o644)
	}
	base := map[string]string{}
	filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, "_test.go") {
			base[p] = ""
		}
		return nil
	})
	for _, d := range b.dirs {
		l, _ := filepath.Glob(filepath.Join(root, "mc/harness", d, "*.go"))
		for _, f := range l {
			base[filepath.Join(repo, b.pkg, "zz_"+filepath.Base(f))] = f
		}
	}
	for pkg, d := range b.extra {
		l, _ := filepath.Glob(filepath.Join(root, "mc/harness", d, "*.go"))
		for _, f := range l {
			base[filepath.Join(repo, pkg, "zz_"+filepath.Base(f))] = f
		}
	}
	ov := filepath.Join(w, "overlay.json")
	if b.rewrite {
		bf := filepath.Join(w, "base.json")
		writeOverlay(bf, base, false)
		rewriter.Do(func() {
			rewriter.path = filepath.Join(tmp, "rewrite")
			if o, err := run(filepath.Join(root, "mc/rewrite"), []string{"GOFLAGS="}, "go", "build", "-o", rewriter.path, "."); err != nil {
				die("building the rewriter: %v\n%s", err, o)
			}
		})
		if o, err := run(repo, nil, rewriter.path, "-repo", repo, "-out", filepath.Join(w, "out"), "-modfile", modf,
			"-overlay", ov, "-base", bf, "-split=true", "-taps", b.taps, "./"+b.pkg); err != nil {
			die("rewriting %s: %v\n%s", b.pkg, err, o)
		}
	} else {
		writeOverlay(ov, base, true)
	}
	out := filepath.Join(w, name+".test")
	args := []string{"test", "-c", "-vet=off", "-tags", b.tags, "-modfile", modf, "-overlay", ov, "-o", out}
	var env []string
	if b.race { // it watches the code under test, not the scheduler
		args = append(args, "-race", "-gcflags=verif.local/...=-race=false", "-gcflags=github.com/kilic/...=-race=false")
		env = []string{"CGO_ENABLED=1"}
	}
	if o, err := run(repo, env, "go", append(args, "./"+b.pkg)...); err != nil {
		die("building %s: %v\n%s", name, err, o)
	}
	return out
}

func writeOverlay(path string, m map[string]string, wrap bool) {
	var v interface{} = m
	if wrap {
		v = map[string]interface{}{"Replace": m}
	}
	j, _ := json.Marshal(v)
	if err := os.WriteFile(path, j, 0o644); err != nil {
		die("%v", err)
	}
}

// ---- reports of the workers (see vs/ex) ----------------------------------------------

type viol struct {
	Part, Space, Plan, Viol string
	Index                   int
	Detail, Trace           []string
}

type spaceReport struct {
	Name, Rule                                 string
	Planned, Runs, Evals, Trivial, Transitions int
	Complete                                   bool
	Samples                                    []string
	Viols                                      []viol
}

type report struct {
	Check  string
	Shard  int
	Spaces []spaceReport
	WallS  float64
}

// part is one harness binary taking part in a check.
type part struct {
	bin      string
	id       string // name of the check in the harness
	validate string // binaries (comma-separated) without stand-ins that replay a sample of the plans
}

type checkDef struct {
	parts       []part
	level       string
	assumptions []string
	validation  string // how plans are executed again against the real thing
	quickS      int    // deadline of the exploration
	thoroughS   int
}

type spaceCov struct {
	Part     string `json:"part"`
	Space    string `json:"space"`
	Rule     string `json:"rule"`
	Planned  int    `json:"planned"`
	Executed int    `json:"executed"`
	Complete bool   `json:"complete"`
}

func worker(path string, p part, tier string, shard, shards, deadline int, out, stop string) error {
	c := exec.Command(path)
	c.Dir = filepath.Dir(path)
	c.Env = append(os.Environ(), "MC_CHECK="+p.id, "MC_TIER="+tier, "MC_SHARD="+strconv.Itoa(shard), "MC_SHARDS="+strconv.Itoa(shards),
		"MC_OUT="+out, "MC_STOP="+stop, "MC_DEADLINE="+strconv.Itoa(deadline), "MC_KNOWN="+root+"/known-findings.json", "GOTRACEBACK=none")
	lf, _ := os.Create(out + ".log")
	defer lf.Close()
	c.Stdout, c.Stderr = lf, lf
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := c.Start(); err != nil {
		return err
	}
	t := time.AfterFunc(time.Duration(deadline+150)*time.Second, func() { c.Process.Kill() })
	defer t.Stop()
	return c.Wait()
}

func replay(path string, p part, space, plan string, tier string, limit time.Duration) (viol, error) {
	out := filepath.Join(tmp, fmt.Sprintf("replay%d", time.Now().UnixNano()))
	c := exec.Command(path)
	c.Dir = filepath.Dir(path)
	c.Env = append(os.Environ(), "MC_CHECK="+p.id, "MC_TIER="+tier, "MC_OUT="+out, "MC_REPLAY_SPACE="+space, "MC_REPLAY_PLAN="+plan, "GOTRACEBACK=single")
	var o bytes.Buffer
	c.Stdout, c.Stderr = &o, &o
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := c.Start(); err != nil {
		return viol{}, err
	}
	killed := false
	t := time.AfterFunc(limit, func() { killed = true; c.Process.Kill() })
	err := c.Wait()
	t.Stop()
	if b, e := os.ReadFile(out); e == nil && err == nil {
		var v viol
		if json.Unmarshal(b, &v) == nil {
			os.Remove(out)
			return v, nil
		}
	}
	if killed {
		return viol{Space: space, Plan: plan, Viol: "does not terminate"}, nil
	}
	l := strings.Split(o.String(), "\n")
	if len(l) > 30 {
		l = l[:30]
	}
	if c.ProcessState != nil && c.ProcessState.ExitCode() != 7 && c.ProcessState.ExitCode() != 0 {
		return viol{Space: space, Plan: plan, Viol: "the process stopped: " + firstLine(l), Detail: l}, nil
	}
	return viol{}, fmt.Errorf("replay: %v\n%s", err, strings.Join(l, "\n"))
}

func firstLine(l []string) string {
	for _, s := range l {
		if strings.HasPrefix(s, "panic") || strings.HasPrefix(s, "fatal") {
			return s
		}
	}
	if len(l) > 0 {
		return l[0]
	}
	return ""
}

func readSet(f string, m map[uint64]struct{}) {
	h, err := os.Open(f)
	if err != nil {
		return
	}
	defer h.Close()
	r := bufio.NewReaderSize(h, 1<<20)
	var b [8]byte
	for {
		if _, err := r.Read(b[:1]); err != nil {
			return
		}
		for i := 1; i < 8; i++ {
			c, err := r.ReadByte()
			if err != nil {
				return
			}
			b[i] = c
		}
		m[binary.LittleEndian.Uint64(b[:])] = struct{}{}
	}
}

func check(id string) int {
	start := time.Now()
	def, ok := checks[id]
	if !ok {
		die("no check %q", id)
	}
	tier := "quick"
	deadline := 300
	if def.quickS > 0 {
		deadline = def.quickS
	}
	if os.Getenv("VERIF_TIER") == "thorough" {
		tier, deadline = "thorough", 3000
		if def.thoroughS > 0 {
			deadline = def.thoroughS
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	shards := 8
	if v, err := strconv.Atoi(os.Getenv("MC_WORKERS")); err == nil && v > 0 {
		shards = v
	}
	// build
	paths := map[string]string{}
	for _, p := range def.parts {
		if paths[p.bin] == "" {
			paths[p.bin] = build(p.bin)
		}
	}
	buildS := time.Since(start).Seconds()
	var spaces []spaceCov
	var samples []string
	bySample := map[int][]string{}
	var found []viol
	states, sigs := map[uint64]struct{}{}, map[uint64]struct{}{}
	evals, transitions, execs, trivial := 0, 0, 0, 0
	complete := true
	stop := filepath.Join(tmp, "stop")
	for pi, p := range def.parts {
		var wg sync.WaitGroup
		errs := make([]error, shards)
		outs := make([]string, shards)
		left := deadline - int(time.Since(start).Seconds()) + int(buildS)
		if left < 20 {
			left = 20
		}
		for s := 0; s < shards; s++ {
			s := s
			outs[s] = filepath.Join(tmp, fmt.Sprintf("p%d.%d", pi, s))
			wg.Add(1)
			go func() {
				defer wg.Done()
				errs[s] = worker(paths[p.bin], p, tier, s, shards, left, outs[s], stop)
			}()
		}
		wg.Wait()
		merged := map[string]*spaceCov{}
		var order []string
		for s := 0; s < shards; s++ {
			b, err := os.ReadFile(outs[s])
			if err != nil {
				// the worker died: the plan it was executing is recorded
				v, ok := died(outs[s], p)
				if !ok {
					lg, _ := os.ReadFile(outs[s] + ".log")
					if len(lg) > 4000 {
						lg = lg[:4000]
					}
					die("worker %d of %s: %v\n%s", s, p.id, errs[s], lg)
				}
				found = append(found, v)
				complete = false
				continue
			}
			var r report
			if err := json.Unmarshal(b, &r); err != nil {
				die("%v", err)
			}
			for _, sp := range r.Spaces {
				c := merged[sp.Name]
				if c == nil {
					c = &spaceCov{Part: p.bin, Space: sp.Name, Rule: sp.Rule, Complete: true}
					merged[sp.Name] = c
					order = append(order, sp.Name)
				}
				if sp.Planned > c.Planned {
					c.Planned = sp.Planned
				}
				c.Executed += sp.Runs
				c.Complete = c.Complete && sp.Complete
				evals += sp.Evals
				transitions += sp.Transitions
				execs += sp.Runs
				trivial += sp.Trivial
				complete = complete && sp.Complete
				if s < 2 {
					samples = append(samples, sp.Samples...)
					bySample[pi] = append(bySample[pi], sp.Samples...)
				}
				for _, v := range sp.Viols {
					v.Part = p.bin + ":" + p.id
					found = append(found, v)
				}
			}
			readSet(outs[s]+".states", states)
			readSet(outs[s]+".sigs", sigs)
		}
		for _, n := range order {
			spaces = append(spaces, *merged[n])
		}
	}
	// known findings: replayed on every run
	known := loadKnown(id)
	fresh := found[:0:0]
	for _, v := range found {
		if k := known.match(v); k == nil {
			fresh = append(fresh, v)
		}
	}
	for i := range known {
		k := &known[i]
		p := partOf(def, k.Part)
		v, err := replay(paths[p.bin], p, k.Space, k.Plan, tier, 120*time.Second)
		if err == nil && v.Viol == k.Violation {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
		} else if err == nil && v.Viol != "" {
			v.Part = p.bin + ":" + p.id
			fresh = append(fresh, v)
		}
	}
	// confirm
	sort.SliceStable(fresh, func(i, j int) bool { return fresh[i].Index < fresh[j].Index })
	var confirmed *viol
	unconfirmed := []string{}
	for i, v := range fresh {
		if i >= 12 {
			break
		}
		p := partOf(def, v.Part)
		n := 0
		var last viol
		for k := 0; k < 2; k++ {
			r, err := replay(paths[p.bin], p, v.Space, v.Plan, tier, 120*time.Second)
			if err != nil {
				fmt.Println(err)
				continue
			}
			if r.Viol != "" {
				n++
				last = r
			}
		}
		if n == 2 {
			last.Part = v.Part
			confirmed = &last
			break
		}
		unconfirmed = append(unconfirmed, v.Space+": "+v.Plan+": "+v.Viol)
	}
	// conformance of the stand-in: plans executed again with the real pairing library
	validated := 0
	var mismatches []string
	if confirmed == nil {
		var bad []viol
		validated, bad = validate(def, tier, bySample)
		for _, v := range bad {
			// the real library decides: what fails with it twice is a violation
			bin, p := binOf(def, v.Part)
			r, err := replay(build1(bin), p, v.Space, v.Plan, tier, 100*time.Second)
			if err == nil && r.Viol == v.Viol && confirmed == nil {
				r.Part = v.Part
				confirmed = &r
				fresh = append(fresh, r)
			} else {
				mismatches = append(mismatches, v.Space+": "+v.Plan+": "+v.Viol)
			}
		}
	}
	// evidence
	if len(samples) > 12 {
		samples = samples[:12]
	}
	cov := map[string]interface{}{
		"evaluations": evals, "distinct_nontrivial": len(sigs), "executions": execs,
		"rule":    "every plan of the spaces listed under spaces, each one execution of the real code determined by its plan; non-trivial: the plan's deviation or input took effect, distinct by the hash of the history executed (or of the input)",
		"samples": samples, "spaces": spaces, "exhaustive": complete,
	}
	if def.level == "model_checking" {
		cov["states"] = len(states)
		cov["transitions"] = transitions
		cov["traces_validated_against_impl"] = validated
		cov["validation"] = def.validation
	} else if def.validation != "" {
		cov["executed_without_standins"] = validated
		cov["validation"] = def.validation
	}
	if len(unconfirmed) > 0 {
		cov["unconfirmed"] = unconfirmed
	}
	if len(mismatches) > 0 {
		cov["validation_mismatches"] = mismatches
	}
	ev := map[string]interface{}{"property": id, "tier": tier, "seed": seed, "level": def.level, "coverage": cov,
		"assumptions": def.assumptions, "wall_s": time.Since(start).Seconds(), "violations": 0}
	code := 0
	if confirmed != nil {
		ev["violations"] = len(fresh)
		code = 1
		path := filepath.Join(root, "evidence", "replay-"+id+".json")
		rf := map[string]interface{}{"property": id, "part": confirmed.Part, "space": confirmed.Space, "plan": confirmed.Plan, "tier": tier,
			"violation": confirmed.Viol, "detail": confirmed.Detail, "trace": confirmed.Trace, "again": "mc/replay " + path}
		writeJSON(path, rf)
		fmt.Printf("%s: %s\n  plan: %s\n", confirmed.Space, confirmed.Viol, confirmed.Plan)
		for i, d := range confirmed.Detail {
			if i < 12 {
				fmt.Println("  ", d)
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	}
	writeJSON(filepath.Join(root, "evidence", id+".json"), ev)
	for _, u := range unconfirmed {
		fmt.Println("not reproduced in a fresh process:", u)
	}
	for _, u := range mismatches {
		fmt.Println("differs with the real library:", u)
	}
	fmt.Printf("%s %s: %d executions, %d distinct, %d states, %d transitions, %d validated, exhaustive=%v, build %.0fs, %.0fs\n", id, tier, execs, len(sigs), len(states), transitions, validated, complete, buildS, time.Since(start).Seconds())
	if os.Getenv("MC_SHOW") != "" {
		for _, s := range spaces {
			fmt.Printf("  %s/%s planned %d executed %d complete %v\n", s.Part, s.Space, s.Planned, s.Executed, s.Complete)
		}
	}
	return code
}

func writeJSON(path string, v interface{}) {
	os.MkdirAll(filepath.Dir(path), 0o755)
	b, _ := json.MarshalIndent(v, "", " ")
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
}

func partOf(d checkDef, s string) part {
	for _, p := range d.parts {
		if p.bin+":"+p.id == s {
			return p
		}
	}
	return d.parts[0]
}

// binOf tells which binary found a violation ("BIN/PART" if not the part's own).
func binOf(d checkDef, s string) (string, part) {
	if i := strings.Index(s, "/"); i >= 0 {
		return s[:i], partOf(d, s[i+1:])
	}
	p := partOf(d, s)
	return p.bin, p
}

// died finds what a worker that stopped was executing.
func died(out string, p part) (viol, bool) {
	b, err := os.ReadFile(out + ".cur")
	if err != nil {
		return viol{}, false
	}
	f := strings.SplitN(strings.TrimRight(string(b), "\x00"), "\x1f", 3)
	if len(f) < 3 {
		return viol{}, false
	}
	return viol{Part: p.bin + ":" + p.id, Space: f[0], Plan: f[1], Viol: "the process stopped"}, true
}

// validate replays sample plans without the stand-ins.
func validate(def checkDef, tier string, samples map[int][]string) (int, []viol) {
	n := 0
	var bad []viol
	for pi, p := range def.parts {
		if p.validate == "" {
			continue
		}
		var bins, path []string
		for _, b := range strings.Split(p.validate, ",") {
			bins, path = append(bins, b), append(path, build1(b))
		}
		p := p
		var mu sync.Mutex
		var wg sync.WaitGroup
		sem := make(chan bool, 8)
		quota, each := 12, 2
		if def.level != "model_checking" {
			quota, each = 20, 5
		}
		if tier == "thorough" {
			quota *= 5
		}
		perSpace := map[string]int{}
		for _, s := range samples[pi] {
			f := strings.SplitN(s, ": ", 2)
			if len(f) != 2 || perSpace[f[0]] >= each && tier != "thorough" {
				continue
			}
			if quota == 0 {
				break
			}
			perSpace[f[0]]++
			quota--
			k := quota % len(bins)
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				v, err := replay(path[k], p, f[0], f[1], tier, 100*time.Second)
				mu.Lock()
				defer mu.Unlock()
				if err == nil && v.Viol == "" {
					n++
				} else if err == nil && v.Viol != "does not terminate" {
					v.Part = bins[k] + "/" + p.bin + ":" + p.id
					bad = append(bad, v)
				}
			}()
		}
		wg.Wait()
	}
	return n, bad
}

// ---- known findings ------------------------------------------------------------------

type finding struct{ Property, Part, Space, Plan, Violation, What string }
type knownList []finding

func loadKnown(id string) knownList {
	var f struct{ Findings []finding }
	b, err := os.ReadFile(filepath.Join(root, "known-findings.json"))
	if err == nil {
		if err := json.Unmarshal(b, &f); err != nil {
			die("known-findings.json: %v", err)
		}
	}
	var l knownList
	for _, k := range f.Findings {
		if k.Property == id {
			l = append(l, k)
		}
	}
	return l
}

func (l knownList) match(v viol) *finding {
	for i := range l {
		if l[i].Space == v.Space && l[i].Plan == v.Plan && l[i].Violation == v.Viol {
			return &l[i]
		}
	}
	return nil
}

func replayFile(f string) int {
	var r struct{ Property, Part, Space, Plan, Tier string }
	b, err := os.ReadFile(f)
	if err == nil {
		err = json.Unmarshal(b, &r)
	}
	if err != nil {
		die("%v", err)
	}
	def, ok := checks[r.Property]
	if !ok {
		die("no check %q", r.Property)
	}
	bin, p := binOf(def, r.Part)
	v, err := replay(build(bin), p, r.Space, r.Plan, r.Tier, 300*time.Second)
	if err != nil {
		die("%v", err)
	}
	for _, t := range v.Trace {
		fmt.Println(t)
	}
	for _, t := range v.Detail {
		fmt.Println("  ", t)
	}
	if v.Viol != "" {
		fmt.Println("RESULT:", v.Viol)
		return 1
	}
	fmt.Println("RESULT: held")
	return 0
}
