//go:build go1.21

package harness

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/hired/gevulot/zzsim/simrt"
)

var stdout, stderr *os.File // the real ones; the proxy logs to os.Stdout

// Main is the entry point of the simulation binary.
func Main() {
	stdout = os.Stdout
	null, err := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	if err != nil {
		die("%v", err)
	}
	stderr = os.Stderr
	os.Stdout, os.Stderr = null, null // what the proxy prints
	if len(os.Args) < 2 {
		die("usage: simbin check|worker|run|replay|shrink ...")
	}
	debug.SetGCPercent(400)
	dir, err := os.MkdirTemp("", "gvsim")
	if err != nil {
		die("%v", err)
	}
	ScratchDir = dir
	code := 0
	switch os.Args[1] {
	case "check":
		code = checkMain(os.Args[2:])
	case "worker":
		code = workerMain(os.Args[2:])
	case "run":
		code = runMain(os.Args[2:])
	case "replay":
		code = replayMain(os.Args[2:])
	case "shrink":
		code = shrinkMain(os.Args[2:])
	default:
		fmt.Fprintln(stderr, "unknown command")
		code = 2
	}
	os.RemoveAll(dir)
	os.Exit(code)
}

func die(f string, a ...any) {
	fmt.Fprintf(stderr, f+"\n", a...)
	os.Exit(2)
}

func atoi(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		die("bad number %q", s)
	}
	return n
}

// seeds of run number i.
func runSeeds(seed uint64, i int) (scenario, schedule uint64) {
	a := simrt.Mix(seed+0x51ed, uint64(i))
	return a, simrt.Mix(a, 77)
}

// ---------------------------------------------------------------------------------------------------
// Worker: a range of runs in one process.

// Summary is what a worker reports.
type Summary struct {
	Runs       int            `json:"runs"`
	Nontrivial int            `json:"nontrivial"`
	Steps      int64          `json:"steps"`
	Switches   int64          `json:"switches"`
	SimNanos   int64          `json:"sim_nanos"`
	Tasks      int64          `json:"tasks"`
	Faults     map[string]int `json:"faults"`
	Hits       map[string]int `json:"hits"`
	Hashes     []uint64       `json:"hashes"`
	States     []uint64       `json:"states"`
	MaxSteps   float64        `json:"max_steps"` // the largest share of its step limit that a run used
	Rechecked  int            `json:"rechecked"`
	Mismatch   int            `json:"mismatch"`
	Fails      []Failure      `json:"fails"`
	HarnessErr string         `json:"harness_err"`
	ErrRun     int            `json:"err_run"`
	Samples    []string       `json:"samples"`
}

// Failure is a violating run.
type Failure struct {
	Run   int    `json:"run"`
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

func workerMain(a []string) int {
	prop, seed, first, stride, limit, ms, progress := a[0], uint64(atoi(a[1])), atoi(a[2]), atoi(a[3]), atoi(a[4]), atoi(a[5]), a[6]
	runtime.GOMAXPROCS(1)
	known := loadKnown(os.Getenv("VERIF_KNOWN"))
	pf, err := os.OpenFile(progress, os.O_CREATE|os.O_RDWR, 0o644)
	if err != nil {
		die("%v", err)
	}
	deadline := time.Now().Add(time.Duration(ms) * time.Millisecond)
	s := &Summary{Faults: map[string]int{}, Hits: map[string]int{}}
	seenH, seenS := map[uint64]bool{}, map[uint64]bool{}
	for i := first; s.Runs < limit && time.Now().Before(deadline); i += stride {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], uint64(i)+1)
		pf.WriteAt(b[:], 0)
		a, c := runSeeds(seed, i)
		sc := Gen(prop, a)
		if sc == nil {
			die("no scenarios for %s", prop)
		}
		o := Execute(sc, Options{Seed: c})
		s.Runs++
		s.Steps += int64(o.Steps)
		s.Switches += int64(o.Switches)
		if sc.MaxSteps > 0 {
			s.MaxSteps = max(s.MaxSteps, float64(o.Steps)/float64(sc.MaxSteps))
		}
		s.SimNanos += o.SimNanos
		s.Tasks += int64(o.Tasks)
		for k, v := range o.Faults {
			s.Faults[k] += v
		}
		for k, v := range o.Hits {
			s.Hits[k] += v
		}
		if o.HarnessErr != "" {
			s.HarnessErr, s.ErrRun = o.HarnessErr, i
			break
		}
		if nontrivial(prop, o) {
			s.Nontrivial++
			if !seenH[o.Hash] {
				seenH[o.Hash] = true
				s.Hashes = append(s.Hashes, o.Hash)
			}
			if len(s.Samples) < 2 {
				s.Samples = append(s.Samples, fmt.Sprintf("run %d: %s; %d steps, %d goroutines, %v simulated, faults %v", i, describe(sc), o.Steps, o.Tasks, time.Duration(o.SimNanos), o.Faults))
			}
		}
		if len(seenS) < 200000 {
			for _, h := range o.States {
				if !seenS[h] {
					seenS[h] = true
					s.States = append(s.States, h)
				}
			}
		}
		if o.Class != "" {
			s.Fails = append(s.Fails, Failure{i, o.Class, o.Msg})
			if !known.match(prop, o.Class, o.Msg) || len(s.Fails) > 2000 {
				break
			}
			continue
		}
		if rechecked(i, first) {
			p := Execute(Gen(prop, a), Options{Seed: c})
			s.Rechecked++
			if p.Hash != o.Hash || p.Class != o.Class {
				s.Mismatch++
			}
		}
	}
	json.NewEncoder(stdout).Encode(s)
	return 0
}

// rechecked tells which runs are executed twice, to see that they are repeatable.
func rechecked(i, first int) bool { return i%61 == first%61 }

func describe(sc *Scenario) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s %s", sc.Kind, sc.Boot)
	if len(sc.Clients) > 0 {
		fmt.Fprintf(&b, ", %d clients", len(sc.Clients))
		for i := range sc.Clients {
			c := &sc.Clients[i]
			fmt.Fprintf(&b, " [%s%s ssl=%d %s | %s]", c.Role, c.Expect, c.SSL, ops(c.Steps), ops(c.DB))
		}
	}
	if len(sc.Ctl) > 0 {
		fmt.Fprintf(&b, ", control: %s", ops(sc.Ctl))
	}
	for i, o := range sc.Ops {
		fmt.Fprintf(&b, ", party %d: %s", i, ops(o))
	}
	if len(sc.Data) > 0 {
		fmt.Fprintf(&b, ", %d messages", len(sc.Data))
	}
	strat := []string{"replay", "random walk", "priorities", "stalls"}[sc.Strat]
	fmt.Fprintf(&b, ", schedule: %s", strat)
	s := b.String()
	if len(s) > 700 {
		s = s[:700] + "..."
	}
	return s
}

func ops(st []Step) string {
	var out []string
	for _, s := range st {
		t := s.Op
		switch {
		case len(s.M) > 0:
			t += fmt.Sprintf("(%d)", len(s.M))
		case s.A != "":
			t += "(" + s.A + ")"
		case s.N != 0:
			t += fmt.Sprintf("(%d)", s.N)
		}
		out = append(out, t)
	}
	return strings.Join(out, " ")
}

// ---------------------------------------------------------------------------------------------------
// Known findings

type knownFinding struct {
	prop, class string
	re          *regexp.Regexp
	text        string
}

type knownList []knownFinding

var knownRE = regexp.MustCompile(`^known: property=(\S+) class=(\S+) match=/(.*)/ (.*)$`)

func loadKnown(path string) knownList {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out knownList
	for _, l := range strings.Split(string(b), "\n") {
		if m := knownRE.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			re, err := regexp.Compile(m[3])
			if err != nil {
				die("known findings: %v", err)
			}
			out = append(out, knownFinding{m[1], m[2], re, m[4]})
		}
	}
	return out
}

func (k knownList) match(prop, class, msg string) bool { return k.find(prop, class, msg) >= 0 }

func (k knownList) find(prop, class, msg string) int {
	for i, f := range k {
		if f.prop == prop && f.class == class && f.re.MatchString(msg) {
			return i
		}
	}
	return -1
}

// ---------------------------------------------------------------------------------------------------
// Check

func checkMain(a []string) int {
	start := time.Now()
	prop := a[0]
	tier := os.Getenv("VERIF_TIER")
	if len(a) > 1 {
		tier = a[1]
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed := 1
	if v := os.Getenv("VERIF_SEED"); v != "" {
		seed = atoi(v)
	}
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		die("VERIF_ROOT is not set")
	}
	os.Setenv("VERIF_KNOWN", filepath.Join(root, "known_findings.txt"))
	known := loadKnown(os.Getenv("VERIF_KNOWN"))
	budget := budgetOf(prop, tier)
	if v := os.Getenv("VERIF_MS"); v != "" {
		budget.ms = atoi(v)
	}
	if v := os.Getenv("VERIF_RUNS"); v != "" {
		budget.runs = atoi(v)
	}
	workers := 8
	if n := runtime.NumCPU(); n < workers {
		workers = n
	}
	per := (budget.runs + workers - 1) / workers
	sums := make([]*Summary, workers)
	var fatal []Failure
	var mu sync.Mutex
	var wg sync.WaitGroup
	self, _ := os.Executable()
	for wi := 0; wi < workers; wi++ {
		wg.Add(1)
		go func(wi int) {
			defer wg.Done()
			pf := filepath.Join(ScratchDir, fmt.Sprintf("p%d", wi))
			cmd := exec.Command(self, "worker", prop, strconv.Itoa(seed), strconv.Itoa(wi), strconv.Itoa(workers), strconv.Itoa(per), strconv.Itoa(budget.ms), pf)
			cmd.Env = append(os.Environ(), "GOMEMLIMIT=3GiB")
			var out, errb bytes.Buffer
			cmd.Stdout = &out
			cmd.Stderr = &capWriter{b: &errb}
			done := make(chan error, 1)
			if err := cmd.Start(); err != nil {
				die("%v", err)
			}
			go func() { done <- cmd.Wait() }()
			var err error
			last, lastChange := uint64(0), time.Now()
		wait:
			for {
				select {
				case err = <-done:
					break wait
				case <-time.After(time.Second):
					p := readProgress(pf)
					if p != last {
						last, lastChange = p, time.Now()
					} else if time.Since(lastChange) > 90*time.Second {
						cmd.Process.Kill()
						err = <-done
						errb.WriteString("run did not end within 90 s of real time")
						break wait
					}
				}
			}
			s := &Summary{}
			if err == nil && json.Unmarshal(out.Bytes(), s) == nil {
				sums[wi] = s
				return
			}
			mu.Lock()
			fatal = append(fatal, Failure{Run: int(readProgress(pf)) - 1, Class: "fatal", Msg: "the process died: " + firstLine(errb.String(), err)})
			mu.Unlock()
		}(wi)
	}
	wg.Wait()
	tot := &Summary{Faults: map[string]int{}, Hits: map[string]int{}}
	hs, ss := map[uint64]bool{}, map[uint64]bool{}
	knownSeen := map[int]int{}
	var fails []Failure
	for _, s := range sums {
		if s == nil {
			continue
		}
		if s.HarnessErr != "" {
			fmt.Fprintf(stderr, "harness error in run %d of %s (seed %d): %s\n", s.ErrRun, prop, seed, s.HarnessErr)
			tot.HarnessErr = s.HarnessErr
		}
		tot.Runs += s.Runs
		tot.Nontrivial += s.Nontrivial
		tot.Steps += s.Steps
		tot.Switches += s.Switches
		tot.MaxSteps = max(tot.MaxSteps, s.MaxSteps)
		tot.SimNanos += s.SimNanos
		tot.Tasks += s.Tasks
		tot.Rechecked += s.Rechecked
		tot.Mismatch += s.Mismatch
		for k, v := range s.Faults {
			tot.Faults[k] += v
		}
		for k, v := range s.Hits {
			tot.Hits[k] += v
		}
		for _, h := range s.Hashes {
			hs[h] = true
		}
		for _, h := range s.States {
			ss[h] = true
		}
		if len(tot.Samples) < 4 {
			tot.Samples = append(tot.Samples, s.Samples...)
		}
		for _, f := range s.Fails {
			if k := known.find(prop, f.Class, f.Msg); k >= 0 {
				knownSeen[k]++
			} else {
				fails = append(fails, f)
			}
		}
	}
	searchS := time.Since(start).Seconds()
	fails = append(fails, fatal...)
	sort.Slice(fails, func(i, j int) bool {
		if (fails[i].Class == "fatal") != (fails[j].Class == "fatal") {
			return fails[j].Class == "fatal"
		}
		return fails[i].Run < fails[j].Run
	})
	violations := 0
	code := 0
	for i, f := range known {
		if f.prop == prop && (knownSeen[i] > 0 || true) {
			fmt.Fprintf(stdout, "KNOWN-FINDING: property=%s %s (seen in %d runs)\n", prop, f.text, knownSeen[i])
		}
	}
	if len(fails) > 0 {
		violations = 1
		path := report(root, prop, seed, workers, fails[0])
		if path == "" {
			tot.HarnessErr = "a violation did not reproduce: " + fails[0].Class + ": " + fails[0].Msg
			fmt.Fprintln(stderr, tot.HarnessErr)
		} else {
			fmt.Fprintf(stdout, "VIOLATION property=%s replay=%s\n", prop, path)
			code = 1
		}
	}
	if code == 0 && tot.HarnessErr != "" {
		code = 2
	}
	hours := searchS / 3600
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": time.Since(start).Seconds(), "violations": violations,
		"coverage": map[string]any{
			"evaluations":            tot.Runs,
			"distinct_nontrivial":    len(hs),
			"nontrivial_runs":        tot.Nontrivial,
			"rule":                   "one evaluation is one simulated execution of a generated scenario under one seeded schedule and fault sequence; " + nontrivialRule(prop) + "; two runs are distinct if the hashes of their event histories (every context switch, network operation and channel operation) differ",
			"samples":                tot.Samples,
			"seeds_per_hour":         int(float64(tot.Runs) / hours),
			"simulated_seconds":      float64(tot.SimNanos) / 1e9,
			"scheduler_steps":        tot.Steps,
			"context_switches":       tot.Switches,
			"goroutines":             tot.Tasks,
			"step_limit_used":        tot.MaxSteps,
			"faults_injected":        tot.Faults,
			"situations_reached":     tot.Hits,
			"distinct_states":        len(ss),
			"state_measure":          "distinct multisets of (goroutine kind, source position, blocked or runnable) over all live goroutines, seen at context switches (at most 200000 per worker are counted)",
			"determinism_rechecks":   tot.Rechecked,
			"determinism_mismatches": tot.Mismatch,
			"real_components":        realComponents(prop),
			"stub_components":        stubComponents(prop),
		},
		"assumptions": assumptions(prop),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
	fmt.Fprintf(stdout, "%s %s: %d runs (%d distinct non-trivial), %d states, %.0f simulated s, %.1f s, determinism %d/%d\n",
		prop, tier, tot.Runs, len(hs), len(ss), float64(tot.SimNanos)/1e9, time.Since(start).Seconds(), tot.Rechecked-tot.Mismatch, tot.Rechecked)
	if tot.Mismatch > 0 {
		// what the program keeps in package variables outlives a run; violations are replayed in a fresh process
		fmt.Fprintf(stderr, "note: %d of %d runs were different the second time in the same process\n", tot.Mismatch, tot.Rechecked)
	}
	return code
}

type capWriter struct{ b *bytes.Buffer }

func (c *capWriter) Write(p []byte) (int, error) {
	if c.b.Len() < 1<<16 {
		c.b.Write(p)
	}
	return len(p), nil
}

func firstLine(s string, err error) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.TrimSpace(l) != "" {
			return l
		}
	}
	return fmt.Sprint(err)
}

func readProgress(p string) uint64 {
	b, err := os.ReadFile(p)
	if err != nil || len(b) < 8 {
		return 0
	}
	return binary.LittleEndian.Uint64(b)
}

// ReplayFile is a violation that can be executed again.
type ReplayFile struct {
	Property  string     `json:"property"`
	Class     string     `json:"class"`
	Message   string     `json:"message"`
	Run       int        `json:"run"`
	Seed      uint64     `json:"seed"` // schedule seed of the original run
	Hash      uint64     `json:"hash"`
	Decisions *Decisions `json:"decisions,omitempty"` // recorded decisions: everything else takes the default
	Scenario  *Scenario  `json:"scenario,omitempty"`
	Prefix    *Prefix    `json:"prefix,omitempty"` // instead of a scenario: all runs of a worker up to this one
	Trace     []string   `json:"trace,omitempty"`
}

// Prefix names the runs a worker process made up to a violation.
type Prefix struct {
	Seed   int `json:"seed"`
	First  int `json:"first"`
	Stride int `json:"stride"`
	Last   int `json:"last"`
}

// replayPrefix makes all the runs again and returns the outcome of the last.
func replayPrefix(prop string, p *Prefix) *Outcome {
	for i := p.First; ; i += p.Stride {
		a, c := runSeeds(uint64(p.Seed), i)
		o := Execute(Gen(prop, a), Options{Seed: c})
		if i >= p.Last || o.HarnessErr != "" {
			return o
		}
		if o.Class == "" && rechecked(i, p.First) {
			Execute(Gen(prop, a), Options{Seed: c})
		}
	}
}

func report(root, prop string, seed, workers int, f Failure) string {
	dir := filepath.Join(root, "evidence", "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", prop, seed, f.Run))
	self, _ := os.Executable()
	if f.Class == "fatal" {
		a, c := runSeeds(uint64(seed), f.Run)
		rf := &ReplayFile{Property: prop, Class: f.Class, Message: f.Msg, Run: f.Run, Seed: c, Scenario: Gen(prop, a)}
		writeJSON(path, rf)
		cmd := exec.Command(self, "replay", path)
		cmd.Env = append(os.Environ(), "GOMEMLIMIT=3GiB")
		done := make(chan error, 1)
		if err := cmd.Start(); err != nil {
			die("%v", err)
		}
		go func() { done <- cmd.Wait() }()
		select {
		case err := <-done:
			if err == nil {
				return ""
			}
		case <-time.After(90 * time.Second):
			cmd.Process.Kill()
			<-done
		}
		fmt.Fprintf(stdout, "%s: %s: %s\n", prop, f.Class, f.Msg)
		return path
	}
	cmd := exec.Command(self, "shrink", prop, strconv.Itoa(seed), strconv.Itoa(f.Run), path)
	cmd.Stderr = stderr
	done := make(chan error, 1)
	if err := cmd.Start(); err != nil {
		die("%v", err)
	}
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(120 * time.Second):
		cmd.Process.Kill()
		<-done
	}
	// the minimised file must reproduce in a fresh process
	rf := &ReplayFile{}
	if b, err := os.ReadFile(path); err == nil && json.Unmarshal(b, rf) == nil && reproduces(path) {
		fmt.Fprintf(stdout, "%s: %s: %s\n", prop, rf.Class, rf.Message)
		return path
	}
	// it needs what earlier runs left behind in the process: repeat them all
	rf = &ReplayFile{Property: prop, Class: f.Class, Message: f.Msg, Run: f.Run, Prefix: &Prefix{seed, f.Run % workers, workers, f.Run}}
	writeJSON(path, rf)
	if reproduces(path) {
		fmt.Fprintf(stdout, "%s: %s: %s (depends on what earlier runs left in the process)\n", prop, rf.Class, rf.Message)
		return path
	}
	return ""
}

// reproduces runs a replay file in a fresh process.
func reproduces(path string) bool {
	self, _ := os.Executable()
	err := exec.Command(self, "replay", path).Run()
	var ee *exec.ExitError
	return errors.As(err, &ee) && ee.ExitCode() == 1
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		die("%v", err)
	}
	tmp := path + ".tmp"
	if err := os.WriteFile(tmp, append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
	if err := os.Rename(tmp, path); err != nil {
		die("%v", err)
	}
}

// replayMain exits with 1 if the file's violation happened again.
func replayMain(a []string) int {
	b, err := os.ReadFile(a[0])
	if err != nil {
		die("%v", err)
	}
	rf := &ReplayFile{}
	if err := json.Unmarshal(b, rf); err != nil {
		die("%v", err)
	}
	verbose := len(a) > 1
	simrt.VerboseNet = verbose
	var o *Outcome
	if rf.Prefix != nil {
		runtime.GOMAXPROCS(1)
		o = replayPrefix(rf.Property, rf.Prefix)
		rf.Hash = o.Hash
	} else {
		o = Execute(rf.Scenario, Options{Seed: rf.Seed, Replay: rf.Decisions, Trace: verbose})
	}
	if verbose {
		w := bufio.NewWriter(stdout)
		for _, l := range o.Trace {
			fmt.Fprintln(w, l)
		}
		w.Flush()
	}
	if o.HarnessErr != "" {
		fmt.Fprintln(stderr, o.HarnessErr)
		return 2
	}
	if o.Class == "" {
		fmt.Fprintf(stdout, "%s: the recorded run passes (%d steps)\n", rf.Property, o.Steps)
		return 0
	}
	same := "the same history"
	if o.Hash != rf.Hash {
		same = fmt.Sprintf("a different history (hash %x, recorded %x)", o.Hash, rf.Hash)
	}
	fmt.Fprintf(stdout, "%s: %s: %s (%s)\n", rf.Property, o.Class, o.Msg, same)
	return 1
}

// runMain executes single runs for debugging: run PROP SEED RUN [trace]
func runMain(a []string) int {
	x, c := runSeeds(uint64(atoi(a[1])), atoi(a[2]))
	sc := Gen(a[0], x)
	trace := len(a) > 3
	simrt.VerboseNet = trace
	if trace {
		b, _ := json.Marshal(sc)
		fmt.Fprintf(stdout, "%s\n", b)
	}
	o := Execute(sc, Options{Seed: c, Trace: trace})
	w := bufio.NewWriter(stdout)
	for _, l := range o.Trace {
		fmt.Fprintln(w, l)
	}
	fmt.Fprintf(w, "%s\n", describe(sc))
	o.Trace = nil
	b, _ := json.Marshal(o)
	fmt.Fprintf(w, "%s\n", b)
	w.Flush()
	return 0
}

var _ = io.Discard
