//go:build go1.21

// Package simrt is the deterministic scheduler that instrumented code runs on.
//
// Every goroutine of the system under test and of the harness is a Task. Exactly one task runs at any
// moment; a task gives up the processor only at points the scheduler sees (preemption points inserted by
// the instrumenter, channel and lock operations, simulated I/O), and the scheduler, driven by one seed,
// decides who runs next. Simulated time advances only when nobody can run.
package simrt

import (
	"container/heap"
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Strategy kinds.
const (
	StratReplay = iota // follow recorded decisions, default otherwise
	StratRandom        // random walk with geometric preemption
	StratPCT           // priorities with change points
	StratStall         // random walk plus long stalls of random tasks
)

// Config configures one run.
type Config struct {
	Seed     uint64
	Strat    int
	Mean     int  // mean number of points between preemptions (random walk)
	Depth    int  // PCT change points
	Horizon  int  // PCT: points over which change points are spread
	StallP   int  // StratStall: one in StallP points stalls the running task
	Lazy     bool // StratStall: newly spawned tasks may start late
	Fine     bool // preemption points inside pkg/pg too
	MaxSteps int
	Record   bool
	Trace    bool
	Replay   *Decisions
}

// Decisions is everything a run decided differently from the defaults.
type Decisions struct {
	Sched [][2]int       `json:"sched"` // decision index -> choice
	Draws map[string]int `json:"draws"` // draw key -> value
}

const (
	stRunnable = iota
	stBlocked
	stDone
)

// Group says who created a task.
const (
	GroupHarness = 0
	GroupSystem  = 1
	GroupInit    = 2 // started by package initialisation
)

// Task is a simulated goroutine.
type Task struct {
	ID      int
	Name    string
	Group   int
	key     uint64
	wake    chan struct{}
	st      uint8
	why     string
	site    uint32
	spawned uint64
	draws   uint64
	prio    uint64
	stallTo int
	contrib uint64
	tag     any
}

// Blocked describes a task that was blocked at some moment.
type Blocked struct {
	Name  string
	Group int
	Why   string
	Site  string
}

func (b Blocked) String() string { return fmt.Sprintf("%s blocked in %s at %s", b.Name, b.Why, b.Site) }

// Crash is a panic of a task: in reality the whole process would have died.
type Crash struct {
	Value   string
	Task    string
	Stack   string
	Harness bool // the panic came from harness code: the harness is broken
}

// Result of a run.
type Result struct {
	Ended     string // "main", "crash", "steps", "deadlock", "fail"
	Crash     *Crash
	FailClass string
	FailMsg   string
	Blocked   []Blocked // tasks blocked when the run ended
	Steps     int
	Switches  int
	Decisions int
	Tasks     int
	SimTime   time.Duration
	Hash      uint64
	Rec       Decisions
	Trace     []string
	States    []uint64
}

// Sim is one simulated execution.
type Sim struct {
	appRng   uint64
	cfg      Config
	cur      *Task
	run      []*Task // runnable tasks other than cur, in the order they became runnable
	tasks    []*Task
	live     int
	now      int64
	seq      uint64
	timers   timerHeap
	steps    int
	switches int
	decIdx   int
	hash     uint64
	rng      uint64
	preempt  int
	changes  []int
	nextChg  int
	prioLow  uint64
	contPts  int
	ended    string
	crash    *Crash
	failC    string
	failM    string
	ctl      chan struct{}
	ack      chan struct{}
	killing  bool
	quies    *Task
	quiesTo  int64
	chans    map[uintptr]*hchan
	chanSeq  uint64
	keyIDs   map[any]uint64
	keySeq   uint64
	pollers  []*poller
	repSched map[int]int
	repDraws map[string]int
	rec      Decisions
	trace    []string
	stHash   uint64
	states   []uint64
	stSeen   map[uint64]struct{}
	epoch    uint64
}

// Epoch0 is the simulated wall-clock time at which every run starts.
var Epoch0 = time.Date(2020, 11, 10, 9, 0, 0, 0, time.UTC)

var (
	cur    *Sim // the simulation in progress
	epochs uint64
)

// Sites maps site numbers to source positions (filled in by generated code).
var Sites []string

// SiteName returns the source position of a site.
func SiteName(i uint32) string {
	if int(i) < len(Sites) {
		return Sites[i]
	}
	return fmt.Sprintf("site%d", i)
}

// Active reports whether the caller runs as a task of a simulation (and the run is not being torn down).
func Active() bool { return cur != nil && cur.cur != nil && !cur.killing }

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// Mix hashes two words.
func Mix(a, b uint64) uint64 { return mix(mix(a) ^ b) }

func (s *Sim) rand() uint64 {
	s.rng += 0x9e3779b97f4a7c15
	x := s.rng
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// AppRand is randomness for the system under test (math/rand, crypto/rand). It is derived from the schedule
// seed, apart from the scheduler's decisions, so it is the same when a run is replayed or minimised.
func AppRand() uint64 {
	if cur == nil {
		return 0x9e3779b97f4a7c15
	}
	cur.appRng += 0x9e3779b97f4a7c15
	return mix(mix(cur.cfg.Seed^0x52616e64) ^ cur.appRng)
}

func (s *Sim) randn(n int) int { return int(s.rand() % uint64(n)) }

func (s *Sim) note(x uint64) {
	s.hash = (s.hash ^ x) * 0x100000001b3
	s.hash ^= s.hash >> 29
}

// ---------------------------------------------------------------------------------------------------
// Running

// Run executes main as the first task and returns when main returns, a task crashes, someone fails the
// run, the step limit is reached or everything is blocked for good.
func Run(cfg Config, main func()) *Result {
	if cur != nil {
		panic("simrt: nested Run")
	}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 2000000
	}
	if cfg.Mean < 1 {
		cfg.Mean = 1
	}
	epochs++
	s := &Sim{
		cfg: cfg, ctl: make(chan struct{}, 1), ack: make(chan struct{}, 1),
		chans: make(map[uintptr]*hchan), keyIDs: make(map[any]uint64),
		rng: mix(cfg.Seed ^ 0xabcdef), hash: 0xcbf29ce484222325, epoch: epochs,
		stSeen: make(map[uint64]struct{}), prioLow: 1 << 20, now: Epoch0.UnixNano(),
	}
	s.rec.Draws = map[string]int{}
	if cfg.Replay != nil {
		s.cfg.Strat = StratReplay
		s.repSched = map[int]int{}
		for _, d := range cfg.Replay.Sched {
			s.repSched[d[0]] = d[1]
		}
		s.repDraws = cfg.Replay.Draws
		if s.repDraws == nil {
			s.repDraws = map[string]int{}
		}
	}
	if s.cfg.Strat == StratPCT {
		if cfg.Horizon < 1 {
			s.cfg.Horizon = 1000
		}
		for i := 0; i < cfg.Depth; i++ {
			s.changes = append(s.changes, 1+s.randn(s.cfg.Horizon))
		}
		sort.Ints(s.changes)
	}
	s.resetPreempt()
	cur = s
	t := s.newTask(nil, "main", GroupHarness, func() {
		for _, i := range initTasks {
			spawn(i.name, GroupInit, i.f)
		}
		main()
	})
	s.run = s.run[:0]
	s.cur = t
	t.wake <- struct{}{}
	<-s.ctl
	res := &Result{
		Ended: s.ended, Crash: s.crash, FailClass: s.failC, FailMsg: s.failM, Steps: s.steps, Switches: s.switches,
		Decisions: s.decIdx, Tasks: len(s.tasks), SimTime: time.Duration(s.now - Epoch0.UnixNano()), Hash: s.hash,
		Rec: s.rec, Trace: s.trace, States: s.states,
	}
	res.Blocked = s.blockedList()
	// Tear down: unwind every task that is still alive, one at a time.
	s.killing = true
	for i := 0; i < len(s.tasks); i++ {
		t := s.tasks[i]
		if t.st == stDone {
			continue
		}
		s.cur = t
		t.wake <- struct{}{}
		<-s.ack
	}
	cur = nil
	return res
}

func (s *Sim) blockedList() []Blocked {
	var out []Blocked
	for _, t := range s.tasks {
		if t.st == stBlocked {
			out = append(out, Blocked{t.Name, t.Group, t.why, SiteName(t.site)})
		}
	}
	return out
}

// BlockedTasks lists the tasks of the given group that are blocked (or runnable, why "runnable") now.
func BlockedTasks(group int) []Blocked {
	var out []Blocked
	for _, t := range cur.tasks {
		if t.st != stDone && t.Group == group {
			why := t.why
			if t.st == stRunnable {
				why = "runnable"
			}
			out = append(out, Blocked{t.Name, t.Group, why, SiteName(t.site)})
		}
	}
	return out
}

func (s *Sim) newTask(parent *Task, name string, group int, f func()) *Task {
	t := &Task{ID: len(s.tasks), Name: name, Group: group, wake: make(chan struct{}, 1)}
	if parent != nil {
		parent.spawned++
		t.key = Mix(parent.key, parent.spawned)
		t.tag = parent.tag
	} else {
		t.key = 1
	}
	s.tasks = append(s.tasks, t)
	if len(s.tasks) > 20000 {
		s.end("steps")
		s.park()
	}
	s.live++
	t.prio = 1<<32 + s.rand()>>32
	if s.cfg.Strat == StratStall && s.cfg.Lazy && parent != nil && s.randn(4) == 0 {
		t.stallTo = s.steps + 20 + s.randn(600)
	}
	s.run = append(s.run, t)
	go func() {
		defer func() { s.exit(t, recover(), false) }()
		<-t.wake
		if s.killing {
			return
		}
		f()
	}()
	return t
}

// exit runs deferred at the top of a task's goroutine.
func (s *Sim) exit(t *Task, p any, _ bool) {
	if s.killing {
		t.st = stDone
		s.ack <- struct{}{}
		return
	}
	t.st = stDone
	s.live--
	s.stateDrop(t)
	if p != nil {
		st := string(debug.Stack())
		s.crash = &Crash{Value: panicText(p), Task: t.Name, Stack: st, Harness: harnessPanic(st)}
		s.end("crash")
		return
	}
	if t.ID == 0 {
		s.end("main")
		return
	}
	s.note(uint64(t.ID)<<8 | 0xE1)
	if s.cfg.Trace {
		s.tracef("exit")
	}
	if next := s.pickBlocked(); next != nil {
		s.cur = next
		s.switches++
		next.wake <- struct{}{}
	}
}

// panicText is the same in every execution: a log entry (log.Panic) would show addresses and the time.
func panicText(p any) string {
	if v := reflect.Indirect(reflect.ValueOf(p)); v.Kind() == reflect.Struct {
		if f := v.FieldByName("Message"); f.IsValid() && f.Kind() == reflect.String && v.FieldByName("Level").IsValid() {
			return f.String()
		}
	}
	return fmt.Sprint(p)
}

// harnessPanic decides from a stack trace whether a panic was raised by harness code.
func harnessPanic(st string) bool {
	i := strings.Index(st, "panic(")
	if i < 0 {
		return false
	}
	lines := strings.Split(st[i:], "\n")
	for k := 2; k < len(lines); k += 2 {
		l := lines[k]
		if strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "panic(") || l == "" {
			continue
		}
		if strings.Contains(l, "/zzsim/simrt.") || strings.Contains(l, "/zzsim/shim/") || strings.Contains(l, "/zzsim/simnet.") {
			continue
		}
		return strings.Contains(l, "/zzsim/")
	}
	return false
}

func (s *Sim) end(how string) {
	if s.ended != "" {
		return
	}
	s.ended = how
	s.ctl <- struct{}{}
}

// park suspends the current goroutine until it is scheduled again (or unwinds it at tear-down).
func (s *Sim) parkTask(t *Task) {
	<-t.wake
	if s.killing {
		runtime.Goexit()
	}
}

func (s *Sim) park() { s.parkTask(s.cur) }

// Fail ends the run with a violation found by an oracle.
func Fail(class, format string, a ...any) {
	s := cur
	if s.killing {
		return
	}
	s.failC, s.failM = class, fmt.Sprintf(format, a...)
	s.end("fail")
	s.park()
}

// HarnessBug ends the run with an error of the harness itself.
func HarnessBug(format string, a ...any) {
	s := cur
	if s.killing {
		return
	}
	s.crash = &Crash{Value: fmt.Sprintf(format, a...), Harness: true}
	s.end("crash")
	s.park()
}

// ---------------------------------------------------------------------------------------------------
// Scheduling

func (s *Sim) resetPreempt() {
	m := s.cfg.Mean
	if m <= 1 {
		s.preempt = 1
		return
	}
	s.preempt = 1 + s.randn(2*m-1)
}

// Point is a preemption point.
func Point(site uint32) {
	s := cur
	if s == nil || s.killing {
		return
	}
	s.cur.site = site
	s.point()
}

// FinePoint is a preemption point that is active only in runs with fine-grained preemption.
func FinePoint(site uint32) {
	s := cur
	if s == nil || s.killing {
		return
	}
	if !s.cfg.Fine {
		s.tick()
		return
	}
	s.cur.site = site
	s.point()
}

// Yield is a preemption point without a site.
func Yield() {
	s := cur
	if s == nil || s.killing {
		return
	}
	s.point()
}

func (s *Sim) tick() {
	s.steps++
	if s.overLimit() {
		s.end("steps")
		s.park()
	}
}

// overLimit: the step limit allows for what is done periodically.
func (s *Sim) overLimit() bool {
	return s.steps > s.cfg.MaxSteps && s.steps > s.cfg.MaxSteps+int((s.now-Epoch0.UnixNano())/1000000)
}

func (s *Sim) point() {
	s.tick()
	if len(s.run) == 0 {
		return
	}
	v := s.decidePoint()
	if v == 0 {
		s.contPts++
		return
	}
	t := s.cur
	next := s.run[v-1]
	s.run = append(s.run[:v-1], s.run[v:]...)
	s.run = append(s.run, t)
	s.switchTo(next)
}

func (s *Sim) switchTo(next *Task) {
	me := s.cur
	s.contPts = 0
	if next == me {
		return
	}
	s.cur = next
	s.switches++
	s.note(uint64(next.ID)<<8 | 0x5A)
	s.stateTouch(me)
	if s.cfg.Trace {
		s.trace = append(s.trace, fmt.Sprintf("[%d] %s -> %s (at %s)", s.steps, me.Name, next.Name, SiteName(me.site)))
	}
	next.wake <- struct{}{}
	s.parkTask(me)
}

// decidePoint: 0 = continue, k = switch to run[k-1].
func (s *Sim) decidePoint() int {
	s.decIdx++
	n := len(s.run)
	v := 0
	switch s.cfg.Strat {
	case StratReplay:
		if x, ok := s.repSched[s.decIdx]; ok {
			v = x % (n + 1)
		} else if s.contPts > 5000 {
			return 1 // default policy is fair in the long run; not a recorded deviation
		}
		if v != 0 && s.cfg.Record {
			s.rec.Sched = append(s.rec.Sched, [2]int{s.decIdx, v})
		}
		return v
	case StratPCT:
		if s.steps < s.cfg.Horizon*4 {
			for s.nextChg < len(s.changes) && s.steps >= s.changes[s.nextChg] {
				s.nextChg++
				s.prioLow--
				s.cur.prio = s.prioLow
			}
			best := s.cur.prio
			for i, t := range s.run {
				if t.prio > best {
					best, v = t.prio, i+1
				}
			}
			break
		}
		fallthrough
	default:
		if s.cfg.Strat == StratStall && s.cfg.StallP > 0 && s.randn(s.cfg.StallP) == 0 {
			s.cur.stallTo = s.steps + 30 + s.randn(1200)
			v = s.pickUnstalled()
			break
		}
		s.preempt--
		if s.preempt > 0 {
			break
		}
		s.resetPreempt()
		v = s.randn(n + 1)
		if v > 0 && s.run[v-1].stallTo > s.steps {
			v = 0
		}
	}
	if v != 0 && s.cfg.Record {
		s.rec.Sched = append(s.rec.Sched, [2]int{s.decIdx, v})
	}
	if v == 0 && s.contPts > 5000 {
		// keep every strategy weakly fair; mirrors the replay default
		return 1
	}
	return v
}

func (s *Sim) pickUnstalled() int {
	n := len(s.run)
	k := s.randn(n)
	for i := 0; i < n; i++ {
		j := (k + i) % n
		if s.run[j].stallTo <= s.steps {
			return j + 1
		}
	}
	return 0
}

// pickBlocked chooses the next task when the current one cannot continue; nil if the run has ended.
func (s *Sim) pickBlocked() *Task {
	for {
		if s.ended != "" {
			return nil
		}
		if n := len(s.run); n > 0 {
			v := 0
			if n > 1 {
				s.decIdx++
				switch s.cfg.Strat {
				case StratReplay:
					v = s.repSched[s.decIdx] % n
				case StratPCT:
					if s.steps < s.cfg.Horizon*4 {
						for i, t := range s.run {
							if t.prio > s.run[v].prio {
								v = i
							}
						}
						break
					}
					fallthrough
				default:
					v = s.randn(n)
					if s.run[v].stallTo > s.steps {
						if u := s.pickUnstalled(); u > 0 {
							v = u - 1
						}
					}
				}
				if v != 0 && s.cfg.Record {
					s.rec.Sched = append(s.rec.Sched, [2]int{s.decIdx, v})
				}
			}
			t := s.run[v]
			s.run = append(s.run[:v], s.run[v+1:]...)
			return t
		}
		if s.pollForeign() {
			continue
		}
		// Nobody can run: let time pass.
		if len(s.timers) > 0 && (s.quies == nil || s.timers[0].at <= s.quiesTo) {
			ev := heap.Pop(&s.timers).(*Timer)
			ev.idx = -1
			if ev.at > s.now {
				s.now = ev.at
			}
			s.steps++
			if s.overLimit() {
				s.end("steps")
				return nil
			}
			ev.fn()
			continue
		}
		if s.quies != nil {
			q := s.quies
			s.quies = nil
			s.ready(q)
			continue
		}
		s.end("deadlock")
		return nil
	}
}

// block suspends the current task until ready is called on it.
func (s *Sim) block(why string) {
	if s.killing {
		runtime.Goexit()
	}
	t := s.cur
	t.st = stBlocked
	t.why = why
	s.stateTouch(t)
	next := s.pickBlocked()
	if next == t {
		return
	}
	if next != nil {
		s.cur = next
		s.contPts = 0
		s.switches++
		s.note(uint64(next.ID)<<8 | 0xB1)
		if s.cfg.Trace {
			s.trace = append(s.trace, fmt.Sprintf("[%d] %s blocks in %s (at %s); %s runs", s.steps, t.Name, why, SiteName(t.site), next.Name))
		}
		next.wake <- struct{}{}
	}
	s.parkTask(t)
}

func (s *Sim) ready(t *Task) {
	if t.st != stBlocked {
		return
	}
	t.st = stRunnable
	t.why = ""
	s.run = append(s.run, t)
}

// state coverage: a hash of the multiset of (task kind, source position) of live tasks.
func (s *Sim) stateTouch(t *Task) {
	c := Mix(uint64(t.site)<<1|uint64(t.st&1), uint64(len(t.Name))<<20|uint64(t.Group))
	s.stHash += c - t.contrib
	t.contrib = c
	if _, ok := s.stSeen[s.stHash]; !ok && len(s.states) < 4096 {
		s.stSeen[s.stHash] = struct{}{}
		s.states = append(s.states, s.stHash)
	}
}

func (s *Sim) stateDrop(t *Task) {
	s.stHash -= t.contrib
	t.contrib = 0
}

func (s *Sim) tracef(format string, a ...any) {
	if len(s.trace) < 40000 {
		s.trace = append(s.trace, fmt.Sprintf("[%d t=%v] %s: ", s.steps, time.Duration(s.now-Epoch0.UnixNano()), s.cur.Name)+fmt.Sprintf(format, a...))
	}
}

// Tracef adds a line to the trace if tracing is on. It never influences the run.
func Tracef(format string, a ...any) {
	if cur != nil && cur.cfg.Trace && !cur.killing {
		cur.tracef(format, a...)
	}
}

// Tracing reports whether the run is being traced.
func Tracing() bool { return cur != nil && cur.cfg.Trace && !cur.killing }

// VerboseNet adds every network read to traces.
var VerboseNet bool

// Note mixes a value into the run's event hash.
func Note(x uint64) {
	if cur != nil && !cur.killing {
		cur.note(x)
	}
}

// Go starts a goroutine of the system under test.
func Go(site uint32, f func()) { spawn(fmt.Sprintf("go@%s", SiteName(site)), GroupSystem, f) }

// GoNamed starts a system goroutine on behalf of a shim (timers, watchers).
func GoNamed(name string, f func()) { spawn(name, GroupSystem, f) }

// GoLater is GoNamed without a preemption point; shims use it from timer callbacks.
func GoLater(name string, f func()) {
	if s := cur; s != nil && !s.killing {
		s.newTask(s.cur, name, GroupSystem, f)
	}
}

// Spawn starts a harness task.
func Spawn(name string, f func()) *Task { return spawn(name, GroupHarness, f) }

type initTask struct {
	name string
	f    func()
}

var initTasks []initTask

func spawn(name string, group int, f func()) *Task {
	s := cur
	if s == nil { // by package initialisation: it runs in every simulation
		initTasks = append(initTasks, initTask{name, f})
		return nil
	}
	if s.killing {
		return nil
	}
	t := s.newTask(s.cur, name, group, f)
	s.note(uint64(t.ID)<<8 | 0xA0)
	if s.cfg.Trace {
		s.tracef("spawn %s", name)
	}
	s.point()
	return t
}

// Done reports whether the task has finished.
func (t *Task) Done() bool { return t.st == stDone }

// SetTag attaches a value to the current task; tasks it spawns inherit it.
func SetTag(v any) { cur.cur.tag = v }

// Tag returns the current task's tag.
func Tag() any {
	if cur == nil || cur.cur == nil {
		return nil
	}
	return cur.cur.tag
}

// Draw makes a choice in [0,n) that depends only on the seed and the key (kind, a, b). 0 is the benign choice.
func Draw(kind string, a, b uint64, n int) int {
	if n <= 1 || cur == nil || cur.killing {
		return 0
	}
	s := cur
	if s.cfg.Strat == StratReplay && s.repDraws != nil {
		if len(s.repDraws) == 0 && !s.cfg.Record {
			return 0
		}
		k := fmt.Sprintf("%s/%x/%d", kind, a, b)
		v := s.repDraws[k] % n
		if v != 0 && s.cfg.Record {
			s.rec.Draws[k] = v
		}
		return v
	}
	h := s.cfg.Seed
	for i := 0; i < len(kind); i++ {
		h = (h ^ uint64(kind[i])) * 0x100000001b3
	}
	v := int(mix(mix(h^a)+b) % uint64(n))
	if v != 0 && s.cfg.Record {
		s.rec.Draws[fmt.Sprintf("%s/%x/%d", kind, a, b)] = v
	}
	return v
}

// TaskDraw is Draw keyed by the current task and a per-task counter.
func TaskDraw(kind string, n int) int {
	if n <= 1 || cur == nil || cur.killing {
		return 0
	}
	t := cur.cur
	t.draws++
	return Draw(kind, t.key, t.draws, n)
}

// ---------------------------------------------------------------------------------------------------
// Time

// Timer is a pending simulated-time event.
type Timer struct {
	at  int64
	seq uint64
	fn  func()
	idx int
	s   *Sim
}

type timerHeap []*Timer

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	return h[i].at < h[j].at || h[i].at == h[j].at && h[i].seq < h[j].seq
}
func (h timerHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *timerHeap) Push(x any)   { t := x.(*Timer); t.idx = len(*h); *h = append(*h, t) }
func (h *timerHeap) Pop() any     { o := *h; t := o[len(o)-1]; *h = o[:len(o)-1]; return t }

// Now returns simulated time.
func Now() time.Time {
	if cur == nil {
		return Epoch0
	}
	return time.Unix(0, cur.now).UTC()
}

// NowNano returns simulated time in nanoseconds since the start of the run.
func NowNano() int64 {
	if cur == nil {
		return 0
	}
	return cur.now - Epoch0.UnixNano()
}

// Steps returns the number of steps taken so far.
func Steps() int { return cur.steps }

// At schedules fn to run d from now. fn runs in the scheduler and must not block.
func At(d time.Duration, fn func()) *Timer {
	s := cur
	if s == nil || s.killing {
		return &Timer{idx: -1}
	}
	if d < 0 {
		d = 0
	}
	s.seq++
	t := &Timer{at: s.now + int64(d), seq: s.seq, fn: fn, s: s}
	if t.at < s.now {
		t.at = 1<<63 - 1
	}
	heap.Push(&s.timers, t)
	return t
}

// AfterFunc runs f in a new system task d from now.
func AfterFunc(d time.Duration, name string, f func()) *Timer {
	s := cur
	if s == nil || s.killing {
		return &Timer{idx: -1}
	}
	parent := s.cur
	return At(d, func() {
		t := s.newTask(parent, name, GroupSystem, f)
		s.note(uint64(t.ID)<<8 | 0xA1)
	})
}

// Cur returns the current task.
func Cur() *Task {
	if cur == nil {
		return nil
	}
	return cur.cur
}

// Wake makes a blocked task runnable; the task must recheck what it was waiting for.
func Wake(t *Task) {
	if cur != nil && !cur.killing {
		cur.ready(t)
	}
}

// Park blocks the current task until Wake.
func Park(why string) {
	s := cur
	if s == nil || s.killing {
		runtime.Goexit()
	}
	s.block(why)
}

// Stop cancels the timer; it reports whether it was still pending.
func (t *Timer) Stop() bool {
	if t == nil || t.idx < 0 || cur == nil || t.s != cur {
		return false
	}
	heap.Remove(&cur.timers, t.idx)
	t.idx = -1
	return true
}

// Sleep suspends the current task for d of simulated time.
func Sleep(d time.Duration) {
	s := cur
	if s == nil || s.killing {
		return
	}
	if d <= 0 {
		s.point()
		return
	}
	t := s.cur
	At(d, func() { s.ready(t) })
	s.block("sleep")
}

// Quiesce suspends the current task until nothing else can run and no timer is due within d of simulated time.
func Quiesce(d time.Duration) {
	s := cur
	if s.quies != nil {
		panic("simrt: two tasks in Quiesce")
	}
	s.quies = s.cur
	s.quiesTo = s.now + int64(d)
	s.block("quiesce")
}

// WaitList is a list of tasks waiting for a condition they recheck themselves.
type WaitList struct {
	ts    []*Task
	epoch uint64
}

// Wait suspends the current task until WakeAll.
func (w *WaitList) Wait(why string) {
	s := cur
	if s == nil || s.killing {
		runtime.Goexit()
	}
	if w.epoch != s.epoch {
		w.epoch, w.ts = s.epoch, nil
	}
	w.ts = append(w.ts, s.cur)
	s.block(why)
}

// WakeAll makes every waiting task runnable.
func (w *WaitList) WakeAll() {
	s := cur
	if s == nil || s.killing || w.epoch != s.epoch {
		return
	}
	for _, t := range w.ts {
		s.ready(t)
	}
	w.ts = w.ts[:0]
}

// WakeOne makes the longest-waiting task runnable.
func (w *WaitList) WakeOne() {
	s := cur
	if s == nil || s.killing || w.epoch != s.epoch || len(w.ts) == 0 {
		return
	}
	t := w.ts[0]
	w.ts = append(w.ts[:0], w.ts[1:]...)
	s.ready(t)
}

// WaitFront is Wait, but queues the task ahead of the others.
func (w *WaitList) WaitFront(why string) {
	s := cur
	if s == nil || s.killing {
		runtime.Goexit()
	}
	if w.epoch != s.epoch {
		w.epoch, w.ts = s.epoch, nil
	}
	w.ts = append([]*Task{s.cur}, w.ts...)
	s.block(why)
}

// Remove takes the current task off the list (after a wake-up from elsewhere).
func (w *WaitList) Remove() {
	s := cur
	if s == nil || w.epoch != s.epoch {
		return
	}
	for i, t := range w.ts {
		if t == s.cur {
			w.ts = append(w.ts[:i], w.ts[i+1:]...)
			return
		}
	}
}

// Len returns the number of waiting tasks.
func (w *WaitList) Len() int {
	if cur == nil || w.epoch != cur.epoch {
		return 0
	}
	return len(w.ts)
}

// Killing reports whether the run is being torn down.
func Killing() bool { return cur != nil && cur.killing }

// CurEpoch identifies the current run; state tagged with another epoch is stale.
func CurEpoch() uint64 {
	if cur == nil {
		return 0
	}
	return cur.epoch
}
