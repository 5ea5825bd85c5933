//go:build go1.23

// Package simrt is the simulator: a scheduler that runs the tasks (goroutines)
// of one simulated process one at a time, a simulated clock with timers, and
// one stream of recorded decisions that decides everything else.
//
// The package is compiled without race instrumentation and hands control from
// task to task with its synchronisation hidden from the race detector, so
// that in a -race build the only happens-before edges are those of the
// simulated program itself. It therefore uses no maps.
package simrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"unsafe"
)

// Decision is one non-default choice: at yield Y, ordinal N among the choices
// made there, value V. A run is a function of its plan and its decisions.
type Decision struct {
	Y uint64 `json:"y"`
	N uint32 `json:"n"`
	V int64  `json:"v"`
}

// Profile says how a run explores schedules.
type Profile struct {
	Mode      int     // 0 random walk, 1 priorities with change points, 2 weighted
	PreemptP  float64 // probability of a scheduling decision at a yield
	Changes   int     // priority change points
	ChangeLen int     // yields over which they are spread
	StallP    float64 // probability that a scheduling decision stalls the running task
	PauseP    float64 // probability that the whole process pauses
	MaxStall  int64   // ns
	TickNS    int64   // simulated time that one yield takes
	MapPermP  float64 // probability that a map is visited in a permuted order
	AsyncTim  bool    // timer channels may hold a stale tick, as before go1.23
	SlowTimer int64   // ns of latency a timer may have
}

// Fail is how a run ended when it went wrong.
type Fail struct {
	Class  string // what kind of violation
	Detail string
}

type taskState int8

const (
	running taskState = iota
	blocked
	finished
)

// Task is one simulated goroutine.
type Task struct {
	ID     int
	Name   string
	Lib    bool // started by the code under test
	wake   chan struct{}
	state  taskState
	ready  func() bool
	why    string
	w      *waiter
	prio   int64
	weight int64
	streak uint64
	exited chan struct{}
	joinA  byte
	daemon bool
}

// Sim is one run.
type Sim struct {
	calm    bool // no more stalls
	tasks   []*Task
	cur     *Task
	prof    Profile
	rng     Rng
	replay  bool
	decs    []Decision // recorded (exploring) or given (replaying)
	di      int
	yields  uint64
	nextPre uint64
	planned uint64 // where the explorer, or the replay, wants a scheduling decision
	ord     uint32
	ordY    uint64
	maxY    uint64
	now     int64
	wall    int64 // offset of the wall clock
	timers  timerHeap
	tseq    uint64
	killing bool
	fail    *Fail
	done    chan struct{}
	end     bool
	lastAt  uint64 // when the running task was resumed
	simRand Rng
	touch   idTable
	boundry byte

	// measures
	Switches  uint64
	Preempts  uint64
	Hash      uint64 // of the sequence of (task, why) hand-overs
	Stalls    uint64
	Pauses    uint64
	Jumps     uint64
	MapPerms  uint64
	Fired     uint64
	TasksMade int
	logHead   *LogEntry
	logTail   *LogEntry
	logN      int
	LogHash   uint64
	Prios     int64
	debug     bool
	probes    *probe
	deadline  int64
}

type probe struct {
	name string
	n    uint64
	next *probe
}

// S is the current run, nil outside one.
var S *Sim

// Active reports whether a run is in progress.
func Active() bool { return S != nil }

// LogEntry is one event of the recorded history.
type LogEntry struct {
	Seq  int
	Task int
	At   int64
	Kind string
	Val  any
	Next *LogEntry
}

// Log appends an event to the run's history. It makes no decision and yields
// nothing.
func Log(kind string, val any) int {
	s := S
	if s == nil || s.killing {
		return -1
	}
	e := &LogEntry{Seq: s.logN, Task: s.cur.ID, At: s.now, Kind: kind, Val: val}
	s.logN++
	if s.logTail == nil {
		s.logHead = e
	} else {
		s.logTail.Next = e
	}
	s.logTail = e
	h := s.LogHash
	h = mix(h, uint64(e.Task))
	h = mix(h, uint64(e.At))
	for i := 0; i < len(kind); i++ {
		h = (h ^ uint64(kind[i])) * 1099511628211
	}
	s.LogHash = h
	return e.Seq
}

// LogDigest folds a value into the digest of the run's event log.
func LogDigest(str string) {
	if s := S; s != nil {
		h := s.LogHash
		for i := 0; i < len(str); i++ {
			h = (h ^ uint64(str[i])) * 1099511628211
		}
		s.LogHash = h
	}
}

// History returns the first event.
func History() *LogEntry { return S.logHead }

// Seq is the number of events so far: the global event sequence number.
func Seq() int { return S.logN }

// Probe counts that a rare condition was reached.
func Probe(name string) {
	s := S
	if s == nil || s.killing {
		return
	}
	for p := s.probes; p != nil; p = p.next {
		if p.name == name {
			p.n++
			return
		}
	}
	s.probes = &probe{name, 1, s.probes}
}

// EachProbe visits the counts.
func (s *Sim) EachProbe(f func(string, uint64)) {
	for p := s.probes; p != nil; p = p.next {
		f(p.name, p.n)
	}
}

func mix(h, v uint64) uint64 {
	h ^= v
	h *= 0x9e3779b97f4a7c15
	return h ^ h>>29
}

// Rng is splitmix64.
type Rng struct{ x uint64 }

// NewRng returns a generator for a seed.
func NewRng(seed uint64) Rng { return Rng{seed ^ 0xd1b54a32d192ed03} }

func (r *Rng) Uint64() uint64 {
	r.x += 0x9e3779b97f4a7c15
	z := r.x
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}
func (r *Rng) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}
func (r *Rng) Float() float64      { return float64(r.Uint64()>>11) / (1 << 53) }
func (r *Rng) Bool(p float64) bool { return r.Float() < p }

// geometric returns the distance to the next success.
func (r *Rng) geometric(p float64) uint64 {
	if p <= 0 {
		return 1 << 60
	}
	n := uint64(1)
	for !r.Bool(p) {
		n++
		if n > 1<<20 {
			break
		}
	}
	return n
}

// Config of a run.
type Config struct {
	Seed      uint64 // of the scheduler
	RandSeed  uint64 // of the randomness the program itself draws
	Profile   Profile
	Replay    bool
	Decisions []Decision
	MaxYields uint64
	WallStart int64 // unix ns
}

// Result of a run.
type Result struct {
	Fail      *Fail
	Decisions []Decision
	Sim       *Sim
}

const startMono = 1_000_000_000

// Run executes main as the first task of a fresh simulated process.
func Run(c Config, main func()) Result {
	if S != nil {
		panic("simrt: nested run")
	}
	s := &Sim{prof: c.Profile, rng: NewRng(c.Seed), replay: c.Replay, maxY: c.MaxYields, now: startMono, simRand: NewRng(c.RandSeed)}
	if c.WallStart == 0 {
		c.WallStart = 1_577_880_000_000_000_000 // 2020-01-01T12:00:00Z
	}
	s.wall = c.WallStart - startMono
	if s.maxY == 0 {
		s.maxY = 3_000_000
	}
	s.done = make(chan struct{}, 1)
	if c.Replay {
		s.decs = c.Decisions
		sort.Slice(s.decs, func(i, j int) bool {
			if s.decs[i].Y != s.decs[j].Y {
				return s.decs[i].Y < s.decs[j].Y
			}
			return s.decs[i].N < s.decs[j].N
		})
	}
	s.planPreempt()
	S = s
	t := s.newTask("main", false)
	s.cur = t
	s.start(t, main)
	raceDisable()
	t.wake <- struct{}{}
	<-s.done
	raceEnable()
	// end of the run: every task still alive is ended, one at a time
	s.killing = true
	s.nextPre = 0
	for i := 0; i < len(s.tasks); i++ {
		t := s.tasks[i]
		if t.state == finished {
			continue
		}
		s.cur = t
		raceDisable()
		select {
		case t.wake <- struct{}{}:
		default:
		}
		<-t.exited
		raceEnable()
	}
	RaceAcquire(unsafe.Pointer(&boundary))
	S = nil
	return Result{Fail: s.fail, Decisions: s.decs, Sim: s}
}

var boundary byte

func (s *Sim) newTask(name string, lib bool) *Task {
	t := &Task{ID: len(s.tasks), Name: name, Lib: lib, wake: make(chan struct{}, 1), exited: make(chan struct{})}
	if len(s.tasks) == cap(s.tasks) {
		n := make([]*Task, len(s.tasks), 2*len(s.tasks)+8)
		for i, o := range s.tasks {
			n[i] = o
		}
		s.tasks = n
	}
	s.tasks = s.tasks[:len(s.tasks)+1]
	s.tasks[t.ID] = t
	t.prio = int64(s.rng.Uint64() >> 2)
	t.weight = 1 << uint(s.rng.Intn(5))
	s.TasksMade++
	return t
}

// start creates t's goroutine; it runs once scheduled.
func (s *Sim) start(t *Task, f func()) {
	go func() {
		raceDisable()
		<-t.wake
		raceEnable()
		defer func() {
			if r := recover(); r != nil {
				if s.fail == nil && !s.killing {
					s.fail = &Fail{Class: "panic", Detail: fmt.Sprintf("task %d (%s): panic: %v\n%s", t.ID, t.Name, r, debug.Stack())}
				}
				s.end = true
			}
			t.state = finished
			RaceReleaseMerge(unsafe.Pointer(&t.joinA))
			RaceReleaseMerge(unsafe.Pointer(&boundary))
			if s.killing {
				raceDisable()
				close(t.exited)
				raceEnable()
				return
			}
			if t.ID == 0 {
				s.end = true
			}
			raceDisable()
			close(t.exited)
			if s.end {
				s.done <- struct{}{}
			} else {
				next := s.pick(t, true)
				if next == nil {
					s.deadlock()
					s.end = true
					s.done <- struct{}{}
				} else {
					s.note(t, next)
					if next.state == blocked {
						next.state, next.ready = running, nil
					}
					s.cur = next
					next.wake <- struct{}{}
				}
			}
			raceEnable()
		}()
		if s.killing {
			return
		}
		f()
	}()
}

// Go starts a task of the code under test.
func Go(f func()) {
	s := S
	if s == nil {
		return // package initialisation outside a run: the run starts its own
	}
	if s.killing {
		return
	}
	t := s.newTask("lib", true)
	s.start(t, f)
	Y()
}

// Spawn starts a task of the workload.
func Spawn(name string, f func()) *Task {
	s := S
	t := s.newTask(name, false)
	s.start(t, f)
	return t
}

// Finished reports whether the task has returned.
func (t *Task) Finished() bool { return t.state == finished }

// Why says what an unfinished task is waiting for.
func (t *Task) Why() string {
	if t.state == blocked {
		return t.why
	}
	return "running"
}

// Join waits for t; it returns false if t has not finished by the simulated
// deadline (ns from now, 0 for none).
func (t *Task) Join(within int64) bool {
	s := S
	if t.state != finished {
		if within > 0 {
			fired := false
			tm := s.addTimer(within, func() { fired = true })
			Block("join", func() bool { return t.state == finished || fired })
			s.delTimer(tm)
		} else {
			Block("join", func() bool { return t.state == finished })
		}
	}
	if t.state == finished {
		RaceAcquire(unsafe.Pointer(&t.joinA))
		return true
	}
	return false
}

// Failf ends the run with a violation.
func Failf(class, format string, args ...any) {
	s := S
	if s == nil || s.killing {
		return
	}
	if s.fail == nil {
		s.fail = &Fail{Class: class, Detail: fmt.Sprintf(format, args...)}
	}
	s.end = true
	s.stop()
}

// stop hands control back to the runner for good.
func (s *Sim) stop() {
	me := s.cur
	me.state = blocked
	raceDisable()
	s.done <- struct{}{}
	<-me.wake
	raceEnable()
	runtime.Goexit()
}

// ---------------------------------------------------------------- decisions

// Ordinals below ordBlock belong to the scheduling decision a yield may make;
// a yield without any is not a scheduling decision.
const (
	ordFire  = 1
	ordAct   = 2
	ordPick  = 3
	ordBlock = 10
)

func (s *Sim) planPreempt() {
	defer s.bound()
	if s.replay {
		s.planned = s.maxY + 1
		for i := s.di; i < len(s.decs); i++ {
			if s.decs[i].N < ordBlock && s.decs[i].Y > s.yields {
				s.planned = s.decs[i].Y
				break
			}
		}
		return
	}
	if s.prof.Mode == 1 {
		// change points are drawn one at a time, spread over the expected length
		if s.prof.Changes > 0 {
			s.planned = s.yields + s.rng.geometric(float64(s.prof.Changes)/float64(s.prof.ChangeLen+1))
		} else {
			s.planned = 1 << 62
		}
	} else {
		s.planned = s.yields + s.rng.geometric(s.prof.PreemptP)
	}
}

// fairness bounds how long a task runs while others could.
const fairness = 4000

// bound sets the next preemption: the planned one, or the one due to fairness.
func (s *Sim) bound() {
	s.nextPre = s.planned
	if f := s.lastAt + fairness; s.nextPre > f {
		s.nextPre = f
	}
	if s.nextPre > s.maxY+1 {
		s.nextPre = s.maxY + 1
	}
}

// decide returns the decision with ordinal n at this yield; draw is asked when
// exploring. The default, 0, is not recorded.
func (s *Sim) decide(n uint32, draw func() int64) int64 {
	if s.replay {
		for s.di < len(s.decs) && (s.decs[s.di].Y < s.yields || s.decs[s.di].Y == s.yields && s.decs[s.di].N < n) {
			s.di++
		}
		if s.di < len(s.decs) && s.decs[s.di].Y == s.yields && s.decs[s.di].N == n {
			v := s.decs[s.di].V
			s.di++
			return v
		}
		return 0
	}
	v := draw()
	if v != 0 {
		s.decs = append(s.decs, Decision{s.yields, n, v})
	}
	return v
}

// choose is decide for a choice that is not part of a yield's own decision.
func (s *Sim) choose(draw func() int64) int64 {
	if s.ordY != s.yields || s.ord < ordBlock {
		s.ordY, s.ord = s.yields, ordBlock
	}
	s.ord++
	return s.decide(s.ord, draw)
}

// Choose lets the workload's fault code draw a recorded decision in [0,n).
func Choose(n int) int {
	s := S
	if s == nil || s.killing || n <= 1 {
		return 0
	}
	v := s.choose(func() int64 { return int64(s.rng.Intn(n)) })
	return int(((v % int64(n)) + int64(n)) % int64(n))
}

// chooseFair is Choose for the choices the scheduler makes; the default one
// varies, as nothing may depend on always getting the same.
func chooseFair(n int) int {
	s := S
	if s == nil || s.killing || n <= 1 {
		return 0
	}
	v := s.choose(func() int64 { return int64(s.rng.Intn(n)) })
	base := int64(mix(s.yields, 77) >> 33)
	return int((((v + base) % int64(n)) + int64(n)) % int64(n))
}

// Y is a scheduling point.
func Y() {
	s := S
	if s == nil {
		return
	}
	s.yields++
	s.now += s.prof.TickNS
	if s.yields < s.nextPre {
		return
	}
	s.preempt()
}

func (s *Sim) preempt() {
	if s.killing {
		runtime.Goexit()
	}
	if s.yields > s.maxY {
		if s.fail == nil {
			s.fail = &Fail{Class: "no-progress", Detail: fmt.Sprintf("the run did not finish within %d steps; task %d (%s) is running\n%s\n%s", s.maxY, s.cur.ID, s.cur.Name, s.describe(), debug.Stack())}
		}
		s.end = true
		s.stop()
	}
	me := s.cur
	s.Preempts++
	fair := s.yields-s.lastAt >= fairness
	if fair {
		s.lastAt = s.yields
	}
	if s.yields < s.planned { // only because it has run for so long
		s.fireDue()
		next := s.pickFrom(me, false, true, true)
		s.bound()
		if next != nil && next != me {
			s.hand(me, next)
		}
		return
	}
	if s.decide(ordFire, func() int64 {
		if len(s.timers.h) > 0 && s.timers.h[0].at <= s.now {
			return 1
		}
		return 0
	}) != 0 || fair {
		s.fireDue()
	}
	// 0: carry on scheduling; otherwise a stall of this task (>0) or a pause of the process (<0), in ns
	act := s.decide(ordAct, func() int64 {
		if s.prof.StallP > 0 && s.rng.Bool(s.prof.StallP) {
			return 1 + s.logUniform(s.prof.MaxStall)
		}
		if s.prof.PauseP > 0 && s.rng.Bool(s.prof.PauseP) {
			return -1 - s.logUniform(s.prof.MaxStall)
		}
		return 0
	})
	if s.calm {
		act = 0
	}
	if act > 0 {
		s.Stalls++
		s.planPreempt()
		s.sleep(act, "stalled")
		return
	}
	if act < 0 {
		s.Pauses++
		s.now += -act
		s.fireDue()
	}
	if s.prof.Mode == 1 {
		me.prio = -int64(s.rng.Uint64() >> 20)
	}
	next := s.pickFrom(me, false, true, fair)
	s.planPreempt()
	if next != nil && next != me {
		s.hand(me, next)
	}
}

func (s *Sim) logUniform(max int64) int64 {
	if max < 2 {
		return 1
	}
	bits := 1
	for int64(1)<<uint(bits) < max {
		bits++
	}
	return int64(s.rng.Uint64() % uint64(int64(1)<<uint(1+s.rng.Intn(bits))))
}

// Block parks the running task until ready reports true.
func Block(why string, ready func() bool) {
	s := S
	if s == nil {
		if ready() {
			return
		}
		panic("simrt: blocking outside a run: " + why)
	}
	if s.killing {
		runtime.Goexit()
	}
	me := s.cur
	me.state, me.ready, me.why = blocked, ready, why
	next := s.pick(me, false)
	if next == nil {
		s.deadlock()
		s.end = true
		s.stop()
	}
	if next == me {
		me.state, me.ready = running, nil
		s.lastAt = s.yields
		s.bound()
		return
	}
	s.hand(me, next)
}

func (s *Sim) deadlock() {
	if s.fail == nil {
		s.fail = &Fail{Class: "deadlock", Detail: "every task is blocked and no timer is pending\n" + s.describe()}
	}
}

func (s *Sim) note(from, to *Task) {
	s.Switches++
	s.Hash = mix(s.Hash, uint64(to.ID)<<8|uint64(from.state))
	if to.state == blocked {
		h := s.Hash
		for i := 0; i < len(to.why); i++ {
			h = (h ^ uint64(to.why[i])) * 1099511628211
		}
		s.Hash = h
	}
	if s.debug {
		fmt.Printf("  y=%d t=%d switch %d(%s) -> %d(%s)\n", s.yields, s.now, from.ID, from.why, to.ID, to.why)
	}
	s.lastAt = s.yields
	s.bound()
}

func (s *Sim) hand(me, next *Task) {
	s.note(me, next)
	if next.state == blocked {
		next.state, next.ready = running, nil
	}
	s.cur = next
	raceDisable()
	next.wake <- struct{}{}
	<-me.wake
	raceEnable()
	if s.killing {
		runtime.Goexit()
	}
}

func (t *Task) runnable() bool {
	switch t.state {
	case running:
		return true
	case blocked:
		return t.ready()
	}
	return false
}

// pick chooses the next task, letting time pass if nothing can run.
func (s *Sim) pick(me *Task, exiting bool) *Task {
	s.fireDue()
	idle := 0
	for {
		next := s.pickFrom(me, exiting, false, false)
		if next != nil {
			return next
		}
		if len(s.timers.h) == 0 {
			return nil
		}
		if !s.skipIdle() {
			return nil
		}
		idle++
		if idle > 200000 {
			s.fail = &Fail{Class: "deadlock", Detail: "timers keep firing but no task ever becomes runnable\n" + s.describe()}
			s.end = true
			return nil
		}
		if at := s.timers.h[0].at; at > s.now {
			s.now = at
		}
		s.Jumps++
		s.fireDue()
	}
}

// pickFrom chooses among the tasks that can run. By default the running task
// carries on if this is a preemption; otherwise, or when it has run for long,
// it is the next task's turn.
func (s *Sim) pickFrom(me *Task, exiting, preempt, fair bool) *Task {
	var buf [64]*Task
	n := 0
	meFirst := preempt && !fair
	meCan := !exiting && me.runnable()
	if meFirst && meCan {
		buf[0] = me
		n = 1
	}
	for i := 1; i < len(s.tasks); i++ {
		t := s.tasks[(me.ID+i)%len(s.tasks)]
		if t.state == finished {
			continue
		}
		if n < len(buf)-1 && t.runnable() {
			buf[n] = t
			n++
		}
	}
	if !meFirst && meCan {
		buf[n] = me
		n++
	}
	if n == 0 {
		return nil
	}
	if n == 1 {
		return buf[0]
	}
	draw := func() int64 {
		if fair && meCan {
			return int64(s.rng.Intn(n - 1))
		}
		switch s.prof.Mode {
		case 1:
			best := 0
			for i := 1; i < n; i++ {
				if buf[i].prio > buf[best].prio {
					best = i
				}
			}
			return int64(best)
		case 2:
			var sum int64
			for i := 0; i < n; i++ {
				sum += buf[i].weight
			}
			x := int64(s.rng.Uint64() % uint64(sum))
			for i := 0; i < n; i++ {
				if x -= buf[i].weight; x < 0 {
					return int64(i)
				}
			}
		}
		return int64(s.rng.Intn(n))
	}
	var v int64
	if preempt {
		v = s.decide(ordPick, draw)
	} else {
		v = s.choose(draw)
	}
	return buf[int(((v%int64(n))+int64(n))%int64(n))]
}

func (s *Sim) describe() string {
	out := ""
	for _, t := range s.tasks {
		if t.state == finished {
			continue
		}
		kind := "workload"
		if t.Lib {
			kind = "library"
		}
		out += fmt.Sprintf("  task %d (%s, %s): %s\n", t.ID, t.Name, kind, t.Why())
	}
	return out
}

// Describe lists the unfinished tasks.
func Describe() string { return S.describe() }

// SetDebug prints every hand-over.
func (s *Sim) SetDebug() { s.debug = true }

// Yields is the number of scheduling points so far.
func (s *Sim) Yields() uint64 { return s.yields }

// SimTime is the simulated time that has passed, in ns.
func (s *Sim) SimTime() int64 { return s.now - startMono }

// LogLen is the number of logged events.
func (s *Sim) LogLen() int { return s.logN }

// CurTask is the id of the running task.
func CurTask() int {
	if S == nil {
		return -1
	}
	return S.cur.ID
}

// LibTasks counts the unfinished tasks the code under test started.
func LibTasks() int {
	n := 0
	for _, t := range S.tasks {
		if t.Lib && t.state != finished {
			n++
		}
	}
	return n
}

// RandUint64 is the randomness the simulated program draws.
func RandUint64() uint64 {
	if S == nil {
		return outside.Uint64()
	}
	return S.simRand.Uint64()
}

var outside = NewRng(1)

// Calm ends the scheduler's own faults, stalls and pauses: from here on what is
// due must get done.
func Calm() {
	if S != nil {
		S.calm = true
	}
}

// Killing reports whether the run is over and its tasks are being ended.
func Killing() bool { return S != nil && S.killing }

// First is the first event of the run's history.
func (s *Sim) First() *LogEntry { return s.logHead }
