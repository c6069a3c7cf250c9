// Package engine is the deterministic simulator: one seed decides every
// interleaving, delay, fault and generated operation of a run.
package engine

import (
	"fmt"
	"hash/fnv"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"verifsim/hook"
)

// ---------------------------------------------------------------- choices

type rng struct{ s uint64 }

//go:norace
func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Mix derives a sub-seed.
func Mix(parts ...uint64) uint64 {
	r := rng{0x1234567}
	for _, p := range parts {
		r.s ^= p * 0xff51afd7ed558ccd
		r.next()
		r.s = r.next()
	}
	return r.next()
}

// Violation is a property failure observed in a run.
type Violation struct {
	Props []string `json:"props"`
	Class string   `json:"class"`
	Msg   string   `json:"msg"`
	Step  int      `json:"step"`
}

// Has reports whether the violation concerns property p.
func (v *Violation) Has(p string) bool {
	for _, q := range v.Props {
		if q == p {
			return true
		}
	}
	return false
}

// Config says how a run gets its choices.
type Config struct {
	Seed    uint64
	Replay  bool
	Choices []uint32
	Verbose bool
	Sites   int
	Light   []uint32 // non-heavy site ids
}

// Result is what a run produced.
type Result struct {
	Violations []Violation
	Choices    []uint32
	LogHash    uint64
	SchedHash  uint64
	Log        []string
	Faults     map[string]int
	Probes     map[string]int
	Steps      uint64
	HSteps     uint64
	Switches   int
	SimTime    time.Duration
	Ops        int
	Error      string // harness trouble, never a violation
	Note       string
}

type state uint8

const (
	stReady state = iota
	stRunning
	stBlocked // blocked in something other than a yield point
	stFrozen  // crashed: never scheduled again
	stDone
)

// Task is one simulated caller.
type Task struct {
	ID       int
	Name     string
	goid     uint64
	wake     chan struct{}
	st       state
	lockWait bool
	// locks the task holds; it cannot crash while they are taken, because what the
	// simulation runs as separate processes shares them
	locks int
	// spun: since it was last resumed the task has only found its lock still taken
	spun     bool
	kill     bool
	crashReq bool
	onCrash  func()
	heavy    bool
	own      bool // started by Go
	stray    bool // nobody catches a panic of it
	owner    int  // task started by Go that this one descends from, or -1
}

type killed struct{}
type overflow struct{}

// IsControl reports that a recovered panic belongs to the simulator.
func IsControl(r interface{}) bool {
	switch r.(type) {
	case killed, overflow:
		return true
	}
	return false
}

// Sim is one run.
type Sim struct {
	T      *testing.T
	cfg    Config
	hlimit uint64
	r      rng
	mr     rng
	pos    int

	choices []uint32
	tasks   []*Task
	cur     *Task
	notify  chan struct{}
	ending  bool
	judging bool // the final checks are running
	settled bool // the final checks are done
	viol    []Violation
	log     []string
	logHash uint64
	schHash uint64
	nlog    int
	faults  map[string]int
	probes  map[string]int
	start   time.Time
	finals  []func()
	ops     int
	sw      int
	err     string
	nextID  int
	decs    int
	calm    bool

	lockAt   uint64
	lockSpin int

	// PreemptMode tunes how eagerly tasks are preempted inside library code.
	preempt int
	note    string
	done    chan struct{}
	onStuck func(names []string)
}

// OnStuck registers what to do when some tasks can never run again.
func (s *Sim) OnStuck(f func(names []string)) { s.onStuck = f }

// Draw returns a number in [0,n); 0 is the simplest choice.
//
//go:norace
func (s *Sim) Draw(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint32
	if s.cfg.Replay {
		if s.pos < len(s.cfg.Choices) {
			v = s.cfg.Choices[s.pos] % uint32(n)
		}
		s.pos++
	} else {
		v = uint32(s.r.next() % uint64(n))
	}
	s.choices = append(s.choices, v)
	return int(v)
}

// Pct is true with probability p/100; false is the simplest choice.
func (s *Sim) Pct(p int) bool { return s.Draw(100) >= 100-p }

// Range returns a number in [lo,hi].
func (s *Sim) Range(lo, hi int) int { return lo + s.Draw(hi-lo+1) }

// Bytes expands one drawn number into n bytes.
func (s *Sim) Bytes(n int) []byte {
	seed := uint64(s.Draw(1 << 30))
	return Expand(seed, n)
}

// Expand makes n pseudo-random bytes from a seed.
func Expand(seed uint64, n int) []byte {
	r := rng{seed*0x9e3779b97f4a7c15 + 7}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.next() >> 13)
	}
	return b
}

// U64 draws a 64-bit number biased to interesting magnitudes.
func (s *Sim) U64() uint64 {
	switch s.Draw(4) {
	case 0:
		return uint64(s.Draw(256))
	case 1:
		b := uint(s.Draw(64))
		return (uint64(1) << b) + uint64(s.Draw(3)) - 1
	case 2:
		return uint64(s.Draw(1 << 30))
	default:
		return uint64(s.Draw(1<<30))<<34 ^ uint64(s.Draw(1<<30))<<8 ^ uint64(s.Draw(256))
	}
}

// ---------------------------------------------------------------- recording

// Ev records an event in the run's log.
func (s *Sim) Ev(format string, a ...interface{}) {
	s.evN(format, a...)
}

func (s *Sim) evN(format string, a ...interface{}) {
	line := fmt.Sprintf(format, a...)
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%d|%s", s.logHash, time.Since(s.start), line)
	s.logHash = h.Sum64()
	s.nlog++
	if s.cfg.Verbose {
		name := "-"
		if s.cur != nil {
			name = s.cur.Name
		}
		s.log = append(s.log, fmt.Sprintf("%04d t=%-12v %-12s %s", s.nlog, time.Since(s.start), name, line))
	}
}

// Fault counts an injected fault.
func (s *Sim) Fault(kind string) { s.faults[kind]++; s.Ev("FAULT %s", kind) }

// Probe counts that an interesting condition was reached.
func (s *Sim) Probe(kind string) { s.probes[kind]++ }

// Op counts a workload operation.
func (s *Sim) Op(format string, a ...interface{}) { s.ops++; s.Ev("OP "+format, a...) }

// Violate records a violation of the given properties (comma separated).
func (s *Sim) Violate(props, class, format string, a ...interface{}) {
	if s.ending && !s.judging {
		return // a task being torn down
	}
	msg := fmt.Sprintf(format, a...)
	if len(msg) > 700 {
		msg = msg[:700] + "..."
	}
	for _, v := range s.viol {
		if v.Class == class {
			return
		}
	}
	s.viol = append(s.viol, Violation{strings.Split(props, ","), class, msg, s.nlog})
	s.Ev("VIOLATION %s [%s] %s", class, props, msg)
}

// Fail records harness trouble.
func (s *Sim) Fail(format string, a ...interface{}) {
	if s.err == "" {
		s.err = fmt.Sprintf(format, a...)
	}
}

// Note attaches a short description of the run (for evidence samples).
func (s *Sim) Note(format string, a ...interface{}) { s.note = fmt.Sprintf(format, a...) }

// Final registers a check evaluated after all tasks ended.
func (s *Sim) Final(f func()) { s.finals = append(s.finals, f) }

// Now is the simulated time since the run started.
func (s *Sim) Now() time.Duration { return time.Since(s.start) }

// Ending reports that the run is being torn down.
func (s *Sim) Ending() bool { return s.ending }

// Done is closed when the run is being torn down.
func (s *Sim) Done() chan struct{} { return s.done }

// ---------------------------------------------------------------- tasks

// Go starts a task.
func (s *Sim) Go(name string, fn func()) *Task {
	t := &Task{ID: s.nextID, Name: name, wake: make(chan struct{}, 1), st: stReady, own: true, owner: s.nextID}
	s.nextID++
	s.tasks = append(s.tasks, t)
	go s.body(t, fn)
	return t
}

func (s *Sim) body(t *Task, fn func()) {
	raceOff()
	t.goid = runtime.VerifGoID()
	runtime.VerifSetOwner(uint64(t.ID) + 1)
	<-t.wake
	raceOn()
	defer func() {
		raceOff()
		if r := recover(); r != nil {
			switch r.(type) {
			case killed:
			case overflow:
				s.Fail("task %s: step budget used up outside a guarded call", t.Name)
			default:
				s.Fail("task %s: unexpected panic: %v\n%s", t.Name, r, debug.Stack())
			}
		}
		t.st = stDone
		s.poke()
	}()
	if t.kill {
		return
	}
	fn()
}

//go:norace
func (s *Sim) poke() {
	select {
	case s.notify <- struct{}{}:
	default:
	}
}

// park hands control back to the scheduler and waits to be resumed.
//
//go:norace
func (s *Sim) park(t *Task) {
	raceOff()
	if t.st != stFrozen {
		t.st = stReady
	}
	s.poke()
	<-t.wake
	raceOn()
	if t.kill {
		panic(killed{})
	}
}

//go:norace
func (s *Sim) find(g uint64) *Task {
	for i := len(s.tasks) - 1; i >= 0; i-- {
		t := s.tasks[i]
		if t.goid == g && t.st != stDone {
			return t
		}
	}
	return nil
}

// Me returns the calling task.
//
//go:norace
func (s *Sim) Me() *Task { return s.find(runtime.VerifGoID()) }

// Owner returns the ID of the task started by Go that the calling goroutine is or
// descends from, or -1.
//
//go:norace
func (s *Sim) Owner() int { return int(runtime.VerifOwner()) - 1 }

// Yield lets the scheduler pick who continues.
//
//go:norace
func (s *Sim) Yield() {
	if s.ending {
		return
	}
	if t := s.Me(); t != nil {
		s.park(t)
	}
}

// Sleep passes simulated time, then waits for its turn.
func (s *Sim) Sleep(d time.Duration) {
	if s.ending {
		return
	}
	tm := time.NewTimer(d)
	select {
	case <-tm.C:
	case <-s.done:
		tm.Stop()
		if t := s.Me(); t != nil && t.own {
			panic(killed{})
		}
	}
	s.Yield()
}

// Calm stops the scheduler from holding back ready tasks: faults are over.
func (s *Sim) Calm() { s.calm = true }

// Adopt runs f as a task even if the calling goroutine was started by code the
// simulator does not instrument.
func (s *Sim) Adopt(f func()) {
	if s.ending {
		f()
		return
	}
	if t := s.Me(); t != nil {
		// back from a wait in code that is not instrumented: take turns again
		if t != s.cur {
			s.park(t)
		}
		f()
		return
	}
	t := &Task{ID: s.nextID, Name: fmt.Sprintf("adopted-%d", s.nextID), wake: make(chan struct{}, 1), st: stReady, owner: s.Owner()}
	s.nextID++
	t.goid = runtime.VerifGoID()
	s.tasks = append(s.tasks, t)
	s.poke()
	<-t.wake
	defer func() {
		t.st = stDone
		s.poke()
	}()
	if t.kill {
		panic(killed{})
	}
	f()
}

// Crash freezes a task: it never runs again; only what it made durable survives.
func (s *Sim) Crash(t *Task) {
	if t.st == stDone || t.st == stFrozen {
		return
	}
	t.crashReq = true
}

// OnCrash registers what happens (once) when the scheduler freezes t.
func (t *Task) OnCrash(f func()) { t.onCrash = f }

// Alive reports whether t can still run.
func (t *Task) Alive() bool { return t.st != stDone && t.st != stFrozen && !t.crashReq }

//go:norace
func (s *Sim) slow(site uint32) {
	t := s.cur
	if t == nil || s.ending {
		hook.Next, hook.HNext = ^uint64(0), ^uint64(0)
		return
	}
	if hook.Steps > hook.Limit || hook.HSteps > s.hlimit {
		s.overrun(t, site)
	}
	t.heavy = false
	s.park(t)
}

func (s *Sim) overrun(t *Task, site uint32) {
	panic(overflow{})
}

//go:norace
func (s *Sim) off(g uint64, site uint32) {
	if s.ending {
		return
	}
	t := s.find(g)
	if t == nil {
		// started by library code in a way the instrumenter does not follow
		if s.Owner() < 0 {
			return
		}
		t = &Task{ID: s.nextID, Name: fmt.Sprintf("stray-%d", s.nextID), goid: g, wake: make(chan struct{}, 1), owner: s.Owner(), stray: true}
		s.nextID++
		s.tasks = append(s.tasks, t)
	}
	s.park(t)
}

func (s *Sim) lock(try func() bool) bool {
	if !hook.Active || s.ending {
		return false
	}
	t := s.Me()
	if t == nil {
		return false
	}
	for retry := false; !try(); retry = true {
		t.lockWait, t.spun = true, retry
		s.park(t)
		if s.ending {
			return false
		}
	}
	return true
}

// held keeps account of the locks each task holds.
//
//go:norace
func (s *Sim) held(d int) {
	if !hook.Active || s.ending {
		return
	}
	g := runtime.VerifGoID()
	t := s.cur
	if t == nil || t.goid != g {
		if t = s.find(g); t == nil {
			return
		}
	}
	if t.locks += d; t.locks < 0 {
		t.locks = 0
	}
	if t.crashReq && t.locks == 0 && t == s.cur {
		hook.Next, hook.HNext = hook.Steps, hook.HSteps
	}
}

// locked reports whether t, or what it started, holds a lock.
func (s *Sim) locked(t *Task) bool {
	for _, u := range s.tasks {
		if u.locks > 0 && u.st != stDone && (u == t || !u.own && u.owner == t.ID) {
			return true
		}
	}
	return false
}

// budget decides how far the resumed task may run before the scheduler gets
// control again.
//
//go:norace
func (s *Sim) budget() {
	hook.Next, hook.HNext = hook.Limit+1, s.hlimit+1
	if s.preempt == 0 {
		return
	}
	switch s.Draw(6) {
	case 0:
	case 1:
		hook.Next = hook.Steps + uint64(1+s.Draw(4))
	case 2:
		hook.Next = hook.Steps + uint64(1+s.Draw(30))
	case 3:
		hook.Next = hook.Steps + uint64(1+s.Draw(300))
	case 4:
		hook.HNext = hook.HSteps + uint64(1+s.Draw(1<<uint(2+s.Draw(14))))
	case 5:
		hook.Next = hook.Steps + 1
	}
}

// SetPreempt enables preemption inside library code (0 = only at API boundaries
// and I/O).
func (s *Sim) SetPreempt(on bool) {
	if on {
		s.preempt = 1
		n := s.Draw(5)
		for i := 0; i < n && len(s.cfg.Light) > 0; i++ {
			hook.Target[s.cfg.Light[s.Draw(len(s.cfg.Light))]] = 1
		}
	}
}

//go:norace
func (s *Sim) loop() {
	raceOff()
	defer raceOn()
	for {
		synctest.Wait()
		select {
		case <-s.notify: // what it told of is in the tasks' states by now
		default:
		}
		if s.cur != nil && s.cur.st == stRunning {
			s.cur.st = stBlocked
		}
		if s.cur != nil && !(s.cur.lockWait && s.cur.spun) {
			// it got on and may have released a lock that others wait for
			for _, u := range s.tasks {
				if u != s.cur {
					u.lockWait = false
				}
			}
		}
		s.cur = nil
		hook.Cur = 0
		var ready []*Task
		alive, blocked := 0, 0
		for _, t := range s.tasks {
			if t.crashReq && (t.st == stReady || t.st == stBlocked) && !s.locked(t) {
				t.st = stFrozen
				t.crashReq = false
				// a crash takes everything the task started in library code with it
				for _, u := range s.tasks {
					if !u.own && u.owner == t.ID && u.st != stDone {
						u.st = stFrozen
					}
				}
				if t.onCrash != nil {
					f := t.onCrash
					t.onCrash = nil
					f()
				}
			}
		}
		for _, t := range s.tasks {
			switch t.st {
			case stReady:
				alive++
				if !t.lockWait {
					ready = append(ready, t)
				}
			case stRunning, stBlocked:
				// a goroutine that library code left behind keeps nobody waiting
				if t.own {
					alive++
				}
				blocked++
			}
		}
		if alive == 0 {
			return
		}
		if len(s.err) > 0 {
			return
		}
		if len(ready) == 0 {
			n := 0
			for _, t := range s.tasks {
				if t.st == stReady && t.lockWait {
					t.lockWait = false
					n++
				}
			}
			if n > 0 && blocked == 0 {
				if s.lockAt != hook.Steps+hook.HSteps {
					s.lockAt, s.lockSpin = hook.Steps+hook.HSteps, 0
				}
				if s.lockSpin++; s.lockSpin > 2000 {
					s.stuck()
					return
				}
				continue
			}
			// Everybody sleeps: let simulated time pass. A very long wait means a
			// task is stuck for good.
			select {
			case <-s.notify:
			case <-time.After(48 * time.Hour):
				s.stuck()
				return
			}
			continue
		}
		s.decs++
		if s.decs > 2000000 {
			s.Fail("too many scheduling decisions")
			return
		}
		if blocked > 0 && !s.calm && s.Draw(8) >= 7 {
			// Everyone ready is slow for a while; sleepers may overtake.
			time.Sleep(time.Duration(1+s.Draw(3000)) * time.Millisecond)
			continue
		}
		t := ready[0]
		if len(ready) > 1 {
			t = ready[s.Draw(len(ready))]
		}
		s.sw++
		s.schHash = (s.schHash ^ uint64(t.ID+1) ^ hook.Steps<<8) * 0x100000001b3
		s.budget()
		t.st = stRunning
		s.cur = t
		hook.Cur = t.goid
		select {
		case <-s.notify:
		default:
		}
		t.wake <- struct{}{}
	}
}

func (s *Sim) stuck() {
	var names []string
	for _, t := range s.tasks {
		if t.st == stBlocked || t.st == stRunning || t.st == stReady {
			names = append(names, t.Name)
		}
	}
	sort.Strings(names)
	s.probes["stuck"]++
	s.Ev("STUCK %v", names)
	if s.onStuck != nil {
		s.onStuck(names)
	}
}

// Run executes one simulated run of world.
func Run(t *testing.T, cfg Config, world func(s *Sim)) (res Result) {
	s := &Sim{T: t, cfg: cfg, faults: map[string]int{}, probes: map[string]int{}}
	s.r = rng{cfg.Seed}
	hook.Steps, hook.HSteps = 0, 0
	s.allow()
	hook.Target = [hook.MaxSites]uint8{}
	sync.VerifPoolReset()
	// in a goroutine of its own: package testing ends it when the race oracle reports
	ended := make(chan struct{})
	go func() {
		defer close(ended)
		defer func() {
			if r := recover(); r != nil {
				if s.settled && strings.Contains(fmt.Sprint(r), "blocked goroutines remain") && s.strays() {
					return
				}
				buf := make([]byte, 1<<16)
				s.Fail("run: %v\n%s", r, buf[:runtime.Stack(buf, true)])
			}
		}()
		synctest.Test(t, func(t *testing.T) {
			s.start = time.Now()
			s.notify = make(chan struct{}, 1)
			s.done = make(chan struct{})
			s.mr = rng{uint64(s.Draw(1<<30)) + 99}
			runtime.VerifMapRand = s.mapRand
			sync.VerifSetLock(s.lock)
			sync.VerifSetHeld(s.held)
			hook.Slow, hook.Off = s.slow, s.off
			hook.OnNewID, hook.OnEnter, hook.OnExit = s.newID, s.enter, s.exit
			hook.Control = func(r interface{}) bool { _, ok := r.(killed); return ok }
			defer func() {
				sync.VerifSetLock(nil)
				sync.VerifSetHeld(nil)
				runtime.VerifMapRand = nil
			}()
			world(s)
			hook.Next = ^uint64(0)
			hook.HNext = ^uint64(0)
			hook.Active = true
			s.loop()
			hook.Active = false
			s.ending = true
			res.SimTime = time.Since(s.start)
			s.cur = nil
			close(s.done)
			for _, t := range s.tasks {
				if t.st != stDone {
					t.kill = !t.stray
					select {
					case t.wake <- struct{}{}:
					default:
					}
				}
			}
			synctest.Wait()
			s.judging = true
			for _, f := range s.finals {
				f()
			}
			s.judging, s.settled = false, true
			// let code that still sleeps (a frozen caller) run off
			time.Sleep(100 * time.Hour)
		})
	}()
	<-ended
	hook.Active = false
	res.Violations = s.viol
	res.Choices = s.choices
	res.LogHash = s.logHash
	res.SchedHash = s.schHash
	res.Log = s.log
	res.Faults, res.Probes = s.faults, s.probes
	res.Steps, res.HSteps = hook.Steps, hook.HSteps
	res.Switches = s.sw
	res.Ops = s.ops
	res.Error = s.err
	res.Note = s.note
	return
}

// strays reports whether library code has started goroutines: one that waits for
// another may be left behind when the run ends.
func (s *Sim) strays() bool {
	for _, t := range s.tasks {
		if !t.own {
			return true
		}
	}
	return false
}

//go:norace
func (s *Sim) mapRand() uint64 { return s.mr.next() }

// newID, enter and exit register goroutines that library code starts.
func (s *Sim) newID() int {
	t := &Task{ID: s.nextID, Name: fmt.Sprintf("lib-go-%d", s.nextID), wake: make(chan struct{}, 1), st: stBlocked, owner: s.Owner()}
	s.nextID++
	s.tasks = append(s.tasks, t)
	return t.ID
}

func (s *Sim) enter(id int) {
	for _, t := range s.tasks {
		if t.ID == id {
			t.goid = runtime.VerifGoID()
			s.park(t)
			return
		}
	}
}

func (s *Sim) exit(id int) {
	for _, t := range s.tasks {
		if t.ID == id {
			t.st = stDone
			s.poke()
		}
	}
}

// allow gives the call that begins now its number of steps. Calls of other tasks
// that begin meanwhile extend it, but there are finitely many.
//
//go:norace
func (s *Sim) allow() {
	hook.Limit, s.hlimit = hook.Steps+30000000, hook.HSteps+300000000
	if s.preempt == 0 && !s.ending {
		hook.Next, hook.HNext = hook.Limit+1, s.hlimit+1
	}
}

// Guard runs f and turns a panic of library code into a violation.
func (s *Sim) Guard(props, what string, f func()) (ok bool) {
	s.allow()
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case killed:
				panic(r)
			case overflow:
				s.Violate(props, what+"/nontermination", "%s did not finish within the step budget", what)
				s.allow()
				ok = false
				return
			}
			st := string(debug.Stack())
			s.Violate(props, what+"/panic", "%s panicked: %v%s", what, r, firstLibFrame(st))
			ok = false
		}
	}()
	f()
	return true
}

func firstLibFrame(st string) string {
	lines := strings.Split(st, "\n")
	for i, l := range lines {
		if strings.HasPrefix(l, "github.com/fivebinaries/") && i+1 < len(lines) {
			loc := strings.TrimSpace(lines[i+1])
			if j := strings.LastIndex(loc, " +"); j > 0 {
				loc = loc[:j]
			}
			return " at " + loc
		}
	}
	return ""
}
