// Package verifrt is the simulator runtime. It is added to the build of the
// code under test by an overlay (it is never part of /repo): the instrumented
// sources call Y before every statement, and reach stdout, stdin, the
// environment, exit, the clock, goroutines, locks and map iteration order only
// through this package.
//
// Exactly one task runs at any time. Which one is decided here, from a
// recorded list of switches or from a seeded generator; nothing else decides.
package verifrt

import (
	"fmt"
	"io"
	"sort"
	"time"
)

// ---- configuration and results of one run ----

// Switch: when task T has executed S of its own steps, control goes to task To.
// K is 'p' for a preemption (the task could have continued) and 'b' when the
// task could not continue (it finished, blocked or slept).
type Switch struct {
	T  int    `json:"t"`
	S  uint64 `json:"s"`
	K  string `json:"k"`
	To int    `json:"to"`
}

// Chooser generates the schedule. A nil Chooser replays Config.Switches.
type Chooser interface {
	// NextPreempt returns after how many further steps of the task the
	// scheduler must be consulted again.
	NextPreempt(task int) uint64
	// Preempt is asked at a consultation point (hot tells that the point is a
	// hot site); it returns the task to run next, or -1 to continue.
	Preempt(task int, runnable []int, hot bool) int
	// Pick is asked when the task cannot continue.
	Pick(task int, runnable []int) int
}

type Config struct {
	Budget   uint64   // steps a single task may use; 0 = 50M
	Chooser  Chooser  // nil: replay
	Switches []Switch // to replay
	Hot      []uint32 // hot sites (generation only)
	MapSeed  uint64   // decides the iteration order of maps
}

type Result struct {
	Switches []Switch // as they happened
	Steps    uint64
	Clock    time.Duration // simulated time
	Deadlock string        // non-empty when no task could continue
	Over     []int         // tasks which ran out of budget
	TaskEnd  []uint64      // steps used by each task
	Hash     uint64        // of the interleaving
}

type state int

const (
	runnable state = iota
	sleeping
	blocked
	done
)

type task struct {
	id               int
	wake             chan struct{}
	steps            uint64
	budget           uint64
	state            state
	until            time.Duration
	cond             func() bool
	why              string
	next             uint64 // consultation point, in steps
	reps             map[uint64]Switch
	repB             map[uint64]Switch
	repAt            []uint64
	out              io.Writer
	fn               func()
	reReads, reEvals uint64
	work             uint64
	end              chan struct{} // what the task did happens before the return of Run
}

type sim struct {
	cfg      Config
	tasks    []*task
	res      Result
	clock    time.Duration
	finished chan struct{}
	aborting bool
	hot      []bool
}

// Abort is the panic value by which the simulator ends a task which ran out
// of its step budget or is deadlocked.
type Abort struct{ Why string }

func (a Abort) String() string { return "simulator abort: " + a.Why }

// Exited is the panic value which os.Exit becomes.
type Exited struct{ Code int }

const never = ^uint64(0)

var (
	s     *sim
	cur   *task
	steps uint64 // of cur
	limit uint64 = never
	hotOn bool
	hot   []bool

	NumSites    int            // set by the generated sites file
	SharedSites []uint32       // of statements which use package variables, locks or atomics
	WriteSites  []uint32       // of statements which write in parts of grammars
	SiteHits    [1 << 16]uint8 // statements reached
)

// Y is called before every statement of the instrumented code.
//
//go:norace
func Y(site uint32) {
	SiteHits[site&0xffff] = 1
	steps++
	if steps >= limit || (hotOn && hot[site]) {
		slow(site)
	}
}

// V is a scheduling point after an expression was evaluated.
func V[T any](site uint32, x T) T {
	Y(site)
	return x
}

// Steps returns the number of steps executed by the running task.
//
//go:norace
func Steps() uint64 { return steps }

//go:norace
func Active() bool { return s != nil }

//go:norace
func TaskID() int {
	if cur == nil {
		return -1
	}
	return cur.id
}

//go:norace
func Clock() time.Duration {
	if s == nil {
		return 0
	}
	return s.clock + time.Duration(steps-cur.steps)*time.Microsecond
}

// bookkeeping: fold the steps done since the last one into the clock
//
//go:norace
func sync_() {
	s.clock += time.Duration(steps-cur.steps) * time.Microsecond
	cur.steps = steps
}

//go:norace
func slow(site uint32) {
	if s == nil {
		limit = never
		return
	}
	if s.aborting {
		panic(Abort{"aborting"})
	}
	t := cur
	if steps > t.budget {
		sync_()
		s.res.Over = append(s.res.Over, t.id)
		t.budget = never // its deferred functions may run
		setLimit(t)
		panic(Abort{"step budget exceeded"})
	}
	sync_()
	wakeUp()
	if s.cfg.Chooser == nil {
		if sw, ok := t.reps[steps]; ok {
			if to := s.get(sw.To); to != nil && to != t && to.state == runnable {
				s.res.Switches = append(s.res.Switches, sw)
				setLimit(t)
				switchTo(t, to)
				return
			}
		}
		setLimit(t)
		return
	}
	isHot := hotOn && hot[site]
	if steps >= t.next || isHot {
		r := s.others(t)
		if len(r) > 0 {
			to := s.cfg.Chooser.Preempt(t.id, r, isHot)
			if steps >= t.next {
				t.next = steps + s.cfg.Chooser.NextPreempt(t.id)
			}
			if to >= 0 && to != t.id {
				s.res.Switches = append(s.res.Switches, Switch{t.id, steps, "p", to})
				setLimit(t)
				switchTo(t, s.tasks[to])
				return
			}
		} else if steps >= t.next {
			t.next = steps + s.cfg.Chooser.NextPreempt(t.id)
		}
	}
	setLimit(t)
}

//go:norace
func (s *sim) get(id int) *task {
	if id < 0 || id >= len(s.tasks) {
		return nil
	}
	return s.tasks[id]
}

// runnable tasks other than t
//
//go:norace
func (s *sim) others(t *task) []int {
	var r []int
	for _, o := range s.tasks {
		if o != t && o.state == runnable {
			r = append(r, o.id)
		}
	}
	return r
}

//go:norace
func setLimit(t *task) {
	limit = t.budget
	if limit != never {
		limit++
	}
	if s.cfg.Chooser != nil {
		if len(s.tasks) > 1 && t.next < limit {
			limit = t.next
		}
	} else {
		for len(t.repAt) > 0 && t.repAt[0] <= steps {
			t.repAt = t.repAt[1:]
		}
		if len(t.repAt) > 0 && t.repAt[0] < limit {
			limit = t.repAt[0]
		}
	}
	if limit <= steps {
		limit = steps + 1
	}
}

// sleepers whose time has come, and blocked tasks whose condition holds
//
//go:norace
func wakeUp() {
	for _, o := range s.tasks {
		switch o.state {
		case sleeping:
			if o.until <= s.clock {
				o.state = runnable
			}
		case blocked:
			if o.cond == nil || o.cond() {
				o.state = runnable
			}
		}
	}
}

//go:norace
func mix(h, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	return h ^ (h >> 33)
}

//go:norace
func resume(to *task) {
	cur = to
	steps = to.steps
	setLimit(to)
	s.res.Hash = mix(s.res.Hash, uint64(to.id)<<40^to.steps)
	to.wake <- struct{}{}
}

//go:norace
func switchTo(from, to *task) {
	raceDisable()
	resume(to)
	<-from.wake
	raceEnable()
	if s.aborting {
		panic(Abort{"aborting"})
	}
}

// the running task cannot continue: pick another one
//
//go:norace
func cannotContinue(t *task) *task {
	sync_()
	for {
		wakeUp()
		var r []int
		for _, o := range s.tasks {
			if o.state == runnable {
				r = append(r, o.id)
			}
		}
		if len(r) > 0 {
			to := -1
			if s.cfg.Chooser != nil {
				to = s.cfg.Chooser.Pick(t.id, r)
			} else if sw, ok := t.repB[steps]; ok {
				for _, id := range r {
					if id == sw.To {
						to = id
					}
				}
			}
			if to < 0 {
				to = r[0]
			}
			if len(r) > 1 || s.cfg.Chooser == nil {
				s.res.Switches = append(s.res.Switches, Switch{t.id, steps, "b", to})
			}
			return s.tasks[to]
		}
		// nothing is runnable: jump the clock to the next sleeper
		var first *task
		for _, o := range s.tasks {
			if o.state == sleeping && (first == nil || o.until < first.until) {
				first = o
			}
		}
		if first == nil {
			return nil
		}
		s.clock = first.until
	}
}

//go:norace
func park(t *task) {
	to := cannotContinue(t)
	if to == nil {
		why := ""
		for _, o := range s.tasks {
			if o.state == blocked {
				why += fmt.Sprintf("task %d waits for %s; ", o.id, o.why)
			}
		}
		s.res.Deadlock = why
		s.aborting = true
		t.state = runnable
		panic(Abort{"deadlock: " + why})
	}
	if to == t {
		setLimit(t)
		return
	}
	switchTo(t, to)
}

// Sleep suspends the running task for d of simulated time.
//
//go:norace
func Sleep(d time.Duration) {
	if s == nil {
		return
	}
	t := cur
	sync_()
	t.state = sleeping
	t.until = s.clock + d
	park(t)
}

//go:norace
func Now() time.Time { return time.Unix(1700000000, 0).UTC().Add(Clock()) }

// Block suspends the running task until cond holds.
//
//go:norace
func Block(why string, cond func() bool) {
	if cond() {
		return
	}
	if s == nil || cur == nil {
		panic(Abort{"deadlock: waits for " + why})
	}
	t := cur
	t.state = blocked
	t.cond = cond
	t.why = why
	park(t)
	t.cond = nil
}

// Budget gives the running task n more steps from now on.
//
//go:norace
func Budget(n uint64) {
	if s == nil || cur == nil {
		return
	}
	cur.budget = steps + n
	setLimit(cur)
}

// Yield is an explicit scheduling point of the harness.
//
//go:norace
func Yield() { Y(0) }

// Go starts a task from within the code under test.
//
//go:norace
func Go(f func()) {
	if s == nil {
		f() // no simulation: run it at once
		return
	}
	t := newTask(len(s.tasks), f)
	s.tasks = append(s.tasks, t)
	s.res.TaskEnd = append(s.res.TaskEnd, 0)
	t.out = cur.out
	start(t)
	if s.cfg.Chooser != nil {
		cur.next = steps + s.cfg.Chooser.NextPreempt(cur.id)
	}
	setLimit(cur)
}

//go:norace
func newTask(id int, f func()) *task {
	t := &task{id: id, wake: make(chan struct{}, 1), end: make(chan struct{}, 1), fn: f, budget: s.cfg.Budget,
		reps: map[uint64]Switch{}, repB: map[uint64]Switch{}, next: never}
	if t.budget == 0 {
		t.budget = 50_000_000
	}
	for _, sw := range s.cfg.Switches {
		if sw.T == id {
			if sw.K == "p" {
				t.reps[sw.S] = sw
				t.repAt = append(t.repAt, sw.S)
			} else {
				t.repB[sw.S] = sw
			}
		}
	}
	sort.Slice(t.repAt, func(i, j int) bool { return t.repAt[i] < t.repAt[j] })
	if s.cfg.Chooser != nil {
		t.next = s.cfg.Chooser.NextPreempt(id)
	}
	return t
}

//go:norace
func start(t *task) {
	go func() {
		raceDisable()
		<-t.wake
		raceEnable()
		body(t)
		t.end <- struct{}{}
		finish(t)
	}()
}

//go:norace
func finish(t *task) {
	raceDisable()
	t.state = done
	s.res.TaskEnd[t.id] = steps
	to := (*task)(nil)
	if s.aborting {
		sync_()
		for _, o := range s.tasks {
			if o.state != done {
				to = o
				break
			}
		}
	} else {
		to = cannotContinue(t)
		if to == nil {
			for _, o := range s.tasks {
				if o.state != done { // deadlock among the others
					s.res.Deadlock += fmt.Sprintf("task %d waits for %s; ", o.id, o.why)
					s.aborting = true
					to = o
				}
			}
		}
	}
	if to == nil {
		s.finished <- struct{}{}
	} else {
		resume(to)
	}
	raceEnable()
}

//go:norace
func body(t *task) {
	defer func() {
		r := recover()
		if r != nil {
			if _, ok := r.(Abort); ok {
				return
			}
			panic(r)
		}
	}()
	if s.aborting {
		return
	}
	t.fn()
}

// Run executes the functions as tasks of one simulation.
//
//go:norace
func Run(cfg Config, outs []io.Writer, fns ...func()) Result {
	if s != nil {
		panic("nested simulation")
	}
	s = &sim{cfg: cfg, finished: make(chan struct{}, 1)}
	s.res.Hash = 0x1234567
	hotOn = false
	if cfg.Chooser != nil && len(cfg.Hot) > 0 && len(fns) > 1 {
		hotOn = true
		hot = make([]bool, NumSites+1)
		for _, h := range cfg.Hot {
			if int(h) < len(hot) {
				hot[h] = true
			}
		}
	}
	mapSeed = cfg.MapSeed
	mapCtr = 0
	for i, f := range fns {
		t := newTask(i, f)
		if i < len(outs) {
			t.out = outs[i]
		}
		s.tasks = append(s.tasks, t)
		s.res.TaskEnd = append(s.res.TaskEnd, 0)
	}
	for _, t := range s.tasks {
		start(t)
	}
	// who starts: a switch of the pseudo-task -1
	first := 0
	if cfg.Chooser != nil {
		var r []int
		for i := range s.tasks {
			r = append(r, i)
		}
		first = cfg.Chooser.Pick(-1, r)
		if first < 0 || first >= len(s.tasks) {
			first = 0
		}
		s.res.Switches = append(s.res.Switches, Switch{-1, 0, "b", first})
	} else {
		for _, sw := range cfg.Switches {
			if sw.T == -1 && s.get(sw.To) != nil {
				first = sw.To
			}
		}
	}
	raceDisable()
	resume(s.tasks[first])
	raceEnable()
	<-s.finished
	for _, t := range s.tasks {
		<-t.end
	}
	res := s.res
	for _, e := range res.TaskEnd {
		res.Steps += e
	}
	res.Clock = s.clock
	s, cur, limit, hotOn, steps = nil, nil, never, false, 0
	return res
}

var resets []func()

// OnReset registers how the variables of a package get their initial values.
func OnReset(f func()) { resets = append(resets, f) }

// Reset: what the packages remember is forgotten, as by a new process. Only
// when no task exists.
func Reset() {
	for _, f := range resets {
		f()
	}
}
