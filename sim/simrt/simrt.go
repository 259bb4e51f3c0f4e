// Package simrt is the simulator kernel: it owns which task runs, the simulated clock, the step
// budget and the decisions, all derived from one seed.
//
// Tasks are real goroutines of which exactly one runs at any time; the others are parked on their own
// channel. Instrumented code calls Y at every statement; the kernel decides there, from the seeded
// decision stream, whether another task continues. Nothing here reads a real clock or real randomness.
package simrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sync"
)

// Decision is one scheduling choice: at a switch, continue with runnable task number Pick (modulo the number of
// candidates) and let it run for N yield points before the next voluntary switch.
type Decision struct {
	N    int32 `json:"n"`
	Pick int32 `json:"p"`
}

const (
	noPreempt  = int32(1<<31 - 1)
	maxRecord  = 1 << 14
	maxTasks   = 1 << 14
	yieldNanos = 10
)

const (
	stRunnable = iota
	stSleeping
	stPolling
	stDone
)

// Task is one simulated thread.
type Task struct {
	id    int
	wake  chan struct{}
	state int
	until int64
	unw   bool // unwinding: yields are ignored
	fn    func()
	Panic *PanicInfo
	Ended bool // fn returned normally
}

// PanicInfo describes a panic that escaped a task.
type PanicInfo struct {
	Value string
	Stack string
}

// Config of one run.
type Config struct {
	Seed     uint64
	Mean     int32      // mean yield points between voluntary switches; 0: never
	Replay   []Decision // if HasReplay
	Has      bool
	StepCap  int64
	AllocCap int64
}

// Result of one run.
type Result struct {
	Steps      int64
	Switches   int
	Preempts   int
	Now        int64
	Hash       uint64
	SchedHash  uint64
	Abort      string
	Decisions  []Decision
	Tasks      []*Task
	PollAborts int
}

// Sites is the number of instrumented yield points (set by the instrumented build).
const maxSites = 1 << 15

var (
	siteSeen   [maxSites]bool
	siteSwitch [maxSites]bool
)

var (
	active    bool
	freeRun   bool
	steps     int64
	stepCap   int64
	allocCap  int64
	left      int32
	cur       *Task
	tasks     [maxTasks]*Task
	nTasks    int
	nFirst    int // tasks given to Run; the others were started by the code under test
	nIDs      int
	compactAt int
	now       int64
	lastStep  int64
	rng       uint64
	mean      int32
	rec       [maxRecord]Decision
	nRec      int
	nDec      int
	replay    []Decision
	hasRep    bool
	aborted   bool
	abortMsg  string
	hash      uint64
	shash     uint64
	switches  int
	preempts  int
	pollRuns  int
	mainWake  chan struct{}
	wg        sync.WaitGroup
	progress  int64 // for the watchdog
)

//go:norace
func rnd() uint64 {
	rng += 0x9e3779b97f4a7c15
	z := rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Y is a yield point.
//
//go:norace
func Y(site int32) {
	if !active {
		return
	}
	steps++
	siteSeen[site] = true
	left--
	if left > 0 && steps < stepCap {
		return
	}
	slowY(site)
}

//go:norace
func slowY(site int32) {
	if cur.unw {
		left = noPreempt
		return
	}
	if aborted {
		unwind()
	}
	if steps >= stepCap {
		abort(fmt.Sprintf("step budget of %d exceeded", stepCap))
	}
	if left > 0 {
		return
	}
	preempts++
	siteSwitch[site] = true
	mix(uint64(site) + 1)
	doSwitch()
}

//go:norace
func mix(v uint64) { hash = (hash ^ v) * 0x100000001b3 }

//go:norace
func smix(v uint64) { shash = (shash ^ v) * 0x100000001b3 }

//go:norace
func abort(msg string) {
	if !aborted {
		aborted = true
		abortMsg = msg
	}
	unwind()
}

//go:norace
func unwind() {
	cur.unw = true
	left = noPreempt
	runtime.Goexit()
}

// Abort ends the run from a task, e.g. when a budget other than steps is exceeded.
func Abort(msg string) {
	if active && !cur.unw {
		abort(msg)
	}
}

//go:norace
func nextDecision() Decision {
	var d Decision
	if hasRep {
		if nDec < len(replay) {
			d = replay[nDec]
		} else {
			d = Decision{noPreempt, 0}
		}
		nDec++
		return d
	}
	if nRec >= maxRecord {
		return Decision{noPreempt, 0}
	}
	d.N = noPreempt
	if mean > 0 {
		// geometric-like lengths spread over two orders of magnitude
		r := rnd()
		switch r & 7 {
		case 0:
			d.N = 1 + int32(rnd()%3)
		case 1:
			d.N = 1 + int32(rnd()%uint64(mean*8))
		default:
			d.N = 1 + int32(rnd()%uint64(mean*2))
		}
	}
	d.Pick = int32(rnd() % 64)
	rec[nRec] = d
	nRec++
	return d
}

// pick selects the next task to run; nil when all are done.
//
//go:norace
func pick(p int32) *Task {
	for {
		n, polling, sleeping := 0, 0, 0
		var minUntil int64
		for i := 0; i < nTasks; i++ {
			switch tasks[i].state {
			case stRunnable:
				n++
			case stSleeping:
				if tasks[i].until <= now || aborted {
					tasks[i].state = stRunnable
					n++
				} else {
					if sleeping == 0 || tasks[i].until < minUntil {
						minUntil = tasks[i].until
					}
					sleeping++
				}
			case stPolling:
				polling++
			}
		}
		if n == 0 {
			if sleeping > 0 {
				now = minUntil
				continue
			}
			if polling > 0 {
				pollRuns++
				if pollRuns > 64*nTasks && !aborted {
					aborted = true
					abortMsg = "deadlock: every unfinished task is blocked"
				}
				for i := 0; i < nTasks; i++ {
					if tasks[i].state == stPolling {
						tasks[i].state = stRunnable
					}
				}
				continue
			}
			return nil
		}
		k := int(p) % n
		for i := 0; i < nTasks; i++ {
			if tasks[i].state == stRunnable {
				if k == 0 {
					return tasks[i]
				}
				k--
			}
		}
	}
}

//go:norace
func advance() {
	now += (steps - lastStep) * yieldNanos
	lastStep = steps
	progress++
}

//go:norace
func doSwitch() {
	advance()
	d := nextDecision()
	self := cur
	next := pick(d.Pick)
	left = d.N
	switches++
	smix(uint64(next.id)<<32 | uint64(uint32(steps)))
	mix(uint64(next.id)<<40 | uint64(steps))
	if next != self {
		cur = next
		raceHide()
		next.wake <- struct{}{}
		<-self.wake
		raceUnhide()
	}
	if aborted && !self.unw {
		unwind()
	}
}

//go:norace
func finish(t *Task) {
	advance()
	t.state = stDone
	d := nextDecision()
	next := pick(d.Pick)
	switches++
	if next == nil {
		cur = nil
		raceHide()
		mainWake <- struct{}{}
		raceUnhide()
		return
	}
	smix(uint64(next.id)<<32 | uint64(uint32(steps)))
	mix(uint64(next.id)<<40 | uint64(steps))
	left = d.N
	cur = next
	raceHide()
	next.wake <- struct{}{}
	raceUnhide()
}

// Yield forces a scheduling decision in harness code.
//
//go:norace
func Yield() {
	if !active || cur.unw {
		return
	}
	steps++
	if aborted {
		unwind()
	}
	if steps >= stepCap {
		abort(fmt.Sprintf("step budget of %d exceeded", stepCap))
	}
	doSwitch()
}

// Sleep parks the task for d simulated nanoseconds.
//
//go:norace
func Sleep(d int64) {
	if !active || cur.unw {
		return
	}
	steps++
	if steps >= stepCap {
		abort(fmt.Sprintf("step budget of %d exceeded", stepCap))
	}
	advance()
	cur.state = stSleeping
	cur.until = now + d
	doSwitch()
}

// Poll parks the task until another task made progress; the caller retries its operation.
//
//go:norace
func Poll() {
	if !active {
		runtime.Gosched()
		return
	}
	if cur.unw {
		return
	}
	steps++
	cur.state = stPolling
	doSwitch()
}

// Unpoll tells the kernel that polled conditions may have changed.
//
//go:norace
func Unpoll() {
	if !active {
		return
	}
	pollRuns = 0
	for i := 0; i < nTasks; i++ {
		if tasks[i].state == stPolling {
			tasks[i].state = stRunnable
		}
	}
}

// Active tells whether a simulation is running.
//
//go:norace
func Active() bool { return active }

// Now is the simulated time in nanoseconds.
//
//go:norace
func Now() int64 { return now }

// Rand draws from the kernel's stream (for shims that need a coin, e.g. pools).
//
//go:norace
func Rand() uint64 {
	if !active {
		return 0
	}
	return rnd()
}

// N checks a dynamic allocation size against the allocation budget.
func N(n interface{}) int {
	var v int64
	switch x := n.(type) {
	case int:
		v = int64(x)
	case int64:
		v = x
	case int32:
		v = int64(x)
	case int16:
		v = int64(x)
	case int8:
		v = int64(x)
	case uint:
		v = int64(x)
	case uint64:
		v = int64(x)
	case uint32:
		v = int64(x)
	case uint16:
		v = int64(x)
	case uint8:
		v = int64(x)
	default:
		panic("simrt.N: unexpected size type")
	}
	if active && !cur.unw && v > allocCap {
		abort(fmt.Sprintf("allocation of %d elements exceeds the budget of %d", v, allocCap))
	}
	return int(v)
}

// compact drops ended tasks that the code under test started, keeping the order of the others.
//
//go:norace
func compact() {
	n := 0
	for i := 0; i < nTasks; i++ {
		t := tasks[i]
		if i >= nFirst && t.state == stDone && t.Panic == nil {
			continue
		}
		tasks[n] = t
		n++
	}
	for i := n; i < nTasks; i++ {
		tasks[i] = nil
	}
	nTasks = n
	compactAt = 2*n + 64
	if compactAt > maxTasks {
		compactAt = maxTasks
	}
}

//go:norace
func addTask(fn func()) *Task {
	if nTasks >= compactAt {
		compact()
	}
	if nTasks >= maxTasks {
		abort("more than 16384 unfinished tasks")
	}
	t := &Task{id: nIDs, wake: make(chan struct{}, 1), fn: fn}
	nIDs++
	tasks[nTasks] = t
	nTasks++
	wg.Add(1)
	go t.run()
	return t
}

//go:norace
func (t *Task) park() {
	raceHide()
	<-t.wake
	raceUnhide()
}

func (t *Task) run() {
	defer wg.Done()
	t.park()
	defer finish(t)
	defer t.done()
	if aborting() {
		return
	}
	t.fn()
	t.Ended = true
}

//go:norace
func aborting() bool { return aborted }

func (t *Task) done() {
	if t.Ended {
		return
	}
	if r := recover(); r != nil {
		st := debug.Stack()
		t.Panic = &PanicInfo{fmt.Sprint(r), string(st)}
	}
	t.setUnwinding()
}

//go:norace
func (t *Task) setUnwinding() { t.unw = true }

// Spawn adds a task to the running simulation; used for goroutines started by the code under test.
func Spawn(fn func()) {
	if !active {
		go fn()
		return
	}
	addTask(fn)
}

// Run executes the tasks to completion under cfg.
func Run(cfg Config, fns ...func()) *Result {
	begin(cfg)
	for _, f := range fns {
		addTask(f)
	}
	first()
	start()
	wg.Wait()
	return end()
}

//go:norace
func first() { nFirst, compactAt = nTasks, nTasks+64 }

//go:norace
func begin(cfg Config) {
	if active {
		panic("simrt: nested run")
	}
	steps, lastStep, now, nTasks, nRec, nDec = 0, 0, 0, 0, 0, 0
	stepCap = cfg.StepCap
	if stepCap == 0 {
		stepCap = 1 << 40
	}
	allocCap = cfg.AllocCap
	if allocCap == 0 {
		allocCap = 1 << 40
	}
	rng = cfg.Seed
	mean = cfg.Mean
	replay, hasRep = cfg.Replay, cfg.Has
	aborted, abortMsg = false, ""
	hash, shash = 0xcbf29ce484222325, 0xcbf29ce484222325
	switches, preempts, pollRuns = 0, 0, 0
	nFirst, nIDs, compactAt = 0, 0, maxTasks
	mainWake = make(chan struct{}, 1)
}

//go:norace
func start() {
	d := nextDecision()
	t := pick(d.Pick)
	if t == nil {
		return
	}
	left = d.N
	cur = t
	active = true
	raceHide()
	t.wake <- struct{}{}
	<-mainWake
	raceUnhide()
	active = false
}

//go:norace
func end() *Result {
	r := &Result{Steps: steps, Switches: switches, Preempts: preempts, Now: now, Hash: hash ^ uint64(steps)*0x9e3779b97f4a7c15, SchedHash: shash, Abort: abortMsg}
	if hasRep {
		r.Decisions = replay
	} else {
		r.Decisions = make([]Decision, nRec)
		for i := range r.Decisions {
			r.Decisions[i] = rec[i]
		}
	}
	r.Tasks = make([]*Task, nTasks)
	for i := range r.Tasks {
		r.Tasks[i] = tasks[i]
		tasks[i] = nil
	}
	return r
}

// Progress is read by the real-time watchdog only.
//
//go:norace
func Progress() int64 { return progress + steps>>10 }

// Coverage lists the yield sites reached, and those at which a task was preempted.
func Coverage() (seen, switched []int) {
	for i := range siteSeen {
		if siteSeen[i] {
			seen = append(seen, i)
		}
		if siteSwitch[i] {
			switched = append(switched, i)
		}
	}
	return
}
