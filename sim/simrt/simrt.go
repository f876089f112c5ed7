// Package simrt is the deterministic scheduler of the simulator.
//
// The instrumenter puts a call to Y before every statement of the library under
// test.  Exactly one simulated task holds the token at any time; at a yield
// point the scheduler decides, from the seeded choice list, whether the token
// moves on.  The hand-over uses raw runtime semaphores, which create no
// happens-before edge, so the race detector judges the library's own
// synchronisation only.  All functions touching scheduler state are norace and
// allocate nothing that the race detector could observe.
package simrt

import (
	"context"
	"runtime"
	"runtime/pprof"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"verifsim/rec"
)

const (
	MaxTasks    = 24
	MaxSwitches = 1 << 16
	MaxSites    = 1 << 16
)

func init() {
	// Runs before any library package initialises (they all import simrt).
	if s, ok := syscall.Getenv("SIM_HASHSEED"); ok {
		var v uint64
		for i := 0; i < len(s); i++ {
			v = v*10 + uint64(s[i]-'0')
		}
		runtime.SimSeed(v*0x9e3779b97f4a7c15 + 12345)
	}
}

// SeedHash re-seeds the stream behind map seeds, map iteration and math/rand.
func SeedHash(v uint64) { runtime.SimSeed(v*0x9e3779b97f4a7c15 + 12345) }

type taskState uint8

const (
	stIdle taskState = iota
	stReady
	stBlocked
	stDone
)

type task struct {
	goid  uint64
	sema  uint32
	state taskState
	wait  unsafe.Pointer // object a blocked task waits for
	locks int32          // simulated locks held
	steps uint64
	fn    func()
	pan   any
	kill  bool
	prio  int64
}

// Switch is one recorded scheduling decision.
type Switch = rec.Switch

// Strategy kinds.
const (
	Sequential = iota
	RandomWalk
	PCT
	Replay
)

type Config struct {
	Strategy int
	Seed     uint64
	Mean     int      // RandomWalk: mean budget between switches
	Depth    int      // PCT: number of priority change points
	Horizon  uint64   // PCT: expected number of steps
	MaxSteps uint64   // liveness bound, total over all tasks
	Switches []Switch // Replay
}

type Result struct {
	Steps      uint64
	Switches   []Switch
	SwitchHash uint64
	Deadlock   bool
	Stalled    bool // a task blocked in real synchronisation: schedule not fully controlled
	StepBound  bool
	Panics     []any // per task, nil if none
	Preempts   int
}

var (
	active   bool
	tasks    [MaxTasks]task
	ntasks   int32
	cur      int32
	step     uint64
	budget   int64
	maxSteps uint64

	cfgStrategy int
	cfgMean     int
	rngState    uint64

	switches  [MaxSwitches]Switch
	nswitches int
	preempts  int
	hash      uint64

	replay    []Switch
	replayPos int

	pctPoints [64]uint64
	npct      int
	pctPos    int
	pctLow    int64

	deadlock  bool
	stalled   bool
	stepBound bool
	aborting  bool

	ctrlSema uint32

	siteHits [MaxSites]uint32

	serialSteps uint64
	serialMax   uint64

	progress uint64 // bumped at every yield; read by the watchdog
	live     int32
)

// Abort is the panic value used to unwind tasks of an aborted episode.
type Abort struct{ Why string }

//go:norace
func rnd() uint64 {
	rngState += 0x9e3779b97f4a7c15
	z := rngState
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func newBudget() int64 {
	switch cfgStrategy {
	case RandomWalk:
		if cfgMean <= 1 {
			return 0
		}
		// Approximately geometric: uniform mixture over scales gives heavier tails.
		return int64(rnd() % uint64(2*cfgMean))
	}
	return 1 << 62
}

//go:norace
func isTask() bool {
	return active && tasks[cur].goid == runtime.SimGoid()
}

// InTask says whether the caller is the running simulated task.
//
//go:norace
func InTask() bool { return isTask() }

// TaskID returns the running task, -1 outside tasks.
//
//go:norace
func TaskID() int {
	if isTask() {
		return int(cur)
	}
	return -1
}

// Y is the yield point.
//
//go:norace
func Y(site uint32) {
	if !active {
		serialSteps++
		if site < MaxSites {
			siteHits[site]++
		}
		if serialMax != 0 && serialSteps > serialMax {
			serialMax = 0
			panic(Abort{"step bound exceeded outside tasks"})
		}
		return
	}
	if tasks[cur].goid != runtime.SimGoid() {
		return
	}
	if site < MaxSites {
		siteHits[site]++
	}
	tick(false)
}

//go:norace
func tick(forced bool) {
	step++
	progress++
	t := &tasks[cur]
	t.steps++
	if aborting {
		panic(Abort{"aborted"})
	}
	if step > maxSteps {
		stepBound = true
		aborting = true
		panic(Abort{"step bound exceeded"})
	}
	switch cfgStrategy {
	case RandomWalk:
		if forced {
			if rnd()&1 == 0 {
				budget = 0
			}
		}
		if budget > 0 {
			budget--
			return
		}
		budget = newBudget()
		n := pickRandom()
		if n >= 0 && n != cur {
			switchTo(n, true)
		}
	case PCT:
		if pctPos < npct && step >= pctPoints[pctPos] {
			pctPos++
			pctLow--
			t.prio = pctLow
		}
		n := pickPrio()
		if n >= 0 && n != cur {
			switchTo(n, true)
		}
	case Replay:
		for replayPos < len(replay) && replay[replayPos].Step < step {
			replayPos++
		}
		if replayPos < len(replay) && replay[replayPos].Step == step {
			n := replay[replayPos].Task
			replayPos++
			if n >= 0 && n < ntasks && n != cur && tasks[n].state == stReady {
				switchTo(n, true)
			}
		}
	}
}

// Point is an explicit, likely-interesting scheduling point (lock operations,
// reads of simulated files, callbacks).
//
//go:norace
func Point() {
	if !isTask() {
		if !active {
			serialSteps++
			if serialMax != 0 && serialSteps > serialMax {
				serialMax = 0
				panic(Abort{"step bound exceeded outside tasks"})
			}
		}
		return
	}
	tick(true)
}

//go:norace
func pickRandom() int32 {
	n := int32(0)
	var c [MaxTasks]int32
	for i := int32(0); i < ntasks; i++ {
		if tasks[i].state == stReady {
			c[n] = i
			n++
		}
	}
	if n == 0 {
		return -1
	}
	return c[rnd()%uint64(n)]
}

//go:norace
func pickPrio() int32 {
	best := int32(-1)
	for i := int32(0); i < ntasks; i++ {
		if tasks[i].state == stReady && (best < 0 || tasks[i].prio > tasks[best].prio) {
			best = i
		}
	}
	return best
}

//go:norace
func pickForced() int32 {
	switch cfgStrategy {
	case RandomWalk:
		return pickRandom()
	case PCT:
		return pickPrio()
	case Replay:
		for replayPos < len(replay) && replay[replayPos].Step < step {
			replayPos++
		}
		if replayPos < len(replay) && replay[replayPos].Step == step {
			n := replay[replayPos].Task
			replayPos++
			if n >= 0 && n < ntasks && tasks[n].state == stReady {
				return n
			}
		}
	}
	for i := int32(0); i < ntasks; i++ {
		if tasks[i].state == stReady {
			return i
		}
	}
	return -1
}

//go:norace
func record(n int32) {
	if nswitches < MaxSwitches {
		switches[nswitches] = Switch{step, n}
	}
	nswitches++
	hash = (hash ^ (step<<5 | uint64(n))) * 0x100000001b3
}

//go:norace
func switchTo(n int32, preempt bool) {
	me := cur
	record(n)
	if preempt {
		preempts++
	}
	cur = n
	runtime.SimRelease(&tasks[n].sema)
	runtime.SimAcquire(&tasks[me].sema)
	if aborting {
		panic(Abort{"aborted"})
	}
}

// Block parks the running task until Wake(obj) is called by another task.
// It returns false if the caller is not a simulated task.
//
//go:norace
func Block(obj unsafe.Pointer) bool {
	if !isTask() {
		return false
	}
	if aborting {
		panic(Abort{"aborted"})
	}
	step++
	progress++
	me := cur
	tasks[me].state = stBlocked
	tasks[me].wait = obj
	n := pickForced()
	if n < 0 {
		// Every live task is blocked: deadlock.  Unwind them all.
		deadlock = true
		aborting = true
		tasks[me].state = stReady
		panic(Abort{"deadlock"})
	}
	budget = newBudget()
	switchTo(n, false)
	return true
}

// Wake makes every task blocked on obj runnable.
//
//go:norace
func Wake(obj unsafe.Pointer) {
	if !active {
		return
	}
	for i := int32(0); i < ntasks; i++ {
		if tasks[i].state == stBlocked && tasks[i].wait == obj {
			tasks[i].state = stReady
			tasks[i].wait = nil
		}
	}
}

// LockCount adjusts the number of simulated locks the running task holds.
//
//go:norace
func LockCount(d int32) {
	if isTask() {
		tasks[cur].locks += d
	}
}

// Holding says whether the running task holds simulated locks.
//
//go:norace
func Holding() bool { return isTask() && tasks[cur].locks > 0 }

// SerialDeadlock is called when an operation outside tasks would block forever.
//
//go:norace
func SerialDeadlock() { panic(Abort{"deadlock outside tasks"}) }

//go:norace
func finish() {
	tasks[cur].state = stDone
	live--
	if live == 0 {
		active = false
		return
	}
	step++
	var n int32
	if aborting {
		n = -1
		for i := int32(0); i < ntasks; i++ {
			if tasks[i].state != stDone {
				tasks[i].state = stReady
				n = i
				break
			}
		}
	} else {
		n = pickForced()
	}
	if n < 0 {
		// the remaining tasks are all blocked
		deadlock = true
		aborting = true
		for i := int32(0); i < ntasks; i++ {
			if tasks[i].state == stBlocked {
				tasks[i].state = stReady
				n = i
				break
			}
		}
	}
	record(n)
	budget = newBudget()
	cur = n
	runtime.SimRelease(&tasks[n].sema)
}

//go:norace
func enter(i int32) {
	tasks[i].goid = runtime.SimGoid()
	runtime.SimAcquire(&tasks[i].sema)
}

//go:norace
func notePanic(i int32, r any) { tasks[i].pan = r }

//go:norace
func isAborting() bool { return aborting }

var labelCtx = pprof.WithLabels(context.Background(), pprof.Labels("sim", "task"))

func runTask(i int32, fn func(), wg *sync.WaitGroup) {
	pprof.SetGoroutineLabels(labelCtx)
	defer wg.Done()
	enter(i)
	defer finish()
	defer func() {
		if r := recover(); r != nil {
			notePanic(i, r)
		}
	}()
	if isAborting() {
		panic(Abort{"aborted"})
	}
	fn()
}

//go:norace
func setup(cfg Config, n int) {
	cfgStrategy = cfg.Strategy
	cfgMean = cfg.Mean
	rngState = cfg.Seed
	maxSteps = cfg.MaxSteps
	if maxSteps == 0 {
		maxSteps = 50_000_000
	}
	replay = cfg.Switches
	replayPos = 0
	step, nswitches, preempts, hash = 0, 0, 0, 0xcbf29ce484222325
	deadlock, stalled, stepBound, aborting = false, false, false, false
	ntasks = int32(n)
	live = int32(n)
	npct, pctPos, pctLow = 0, 0, 0
	for i := 0; i < n; i++ {
		tasks[i] = task{state: stReady}
		tasks[i].prio = int64(rnd()>>2) + 1
	}
	if cfg.Strategy == PCT {
		h := cfg.Horizon
		if h == 0 {
			h = 10000
		}
		for i := 0; i < cfg.Depth && i < len(pctPoints); i++ {
			pctPoints[i] = rnd()%h + 1
			npct++
		}
		for i := 1; i < npct; i++ {
			for j := i; j > 0 && pctPoints[j] < pctPoints[j-1]; j-- {
				pctPoints[j], pctPoints[j-1] = pctPoints[j-1], pctPoints[j]
			}
		}
	}
	budget = newBudget()
}

//go:norace
func start() {
	n := pickForced()
	record(n)
	cur = n
	active = true
	runtime.SimRelease(&tasks[n].sema)
}

//go:norace
func registered(n int) bool {
	for i := 0; i < n; i++ {
		if tasks[i].goid == 0 {
			return false
		}
	}
	return true
}

// Run executes the tasks under the scheduler and returns when all are done.
func Run(cfg Config, fns []func()) Result {
	if len(fns) > MaxTasks {
		panic("simrt: too many tasks")
	}
	setup(cfg, len(fns))
	var wg sync.WaitGroup
	wg.Add(len(fns))
	episodeWG = &wg
	for i, f := range fns {
		go runTask(int32(i), f, &wg)
	}
	for !registered(len(fns)) {
		runtime.Gosched()
	}
	start()
	wg.Wait()
	return collect()
}

//go:norace
func collect() Result {
	active = false
	r := Result{Steps: step, SwitchHash: hash, Deadlock: deadlock, Stalled: stalled, StepBound: stepBound, Preempts: preempts}
	n := nswitches
	if n > MaxSwitches {
		n = MaxSwitches
	}
	r.Switches = make([]Switch, n)
	copy(r.Switches, switches[:n])
	r.Panics = make([]any, ntasks)
	for i := int32(0); i < ntasks; i++ {
		r.Panics[i] = tasks[i].pan
	}
	return r
}

var (
	episodeWG *sync.WaitGroup
	spawned   int32 // goroutines the library started outside episodes
)

//go:norace
func newTask() int32 {
	i := ntasks
	if i >= MaxTasks {
		return -1
	}
	tasks[i] = task{state: stReady, prio: int64(rnd()>>2) + 1}
	ntasks++
	live++
	return i
}

// GoCall is what `go f()` becomes in instrumented code: inside an episode the
// new goroutine is one more simulated task.
func GoCall(f func()) {
	if !isTask() {
		addSpawned(1)
		go func() {
			defer addSpawned(-1)
			f()
		}()
		return
	}
	i := newTask()
	if i < 0 {
		panic("simrt: too many tasks")
	}
	episodeWG.Add(1)
	go runTask(i, f, episodeWG)
	Point()
}

var spawnMu sync.Mutex

func addSpawned(d int32) {
	spawnMu.Lock()
	spawned += d
	spawnMu.Unlock()
}

// SerialWait is called in a loop by operations that must wait while running
// outside tasks; it panics if nobody could ever wake the caller.
func SerialWait(spins int) {
	spawnMu.Lock()
	n := spawned
	spawnMu.Unlock()
	if n == 0 && spins > 0 {
		SerialDeadlock()
	}
	if spins > 200 {
		time.Sleep(time.Millisecond)
	}
	if spins > 20000 {
		SerialDeadlock()
	}
	runtime.Gosched()
}

// Progress returns a counter that moves whenever simulated code moves.
//
//go:norace
func Progress() uint64 { return progress + serialSteps }

// Active says whether an episode is running.
//
//go:norace
func Active() bool { return active }

// ResetSerial starts a new serial section with the given step bound.
//
//go:norace
func ResetSerial(max uint64) { serialSteps = 0; serialMax = max }

// SerialSteps returns steps executed outside tasks since ResetSerial.
//
//go:norace
func SerialSteps() uint64 { return serialSteps }

// SiteHits copies the per-site counters.
//
//go:norace
func SiteHits() []uint32 {
	out := make([]uint32, MaxSites)
	copy(out, siteHits[:])
	return out
}
