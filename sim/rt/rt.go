// Package rt is the simulator's runtime. The instrumented copy of the code
// under test calls it before every statement; it decides, from one seed, which
// simulated task runs next, and in which order maps are iterated.
//
// Exactly one task runs at any moment. Hand-over between tasks is hidden from
// the race detector (RaceDisable), so that a race report is about the
// synchronisation of the code under test and never about the simulator's own.
// For the same reason everything here that touches shared simulator state is
// marked go:norace and uses only preallocated memory.
package rt

import (
	"sync"
)

// MaxTasks bounds the number of tasks (clients plus goroutines they start).
const MaxTasks = 64

// task states
const (
	sNone = iota
	sReady
	sBlocked // waits for a lock, channel, wait group ... (key)
	sStalled // waits inside a simulated device that is stalled
	sDone
)

type task struct {
	ch    chan struct{}
	state uint8
	key   uintptr
	site  uint32
	prio  uint64
	pan   any
	stack []byte
	inv   uint64 // step of last Mark
}

// Switch is one recorded preemption: at global step At the simulator handed
// control to task To.
type Switch struct {
	At uint64 `json:"at"`
	To int    `json:"to"`
}

// Sched says how a run is scheduled.
type Sched struct {
	Kind   string   `json:"kind"` // "seq", "gap", "pct", "hot", "replay"
	Seed   uint64   `json:"seed"`
	Gap    int      `json:"gap,omitempty"`   // mean steps between decisions (gap, hot)
	Depth  int      `json:"depth,omitempty"` // pct change points
	Est    int      `json:"est,omitempty"`   // pct estimate of the length
	Mod    int      `json:"mod,omitempty"`   // hot: one site in Mod is hot
	Budget uint64   `json:"budget"`          // steps after which the run is not terminating
	Trace  []Switch `json:"trace,omitempty"`
}

// Outcome of one Run.
type Outcome struct {
	Steps       uint64
	Switches    int // decisions that changed the running task
	Preempt     int // of these, those that took a runnable task off
	Hash        uint64
	Deadlock    bool
	OverBudget  bool
	StallBlocks int // tasks that were blocked while only stalled tasks remained
	StallMask   uint64
	Stalls      int
	Panics      [MaxTasks]any
	Stacks      [MaxTasks]string
	Done        [MaxTasks]bool
	Tasks       int
	Trace       []Switch
	BlockedAt   []uint32
}

const maxTrace = 1 << 20

var (
	on     bool // a run is active
	tasks  [MaxTasks]task
	nTasks int
	nMain  int
	cur    int
	step   uint64
	next   uint64
	budget uint64
	over   bool
	kind   int
	rng    uint64
	gap    uint64
	mod    uint64
	salt   uint64
	hash   uint64
	nsw    int
	npre   int
	nstall int
	stallB int
	stallM uint64
	dead   bool

	trace  []Switch // preallocated
	nTrace int
	replay []Switch
	iRep   int

	ctlCh = make(chan struct{}, 1)
	endWG *sync.WaitGroup

	// SiteHits counts executions per instrumented site over the process.
	SiteHits [1 << 16]uint32
	// TotalSteps counts steps over the process.
	TotalSteps uint64

	// TraceHook, if set, is called with every switch as it happens (used to
	// keep the schedule of a run that ends with the process).
	TraceHook func(Switch)
)

const (
	kSeq = iota
	kGap
	kPct
	kHot
	kReplay
)

func init() { trace = make([]Switch, maxTrace) }

// OverBudget is the panic value that unwinds a task which exceeded the budget.
type OverBudget struct{ Site uint32 }

//go:norace
func rnd() uint64 {
	rng += 0x9e3779b97f4a7c15
	z := rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func mix(a uint64) uint64 {
	a = (a ^ (a >> 30)) * 0xbf58476d1ce4e5b9
	a = (a ^ (a >> 27)) * 0x94d049bb133111eb
	return a ^ (a >> 31)
}

//go:norace
func drawGap() uint64 {
	// geometric-like: uniform in [1, 2*gap]
	return 1 + rnd()%(2*gap)
}

// Y is the yield point the instrumenter puts before every statement.
//
//go:norace
func Y(site uint32) {
	if on {
		y(site)
	}
}

//go:norace
func y(site uint32) {
	step++
	SiteHits[site&0xffff]++
	tasks[cur].site = site
	if step >= budget {
		if !over {
			over = true
			panic(OverBudget{site})
		}
		if step < budget+100000 {
			return
		}
		budget = step + 1000
		panic(OverBudget{site})
	}
	switch kind {
	case kHot:
		if mix(uint64(site)^salt)%mod != 0 {
			return
		}
		if rnd()%gap != 0 {
			return
		}
	default:
		if step < next {
			return
		}
	}
	decide()
}

// decide is called by the running task at a decision point.
//
//go:norace
func decide() {
	me := cur
	to := me
	switch kind {
	case kSeq:
		next = ^uint64(0)
		return
	case kGap:
		next = step + drawGap()
		to = pick()
	case kHot:
		to = pick()
	case kPct:
		// change point: lower the priority of the running task
		tasks[me].prio = rnd() % 1000
		nextPct()
		to = pickPrio()
	case kReplay:
		for iRep < len(replay) && replay[iRep].At <= step {
			t := replay[iRep].To
			iRep++
			if t >= 0 && t < nTasks && tasks[t].state == sReady {
				to = t
			}
		}
		setNextReplay()
	}
	if to == me {
		return
	}
	npre++
	handTo(me, to)
}

var pctPoints [64]uint64
var nPct, iPct int

//go:norace
func nextPct() {
	iPct++
	for iPct < nPct && pctPoints[iPct] <= step {
		iPct++
	}
	if iPct < nPct {
		next = pctPoints[iPct]
	} else {
		next = ^uint64(0)
	}
}

//go:norace
func setNextReplay() {
	if iRep < len(replay) {
		next = replay[iRep].At
	} else {
		next = ^uint64(0)
	}
}

//go:norace
func pick() int {
	n := 0
	for i := 0; i < nTasks; i++ {
		if tasks[i].state == sReady {
			n++
		}
	}
	if n == 0 {
		return -1
	}
	k := int(rnd() % uint64(n))
	for i := 0; i < nTasks; i++ {
		if tasks[i].state == sReady {
			if k == 0 {
				return i
			}
			k--
		}
	}
	return -1
}

//go:norace
func pickPrio() int {
	b := -1
	for i := 0; i < nTasks; i++ {
		if tasks[i].state == sReady && (b < 0 || tasks[i].prio > tasks[b].prio) {
			b = i
		}
	}
	return b
}

// pickForced chooses the next task when the running one cannot go on.
//
//go:norace
func pickForced() int {
	switch kind {
	case kGap, kHot:
		return pick()
	case kPct:
		return pickPrio()
	case kReplay:
		// a recorded entry at this very step wins; otherwise lowest id
		to := -1
		for iRep < len(replay) && replay[iRep].At <= step {
			t := replay[iRep].To
			iRep++
			if t >= 0 && t < nTasks && tasks[t].state == sReady {
				to = t
			}
		}
		setNextReplay()
		if to >= 0 {
			return to
		}
	}
	for i := 0; i < nTasks; i++ {
		if tasks[i].state == sReady {
			return i
		}
	}
	return -1
}

//go:norace
func note(to int) {
	nsw++
	hash = mix(hash ^ (uint64(tasks[cur].site)<<8 | uint64(to)) + 0x9e37)
	if nTrace < maxTrace {
		trace[nTrace].At = step
		trace[nTrace].To = to
		nTrace++
	}
	if TraceHook != nil {
		raceOff()
		TraceHook(Switch{step, to})
		raceOn()
	}
}

//go:norace
func handTo(me, to int) {
	note(to)
	cur = to
	raceOff()
	tasks[to].ch <- struct{}{}
	<-tasks[me].ch
	raceOn()
}

// forced gives control away because the current task cannot proceed; it
// returns when the task has been made ready and picked again.
//
//go:norace
func forced(me int) {
	to := pickOrRelease()
	if to == me {
		return
	}
	if to < 0 {
		// deadlock: nobody can run; report and park forever
		dead = true
		raceOff()
		ctlCh <- struct{}{}
		<-tasks[me].ch // never
		raceOn()
		return
	}
	handTo(me, to)
}

// pickOrRelease picks a ready task; when there is none it releases one stalled
// task (noting which tasks were waiting for it).
//
//go:norace
func pickOrRelease() int {
	to := pickForced()
	if to >= 0 {
		return to
	}
	st := -1
	for i := 0; i < nTasks; i++ {
		if tasks[i].state == sStalled {
			st = i
			break
		}
	}
	if st < 0 {
		return -1
	}
	for i := 0; i < nTasks; i++ {
		if tasks[i].state == sBlocked {
			stallB++
			stallM |= 1 << uint(i)
		}
	}
	tasks[st].state = sReady
	return pickForced()
}

// InTask reports whether a simulated task is running.
//
//go:norace
func InTask() bool { return on }

// Cur is the running task's number.
//
//go:norace
func Cur() int { return cur }

// Step is the global event sequence number; it advances by one.
//
//go:norace
func Step() uint64 { step++; return step }

// Block parks the running task until Wake(key).
//
//go:norace
func Block(key uintptr) {
	if !on {
		panic("rt: blocking outside a run")
	}
	if over {
		panic(OverBudget{tasks[cur].site})
	}
	step++
	me := cur
	tasks[me].state = sBlocked
	tasks[me].key = key
	forced(me)
}

// Wake makes the tasks blocked on key ready.
//
//go:norace
func Wake(key uintptr) {
	for i := 0; i < nTasks; i++ {
		if tasks[i].state == sBlocked && tasks[i].key == key {
			tasks[i].state = sReady
			tasks[i].key = 0
		}
	}
}

// WakeTask makes one blocked task ready.
//
//go:norace
func WakeTask(t int) {
	if tasks[t].state == sBlocked {
		tasks[t].state = sReady
		tasks[t].key = 0
	}
}

// Stall parks the running task until nothing else can make progress.
//
//go:norace
func Stall() {
	if !on {
		return
	}
	step++
	nstall++
	me := cur
	tasks[me].state = sStalled
	forced(me)
}

// Yield is a plain decision point outside instrumented code.
//
//go:norace
func Yield() {
	if on {
		y(0)
	}
}

// Rand draws a seeded value for in-run choices of the shims (pools, selects).
//
//go:norace
func Rand() uint64 {
	shimRng += 0x9e3779b97f4a7c15
	return mix(shimRng)
}

var shimRng uint64

//go:norace
func finish(me int) {
	tasks[me].state = sDone
	if allDone() {
		raceOff()
		ctlCh <- struct{}{}
		raceOn()
		return
	}
	step++
	to := pickOrRelease()
	if to < 0 {
		dead = true
		raceOff()
		ctlCh <- struct{}{}
		raceOn()
		return
	}
	note(to)
	cur = to
	raceOff()
	tasks[to].ch <- struct{}{}
	raceOn()
}

// allDone: the run ends when the client tasks have ended; goroutines started
// by the code under test that are still ready are run to their end first, and
// those blocked for good are abandoned.
//
//go:norace
func allDone() bool {
	for i := 0; i < nTasks; i++ {
		if i < nMain && tasks[i].state != sDone {
			return false
		}
		if tasks[i].state == sReady || tasks[i].state == sStalled {
			return false
		}
	}
	return true
}

// startTask launches the goroutine of task id. The go statement gives the
// race detector the parent-to-child edge real code has.
func startTask(id int, f func(), wg *sync.WaitGroup) {
	t := &tasks[id]
	go func() {
		defer endTask(id, wg)
		waitTurn(t)
		f()
	}()
}

//go:norace
func waitTurn(t *task) {
	raceOff()
	<-t.ch
	raceOn()
}

func endTask(id int, wg *sync.WaitGroup) {
	if r := recover(); r != nil {
		setPanic(id, r)
	}
	wg.Done()
	finish(id)
}

//go:norace
func setPanic(id int, r any) {
	tasks[id].pan = r
	tasks[id].stack = stackNow()
}

//go:norace
func newTask() int {
	if nTasks >= MaxTasks {
		panic("rt: too many tasks")
	}
	id := nTasks
	nTasks++
	t := &tasks[id]
	t.ch = make(chan struct{}, 1)
	t.state = sReady
	t.key = 0
	t.site = 0
	t.pan = nil
	t.stack = nil
	t.prio = 1000 + rnd()>>1
	return id
}

// Go replaces the go statement of the code under test.
func Go(f func()) {
	if !InTask() {
		go f()
		return
	}
	id := newTask()
	endWG.Add(1)
	startTask(id, f, endWG)
	Yield()
}

// Go1..Go4 evaluate their arguments at the go statement.
func Go1[A any](f func(A), a A)                       { Go(func() { f(a) }) }
func Go2[A, B any](f func(A, B), a A, b B)            { Go(func() { f(a, b) }) }
func Go3[A, B, C any](f func(A, B, C), a A, b B, c C) { Go(func() { f(a, b, c) }) }
func Go4[A, B, C, D any](f func(A, B, C, D), a A, b B, c C, d D) {
	Go(func() { f(a, b, c, d) })
}

// MaxUse is the greatest share of its budget a run has used.
var MaxUse float64

// Run executes the client functions under the schedule and returns what
// happened. It must not be called concurrently.
func Run(s Sched, fns []func()) *Outcome {
	var wg sync.WaitGroup
	setup(&s, len(fns), &wg)
	for i, f := range fns {
		wg.Add(1)
		startTask(i, f, &wg)
	}
	kick()
	out := collect()
	if u := float64(out.Steps) / float64(budget); u > MaxUse {
		MaxUse = u
	}
	if !out.Deadlock {
		// visible join: from here on the caller may read what clients wrote
		if abandoned() == 0 {
			wg.Wait()
		} else {
			joinDone()
		}
	}
	return out
}

//go:norace
func setup(s *Sched, n int, wg *sync.WaitGroup) {
	endWG = wg
	rng = s.Seed
	shimRng = s.Seed ^ 0x5bd1e995
	nTasks, nMain = 0, n
	for i := 0; i < n; i++ {
		newTask()
	}
	cur = 0
	step = 0
	next = ^uint64(0)
	budget = s.Budget
	if budget == 0 {
		budget = 1 << 40
	}
	over, dead = false, false
	hash = 0
	nsw, npre, nstall, stallB, stallM = 0, 0, 0, 0, 0
	nTrace = 0
	nWaiters = 0
	gap = uint64(s.Gap)
	if gap == 0 {
		gap = 1
	}
	mod = uint64(s.Mod)
	if mod == 0 {
		mod = 1
	}
	salt = rnd()
	replay, iRep = s.Trace, 0
	switch s.Kind {
	case "gap":
		kind = kGap
		next = drawGap()
	case "hot":
		kind = kHot
	case "pct":
		kind = kPct
		nPct = s.Depth
		if nPct > len(pctPoints) {
			nPct = len(pctPoints)
		}
		est := uint64(s.Est)
		if est == 0 {
			est = 1000
		}
		for i := 0; i < nPct; i++ {
			pctPoints[i] = 1 + rnd()%est
		}
		for i := 1; i < nPct; i++ {
			for j := i; j > 0 && pctPoints[j] < pctPoints[j-1]; j-- {
				pctPoints[j], pctPoints[j-1] = pctPoints[j-1], pctPoints[j]
			}
		}
		iPct = -1
		nextPct()
	case "replay":
		kind = kReplay
		setNextReplay()
	default:
		kind = kSeq
	}
}

//go:norace
func kick() {
	to := pickForced()
	on = true
	note(to)
	cur = to
	raceOff()
	tasks[to].ch <- struct{}{}
	<-ctlCh
	raceOn()
	on = false
}

//go:norace
func collect() *Outcome {
	o := &Outcome{Steps: step, Switches: nsw, Preempt: npre, Hash: hash, Deadlock: dead,
		OverBudget: over, StallBlocks: stallB, StallMask: stallM, Stalls: nstall, Tasks: nTasks}
	TotalSteps += step
	for i := 0; i < nTasks; i++ {
		o.Panics[i] = tasks[i].pan
		o.Stacks[i] = string(tasks[i].stack)
		o.Done[i] = tasks[i].state == sDone
		if tasks[i].state == sBlocked {
			o.BlockedAt = append(o.BlockedAt, tasks[i].site)
		}
	}
	o.Trace = trace[:nTrace:nTrace]
	return o
}

//go:norace
func abandoned() int {
	n := 0
	for i := 0; i < nTasks; i++ {
		if tasks[i].state != sDone {
			n++
		}
	}
	return n
}

// joinDone is used when a goroutine of the code under test never ended: the
// wait group cannot reach zero, so acquire what the finished ones released.
func joinDone() { raceAcquire(endWG) }

var resets []func()
var resetBy = map[string]func(){}

// OnReset registers the function that gives a package's variables their
// initial values; packages register in initialisation order.
func OnReset(pkg string, f func()) {
	resets = append(resets, f)
	resetBy[pkg] = f
}

// ResetAll gives the code under test the package state of a new process.
func ResetAll() {
	for _, f := range resets {
		f()
	}
}

// Reset does so for one package.
func Reset(pkg string) {
	if f := resetBy[pkg]; f != nil {
		f()
	}
}
