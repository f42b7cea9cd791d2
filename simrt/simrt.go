// Package simrt is the deterministic scheduler inside a simulated process. One
// task runs at a time; at every statement of the code under test Y decides,
// from the plan's seed or from a recorded list of decisions, whether another
// task runs next and whether a fault happens here.
//
// No function here is instrumented for the race detector, and control passes
// between tasks inside the runtime, so the simulator adds no happens-before
// edge: the race detector sees only the library's own synchronisation.
package simrt

import (
	"runtime"
	"runtime/debug"
	"time"
	"unsafe"
)

// Kinds of decision.
const (
	KSwitch   = 1 // run task Arg next
	KStall    = 2 // suspend the task for Arg simulated ns
	KGC       = 3 // force a garbage collection here
	KWallStep = 4 // step the wall clock by Arg ns
	KZone     = 5 // change the host's time zone to zone Arg
	KReseed   = 6 // change the seed behind map iteration and hashing to Arg
	KCrash    = 7 // the process dies here
	KFreeze   = 8 // suspend the task until no other task can run
	KForced   = 9 // the task cannot go on: run task Arg next
	NKinds    = 10
)

// Policies.
const (
	PSolo   = 0
	PRandom = 1
	PPCT    = 2
	PRound  = 3
	PHot    = 4
)

// Decision is one scheduling or fault decision, keyed by the task it hits and
// that task's own step count.
type Decision struct {
	Task  int32
	Kind  int32
	Local int64
	Arg   int64
}

// Config of one round.
type Config struct {
	Seed       uint64
	Policy     int
	Gap        int64  // mean steps between decisions (PRandom, PHot background), quantum (PRound)
	ChangePts  int    // PPCT
	EstSteps   int64  // PPCT: where change points fall
	HotMod     uint64 // PHot: a site is hot if hash(site, seed) % HotMod == 0
	HotList    []int32 // PHot: these sites are hot
	HotFreeze  int64   // PHot: one in so many visits of a hot site freezes the task; 0: none
	FaultGap   int64  // mean steps between faults of a task; 0: none
	Faults     []int  // enabled fault kinds (with repetition as weights)
	MaxStall   int64  // ns
	DepOnly    bool   // stalls and wall steps only inside dependency sites
	CrashAt    int64  // global step of a crash; 0: none
	Explicit   bool   // follow Decisions only
	Decisions  []Decision
	StepBound  int64 // global steps until the fair phase
	FairBound  int64 // own steps each task may take in the fair phase
	StepCost   int64 // simulated ns per step
	DrainSteps int64 // steps background goroutines may take after the last call
}

const (
	sNone = iota
	sReady
	sRunning
	sNative // blocked in the runtime, not by the simulator
	sStalled
	sFrozen
	sExit
	sDone
)

// Task is a simulated caller, or a goroutine the code under test started.
type Task struct {
	g        unsafe.Pointer
	goid     uint64
	state    int
	child    bool
	parked   bool
	local    int64
	next     int64
	nextF    int64
	pend     int // fault waiting for a dependency site
	until    int64
	prio     int64
	dpos     int
	fair     int64
	firstDep int64 // mono tick at the first dependency site of the current op, -1 before
	firstDW  int64 // wall there
	lastDep  int64
	ndep     int   // dependency sites passed in the current op
	wsteps   int64 // wall-clock steps so far at CallBegin, then those up to depWarm
	rng      uint64
	Mark     int64
}

// depWarm is how many dependency sites an operation passes before clock faults
// may hit it (DepOnly): by then it has read the clock.
const depWarm = 40

// KeepTasks parks finished tasks for good: the race detector forgets what a
// goroutine did when it ends.
var KeepTasks bool

const (
	maxTasks = 1024
	maxDec   = 1 << 17
	wallMin  = -2524521600_000000000 // 1890
	wallMax  = 5680281600_000000000  // 2150
	maxGCs   = 5                     // forced at random in one round
)

var (
	on        bool
	cfg       Config
	tasks     [maxTasks]Task
	ntasks    int
	cur       int
	curGoid   uint64
	steps     int64
	rng       uint64
	decs      [maxDec]Decision
	ndec      int
	DecLost   int
	depSite   []bool
	siteHit   []uint32
	gcs       int
	siteCut   []bool // sites at which the scheduler has preempted a task
	curSite   int
	hot       []bool
	useHot    bool
	fair      bool
	inGC      bool
	wG        unsafe.Pointer
	wParked   bool
	crashed   bool
	deadlock  string
	livelock  string
	overflow  bool
	Injected  [NKinds]int64
	hash      uint64
	base      uint64
	native    int64 // times a task was found blocked in the runtime
	timeJumps int64
	pctPts    [64]int64
	npct      int
	pctLow    int64
	Zones     []*time.Location
	alarm     int64 // global step at which decide must look
	drainEnd  int64
	leftRun   bool
	wGoid     uint64
)

//go:norace
func mix(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func rnd(n int64) int64 {
	if n <= 1 {
		return 0
	}
	return int64(mix(&rng) % uint64(n))
}

// gap draws a distance with the given mean: mostly geometric, sometimes short
// bursts.
//
//go:norace
func gap(mean int64) int64 {
	if mean <= 1 {
		return 1
	}
	u := rnd(1 << 20)
	// -ln(u) by a crude table-free approximation: count leading zeros plus fraction
	k := int64(0)
	for u < 1<<19 && k < 20 {
		u <<= 1
		k++
		if u == 0 {
			break
		}
	}
	frac := (1<<20 - u) * 693 / (1 << 19) // 0..693
	g := mean * (k*693 + frac) / 1000
	if g < 1 {
		g = 1
	}
	return g
}

// Sites tells the simulator which sites belong to dependencies.
//
//go:norace
func Sites(dep []bool) {
	depSite = dep
	siteHit = make([]uint32, len(dep))
	siteCut = make([]bool, len(dep))
	hot = make([]bool, len(dep))
}

// Y is the yield point in front of every statement of the code under test.
//
//go:norace
func Y(site int) {
	if !on {
		return
	}
	if runtime.SimGoid() != curGoid {
		foreign()
		return
	}
	t := &tasks[cur]
	t.local++
	steps++
	siteHit[site]++
	runtime.SimAdvance(cfg.StepCost)
	if depSite[site] {
		now := runtime.SimTick()
		t.ndep++
		if t.ndep == depWarm {
			t.firstDep = now
			t.firstDW = runtime.SimWall()
			t.wsteps = Injected[KWallStep] - t.wsteps
		}
		if t.pend != 0 && t.ndep > depWarm {
			k := t.pend
			t.pend = 0
			fault(t, k)
			now = runtime.SimTick()
		}
		t.lastDep = now
	}
	if runtime.SimRunnable() > 1 {
		drain()
	}
	if t.local >= t.next || t.local >= t.nextF || steps >= alarm || (useHot && hot[site]) || fair {
		decide(t, site)
	}
}

// YHarness is a yield point in harness code (no site).
//
//go:norace
func YHarness() {
	if !on {
		return
	}
	if runtime.SimGoid() != curGoid {
		foreign()
		return
	}
	t := &tasks[cur]
	t.local++
	steps++
	runtime.SimAdvance(cfg.StepCost)
	if runtime.SimRunnable() > 1 {
		drain()
	}
	if t.local >= t.next || t.local >= t.nextF || steps >= alarm || fair {
		decide(t, -1)
	}
}

// drain lets goroutines that the current task woke or started run up to their
// next yield point, where they come under the simulator's control.
//
//go:norace
func drain() {
	for i := 0; i < 4 && runtime.SimRunnable() > 1; i++ {
		runtime.Gosched()
	}
}

// foreign handles a yield by a goroutine that is not the current task: a task
// that the runtime has just unblocked, or a goroutine new to the simulator.
//
//go:norace
func foreign() {
	id := runtime.SimGoid()
	k := -1
	for i := ntasks - 1; i >= 0; i-- {
		if tasks[i].goid == id && tasks[i].state != sDone {
			k = i
			break
		}
	}
	if k < 0 {
		if ntasks >= maxTasks {
			// Reuse the slot of a finished child.
			for i := 0; i < ntasks; i++ {
				if tasks[i].child {
					if st, _ := runtime.SimStatus(tasks[i].g, tasks[i].goid); st == 0 {
						k = i
						break
					}
				}
			}
			if k < 0 {
				overflow = true
				runtime.SimSwitch(nil)
				return
			}
		} else {
			k = ntasks
			ntasks++
		}
		tasks[k] = Task{child: true, g: runtime.SimG(), goid: id, firstDep: -1, rng: cfg.Seed + uint64(k)*977}
		arm(&tasks[k])
	}
	t := &tasks[k]
	t.state = sReady
	t.parked = true
	runtime.SimSwitch(nil)
	t.parked = false
}

// arm sets the task's next decision points.
//
//go:norace
func arm(t *Task) {
	const never = 1 << 62
	if cfg.Explicit {
		t.nextF = never
		t.next = never
		id := taskID(t)
		for t.dpos < len(cfg.Decisions) {
			d := &cfg.Decisions[t.dpos]
			if int(d.Task) == id && d.Local > t.local && d.Kind != KForced {
				t.next = d.Local
				break
			}
			t.dpos++
		}
		return
	}
	switch cfg.Policy {
	case PSolo, PPCT:
		t.next = never
	case PRound:
		t.next = t.local + cfg.Gap
	default:
		t.next = t.local + gap(cfg.Gap)
	}
	if cfg.Policy == PPCT {
		t.next = t.local + 64 // poll for change points
	}
	if cfg.FaultGap > 0 && len(cfg.Faults) > 0 {
		if t.nextF <= t.local {
			t.nextF = t.local + gap(cfg.FaultGap)
		}
	} else {
		t.nextF = never
	}
}

//go:norace
func taskID(t *Task) int {
	return int((uintptr(unsafe.Pointer(t)) - uintptr(unsafe.Pointer(&tasks[0]))) / unsafe.Sizeof(tasks[0]))
}

//go:norace
func record(task int, kind int, local, arg int64) {
	if ndec < maxDec {
		decs[ndec] = Decision{Task: int32(task), Kind: int32(kind), Local: local, Arg: arg}
		ndec++
	} else {
		DecLost++
	}
}

//go:norace
func decide(t *Task, site int) {
	curSite = site
	if cfg.StepBound > 0 && steps > cfg.StepBound && !fair {
		fair = true
		for i := 0; i < ntasks; i++ {
			tasks[i].fair = tasks[i].local
			if tasks[i].state == sStalled || tasks[i].state == sFrozen {
				tasks[i].state = sReady
			}
		}
	}
	if fair {
		if t.local-t.fair > cfg.FairBound && livelock == "" {
			livelock = "a call goes on without end although every caller keeps running"
			crashed = true
			runtime.SimSwitch(nil)
			return
		}
		if drainEnd > 0 && steps > drainEnd {
			leftRun = true
			runtime.SimSwitch(nil)
			return
		}
		if t.local%256 == 0 {
			if n := pickNext(taskID(t), true); n >= 0 && n != taskID(t) {
				switchTo(t, n)
			}
		}
		return
	}
	if cfg.Explicit {
		id := taskID(t)
		sw := -1
		for i := t.dpos; i < len(cfg.Decisions); i++ {
			d := &cfg.Decisions[i]
			if int(d.Task) != id || d.Kind == KForced || d.Kind == 0 {
				continue
			}
			if d.Local != t.local {
				break
			}
			t.dpos = i + 1
			if d.Kind == KSwitch {
				sw = int(d.Arg)
				continue
			}
			record(id, int(d.Kind), t.local, d.Arg)
			apply(t, int(d.Kind), d.Arg)
		}
		arm(t)
		if sw >= 0 {
			wake()
		}
		if sw >= 0 && sw < ntasks && sw != id && tasks[sw].state == sReady && tasks[sw].parked {
			switchTo(t, sw)
		}
		return
	}
	if cfg.CrashAt > 0 && steps >= cfg.CrashAt {
		record(taskID(t), KCrash, t.local, 0)
		apply(t, KCrash, 0)
		return
	}
	if t.local >= t.nextF {
		k := cfg.Faults[rnd(int64(len(cfg.Faults)))]
		t.nextF = t.local + gap(cfg.FaultGap)
		if cfg.DepOnly && (k == KStall || k == KWallStep) && (site < 0 || !depSite[site] || t.ndep <= depWarm) {
			t.pend = k
		} else {
			fault(t, k)
			if cfg.DepOnly && site >= 0 && depSite[site] {
				t.lastDep = runtime.SimTick()
			}
		}
	}
	switch cfg.Policy {
	case PHot:
		if useHot && site >= 0 && hot[site] {
			if cfg.HotFreeze > 0 && rnd(cfg.HotFreeze) == 0 {
				fault(t, KFreeze)
			} else if rnd(2) == 0 {
				yieldTo(t)
			}
			return
		}
		if t.local >= t.next {
			arm(t)
			yieldTo(t)
		}
	case PRandom:
		if t.local >= t.next {
			arm(t)
			yieldTo(t)
		}
	case PRound:
		if t.local >= t.next {
			arm(t)
			if n := pickNext(taskID(t), true); n >= 0 && n != taskID(t) {
				switchTo(t, n)
			}
		}
	case PPCT:
		if t.local >= t.next {
			arm(t)
			for i := 0; i < npct; i++ {
				if pctPts[i] >= 0 && steps >= pctPts[i] {
					pctPts[i] = -1
					pctLow--
					t.prio = pctLow
				}
			}
			n := pick(taskID(t))
			if n >= 0 && tasks[n].prio > t.prio {
				switchTo(t, n)
			}
		}
	}
}

//go:norace
func yieldTo(t *Task) {
	if n := pick(taskID(t)); n >= 0 {
		switchTo(t, n)
	}
}

// pick chooses a ready task other than self, or -1.
//
//go:norace
func pick(self int) int {
	wake()
	if cfg.Policy == PPCT && !cfg.Explicit {
		best := -1
		for i := 0; i < ntasks; i++ {
			if i != self && tasks[i].state == sReady && tasks[i].parked && (best < 0 || tasks[i].prio > tasks[best].prio) {
				best = i
			}
		}
		return best
	}
	n := int64(0)
	for i := 0; i < ntasks; i++ {
		if i != self && tasks[i].state == sReady && tasks[i].parked {
			n++
		}
	}
	if n == 0 {
		return -1
	}
	k := rnd(n)
	for i := 0; i < ntasks; i++ {
		if i != self && tasks[i].state == sReady && tasks[i].parked {
			if k == 0 {
				return i
			}
			k--
		}
	}
	return -1
}

// pickNext is the next ready task after self in cyclic order.
//
//go:norace
func pickNext(self int, wrap bool) int {
	wake()
	for d := 1; d < ntasks; d++ {
		i := (self + d) % ntasks
		if tasks[i].state == sReady && tasks[i].parked {
			return i
		}
	}
	return -1
}

// wake makes tasks whose stall is over ready.
//
//go:norace
func wake() {
	now := runtime.SimTick()
	for i := 0; i < ntasks; i++ {
		if tasks[i].state == sStalled && now >= tasks[i].until {
			tasks[i].state = sReady
		}
	}
}

// switchTo passes control to task n; t stays ready.
//
//go:norace
func switchTo(t *Task, n int) {
	Injected[KSwitch]++
	if curSite >= 0 {
		siteCut[curSite] = true
	}
	if !fair {
		record(taskID(t), KSwitch, t.local, int64(n))
	}
	hash = (hash ^ uint64(taskID(t))<<40 ^ uint64(t.local)) * 0x100000001b3
	hash = (hash ^ uint64(n)) * 0x100000001b3
	t.state = sReady
	handover(t, n)
}

//go:norace
func handover(t *Task, n int) {
	t.parked = true
	u := &tasks[n]
	u.state = sRunning
	cur = n
	curGoid = u.goid
	runtime.SimSwitch(u.g)
	// Back: whoever resumed us has set cur.
	t.parked = false
}

// fault draws the argument of fault k and applies it.
//
//go:norace
func fault(t *Task, k int) {
	var arg int64
	switch k {
	case KGC:
		// Collections take milliseconds of real time each.
		if gcs++; gcs > maxGCs {
			return
		}
	case KStall:
		switch rnd(4) {
		case 0:
			arg = 1 + rnd(1000)
		case 1:
			arg = 1 + rnd(1000000)
		default:
			arg = 1 + rnd(cfg.MaxStall)
		}
		if runtime.SimWall()+arg > wallMax {
			arg = 1 + arg%1000000
		}
	case KWallStep:
		arg = []int64{1e3, 1e6, 1e9, 3600e9, 86400e9 * 400}[rnd(5)]
		arg = 1 + rnd(arg)
		if rnd(2) == 0 {
			arg = -arg
		}
		// Package time keeps monotonic readings only from 1885 to 2157.
		if w := runtime.SimWall(); w+arg > wallMax || w+arg < wallMin {
			arg = -arg
		}
	case KZone:
		arg = rnd(int64(len(Zones)))
	case KReseed:
		arg = int64(mix(&rng) >> 1)
	}
	record(taskID(t), k, t.local, arg)
	apply(t, k, arg)
}

//go:norace
func apply(t *Task, k int, arg int64) {
	Injected[k]++
	hash = (hash ^ uint64(k)<<56 ^ uint64(t.local)) * 0x100000001b3
	switch k {
	case KStall, KFreeze:
		// Many long stalls must not carry the clock to the end of its range,
		// where timers would not fire.
		if left := (1<<62 - runtime.SimTick()) / 64; arg > left {
			arg = max(left, 1)
		}
		t.until = runtime.SimTick() + arg
		t.state = sStalled
		if k == KFreeze {
			t.state = sFrozen
		}
		suspend(t)
	case KGC:
		forceGC()
	case KWallStep:
		runtime.SimWallStep(arg)
	case KZone:
		if len(Zones) > 0 {
			time.Local = Zones[int(arg)%len(Zones)]
		}
	case KReseed:
		runtime.SimSeed(uint64(arg))
	case KCrash:
		crashed = true
		t.state = sReady
		t.parked = true
		runtime.SimSwitch(nil)
	}
}

// suspend runs other tasks until t may run again.
//
//go:norace
func suspend(t *Task) {
	id := taskID(t)
	n := forced(id, t.local)
	if n == id {
		t.state = sRunning
		return
	}
	if n < 0 { // the watcher finds out what can run
		t.parked = true
		cur = -1
		curGoid = 0
		runtime.SimSwitch(nil)
		t.parked = false
		return
	}
	handover(t, n)
}

// forced picks a task when the current one cannot go on; the choice is
// recorded like any other. It advances the clock if everybody is stalled and
// returns -1 if nobody can ever run.
//
//go:norace
func forced(self int, local int64) int {
	spins := 0
	for {
		wake()
		if cfg.Explicit {
			for i := range cfg.Decisions {
				d := &cfg.Decisions[i]
				if int(d.Task) == self && d.Kind == KForced && d.Local == local {
					if d.Arg < 0 || int(d.Arg) >= ntasks {
						break
					}
					u := &tasks[d.Arg]
					if u.state == sReady && (u.parked || int(d.Arg) == self) {
						d.Kind = 0
						record(self, KForced, local, int64(d.Arg))
						hash = (hash ^ uint64(d.Arg)<<32 ^ uint64(local)) * 0x100000001b3
						return int(d.Arg)
					}
					break
				}
			}
		}
		var n int
		if cfg.Explicit || fair {
			n = pickNext(self, true)
		} else {
			n = pick(self)
		}
		if self >= 0 && tasks[self].state == sReady && (n < 0 || (!cfg.Explicit && !fair && rnd(2) == 0)) {
			n = self
		}
		if n >= 0 {
			if !fair {
				record(self, KForced, local, int64(n))
			}
			hash = (hash ^ uint64(n)<<32 ^ uint64(local)) * 0x100000001b3
			return n
		}
		// Nobody is ready: let natively blocked goroutines show themselves,
		// then jump the clock to the next stall's end or timer.
		w := 1
		if runtime.SimGoid() == wGoid {
			w = 0
		}
		if runtime.SimRunnable() > w && spins < 8 {
			spins++
			runtime.Gosched()
			continue
		}
		best := int64(-1)
		for i := 0; i < ntasks; i++ {
			if tasks[i].state == sStalled && (best < 0 || tasks[i].until < best) {
				best = tasks[i].until
			}
		}
		if _, tick := runtime.SimTimers(); tick >= 0 && (best < 0 || tick < best) {
			if now := runtime.SimTick(); tick > now {
				runtime.SimAdvance(tick - now)
				timeJumps++
			}
			return -1 // the timer fires in the scheduler
		}
		if best >= 0 {
			if now := runtime.SimTick(); best > now {
				runtime.SimAdvance(best - now)
				timeJumps++
			}
			continue
		}
		frozen := false
		for i := 0; i < ntasks; i++ {
			if tasks[i].state == sFrozen {
				tasks[i].state = sReady
				frozen = true
			}
		}
		if !frozen {
			return -1
		}
	}
}

//go:norace
func forceGC() {
	if inGC {
		return
	}
	inGC = true
	runtime.GC()
	inGC = false
	if wParked {
		wParked = false
		runtime.SimReady(wG)
	}
}

// Call marks the beginning of an operation of the current task.
//
//go:norace
func CallBegin() (tick, wall int64) {
	t := &tasks[cur]
	t.firstDep = -1
	t.lastDep = -1
	t.ndep = 0
	t.pend = 0
	t.wsteps = Injected[KWallStep]
	return runtime.SimTick(), runtime.SimWall()
}

// CallEnd returns the clock readings of the operation that has just ended.
//
//go:norace
func CallEnd() (tick, wsteps, firstDep, firstDepWall, lastDep, local int64) {
	t := &tasks[cur]
	t.pend = 0
	return runtime.SimTick(), t.wsteps, t.firstDep, t.firstDW, t.lastDep, t.local
}

// Local is the current task's step count.
//
//go:norace
func Local() int64 {
	if cur < 0 {
		return 0
	}
	return tasks[cur].local
}

// ForceGC collects garbage now, without letting another task run.
//
//go:norace
func ForceGC() {
	Injected[KGC]++
	forceGC()
}

// Hit lists the sites reached so far.
//
//go:norace
func Hit() []int {
	var l []int
	for i, n := range siteHit {
		if n > 0 {
			l = append(l, i)
		}
	}
	return l
}

// Cut lists the sites at which a task was preempted.
//
//go:norace
func Cut() []int {
	var l []int
	for i, b := range siteCut {
		if b {
			l = append(l, i)
		}
	}
	return l
}

// Seq is the current global step.
//
//go:norace
func Seq() int64 { return steps }

// Result of a round.
type Result struct {
	Steps     int64
	Crashed   bool
	Deadlock  string
	Livelock  string
	Overflow  bool
	Fair      bool
	Hash      uint64
	Decisions []Decision
	DecLost   int
	Native    int64
	TimeJumps int64
	SimNs     int64
	Children  int
	LeftOver  int
	LeftTimer int
	Locals    []int64
}

//go:norace
func taskMain(i int, fn func(int), done func()) {
	t := &tasks[i]
	t.g = runtime.SimG()
	t.goid = runtime.SimGoid()
	t.state = sReady
	t.parked = true
	runtime.SimSwitch(nil)
	t.parked = false
	fn(i)
	finish(i, done)
}

//go:norace
func finish(i int, done func()) {
	if !on {
		done()
		return
	}
	if runtime.SimGoid() != curGoid {
		foreign()
	}
	done()
	t := &tasks[i]
	t.state = sExit
	n := forced(i, t.local+1)
	t.state = sDone
	if n >= 0 {
		u := &tasks[n]
		u.state = sRunning
		cur = n
		curGoid = u.goid
		if KeepTasks {
			runtime.SimSwitch(u.g)
		}
		runtime.SimReady(u.g)
	} else {
		cur = -1
		curGoid = 0
		if KeepTasks {
			runtime.SimSwitch(nil)
		}
	}
}

// Run executes n tasks under the simulator and returns when all have finished,
// or on a crash, deadlock or livelock. The caller's goroutine becomes the
// watcher. done is called (in the task) when a task ends.
//
//go:norace
func Run(c Config, wall int64, n int, fn func(task int), done func()) Result {
	cfg = c
	rng = c.Seed
	hseed := mix(&rng) // before anything that depends on the policy
	ntasks = 0
	ndec, DecLost = 0, 0
	steps = 0
	fair, crashed, deadlock, livelock, overflow = false, false, "", "", false
	hash = 0xcbf29ce484222325
	native, timeJumps, gcs = 0, 0, 0
	useHot = c.Policy == PHot && !c.Explicit
	for i := range hot {
		s := c.Seed ^ uint64(i)*0x9e3779b97f4a7c15
		hot[i] = useHot && c.HotMod > 0 && mix(&s)%c.HotMod == 0
	}
	for _, i := range c.HotList {
		if useHot && int(i) < len(hot) {
			hot[i] = true
		}
	}
	npct = 0
	pctLow = 0
	if c.Policy == PPCT {
		for i := 0; i < c.ChangePts && i < len(pctPts); i++ {
			pctPts[i] = rnd(c.EstSteps)
			npct++
		}
	}
	wG = runtime.SimG()
	wGoid = runtime.SimGoid()
	alarm = 1 << 62
	drainEnd, leftRun = 0, false
	if c.StepBound > 0 {
		alarm = c.StepBound + 1
	}
	if c.CrashAt > 0 && c.CrashAt < alarm {
		alarm = c.CrashAt
	}
	old := runtime.GOMAXPROCS(1)
	gc := debug.SetGCPercent(-1) // collections happen where the plan says, or when a runaway call has filled 1.5 GB
	debug.SetMemoryLimit(1500 << 20)
	for i := 0; i < n; i++ {
		tasks[i] = Task{firstDep: -1}
		tasks[i].rng = c.Seed + uint64(i)
	}
	ntasks = n
	for i := 0; i < n; i++ {
		go taskMain(i, fn, done)
	}
	for i := 0; i < n; i++ {
		// Marked and really parked: a slow machine may preempt it in between.
		for {
			if tasks[i].parked {
				if st, _ := runtime.SimStatus(tasks[i].g, tasks[i].goid); st == 2 {
					break
				}
			}
			runtime.Gosched()
		}
	}
	for i := 0; i < n; i++ {
		tasks[i].prio = 1 + rnd(1<<30)
		arm(&tasks[i])
	}
	baseTimers, _ := runtime.SimTimers()
	start := runtime.SimTick()
	runtime.SimInit(hseed, wall)
	on = true
	first := forced(-1, 0)
	tasks[first].state = sRunning
	cur = first
	curGoid = tasks[first].goid
	runtime.SimReady(tasks[first].g)
	watch(n)
	res := Result{Steps: steps, Crashed: crashed && livelock == "", Deadlock: deadlock, Livelock: livelock, Overflow: overflow, Fair: fair,
		Hash: hash, DecLost: DecLost, Native: native, TimeJumps: timeJumps, SimNs: runtime.SimTick() - start}
	if !crashed && deadlock == "" {
		// Let background goroutines finish, without advancing the clock.
		drainChildren(n)
		for i := n; i < ntasks; i++ {
			if st, _ := runtime.SimStatus(tasks[i].g, tasks[i].goid); st != 0 {
				res.LeftOver++
			}
		}
		k, _ := runtime.SimTimers()
		res.LeftTimer = k - baseTimers
	}
	res.Children = ntasks - n
	on = false
	runtime.SimOff()
	for i := 0; i < n; i++ {
		res.Locals = append(res.Locals, tasks[i].local)
	}
	res.Decisions = append([]Decision(nil), decs[:ndec]...)
	if !crashed && deadlock == "" {
		runtime.GOMAXPROCS(old)
		debug.SetGCPercent(gc)
	}
	return res
}

//go:norace
func harnessDone(n int) bool {
	for i := 0; i < n; i++ {
		if tasks[i].state != sDone {
			return false
		}
	}
	return true
}

// watch is the watcher's loop: it runs only when the current task is blocked in
// the runtime or has yielded to it.
//
//go:norace
func watch(n int) {
	idle := 0
	for {
		if crashed {
			return
		}
		if inGC {
			wParked = true
			runtime.SimSwitch(nil)
			continue
		}
		if harnessDone(n) {
			return
		}
		if runtime.SimRunnable() > 0 {
			// The current task, or a goroutine just woken, is about to run.
			runtime.Gosched()
			continue
		}
		if cur >= 0 {
			t := &tasks[cur]
			st, _ := runtime.SimStatus(t.g, t.goid)
			switch st {
			case 1, 3, 4:
				runtime.Gosched()
				continue
			case 0:
				t.state = sDone
			case 2:
				if t.state == sRunning {
					t.state = sNative
					native++
				}
			}
		}
		self, local := -1, int64(steps)
		if cur >= 0 {
			self, local = cur, tasks[cur].local+1
		}
		f := forced(self, local)
		if f >= 0 {
			idle = 0
			u := &tasks[f]
			u.state = sRunning
			cur = f
			curGoid = u.goid
			runtime.SimReady(u.g)
			runtime.Gosched()
			continue
		}
		if k, tick := runtime.SimTimers(); k > 0 && tick >= 0 {
			cur = -1
			curGoid = 0
			runtime.Gosched()
			continue
		}
		if runtime.SimRunnable() > 0 {
			cur = -1
			curGoid = 0
			runtime.Gosched()
			continue
		}
		// Nothing can run. Give goroutines in system calls a moment.
		idle++
		if idle < 50 {
			sys := false
			for i := 0; i < ntasks; i++ {
				if st, _ := runtime.SimStatus(tasks[i].g, tasks[i].goid); st == 3 || st == 1 {
					sys = true
				}
			}
			if sys {
				idle--
			}
			runtime.Gosched()
			continue
		}
		deadlock = "all callers are blocked:"
		for i := 0; i < n; i++ {
			if tasks[i].state == sNative || tasks[i].state == sRunning {
				_, why := runtime.SimStatus(tasks[i].g, tasks[i].goid)
				deadlock += " [" + why + "]"
			}
		}
		return
	}
}

// drainChildren runs goroutines the calls left behind until they end or block,
// for a limited number of steps and without letting time pass.
//
//go:norace
func drainChildren(n int) {
	fair = true
	cfg.FairBound = 1 << 60
	drainEnd = steps + cfg.DrainSteps
	alarm = 0
	for !leftRun {
		if runtime.SimRunnable() > 0 {
			runtime.Gosched()
			continue
		}
		if cur >= n {
			t := &tasks[cur]
			switch st, _ := runtime.SimStatus(t.g, t.goid); st {
			case 0:
				t.state = sDone
			case 2:
				if t.state == sRunning {
					t.state = sNative
				}
			default:
				runtime.Gosched()
				continue
			}
		}
		k := -1
		for i := n; i < ntasks; i++ {
			t := &tasks[i]
			if (t.state == sReady || t.state == sStalled || t.state == sFrozen) && t.parked {
				k = i
				break
			}
		}
		if k < 0 {
			return
		}
		t := &tasks[k]
		t.state = sRunning
		cur = k
		curGoid = t.goid
		runtime.SimReady(t.g)
		runtime.Gosched()
	}
}
